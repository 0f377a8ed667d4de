"""Symbolic differentiation of specification terms with respect to one entry
of an input array (conditions are locally constant; the derivative is claimed
only where the term is smooth)."""
from __future__ import annotations

from fractions import Fraction

from . import ir
from .ir import I, R, TRUE, add, app, band, bind, cval, div, eq, exp, fun, ite, mk, mul, neg, power


def diff(t, name, index):
    memo: dict = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = step(x)
        return r

    def step(x):
        if name not in ir.symbols(x) or x.sort != "R":
            return R(0)
        a = x.args
        if x.op == "app":
            if x.data != name:
                return R(0)
            return ite(band(*[eq(p, q) for p, q in zip(a, index)]), R(1), R(0))
        if x.op == "add":
            return zadd(go(a[0]), go(a[1]))
        if x.op == "mul":
            return zadd(zmul(go(a[0]), a[1]), zmul(a[0], go(a[1])))
        if x.op == "div":
            u, v = a
            du, dv = go(u), go(v)
            r = R(0) if zero(du) else div(du, v)
            return r if zero(dv) else zadd(r, neg(mul(div(u, v), div(dv, v))))
        if x.op == "pow":
            e = cval(a[1])
            if e is None:
                raise NotImplementedError("variable exponent")
            return zmul(mul(R(e), power(a[0], R(e - 1))), go(a[0]))
        if x.op == "fun":
            d = go(a[0])
            if zero(d):
                return R(0)
            if x.data == "exp":
                return mul(x, d)
            if x.data == "sqrt":
                return div(d, mul(R(2), x))
            if x.data == "log":
                return div(d, a[0])
            raise NotImplementedError(x.data)
        if x.op == "ite":
            return ite(a[0], go(a[1]), go(a[2]))
        if x.op == "mark":
            return go(a[0])
        if x.op == "sum":
            d = go(a[2])
            if zero(d):
                return R(0)
            v = ir.fresh("d")
            return bind("sum", v, a[1], ir.subst(d, {a[0]: v}))
        raise NotImplementedError(x.op)

    return go(t)


def zero(t):
    return cval(t) == 0


def zadd(a, b):
    return b if zero(a) else (a if zero(b) else add(a, b))


def zmul(a, b):
    return R(0) if zero(a) or zero(b) else mul(a, b)
