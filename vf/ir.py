"""Hash-consed term language for the symbolic values of the verified code.

Sorts: 'R' (mathematical reals), 'I' (integers: indices, sizes, element
numbers), 'B' (booleans).  Binders (sum, max, min, exists, forall) range over
0..n-1 and use a canonical bound variable, so alpha-equivalent terms are the
same object.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

BINDERS = ("sum", "prod", "max", "min", "exists", "forall", "argmax", "argmin")


class T:
    __slots__ = ("op", "args", "data", "sort", "id", "h", "_fv", "_flags")

    def __repr__(self):
        return pp(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


_TABLE: dict = {}
_N = [0]


def mk(op, args=(), data=None, sort="R") -> T:
    key = (op, data, sort, tuple(a.id for a in args))
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.data, t.sort = op, tuple(args), data, sort
        _N[0] += 1
        t.id = _N[0]
        h = 0
        for a in args:
            if a.h > h:
                h = a.h
        if op in BINDERS:
            h += 1
        t.h = h
        t._fv = None
        t._flags = None
        _TABLE[key] = t
    return t


def snap(x: float, digits: int = 14):
    """Real number denoted by a floating-point literal (rounded decimal)."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    f = Fraction(f"{x:.{digits}g}")
    if f.denominator > 1:  # e.g. 16/3 computed in floating point
        g = Fraction(x).limit_denominator(30 if digits < 10 else 1000)
        if g and abs(g - Fraction(x)) <= abs(g) * (Fraction(1, 10 ** 6) if digits < 10 else Fraction(2, 10 ** 15)):
            return g
    return f


def R(x, digits: int = 14) -> T:
    if isinstance(x, T):
        return x
    return mk("const", (), snap(x, digits), "R")


def I(n) -> T:
    if isinstance(n, T):
        return n
    return mk("const", (), Fraction(int(n)), "I")


TRUE = mk("bool", (), True, "B")
FALSE = mk("bool", (), False, "B")


def B(x) -> T:
    return TRUE if x else FALSE


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.data if t.op == "const" and isinstance(t.data, Fraction) else None


_fresh = [0]


def fresh(prefix="i") -> T:
    _fresh[0] += 1
    return mk("var", (), f"{prefix}!{_fresh[0]}", "I")


def ivar(name) -> T:
    return mk("var", (), name, "I")


# -- symbols --------------------------------------------------------------


class Sym:
    """Declaration of an array symbol (input, table or contract result)."""

    __slots__ = ("name", "sort", "kind", "lo", "hi", "lo_strict", "grad",
                 "symm", "values", "tag", "array", "note")

    def __init__(self, name, sort="R", kind="input", lo=None, hi=None,
                 lo_strict=False, grad=False, symm=None, values=None, tag=None,
                 array=None, note=""):
        self.name, self.sort, self.kind = name, sort, kind
        self.lo, self.hi, self.lo_strict = lo, hi, lo_strict
        self.grad = grad
        self.symm = symm  # pair of argument positions that may be swapped
        self.values = values
        self.tag = tag
        self.array = array
        self.note = note


SYMS: dict[str, Sym] = {}
EPOCH = [0]
ON_REDECLARE: list = []  # memo tables that depend on declarations


def declare(name, **kw) -> Sym:
    s = Sym(name, **kw)
    o = SYMS.get(name)
    SYMS[name] = s
    if o is not None and any(getattr(o, k) != getattr(s, k) for k in ("sort", "lo", "hi", "lo_strict", "grad")):
        EPOCH[0] += 1
        for f in ON_REDECLARE:
            f()
    return s


def app(name, args=(), sort=None) -> T:
    s = SYMS[name]
    args = tuple(args)
    if s.array is not None and all(is_const(a) for a in args):
        v = s.array[tuple(int(a.data) for a in args)]
        if s.sort == "I":
            return I(int(v))
        if s.sort == "B":
            return B(bool(v))
        return R(float(v), s.note if isinstance(s.note, int) else 14)
    if s.symm is not None:
        i, j = s.symm
        if args[i].id > args[j].id:
            a = list(args)
            a[i], a[j] = a[j], a[i]
            args = tuple(a)
    return mk("app", args, name, s.sort)


# -- arithmetic -----------------------------------------------------------


def _sort2(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def add(a, b):
    ca, cb = cval(a), cval(b)
    so = _sort2(a, b)
    if ca is not None and cb is not None:
        return mk("const", (), ca + cb, so)
    if ca == 0 and so == b.sort:
        return b
    if cb == 0 and so == a.sort:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("add", (a, b), None, so)


def mul(a, b):
    ca, cb = cval(a), cval(b)
    so = _sort2(a, b)
    if ca is not None and cb is not None:
        return mk("const", (), ca * cb, so)
    if ca == 1 and so == b.sort:
        return b
    if cb == 1 and so == a.sort:
        return a
    if so == "I" and (ca == 0 or cb == 0):
        return I(0)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), None, so)


def neg(a):
    return mul(mk("const", (), Fraction(-1), a.sort if a.sort == "I" else "R"), a)


def sub(a, b):
    if a is b and a.sort == "I":
        return I(0)
    return add(a, neg(b))


def div(a, b):
    ca, cb = cval(a), cval(b)
    if cb is not None and cb != 0:
        if ca is not None:
            return mk("const", (), ca / cb, "R")
        if cb == 1 and a.sort == "R":
            return a
    if cb == 0 and ca is not None:
        return mk("const", (), "nan" if ca == 0 else ("inf" if ca > 0 else "-inf"), "R")
    return mk("div", (a, b))


def power(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 1 and a.sort == "R":
        return a
    if ca is not None and cb is not None and cb.denominator == 1 and (ca != 0 or cb >= 0) and abs(cb) < 64:
        return mk("const", (), ca ** int(cb), a.sort if a.sort == b.sort == "I" and cb >= 0 else "R")
    return mk("pow", (a, b), None, "I" if a.sort == b.sort == "I" else "R")


def fun(name, a):
    if name == "exp" and cval(a) == 0:
        return R(1)
    if name in ("abs",):
        c = cval(a)
        if c is not None:
            return mk("const", (), abs(c), a.sort)
        return mk("fun", (a,), name, a.sort)
    if name == "sqrt":
        c = cval(a)
        if c is not None and c >= 0:
            r = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator:
                return mk("const", (), Fraction(r[0], r[1]), "R")
    return mk("fun", (a,), name, "R")


def exp(a):
    return fun("exp", a)


def sqrt(a):
    return fun("sqrt", a)


def absv(a):
    return fun("abs", a)


def detach(a):
    if a.op in ("const", "bool") or a.sort != "R":
        return a
    return mk("mark", (a,), "detach")


def cast32(a):
    if a.op in ("bool",) or a.sort != "R":
        return a
    if a.op == "const":
        if isinstance(a.data, Fraction):
            return R(float(np.float32(float(a.data))), 14)
        return a
    return mk("mark", (a,), "cast32")


def mark(a, what):
    if a.op in ("const", "bool") or a.sort != "R":
        return a
    return mk("mark", (a,), what)


def idiv(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb not in (None, 0):
        return I(int(ca) // int(cb))
    return mk("idiv", (a, b), None, "I")


def imod(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb not in (None, 0):
        return I(int(ca) % int(cb))
    return mk("imod", (a, b), None, "I")


# -- booleans -------------------------------------------------------------


def bnot(a):
    if a.op == "bool":
        return B(not a.data)
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), None, "B")


def band(*xs):
    out = []
    for x in xs:
        if x.op == "and":
            out.extend(x.args)
        elif x is FALSE:
            return FALSE
        elif x is not TRUE:
            out.append(x)
    seen = {}
    for x in out:
        seen[x.id] = x
    out = [seen[k] for k in sorted(seen)]
    for x in out:
        if bnot(x).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", out, None, "B")


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return bor(band(c, a), band(bnot(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    so = "I" if a.sort == b.sort == "I" else "R"
    return mk("ite", (c, a, b), None, so)


def _infv(t):
    return t.data if t.op == "const" and not isinstance(t.data, Fraction) else None


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        a, b = tobool(a), tobool(b)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return B(ca == cb)
    if a is b and a.sort == "I":
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), None, "B")


def le(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return B(ca <= cb)
    if a is b and a.sort == "I":
        return TRUE
    return mk("le", (a, b), None, "B")


def lt(a, b):
    return bnot(le(b, a))


def tobool(a):
    if a.sort == "B":
        return a
    return bnot(eq(a, mk("const", (), Fraction(0), a.sort)))


def tonum(a, sort="R"):
    if a.sort == "B":
        one, zero = (I(1), I(0)) if sort == "I" else (R(1), R(0))
        return ite(a, one, zero)
    if sort == "R" and a.sort == "I":
        if a.op == "const":
            return mk("const", (), a.data, "R")
        return a
    return a


# -- binders --------------------------------------------------------------


def bind(kind, var, n, body):
    """kind over var in 0..n-1."""
    if not isinstance(n, T):
        n = I(n)
    c = cval(n)
    if c is not None and (c <= 3 or (kind in ("exists", "forall") and c <= 8)) and kind in ("sum", "prod", "exists", "forall", "max", "min"):
        items = [subst(body, {var: I(k)}) for k in range(int(c))]
        if kind == "sum":
            r = R(0) if body.sort != "I" else I(0)
            for x in items:
                r = add(r, x)
            return r
        if kind == "prod":
            r = R(1)
            for x in items:
                r = mul(r, x)
            return r
        if kind == "exists":
            return bor(*items)
        if kind == "forall":
            return band(*items)
        if items:
            r = items[0]
            for x in items[1:]:
                r = ite(le(r, x), x, r) if kind == "max" else ite(le(x, r), x, r)
            return r
    if kind == "exists" and var not in fv(body):
        return body
    if kind == "forall" and var not in fv(body):
        return body
    if kind in ("max", "min") and var not in fv(body):
        return body
    bv = mk("var", (), f"#{body.h + 1}", "I")
    body2 = subst(body, {var: bv})
    sort = {"exists": "B", "forall": "B", "argmax": "I", "argmin": "I"}.get(kind, body.sort)
    return mk(kind, (bv, n, body2), None, sort)


def open_binder(t, v=None):
    """Returns (fresh var, range, body)."""
    bv, n, body = t.args
    if v is None:
        v = fresh("k")
    return v, n, subst(body, {bv: v})


def SUM(n, f):
    v = fresh("s")
    return bind("sum", v, n, f(v))


# -- traversal ------------------------------------------------------------


def fv(t) -> frozenset:
    """Free index variables."""
    if t._fv is not None:
        return t._fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x._fv is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if a._fv is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == "var":
            r = frozenset((x,))
        elif x.op in BINDERS:
            r = (x.args[2]._fv - {x.args[0]}) | x.args[1]._fv
        else:
            r = frozenset()
            for a in x.args:
                if a._fv:
                    r = r | a._fv if r else a._fv
        x._fv = r
        stack.pop()
    return t._fv


def rebuild(t, args):
    """Same operator, new arguments (re-simplifying)."""
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "pow":
        return power(*args)
    if op == "fun":
        return fun(t.data, args[0])
    if op == "mark":
        return {"detach": detach, "cast32": cast32}.get(t.data, lambda a: mark(a, t.data))(args[0])
    if op == "app":
        return app(t.data, args)
    if op == "ite":
        return ite(*args)
    if op == "not":
        return bnot(args[0])
    if op == "and":
        return band(*args)
    if op == "eq":
        return eq(*args)
    if op == "le":
        return le(*args)
    if op == "idiv":
        return idiv(*args)
    if op == "imod":
        return imod(*args)
    if op in BINDERS:
        return mk(op, args, None, t.sort)
    raise NotImplementedError(op)


def subst(t, m: dict) -> T:
    """Substitute index variables (capture-free by construction)."""
    if not m:
        return t
    keys = frozenset(m)
    memo: dict = {}

    def go(x):
        if not (fv(x) & keys):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "var":
            r = m[x]
        elif x.op in BINDERS:
            # bound variables are '#k' and never substituted from outside
            bv = x.args[0]
            n2 = go(x.args[1])
            b2 = go(x.args[2])
            r = _rebind(x.op, bv, n2, b2, x.sort)
        else:
            r = rebuild(x, tuple(go(a) for a in x.args))
        memo[x.id] = r
        return r

    return go(t)


def _rebind(op, bv, n, body, sort):
    # keep canonical height
    want = f"#{body.h + 1}"
    if bv.data == want and (cval(n) is None or cval(n) > 3):
        return mk(op, (bv, n, body), None, sort)
    v = fresh("r")
    return bind(op, v, n, subst(body, {bv: v}))


def replace(t, fn):
    """Bottom-up rewriting; fn(term) -> term or None (inside binders too)."""
    memo: dict = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.args:
            if x.op in BINDERS:
                n2, b2 = go(x.args[1]), go(x.args[2])
                y = x if (n2 is x.args[1] and b2 is x.args[2]) else _rebind(x.op, x.args[0], n2, b2, x.sort)
            else:
                args = tuple(go(a) for a in x.args)
                y = x if all(a is b for a, b in zip(args, x.args)) else rebuild(x, args)
        else:
            y = x
        z = fn(y)
        r = y if z is None else z
        memo[x.id] = r
        return r

    return go(t)


def subterms(t, into_conditions=True):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if not into_conditions and x.op == "ite":
            stack.extend(x.args[1:])
        else:
            stack.extend(x.args)


def symbols(t):
    return {x.data for x in subterms(t) if x.op == "app"}


def strip_marks(t, marks=("detach", "cast32", "up", "down")):
    return replace(t, lambda x: x.args[0] if x.op == "mark" and x.data in marks else None)


def depends_on_grad(t) -> bool:
    f = t._flags
    if f is not None and f[0] == EPOCH[0]:
        f = f[1]
    else:
        if t.op == "app":
            f = bool(SYMS[t.data].grad)
        elif t.op == "mark" and t.data == "detach":
            f = False
        elif t.op == "ite":
            f = depends_on_grad(t.args[1]) or depends_on_grad(t.args[2])
        elif t.sort != "R":
            f = False
        else:
            f = any(depends_on_grad(a) for a in t.args)
        t._flags = (EPOCH[0], f)
    return f


# -- printing -------------------------------------------------------------


def pp(t, depth=12):
    if depth < 0:
        return "…"
    d = depth - 1
    if t.op == "const":
        if isinstance(t.data, str):
            return t.data
        if t.data.denominator == 1:
            return str(t.data)
        return f"{float(t.data):.10g}"
    if t.op == "bool":
        return str(t.data)
    if t.op == "var":
        return t.data
    if t.op == "app":
        return f"{t.data}[{','.join(pp(a, d) for a in t.args)}]" if t.args else t.data
    if t.op in ("add", "mul", "div", "pow", "idiv", "imod", "eq", "le"):
        s = {"add": " + ", "mul": "*", "div": "/", "pow": "^", "idiv": "//", "imod": "%", "eq": "==", "le": "<="}[t.op]
        return "(" + s.join(pp(a, d) for a in t.args) + ")"
    if t.op == "fun":
        return f"{t.data}({pp(t.args[0], d)})"
    if t.op == "mark":
        return f"{t.data}({pp(t.args[0], d)})"
    if t.op == "ite":
        return f"ite({', '.join(pp(a, d) for a in t.args)})"
    if t.op == "not":
        return f"!{pp(t.args[0], d)}"
    if t.op == "and":
        return "(" + " & ".join(pp(a, d) for a in t.args) + ")"
    if t.op in BINDERS:
        return f"{t.op}({pp(t.args[0], d)}<{pp(t.args[1], d)}: {pp(t.args[2], d)})"
    return t.op


# -- NaN / infinity conditions (for isnan, isinf, isfinite) ---------------

_nan_memo: dict = {}


def nan_cond(t) -> T:
    """Condition under which the operation tree yields NaN (0/0 and friends)."""
    r = _nan_memo.get(t.id)
    if r is not None:
        return r
    if t.op == "const":
        r = B(t.data == "nan")
    elif t.op == "ite":
        c, a, b = t.args
        r = bor(band(c, nan_cond(a)), band(bnot(c), nan_cond(b)))
    elif t.op == "div":
        a, b = t.args
        z = R(0)
        r = bor(nan_cond(a), nan_cond(b), band(eq(a, z), eq(b, z)))
    elif t.op in ("sum", "max", "min"):
        bv, n, body = t.args
        c = nan_cond(body)
        if c is FALSE:
            r = FALSE
        else:
            v = fresh("n")
            r = bind("exists", v, n, subst(c, {bv: v}))
    elif t.sort != "R":
        r = FALSE
    else:
        r = bor(*[nan_cond(a) for a in t.args]) if t.args else FALSE
        if t.op == "fun" and t.data in ("sqrt", "log"):
            r = bor(r, lt(t.args[0], R(0)))
    _nan_memo[t.id] = r
    return r


def inf_cond(t) -> T:
    """Condition for an infinite value by division by zero."""
    if t.op == "const":
        return B(t.data in ("inf", "-inf"))
    if t.op == "ite":
        c, a, b = t.args
        return bor(band(c, inf_cond(a)), band(bnot(c), inf_cond(b)))
    if t.op == "div":
        a, b = t.args
        return bor(inf_cond(a), band(bnot(eq(a, R(0))), eq(b, R(0))))
    if t.sort != "R" or not t.args or t.op in BINDERS:
        return FALSE
    return bor(*[inf_cond(a) for a in t.args])


# -- numeric evaluation ---------------------------------------------------


class NumEnv:
    """arrays: symbol name -> numpy array (or callable on index arrays)."""

    def __init__(self, arrays, sizes):
        self.arrays = arrays
        self.sizes = sizes  # var name -> int for size variables


def evaluate(t, env: NumEnv, axes: dict):
    """Evaluate with numpy; axes maps index variables to int arrays."""
    memo: dict = {}
    bound: dict = dict(axes)
    from math import erf as _erf
    verf = np.vectorize(_erf, otypes=[float])

    def go(x, vals, nd):
        free = fv(x)
        key = (x.id, tuple((v.id, id(vals[v])) for v in sorted(free, key=lambda q: q.id) if v in vals))
        r = memo.get(key)
        r = ev(x, vals, nd) if r is None else r[0]
        while np.ndim(r) > nd and np.shape(r)[0] == 1:  # axes of enclosing binders
            r = r[0]
        memo[key] = (r, vals)
        return r

    def ev(x, vals, nd):
        op = x.op
        if op == "const":
            if isinstance(x.data, str):
                return np.float64(x.data)
            return np.int64(int(x.data)) if x.sort == "I" else np.float64(float(x.data))
        if op == "bool":
            return np.bool_(x.data)
        if op == "var":
            if x in vals:
                return vals[x]
            return np.int64(env.sizes[x.data])
        if op == "app":
            a = env.arrays[x.data] if x.data in env.arrays else SYMS[x.data].array
            if a is None:
                raise KeyError(x.data)
            idx = tuple(go(y, vals, nd) for y in x.args)
            if callable(a):
                return a(*idx)
            a = np.asarray(a)
            return a[idx] if idx else a[()]
        if op == "ite":
            c, a, b = (go(y, vals, nd) for y in x.args)
            return np.where(c, a, b)
        if op == "not":
            return np.logical_not(go(x.args[0], vals, nd))
        if op == "and":
            r = np.bool_(True)
            for y in x.args:
                r = np.logical_and(r, go(y, vals, nd))
            return r
        if op in BINDERS:
            bv, n, body = x.args
            nn = int(go(n, vals, nd))
            v2 = dict(vals)
            v2[bv] = np.arange(nn).reshape((nn,) + (1,) * nd)
            r = go(body, v2, nd + 1)
            r = np.asarray(r)
            if r.ndim < nd + 1:
                r = np.broadcast_to(r, (nn,) + (1,) * (nd - r.ndim) + r.shape) if r.ndim <= nd else r
            elif r.shape[0] != nn:
                r = np.broadcast_to(r, (nn,) + r.shape[1:])
            if op == "sum":
                return r.sum(axis=0)
            if op == "prod":
                return r.prod(axis=0)
            if op == "max":
                return r.max(axis=0)
            if op == "min":
                return r.min(axis=0)
            if op == "exists":
                return r.any(axis=0)
            if op == "forall":
                return r.all(axis=0)
            if op == "argmax":
                return r.argmax(axis=0)
            return r.argmin(axis=0)
        a = [go(y, vals, nd) for y in x.args]
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return np.true_divide(a[0], a[1])
        if op == "pow":
            return np.power(np.asarray(a[0], dtype=float), a[1])
        if op == "mark":
            return a[0]
        if op == "eq":
            return np.equal(a[0], a[1])
        if op == "le":
            return np.less_equal(a[0], a[1])
        if op == "idiv":
            return a[0] // a[1]
        if op == "imod":
            return a[0] % a[1]
        if op == "fun":
            f = x.data
            if f == "erf":
                return verf(a[0])
            return getattr(np, f)(a[0])
        raise NotImplementedError(op)

    with np.errstate(all="ignore"):
        nd = max([np.asarray(v).ndim for v in axes.values()], default=0)
        return go(t, bound, nd)
