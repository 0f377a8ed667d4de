"""Obligation prover: case splitting, sum extraction, exact polynomial /
power normal form, SMT (z3, optionally cross-checked with cvc5).

`Prover.equal(a, b, facts)` proves that two terms denote the same value for
all assignments satisfying the facts.  A failed proof returns the leaf (path
of assumed conditions and the two residual terms).
"""
from __future__ import annotations

import itertools
import math
import os
import subprocess
import sys
import time

import numpy as np
from fractions import Fraction

sys.setrecursionlimit(20000)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from . import ir  # noqa: E402
from .ir import (BINDERS, FALSE, SYMS, T, TRUE, B, I, R, add, app, band, bnot,
                 bor, cval, eq, fv, ite, le, lt, mk, mul, neg, open_binder, pp,
                 replace, sub, subst, subterms)

EPS_DROP = [Fraction(5, 10 ** 16)]  # additive constants treated as rounding
UNDERFLOW = [True]  # exp(x) may be zero (>= 0), not only > 0

RDIG = [11]

# ------------------------------------------------------------------ Poly --


def _rnd(c: Fraction):
    if c.denominator == 1 and abs(c.numerator) < 10 ** 12:
        return c.numerator
    return f"{float(c):.{RDIG[0]}e}"


class Poly:
    __slots__ = ("d", "_key", "_hash")

    def __init__(self, d):
        self.d = d
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = frozenset((m, _rnd(c)) for m, c in self.d.items())
            self._hash = hash(self._key)
        return self._key

    def __hash__(self):
        self.key
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __repr__(self):
        return " + ".join(f"{float(c):.6g}*{mono_str(m)}" for m, c in self.d.items()) or "0"


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})
ATOMS: list = []
_ATOM_IX: dict = {}


def atom(kind, obj) -> int:
    k = (kind, obj.id if isinstance(obj, T) else obj)
    r = _ATOM_IX.get(k)
    if r is None:
        r = len(ATOMS)
        ATOMS.append((kind, obj))
        _ATOM_IX[k] = r
    return r


E_ATOM = atom("E", "e")


def mono_str(m):
    out = []
    for a, e in m:
        k, o = ATOMS[a]
        s = "e" if k == "E" else (f"({o!r})" if k == "P" else (pp(o, 4) if k == "t" else str(o)))
        out.append(s if e == 1 else f"{s}^({e!r})")
    return "*".join(out) or "1"


def pconst(c) -> Poly:
    return Poly({(): Fraction(c)}) if c != 0 else ZERO


def padd(p, q, s=1):
    if not q.d:
        return p
    d = dict(p.d)
    for m, c in q.d.items():
        v = d.get(m, 0) + s * c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return Poly(d)


def _eadd(e, f):
    if isinstance(e, Fraction) and isinstance(f, Fraction):
        return e + f
    pe = e if isinstance(e, Poly) else pconst(e)
    pf = f if isinstance(f, Poly) else pconst(f)
    r = padd(pe, pf)
    r = clean(r)
    c = r.const()
    return r if c is None else c


def _emul(e, f):
    if isinstance(e, Fraction) and isinstance(f, Fraction):
        return e * f
    pe = e if isinstance(e, Poly) else pconst(e)
    pf = f if isinstance(f, Poly) else pconst(f)
    r = pmul(pe, pf)
    c = r.const()
    return r if c is None else c


def clean(p):
    """Remove numerically cancelled coefficients (rounding of literals)."""
    if not p.d:
        return p
    mx = max(abs(c) for c in p.d.values())
    tiny = mx * Fraction(1, 10 ** 13)
    if any(abs(c) < tiny and m != () for m, c in p.d.items()):
        # only drop if absurdly small relative to others
        d = {m: c for m, c in p.d.items() if abs(c) >= tiny * Fraction(1, 10 ** 6) or m == ()}
        return Poly(d)
    return p


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            s = _eadd(d[a], e)
            if s == 0:
                del d[a]
            else:
                d[a] = s
        else:
            d[a] = e
    return tuple(sorted(d.items(), key=lambda x: x[0]))


class TooBig(Exception):
    pass


def pmul(p, q):
    if len(p.d) * len(q.d) > 200000:
        raise TooBig()
    d: dict = {}
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m = mmul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    r = Poly(d)
    # expand P^1 that arose from exponent addition
    return expand_units(r)


def expand_units(p):
    for m in p.d:
        for a, e in m:
            if ATOMS[a][0] == "P" and isinstance(e, Fraction) and e == 1:
                out = ZERO
                for m2, c2 in p.d.items():
                    t = Poly({(): c2})
                    rest = []
                    for a3, e3 in m2:
                        if ATOMS[a3][0] == "P" and isinstance(e3, Fraction) and e3 == 1:
                            t = _rawmul(t, ATOMS[a3][1])
                        else:
                            rest.append((a3, e3))
                    t = Poly({mmul(tuple(rest), mm): cc for mm, cc in t.d.items()}) if rest else t
                    out = padd(out, t)
                return out
    return p


def _rawmul(p, q):
    d: dict = {}
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m = mmul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    return Poly(d)


# --- signs: 2 >0, 1 >=0, -1 <=0, -2 <0, 0 unknown ---


def atom_sign(a) -> int:
    k, o = ATOMS[a]
    if k == "E":
        return 1 if UNDERFLOW[0] else 2
    if k == "c":
        return 2
    if k == "P":
        return poly_sign(o)
    if k == "abs":
        return 1
    if not isinstance(o, T):
        return 0
    return term_sign(o)


_sign_memo: dict = {}
_IDEAL: dict = {}


def term_sign(t) -> int:
    r = _sign_memo.get(t.id)
    if r is None:
        r = _term_sign(t)
        _sign_memo[t.id] = r
    return r


def _comb(s1, s2):
    if s1 == 0 or s2 == 0:
        return 0
    if (s1 > 0) != (s2 > 0):
        return 0
    return min(s1, s2) if s1 > 0 else max(s1, s2)


def _term_sign(t):
    op = t.op
    if op == "const":
        if isinstance(t.data, str):
            return 0
        return 2 if t.data > 0 else (1 if t.data == 0 else -2)
    if op == "app":
        s = SYMS[t.data]
        if s.lo is not None and s.lo >= 0:
            return 2 if (s.lo > 0 or s.lo_strict) else 1
        if s.hi is not None and s.hi < 0:
            return -2
        return 0
    if op == "add":
        a, b = term_sign(t.args[0]), term_sign(t.args[1])
        if a > 0 and b > 0:
            return max(a, b)
        if a < 0 and b < 0:
            return min(a, b)
        return 0
    if op in ("mul", "div"):
        if op == "mul" and t.args[0] is t.args[1]:
            return 1
        a, b = term_sign(t.args[0]), term_sign(t.args[1])
        if a == 0 or b == 0:
            return 0
        s = 1 if (a > 0) == (b > 0) else -1
        strict = abs(a) == 2 and abs(b) == 2
        return s * (2 if strict else 1)
    if op == "pow":
        a = term_sign(t.args[0])
        e = cval(t.args[1])
        if a == 2:
            return 2
        if a == 1:
            return 1
        if e is not None and e.denominator == 1 and e.numerator % 2 == 0:
            return 2 if a == -2 else 1
        return 0
    if op == "fun":
        if t.data == "exp":
            return 1 if UNDERFLOW[0] else 2
        if t.data == "sqrt":
            return 2 if term_sign(t.args[0]) == 2 else 1
        if t.data == "abs":
            return 2 if abs(term_sign(t.args[0])) == 2 else 1
        return 0
    if op == "mark":
        return term_sign(t.args[0])
    if op == "ite":
        return _comb(term_sign(t.args[1]), term_sign(t.args[2]))
    if op in ("sum", "prod"):
        s = term_sign(t.args[2])
        if s > 0:
            return 1
        if s < 0 and op == "sum":
            return -1
        return 0
    if op in ("max", "min"):
        return term_sign(t.args[2])
    return 0


def mono_sign(m):
    s = 2
    for a, e in m:
        x = atom_sign(a)
        if x == 0 or x < 0:
            if isinstance(e, Fraction) and e.denominator == 1:
                if e.numerator % 2 == 0:
                    s = min(s, 2 if x == -2 else 1) if s > 0 else max(s, -2 if x == -2 else -1)
                    continue
                if x < 0:
                    k = 2 if (abs(s) == 2 and x == -2) else 1
                    s = -k if s > 0 else k
                    continue
            return 0
        if x == 1:
            s = 1 if s > 0 else -1
    return s


def poly_sign(p):
    if not p.d:
        return 1
    best = 0
    strict = False
    for m, c in p.d.items():
        s = mono_sign(m)
        if s == 0:
            return 0
        if c < 0:
            s = -s
        if best == 0:
            best = 1 if s > 0 else -1
        elif (s > 0) != (best > 0):
            return 0
        if abs(s) == 2:
            strict = True
    return best * (2 if strict else 1)


# --- normal form of terms ---

_canon_memo: dict = {}


def precision(dt):
    """Literal tolerance: coefficients are compared at the working precision."""
    want = 5 if dt == "f32" else 11
    if RDIG[0] != want:
        RDIG[0] = want
        TOL[0] = Fraction(3, 10 ** 5) if dt == "f32" else Fraction(1, 10 ** 11)
        EPS_DROP[0] = Fraction(2, 10 ** 7) if dt == "f32" else Fraction(5, 10 ** 16)
        reset_memo()
        _ATOM_IX.clear()


def reset_memo():
    _canon_memo.clear()
    _sign_memo.clear()
    _IDEAL.clear()


ir.ON_REDECLARE.append(reset_memo)


def canon(t) -> Poly:
    r = _canon_memo.get(t.id)
    if r is None:
        r = _canon(t)
        _canon_memo[t.id] = r
    return r


def opaque(t) -> Poly:
    return Poly({((atom("t", t), Fraction(1)),): Fraction(1)})


def flat_add(t, out):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op == "add":
            stack.extend(x.args)
        else:
            out.append(x)


def _canon(t):
    op = t.op
    if op == "const":
        if isinstance(t.data, str):
            return opaque(t)
        return pconst(t.data)
    if op == "add":
        parts: list = []
        flat_add(t, parts)
        p = ZERO
        consts = Fraction(0)
        for x in parts:
            c = cval(x)
            if c is not None:
                consts += c
            else:
                p = padd(p, canon(x))
        if consts != 0 and not (p.d and p.const() is None and abs(consts) <= EPS_DROP[0]):
            p = padd(p, pconst(consts))
        return p
    if op == "mul":
        return pmul(canon(t.args[0]), canon(t.args[1]))
    if op == "div":
        return pmul(canon(t.args[0]), ppow(canon(t.args[1]), Fraction(-1), t))
    if op == "pow":
        e = canon(t.args[1])
        c = e.const()
        return ppow(canon(t.args[0]), e if c is None else c, t)
    if op == "fun":
        a = canon(t.args[0])
        if t.data == "exp":
            c = a.const()
            if c == 0:
                return ONE
            c0 = a.d.get((), Fraction(0))
            coef = Fraction(1)
            if c0 != 0 and abs(c0) <= 200:  # numeric factor
                coef = Fraction(math.exp(float(c0)))
                a = padd(a, pconst(c0), -1)
                if not a.d:
                    return pconst(coef)
            c = a.const()
            return Poly({((E_ATOM, a if c is None else c),): coef})
        if t.data == "sqrt":
            return ppow(a, Fraction(1, 2), t)
        if t.data == "abs":
            s = poly_sign(a)
            if s > 0:
                return a
            if s < 0:
                return padd(ZERO, a, -1)
            if len(a.d) == 1:
                (m, c), = a.d.items()
                good, bad = [], []
                for at, e in m:
                    (good if atom_sign(at) > 0 or (isinstance(e, Fraction) and e.denominator == 1 and e.numerator % 2 == 0) else bad).append((at, e))
                inner = Poly({tuple(bad): Fraction(1)})
                return pmul(Poly({tuple(good): abs(c)}), Poly({((atom("abs", inner), Fraction(1)),): Fraction(1)}))
            return Poly({((atom("abs", a), Fraction(1)),): Fraction(1)})
        if t.data == "log":
            c = a.const()
        return Poly({((atom("f_" + t.data, a), Fraction(1)),): Fraction(1)})
    if op == "mark":
        if t.data == "detach" and not ir.depends_on_grad(t.args[0]):
            return canon(t.args[0])
        return opaque(t)
    return opaque(t)


def ppow(p: Poly, e, t=None) -> Poly:
    if isinstance(e, Fraction):
        if e == 0:
            return ONE
        if e == 1:
            return p
    c = p.const()
    if c is not None:
        if isinstance(e, Fraction):
            if e.denominator == 1 and (c != 0 or e > 0):
                return pconst(c ** int(e))
            if c > 0:
                return pconst(ir.snap(float(c) ** float(e), 14))
            if c == 0 and e > 0:
                return ZERO
        if c == 1:
            return ONE
        if c > 0:
            return Poly({((atom("c", c), e),): Fraction(1)})
        return Poly({((atom("P", p), e),): Fraction(1)})
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if isinstance(e, Fraction) and e.denominator == 1:
            return expand_units(Poly({tuple((a, _emul(x, e)) for a, x in m): c ** int(e)}))
        # fractional or symbolic exponent: needs non-negative factors
        if c > 0 and all(atom_sign(a) > 0 for a, _ in m):
            q = ppow(pconst(c), e)
            return pmul(q, Poly({tuple(sorted(((a, _emul(x, e)) for a, x in m), key=lambda z: z[0])): Fraction(1)}))
        if c > 0 and isinstance(e, Fraction):
            # even integer powers: (x^2)^(1/2) = |x|
            good, bad = [], []
            for a, x in m:
                if atom_sign(a) > 0:
                    good.append((a, _emul(x, e)))
                elif isinstance(x, Fraction) and x.denominator == 1 and x.numerator % 2 == 0:
                    inner = Poly({((a, Fraction(1)),): Fraction(1)})
                    good.append((atom("abs", inner), x * e))
                else:
                    bad.append((a, x))
            if not bad:
                q = ppow(pconst(c), e)
                return pmul(q, Poly({tuple(sorted(good, key=lambda z: z[0])): Fraction(1)}))
        return Poly({((atom("P", p), e),): Fraction(1)})
    # several terms: factor content
    mono, coef, prim = content(p, e)
    if isinstance(e, Fraction) and e.denominator == 1 and 1 < e <= 4 and len(prim.d) ** int(e) <= 40:
        r = ONE
        for _ in range(int(e)):
            r = pmul(r, prim)
    else:
        r = Poly({((atom("P", prim), e),): Fraction(1)})
    if coef != 1:
        r = pmul(ppow(pconst(coef), e), r)
    if mono:
        r = pmul(ppow(Poly({mono: Fraction(1)}), e), r)
    return r


def content(p, e):
    """Extract common monomial and leading coefficient."""
    integer = isinstance(e, Fraction) and e.denominator == 1
    common = None
    for m in p.d:
        dm = {a: x for a, x in m if isinstance(x, Fraction)}
        if common is None:
            common = dm
        else:
            common = {a: min(x, dm[a]) if (x > 0) == (dm[a] > 0) else Fraction(0)
                      for a, x in common.items() if a in dm}
    common = {a: x for a, x in (common or {}).items() if x != 0 and (integer or atom_sign(a) > 0)}
    q = p
    mono = ()
    if common:
        mono = tuple(sorted(common.items(), key=lambda z: z[0]))
        inv = tuple((a, -x) for a, x in mono)
        q = Poly({mmul(m, inv): c for m, c in p.d.items()})
    lead_m = min(q.d, key=lambda m: (len(m), repr([(a, str(x)) for a, x in m])))
    c = q.d[lead_m]
    if not integer and c < 0:
        c = -c
    if c != 1:
        q = Poly({m: x / c for m, x in q.d.items()})
    return mono, c, q


def pzero(p: Poly) -> bool:
    if not p.d:
        return True
    return False


def same(p: Poly, q: Poly) -> bool:
    """Equal up to rounding of literal coefficients."""
    if p == q:
        return True
    ks = set(p.d) | set(q.d)
    for m in ks:
        a, b = p.d.get(m, Fraction(0)), q.d.get(m, Fraction(0))
        if a != b and abs(a - b) > TOL[0] * max(abs(a), abs(b)):
            return False
    return True


TOL = [Fraction(1, 10 ** 11)]


def clear_denominators(p: Poly, limit=4):
    """Multiply by multi-term denominators and expand."""
    for _ in range(limit):
        dens = {}
        for m in p.d:
            for a, e in m:
                if ATOMS[a][0] == "P" and isinstance(e, Fraction) and e < 0:
                    dens[a] = min(dens.get(a, 0), e)
        # expand positive integer parts as well
        if not dens:
            break
        a, e = next(iter(dens.items()))
        k = -e
        base = ATOMS[a][1]
        out = ZERO
        for m, c in p.d.items():
            dm = dict(m)
            x = dm.pop(a, Fraction(0))
            if isinstance(x, Poly):
                return p
            tot = x + k
            rest = Poly({tuple(sorted(dm.items(), key=lambda z: z[0])): c})
            if tot.denominator == 1:
                for _ in range(int(tot)):
                    rest = pmul(rest, base)
            elif tot != 0:
                rest = pmul(rest, Poly({((a, tot),): Fraction(1)}))
            out = padd(out, rest)
        p = out
    # expand remaining positive integer powers of multi-term atoms
    for _ in range(limit):
        hit = None
        for m in p.d:
            for a, e in m:
                if ATOMS[a][0] == "P" and isinstance(e, Fraction) and e > 1:
                    hit = (a, e)
        if hit is None:
            break
        a, e = hit
        base = ATOMS[a][1]
        out = ZERO
        for m, c in p.d.items():
            dm = dict(m)
            x = dm.pop(a, None)
            rest = Poly({tuple(sorted(dm.items(), key=lambda z: z[0])): c})
            if x is None:
                out = padd(out, rest)
                continue
            if isinstance(x, Poly):
                return p
            k = int(x) if x.denominator == 1 else int(x)
            if x < 0:
                return p
            if x - k:
                rest = pmul(rest, Poly({((a, x - k),): Fraction(1)}))
            for _ in range(k):
                rest = pmul(rest, base)
            out = padd(out, rest)
        p = out
    return p


# -------------------------------------------------------------------- z3 --


class Z3Tr:
    def __init__(self):
        self.fun: dict = {}
        self.av: dict = {}
        self.facts: list = []
        self._seen = set()

    def f(self, name, n, sort):
        k = (name, n)
        if k not in self.fun:
            so = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[sort]
            nm = f"s_{name}"
            if n == 0:
                self.fun[k] = z3.Const(nm, so)
            else:
                self.fun[k] = z3.Function(nm, *([z3.IntSort()] * n), so)
        return self.fun[k]

    def int(self, t):
        op = t.op
        if op == "const":
            return z3.IntVal(int(t.data))
        if op == "var":
            return z3.Int(t.data)
        if op == "app":
            return self.app(t)
        if op == "add":
            return self.int(t.args[0]) + self.int(t.args[1])
        if op == "mul":
            return self.int(t.args[0]) * self.int(t.args[1])
        if op == "ite":
            return z3.If(self.bool(t.args[0]), self.int(t.args[1]), self.int(t.args[2]))
        if op == "fun" and t.data == "abs":
            x = self.int(t.args[0])
            return z3.If(x >= 0, x, -x)
        if op == "idiv":
            return self.int(t.args[0]) / self.int(t.args[1])
        if op == "imod":
            return self.int(t.args[0]) % self.int(t.args[1])
        return z3.Int(f"o{t.id}")

    def app(self, t):
        s = SYMS[t.data]
        f = self.f(t.data, len(t.args), s.sort)
        e = f(*[self.int(a) for a in t.args]) if t.args else f
        if t.id not in self._seen:
            self._seen.add(t.id)
            if s.sort != "B":
                if s.lo is not None:
                    self.facts.append(e > z3q(s.lo) if s.lo_strict else e >= z3q(s.lo))
                if s.hi is not None:
                    self.facts.append(e <= z3q(s.hi))
                if s.values is not None and len(s.values) <= 8:
                    self.facts.append(z3.Or(*[e == z3q(v) for v in s.values]))
                if s.sort == "I" and s.array is not None and t.args and s.array.size:
                    row = np.unique(s.array[0])  # the padding row of a table
                    if len(row) == 1:
                        self.facts.append(z3.Implies(self.int(t.args[0]) == 0, e == int(row[0])))
        return e

    def atomval(self, a):
        if a in self.av:
            return self.av[a]
        k, o = ATOMS[a]
        if k == "t":
            if o.op == "app":
                v = self.app(o)
                if o.sort == "I":
                    v = z3.ToReal(v)
            elif o.sort == "I":
                v = z3.ToReal(self.int(o))
            elif o.op == "ite":
                v = z3.If(self.bool(o.args[0]), self.real(o.args[1]), self.real(o.args[2]))
            else:
                v = z3.Real(f"a{a}")
                s = atom_sign(a)
                if s:
                    self.facts.append(v > 0 if s == 2 else v >= 0 if s == 1 else v <= 0 if s == -1 else v < 0)
        elif k == "abs":
            v = z3.Real(f"a{a}")
            x = self.poly(o)
            self.facts.append(v == z3.If(x >= 0, x, -x))
        else:
            v = z3.Real(f"a{a}")
            s = atom_sign(a) if k in ("E", "c", "P") else 0
            if k == "P":
                self.facts.append(v == self.poly(o))
            elif s:
                self.facts.append(v > 0 if s == 2 else v >= 0)
        self.av[a] = v
        return v

    def mono(self, m):
        out = None
        for a, e in m:
            if isinstance(e, Fraction) and e.denominator == 1 and abs(e) <= 24:
                b = self.atomval(a)
                if e < 0:
                    kk = ("inv", a)
                    if kk not in self.av:
                        v = z3.Real(f"inv{a}")
                        self.av[kk] = v
                        self.facts.append(z3.Implies(b != 0, v * b == 1))
                        s = atom_sign(a)
                        if s == 2:
                            self.facts.append(v > 0)
                        elif s == 1:
                            self.facts.append(v >= 0)
                    b = self.av[kk]
                x = b
                for _ in range(abs(int(e)) - 1):
                    x = x * b
            else:
                kk = ("pw", a, e)
                if kk not in self.av:
                    v = z3.Real(f"pw{a}_{len(self.av)}")
                    self.av[kk] = v
                    s = atom_sign(a) if ATOMS[a][0] in ("E", "c", "P", "t") else 0
                    if s > 0:
                        self.facts.append(v > 0 if s == 2 else v >= 0)
                    if isinstance(e, Fraction) and e.denominator == 2:
                        b = self.atomval(a)
                        n = abs(int(e * 2))
                        pw = b
                        for _ in range(n - 1):
                            pw = pw * b
                        if e > 0:
                            self.facts.append(v * v == pw)
                            self.facts.append(v >= 0)
                x = self.av[kk]
            out = x if out is None else out * x
        return out if out is not None else z3.RealVal(1)

    def poly(self, p: Poly):
        r = z3.RealVal(0)
        for m, c in p.d.items():
            x = z3q(c)
            r = r + (x if not m else x * self.mono(m))
        return r

    def real(self, t):
        if t.sort == "I":
            return z3.ToReal(self.int(t))
        return self.poly(canon(t))

    def bool(self, t):
        op = t.op
        if op == "bool":
            return z3.BoolVal(t.data)
        if op == "not":
            return z3.Not(self.bool(t.args[0]))
        if op == "and":
            return z3.And(*[self.bool(a) for a in t.args])
        if op in ("eq", "le"):
            a, b = t.args
            if a.sort == "I" and b.sort == "I":
                x, y = self.int(a), self.int(b)
            else:
                try:
                    d = padd(canon(a), canon(b), -1)
                except TooBig:
                    return z3.Bool(f"b{t.id}")
                x, y = self.poly(d), z3.RealVal(0)
            return x == y if op == "eq" else x <= y
        if op == "app":
            return self.app(t)
        if op in ("exists", "forall"):
            return z3.Bool(f"b{t.id}")
        return z3.Bool(f"b{t.id}")


def z3q(x):
    x = Fraction(x)
    return z3.Q(x.numerator, x.denominator) if x.denominator != 1 else z3.RealVal(x.numerator)


# ----------------------------------------------------------------- stats --


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.leaves = 0
        self.by = {"normal-form": 0, "z3": 0, "infeasible": 0}
        self.z3_calls = 0
        self.z3_time = 0.0
        self.cvc5_calls = 0
        self.cvc5_agree = 0
        self.cvc5_time = 0.0
        self.names = []

    def merge(self, o):
        for k in ("obligations", "discharged", "leaves", "z3_calls", "z3_time", "cvc5_calls", "cvc5_agree", "cvc5_time"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in o.by:
            self.by[k] = self.by.get(k, 0) + o.by[k]
        self.names += o.names


STATS = Stats()
CVC5 = [os.environ.get("VERIF_TIER") == "thorough"]


class Failure:
    def __init__(self, facts, a, b, why="", model=None):
        self.facts, self.a, self.b, self.why, self.model = facts, a, b, why, model

    def __bool__(self):
        return False

    def text(self):
        out = [f"reason: {self.why}", "under:"]
        out += [f"  {pp(f, 10)}" for f in self.facts[-40:]]
        out += [f"left : {pp(self.a, 14)[:3000]}", f"right: {pp(self.b, 14)[:3000]}"]
        if self.model:
            out.append(f"solver model (atoms abstracted): {self.model}")
        return "\n".join(out)


def atomic_conditions(c):
    """First atomic condition inside a boolean term."""
    stack = [c]
    while stack:
        x = stack.pop()
        if x.op in ("not", "and"):
            stack.extend(reversed(x.args))
        elif x.op == "bool":
            continue
        else:
            yield x


def has_ite(t):
    return any(x.op == "ite" for x in subterms(t))


def ideal(t):
    """Comparisons with constants below the working precision read as
    comparisons with zero (the quantities compared are of order one, or are
    nonnegative sums of exponentials that vanish only by underflow)."""
    key = (t.id, EPS_DROP[0])
    r = _IDEAL.get(key)
    if r is None:
        r = _IDEAL[key] = replace(t, _ideal)
    return r


def _ideal(x):
    if x.op not in ("le", "eq") or x.sort != "B":
        return None
    a, b = x.args
    ca, cb = cval(a), cval(b)
    c = cb if ca is None else ca
    if c is None or (ca is not None and cb is not None) or "R" not in (a.sort, b.sort):
        return None
    if not isinstance(c, (int, Fraction)) or abs(c) > EPS_DROP[0]:
        return None
    y = ideal(a if ca is None else b)
    zero = R(0)
    if x.op == "eq":
        return eq(y, zero)
    nn = term_sign(y) >= 1
    if ca is None:  # y <= c
        if c < 0:
            return bnot(le(zero, y))
        return eq(y, zero) if nn else le(y, zero)
    if c > 0:  # c <= y
        return bnot(eq(y, zero)) if nn else bnot(le(y, zero))
    return TRUE if nn else le(zero, y)


def vanishing(facts):
    """Exponents X of the facts exp(X) = 0 (underflow)."""
    out = []
    for f in facts:
        if f.op == "eq" and f.args[0].sort == "R" and f.args[1].sort == "R":
            a, b = f.args
            t = b if cval(a) == 0 else (a if cval(b) == 0 else None)
            if t is None or has_ite(t):
                continue
            p = canon(t)
            if all(c > 0 and len(m) == 1 and m[0][0] == E_ATOM for m, c in p.d.items()):
                # a vanishing sum of exponentials: each term vanishes
                out += [m[0][1] for m in p.d if isinstance(m[0][1], Poly)]
    return out


def drop_vanishing(p, zs):
    """exp(X + Y) = 0 where exp(X) = 0 and Y shares no growth with X."""
    d = {}
    for m, c in p.d.items():
        x = next((e for a, e in m if a == E_ATOM and isinstance(e, Poly)), None)
        if x is not None and any(z.d and all(k in x.d and x.d[k] / z.d[k] > Fraction(999999, 10 ** 6) for k in z.d) for z in zs):
            continue
        d[m] = c
    return p if len(d) == len(p.d) else Poly(d)


class Prover:
    def __init__(self, axioms=None, timeout=4000, deadline=None, max_leaves=4000):
        self.axioms = axioms or {}
        self.timeout = timeout
        self.deadline = deadline
        self.max_leaves = max_leaves
        self.count = 0
        self._feas: dict = {}
        self._cmps: dict = {}
        self._closure_memo: dict = {}

    # -- context handling

    def closure(self, facts, extra=()):
        """Facts plus axiom instances for the symbols that occur."""
        out = list(facts)
        seen = set()
        work = list(facts) + list(extra)
        rounds = 0
        while work and rounds < 3:
            rounds += 1
            new = []
            for t in work:
                for x in subterms(t):
                    if x.op == "app" and x.id not in seen:
                        seen.add(x.id)
                        ax = self.axioms.get(x.data)
                        if ax is not None and not any(v.data.startswith("#") for v in fv(x)):
                            new.extend(f for f in ax(*x.args) if f is not TRUE)
            out.extend(new)
            work = new
        return out

    def check(self, facts, goal_false=None, timeout=None):
        """z3 satisfiability of facts; returns 'sat'/'unsat'/'unknown', model."""
        tr = Z3Tr()
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        try:
            for f in facts:
                s.add(tr.bool(f))
        except TooBig:
            return "unknown", None
        for f in tr.facts:
            s.add(f)
        n = len(tr.facts)
        t0 = time.time()
        r = s.check()
        STATS.z3_calls += 1
        STATS.z3_time += time.time() - t0
        if r == z3.unsat:
            if CVC5[0]:
                self._cvc5(s)
            return "unsat", None
        if r == z3.sat:
            return "sat", s.model()
        return "unknown", None

    def _cvc5(self, s):
        t0 = time.time()
        try:
            p = subprocess.run(["cvc5", "--tlimit=2000", "--lang=smt2"],
                               input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True, text=True, timeout=10)
            STATS.cvc5_calls += 1
            if p.stdout.strip().startswith("unsat"):
                STATS.cvc5_agree += 1
        except Exception:
            pass
        STATS.cvc5_time += time.time() - t0

    def feasible(self, facts):
        key = frozenset(f.id for f in facts)
        r = self._feas.get(key)
        if r is None:
            st, _ = self.check(self.closure(facts), timeout=600)
            r = st != "unsat"
            self._feas[key] = r
        return r

    def entails(self, facts, goal, timeout=None):
        if goal is TRUE:
            return True
        if goal in facts:
            return True
        fs = self.closure(list(facts) + [bnot(goal)])
        st, _ = self.check(fs, timeout=timeout or self.timeout)
        return st == "unsat"

    # -- proving

    def expired(self):
        return self.deadline is not None and time.time() > self.deadline

    def _cmp(self, c):
        """Normal form of the difference compared with zero."""
        if c.op not in ("eq", "le") or "R" not in (c.args[0].sort, c.args[1].sort) or has_ite(c):
            return None
        r = self._cmps.get(c.id, 0)
        if r == 0:
            try:
                r = padd(canon(c.args[0]), canon(c.args[1]), -1)
            except TooBig:
                r = None
            self._cmps[c.id] = r
        return r

    def assume(self, c, val, terms):
        """Substitute the truth value of an atomic condition in terms."""
        tv = B(val)
        m = {}
        if val and c.op == "eq" and c.args[0].sort == "I" and c.args[1].sort == "I":
            a, b = c.args
            if a.op == "var" and not a.data.startswith("#") and a not in fv(b):
                m = {a: b}
            elif b.op == "var" and not b.data.startswith("#") and b not in fv(a):
                m = {b: a}
        out = []
        pc = self._cmp(c)

        def hit(x):
            if x is c:
                return tv
            if pc is not None and x.op == c.op and x.sort == "B":
                px = self._cmp(x)
                if px is not None and px.d.keys() == pc.d.keys() and same(px, pc):
                    return tv
            return None

        for t in terms:
            u = replace(t, hit)
            if m:
                u = subst(u, m)
            out.append(u)
        return out, m

    def simp(self, t, facts):
        fs = {}
        for f in facts:
            if f.op == "not":
                fs[f.args[0].id] = FALSE
            else:
                fs[f.id] = TRUE
        if not fs:
            return t
        return replace(t, lambda x: fs.get(x.id) if x.sort == "B" else None)

    def find_cond(self, *terms):
        """An atomic condition without inner conditionals, outside binders."""
        best = None
        seen = set()
        stack = list(terms)
        conds = []
        while stack:
            x = stack.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in BINDERS:
                stack.append(x.args[1])
                continue
            if x.op == "ite" and x.sort != "B":
                conds.append(x.args[0])
            stack.extend(x.args)
        for c in conds:
            for a in atomic_conditions(c):
                if a.op in ("eq", "le") and any(y.op == "ite" for y in subterms(a)):
                    continue
                r = self._rank(a)
                if best is None or r < best[0]:
                    best = (r, a)
                    if r == 0:
                        return a
        if best is None and conds:
            # conditions containing conditionals under binders: split anyway
            for c in conds:
                for a in atomic_conditions(c):
                    return a
        return best[1] if best else None

    @staticmethod
    def _rank(a):
        if a.op in ("eq", "le"):
            if a.args[0].sort == "I" and a.args[1].sort == "I":
                if any(x.op == "var" for x in a.args):
                    return 0
                return 1
            return 2
        return 3

    def equal(self, a, b, facts=()):
        self.count = 0
        self._cmps = {}
        facts = [ideal(f) for f in facts]
        return self._eq(ideal(a), ideal(b), facts)

    def _eq(self, a, b, facts):
        if a is b:
            STATS.leaves += 1
            STATS.by["normal-form"] += 1
            return True
        self.count += 1
        if self.count > self.max_leaves:
            return Failure(facts, a, b, "case split limit reached")
        if self.expired():
            return Failure(facts, a, b, "time limit reached")
        c = self.find_cond(a, b)
        if c is not None:
            for val in (True, False):
                (a2, b2), m = self.assume(c, val, (a, b))
                lit = c if val else bnot(c)
                f2 = facts + [lit]
                if m:
                    f2 = [subst(f, m) for f in f2]
                    f2 = [f for f in f2 if f is not TRUE]
                    if any(f is FALSE for f in f2):
                        continue
                if not self.feasible(f2):
                    STATS.by["infeasible"] += 1
                    continue
                r = self._eq(a2, b2, f2)
                if not r:
                    return r
            return True
        return self._leaf(a, b, facts)

    def _leaf(self, a, b, facts):
        STATS.leaves += 1
        try:
            ga, gb = sum_groups(a), sum_groups(b)
        except TooBig:
            return Failure(facts, a, b, "expression too large")
        keys = set(ga) | set(gb)
        for k in sorted(keys, key=lambda q: (len(q), q)):
            ta, tb = ga.get(k, []), gb.get(k, [])
            if not k:
                r = self._poly_eq(total(ta), total(tb), facts)
            else:
                r = self._binder_group(k, ta, tb, facts)
            if not r:
                return r
        return True

    def _binder_group(self, k, ta, tb, facts):
        last = None
        # items: list of (vars, body); align variables
        nb = len(k)
        sk = [fresh_like(x) for x in range(nb)]
        ranges = [RANGE[x] for x in k]
        f2 = list(facts)
        for v, n in zip(sk, ranges):
            f2.append(le(I(0), v))
            f2.append(bnot(le(n, v)))

        def inst(items, perms):
            r = R(0)
            for (vs, body), p in zip(items, perms):
                r = add(r, subst(body, {v: sk[p[q]] for q, v in enumerate(vs)}))
            return r

        def perms_for(items):
            ps = [p for p in itertools.permutations(range(nb)) if all(k[p[q]] == k[q] for q in range(nb))]
            n = len(items)
            if len(ps) ** n > 24:
                ps_all = [tuple([p] * n) for p in ps]
            else:
                ps_all = list(itertools.product(ps, repeat=n))
            return ps_all

        ident = tuple(range(nb))
        base = inst(ta, [ident] * len(ta))
        tried = 0
        for pb in perms_for(tb):
            tried += 1
            r = self._eq(base, inst(tb, pb), f2)
            if r:
                return r
            if last is None:
                last = r
            if tried >= 6 or self.expired():
                break
        if len(ta) > 1 and nb > 1:
            bb = inst(tb, [ident] * len(tb))
            for pa in perms_for(ta)[:6]:
                r = self._eq(inst(ta, pa), bb, f2)
                if r:
                    return r
        return last

    def _poly_eq(self, a, b, facts):
        if a is b:
            STATS.by["normal-form"] += 1
            return True
        try:
            pa, pb = canon(a), canon(b)
            if same(pa, pb):
                STATS.by["normal-form"] += 1
                return True
            zs = vanishing(facts)
            if zs:
                pa, pb = drop_vanishing(pa, zs), drop_vanishing(pb, zs)
            d = padd(pa, pb, -1)
            d2 = clear_denominators(d)
            if not d2.d or negligible(d2, pa, pb):
                STATS.by["normal-form"] += 1
                return True
        except TooBig:
            return Failure(facts, a, b, "expression too large")
        # unify opaque atoms
        r = self._unify(a, b, facts)
        if r is True:
            return True
        fs = self.closure(facts + [bnot(eq(a, b))])
        st, model = self.check(fs)
        if st == "unsat":
            STATS.by["z3"] += 1
            return True
        if r is not None and r is not False:
            return r
        return Failure(facts, a, b, f"not equal ({st})", str(model)[:1500] if model is not None else None)

    def _unify(self, a, b, facts):
        """Replace structured opaque subterms by provably equal ones."""
        for _ in range(6):
            oa, ob = opaque_terms(a), opaque_terms(b)
            only_a = [x for x in oa if x not in ob]
            only_b = [x for x in ob if x not in oa]
            done = False
            fail = None
            for x in only_a:
                for y in only_b:
                    if x.op != y.op or x.data != y.data or x.sort != y.sort:
                        continue
                    r = self._cong(x, y, facts)
                    if r:
                        b = replace(b, lambda z: x if z is y else None)
                        done = True
                        break
                    if fail is None and isinstance(r, Failure):
                        fail = r
                if done:
                    break
            if not done:
                return fail if fail is not None else False
            c = self.find_cond(a, b)
            if c is not None:
                return self._eq(a, b, facts)
            try:
                pa, pb = canon(a), canon(b)
                if same(pa, pb):
                    STATS.by["normal-form"] += 1
                    return True
                d2 = clear_denominators(padd(pa, pb, -1))
                if not d2.d or negligible(d2, pa, pb):
                    STATS.by["normal-form"] += 1
                    return True
            except TooBig:
                return False
        return False

    def _cong(self, x, y, facts):
        if x.op == "app":
            for p, q in zip(x.args, y.args):
                if p is q:
                    continue
                if not self.entails(facts, eq(p, q), timeout=500):
                    return False
            return True
        if x.op in BINDERS:
            if x.args[1] is not y.args[1]:
                if not self.entails(facts, eq(x.args[1], y.args[1]), timeout=500):
                    return False
            v = ir.fresh("u")
            bx, by = subst(x.args[2], {x.args[0]: v}), subst(y.args[2], {y.args[0]: v})
            f2 = facts + [le(I(0), v), bnot(le(x.args[1], v))]
            if x.sort == "B":
                return self.equiv(bx, by, f2)
            return self._eq(bx, by, f2)
        if x.op in ("fun", "mark", "pow", "div"):
            for p, q in zip(x.args, y.args):
                r = self._eq(p, q, facts)
                if not r:
                    return r
            return True
        return False

    def equiv(self, p, q, facts):
        """Boolean equivalence."""
        one, zero = R(1), R(0)
        return self._eq(ite(p, one, zero), ite(q, one, zero), list(facts))

    def valid(self, goal, facts=()):
        """Prove a boolean goal under facts (conditionals are split)."""
        self.count = 0
        return self._valid(ideal(goal), [ideal(f) for f in facts])

    def _valid(self, goal, facts):
        if goal is TRUE:
            STATS.leaves += 1
            return True
        if self.expired():
            return Failure(facts, goal, TRUE, "time limit reached")
        self.count += 1
        if self.count > self.max_leaves:
            return Failure(facts, goal, TRUE, "case split limit reached")
        c = self.find_cond(goal)
        if c is not None:
            for val in (True, False):
                (g2,), m = self.assume(c, val, (goal,))
                f2 = facts + [c if val else bnot(c)]
                if m:
                    f2 = [subst(f, m) for f in f2]
                    f2 = [f for f in f2 if f is not TRUE]
                    if any(f is FALSE for f in f2):
                        continue
                if not self.feasible(f2):
                    STATS.by["infeasible"] += 1
                    continue
                r = self._valid(g2, f2)
                if not r:
                    return r
            return True
        STATS.leaves += 1
        if self.entails(facts, goal):
            STATS.by["z3"] += 1
            return True
        return Failure(facts, goal, TRUE, "not proved")


def negligible(d, pa, pb):
    mx = max([abs(c) for c in pa.d.values()] + [abs(c) for c in pb.d.values()] + [Fraction(0)])
    return all(abs(c) <= TOL[0] * mx * Fraction(1, 1000) for c in d.d.values()) if mx else False


def opaque_terms(t):
    """Structured subterms that the normal form treats as atoms."""
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in BINDERS or x.op == "app" or x.op == "mark":
            out.append(x)
            if x.op == "mark":
                stack.extend(x.args)
            continue
        if x.sort == "B":
            continue
        stack.extend(x.args)
    return out


RANGE: dict = {}


def fresh_like(_):
    return ir.fresh("k")


def total(items):
    r = R(0)
    for _, body in items:
        r = add(r, body)
    return r


def _has_lin_sum(t, memo):
    r = memo.get(t.id)
    if r is None:
        if t.op == "sum":
            r = True
        elif t.op in ("add", "mul"):
            r = any(_has_lin_sum(a, memo) for a in t.args)
        elif t.op == "div":
            r = _has_lin_sum(t.args[0], memo)
        elif t.op == "pow":
            c = cval(t.args[1])
            r = c is not None and c.denominator == 1 and 1 < c <= 3 and _has_lin_sum(t.args[0], memo)
        elif t.op == "ite":
            r = any(_has_lin_sum(a, memo) for a in t.args[1:])
        else:
            r = False
        memo[t.id] = r
    return r


def extract(t, memo):
    """t as a list of (binder vars with ranges, body)."""
    if not _has_lin_sum(t, memo):
        return [((), t)]
    if t.op == "sum":
        v, n, body = open_binder(t)
        return [(((v, n),) + bs, x) for bs, x in extract(body, memo)]
    if t.op == "add":
        return extract(t.args[0], memo) + extract(t.args[1], memo)
    if t.op == "mul":
        A, Bb = extract(t.args[0], memo), extract(t.args[1], memo)
        if len(A) * len(Bb) > 64:
            raise TooBig()
        out = []
        for b1, x1 in A:
            for b2, x2 in Bb:
                # both come from fresh openings, so variables differ unless shared
                clash = {v for v, _ in b1} & {v for v, _ in b2}
                if clash:
                    ren = {v: ir.fresh("k") for v in clash}
                    b2 = tuple((ren.get(v, v), n) for v, n in b2)
                    x2 = subst(x2, ren)
                out.append((b1 + b2, mul(x1, x2)))
        return out
    if t.op == "div":
        return [(bs, ir.div(x, t.args[1])) for bs, x in extract(t.args[0], memo)]
    if t.op == "pow":
        k = int(cval(t.args[1]))
        cur = t.args[0]
        for _ in range(k - 1):
            cur = mk("mul", (cur, t.args[0]))
        return extract(cur, memo)
    if t.op == "ite":
        c, x, y = t.args
        return ([(bs, ite(c, z, R(0))) for bs, z in extract(x, memo)]
                + [(bs, ite(c, R(0), z)) for bs, z in extract(y, memo)])
    return [((), t)]


def sum_groups(t):
    out: dict = {}
    for bs, body in extract(t, {}):
        # drop binders the body does not use: factor n
        keep = []
        for v, n in bs:
            if v in fv(body):
                keep.append((v, n))
            else:
                body = mul(n if n.sort == "R" else ir.tonum(n), body)
        keep.sort(key=lambda z: z[1].id)
        key = tuple(n.id for _, n in keep)
        for _, n in keep:
            RANGE[n.id] = n
        out.setdefault(key, []).append((tuple(v for v, _ in keep), body))
    return out
