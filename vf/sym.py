"""Symbolic tensors: the real code of the library (and of tad_mctc) runs on
them unmodified.  A SymTensor has a concrete rank and dtype, symbolic sizes,
and a function from index terms to an element term.
"""
from __future__ import annotations

import builtins
import contextlib
import linecache
import hashlib
import math
import weakref
from fractions import Fraction

import numpy as np
import torch

from . import ir
from .ir import (FALSE, TRUE, T, B, I, R, add, app, band, bind, bnot, bor,
                 cval, declare, div, eq, fresh, fun, ite, le, lt, mul, neg,
                 power, sub, subst, tobool, tonum)
from .prove import Prover


class Unsupported(BaseException):
    """The engine cannot follow this construct (not a verdict)."""


class PathLimit(Unsupported):
    pass


FLOATS = (torch.float32, torch.float64, torch.float16, torch.bfloat16)


class Engine:
    def __init__(self, dtype=torch.float64, axioms=None, facts=(), cdist_stub=True,
                 max_paths=64):
        self.dtype = dtype
        self.axioms = axioms or {}
        self.base_facts = list(facts)
        self.cdist_stub = cdist_stub
        self.track = False  # mark precision changes in both directions
        self.max_paths = max_paths
        self.prover = Prover(axioms=self.axioms, timeout=1500)
        self.reset([])

    @property
    def digits(self):
        return 14 if self.dtype == torch.float64 else 6

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.path = list(self.base_facts)
        self.writes = []
        self.pending = []
        self.casts = 0
        self.log = []

    def decide(self, c: T) -> bool:
        if c.op == "bool":
            return c.data
        if c in self.path:
            return True
        if bnot(c) in self.path:
            return False
        can_t = self.prover.feasible(self.path + [c])
        can_f = self.prover.feasible(self.path + [bnot(c)])
        if can_t and not can_f:
            return True
        if can_f and not can_t:
            return False
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = True
            self.pending.append(self.trace + [False])
        self.trace.append(v)
        if len(self.trace) > 40:
            raise PathLimit("too many decisions on one path")
        self.path.append(c if v else bnot(c))
        return v

    def explore(self, thunk):
        """Run thunk() on every feasible path; returns list of Path."""
        work = [[]]
        out = []
        while work:
            pre = work.pop()
            self.reset(pre)
            try:
                with active(self):
                    val = thunk()
                res = Path(list(self.path), "return", val, list(self.writes), list(self.log))
            except Unsupported:
                raise
            except Exception as e:  # the code under test raised
                if not genuine(e):
                    raise Unsupported(f"{type(e).__name__}: {e}") from e
                res = Path(list(self.path), "raise", e, list(self.writes), list(self.log))
            out.append(res)
            work.extend(self.pending)
            if len(out) + len(work) > self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths")
        return out


def genuine(e):
    """Whether an exception belongs to the code under contract: raised by one of
    its own statements or by a modelled operation, and not by torch or Python
    upon receiving a symbolic value. (Whether the code raises on ordinary
    values is seen in the concrete runs as well.)"""
    if not isinstance(e, (TypeError, AttributeError, NotImplementedError, IndexError, UnboundLocalError)):
        return True
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None:
        return True
    f = tb.tb_frame.f_code.co_filename
    if "tad_dftd4" not in f:
        return False
    return linecache.getline(f, tb.tb_lineno).strip().startswith("raise")


class Path:
    def __init__(self, facts, kind, value, writes, log):
        self.facts, self.kind, self.value, self.writes, self.log = facts, kind, value, writes, log


CUR: list[Engine | None] = [None]


def eng() -> Engine:
    e = CUR[0]
    if e is None:
        raise Unsupported("no active engine")
    return e


# ------------------------------------------------------------ SymInt/Bool --


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().decide(self.t)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(eq(self.t, o.t if isinstance(o, SymBool) else B(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(bnot(r.t if isinstance(r, SymBool) else B(r)))

    def __hash__(self):
        return hash(self.t)

    def __and__(self, o):
        return mkbool(band(self.t, o.t if isinstance(o, SymBool) else B(bool(o))))

    def __or__(self, o):
        return mkbool(bor(self.t, o.t if isinstance(o, SymBool) else B(bool(o))))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return mkbool(bnot(self.t))


def mkbool(t):
    return t.data if t.op == "bool" else SymBool(t)


class SymInt:
    """Symbolic size or integer scalar."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _o(self, o):
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, (int, np.integer)) and not isinstance(o, bool):
            return I(int(o))
        return None

    def __repr__(self):
        return f"<{self.t}>"

    def __hash__(self):
        return hash(self.t)

    def __index__(self):
        raise Unsupported("concrete value of a symbolic size needed")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("concrete value of a symbolic size needed")

    def __bool__(self):
        return bool(mkbool(bnot(eq(self.t, I(0)))))


def mkint(t):
    c = cval(t)
    return int(c) if c is not None else SymInt(t)


def _int_ops():
    def binop(name, f, rf=None):
        def op(self, o):
            x = self._o(o)
            if x is None:
                if isinstance(o, float):
                    return f_scalar(name, self, o)
                return NotImplemented
            return mkint(f(self.t, x))

        def rop(self, o):
            x = self._o(o)
            if x is None:
                if isinstance(o, float):
                    return f_scalar("r" + name, self, o)
                return NotImplemented
            return mkint(f(x, self.t))

        setattr(SymInt, f"__{name}__", op)
        setattr(SymInt, f"__r{name}__", rop)

    binop("add", add)
    binop("sub", sub)
    binop("mul", mul)
    binop("floordiv", ir.idiv)
    binop("mod", ir.imod)

    def cmp(name, f):
        def op(self, o):
            x = self._o(o)
            if x is None:
                if isinstance(o, float):
                    return mkbool(f(self.t, R(o)))
                if name == "eq":
                    return False
                if name == "ne":
                    return True
                return NotImplemented
            return mkbool(f(self.t, x))

        setattr(SymInt, f"__{name}__", op)

    cmp("eq", eq)
    cmp("ne", lambda a, b: bnot(eq(a, b)))
    cmp("le", le)
    cmp("lt", lt)
    cmp("ge", lambda a, b: le(b, a))
    cmp("gt", lambda a, b: lt(b, a))
    SymInt.__neg__ = lambda s: mkint(neg(s.t))
    SymInt.__truediv__ = lambda s, o: scalar_tensor(div(s.t, o.t if isinstance(o, SymInt) else R(o)))
    SymInt.__rtruediv__ = lambda s, o: scalar_tensor(div(R(o), s.t))


def f_scalar(name, a, o):
    x, y = a.t, R(o)
    f = {"add": add, "sub": sub, "mul": mul, "radd": add, "rsub": lambda p, q: sub(q, p), "rmul": mul}[name]
    return scalar_tensor(f(x, y))


_int_ops()


def scalar_tensor(t, dtype=None):
    return SymTensor((), dtype or eng().dtype, lambda idx: t)


class SymSize(tuple):
    """Shape with symbolic entries."""

    def numel(self):
        r = 1
        for x in self:
            r = r * x
        return r

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return SymSize(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return SymSize(tuple.__add__(self, tuple(o)))

    def __radd__(self, o):
        return SymSize(tuple(o) + tuple(self))


def dimterm(d):
    return d.t if isinstance(d, SymInt) else I(d)


def same_dim(a, b) -> bool:
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta, tb = dimterm(a), dimterm(b)
    if ta is tb:
        return True
    return eng().decide(eq(ta, tb))


# -------------------------------------------------------------- SymTensor --


class SymTensor:
    __slots__ = ("_shape", "_dtype", "_f", "_memo", "_name", "_base", "_views", "_rg", "_src", "__weakref__")

    def __init__(self, shape, dtype, f, name=None, base=None):
        self._shape = SymSize(shape)
        self._dtype = dtype
        self._f = f
        self._memo = {}
        self._name = name
        self._base = base
        self._views = []
        self._rg = None
        self._src = None

    @property
    def _hasviews(self):
        self._views = [w for w in self._views if w() is not None]
        return bool(self._views)

    @property
    def __class__(self):
        return torch.Tensor

    def at(self, *idx):
        if len(idx) == 1 and isinstance(idx[0], (tuple, list)):
            idx = tuple(idx[0])
        idx = tuple(I(i) if isinstance(i, int) else i for i in idx)
        key = tuple(i.id for i in idx)
        r = self._memo.get(key)
        if r is None:
            r = self._f(idx)
            self._memo[key] = r
        return r

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        p = PROPS.get(name)
        if p is not None:
            return p(self)
        h = HANDLERS.get(name)
        if h is not None:
            return lambda *a, **k: unlift(h(self, *a, **k))
        if name.endswith("_") and name[:-1] in HANDLERS:
            h = HANDLERS[name[:-1]]
            return lambda *a, **k: inplace(self, h(self, *a, **k))
        if hasattr(torch.Tensor, name):
            raise Unsupported(f"Tensor.{name}")
        raise AttributeError(name)

    # dunders
    def __len__(self):
        d = self._shape[0]
        if isinstance(d, SymInt):
            raise Unsupported("len() of symbolic size")
        return d

    def __iter__(self):
        d = self._shape[0]
        if isinstance(d, SymInt):
            raise Unsupported("iteration over symbolic size")
        for k in range(d):
            yield getitem(self, k)

    def __bool__(self):
        if len(self._shape) != 0 and not all(isinstance(s, int) and s == 1 for s in self._shape):
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return eng().decide(tobool(self.at(*([I(0)] * len(self._shape)))))

    def __float__(self):
        raise Unsupported("float(tensor)")

    def __int__(self):
        raise Unsupported("int(tensor)")

    def __index__(self):
        raise Unsupported("index(tensor)")

    def __array__(self, *a, **k):
        raise Unsupported("numpy conversion")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"SymTensor(shape={tuple(self._shape)}, dtype={self._dtype})"

    def __format__(self, spec):
        return repr(self)

    def __getitem__(self, i):
        return unlift(getitem(self, i))

    def __setitem__(self, i, v):
        setitem(self, i, v)

    def __contains__(self, x):
        return bool(HANDLERS["any"](HANDLERS["eq"](self, x)))

    def __deepcopy__(self, memo):
        return HANDLERS["clone"](self)


def _dunders():
    m = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div", "pow": "pow", "and": "bitwise_and",
         "or": "bitwise_or", "xor": "bitwise_xor", "matmul": "matmul", "floordiv": "floor_divide", "mod": "remainder"}
    for d, h in m.items():
        def f(self, o, h=h):
            if not isinstance(o, (torch.Tensor, int, float, bool, SymInt, np.number)):
                return NotImplemented
            return unlift(HANDLERS[h](self, o))

        def rf(self, o, h=h):
            if not isinstance(o, (torch.Tensor, int, float, bool, SymInt, np.number)):
                return NotImplemented
            return unlift(HANDLERS[h](o, self))

        def inf(self, o, h=h):
            return inplace(self, HANDLERS[h](self, o))

        setattr(SymTensor, f"__{d}__", f)
        setattr(SymTensor, f"__r{d}__", rf)
        setattr(SymTensor, f"__i{d}__", inf)
    for d in ("eq", "ne", "lt", "le", "gt", "ge"):
        def f(self, o, h=d):
            if not isinstance(o, (torch.Tensor, int, float, bool, SymInt, np.number)):
                return {"eq": False, "ne": True}.get(h, NotImplemented)
            return HANDLERS[h](self, o)
        setattr(SymTensor, f"__{d}__", f)
    SymTensor.__neg__ = lambda s: HANDLERS["neg"](s)
    SymTensor.__pos__ = lambda s: s
    SymTensor.__abs__ = lambda s: HANDLERS["abs"](s)
    SymTensor.__invert__ = lambda s: HANDLERS["bitwise_not"](s)


# -------------------------------------------------------------- utilities --

_TABLES: dict = {}


def table_symbol(arr: np.ndarray, dtype) -> str:
    """Array symbol of a concrete tensor, named by its content."""
    arr = np.ascontiguousarray(arr)
    fl = arr.dtype.kind == "f"
    single = fl and (dtype == torch.float32 or (CUR[0] is not None and CUR[0].dtype == torch.float32))
    cls = (arr.shape, arr.dtype.kind, single)
    for nm in _TABLES.setdefault(cls, []):
        other = ir.SYMS[nm].array
        if np.array_equal(other, arr) or (fl and np.allclose(arr, other, rtol=3e-7 if single else 1e-12, atol=0, equal_nan=True)):
            return nm
    h = hashlib.sha256(str((arr.shape, str(dtype))).encode() + arr.tobytes()).hexdigest()[:12]
    name = f"tab_{h}"
    if name not in ir.SYMS:
        kind = arr.dtype.kind
        sort = {"b": "B", "i": "I", "u": "I"}.get(kind, "R")
        lo = hi = values = None
        if sort != "B" and arr.size and np.all(np.isfinite(arr.astype(float))):
            lo, hi = Fraction(float(arr.min())), Fraction(float(arr.max()))
            u = np.unique(arr)
            if len(u) <= 8:
                values = [Fraction(float(x)) for x in u]
        symm = None
        if arr.ndim == 2 and arr.shape[0] == arr.shape[1] and np.array_equal(arr, arr.T):
            symm = (0, 1)
        declare(name, sort=sort, kind="table", lo=lo, hi=hi, values=values, symm=symm,
                array=arr, note=6 if dtype == torch.float32 else 14)
    _TABLES[cls].append(name)
    return name


def scaled_table(arr: np.ndarray, dtype):
    """(factor, symbol) with arr = factor * table; factor is None for 1.  A
    constant multiple of a table already in use is expressed through it."""
    if arr.dtype.kind == "f" and arr.size > 4:
        single = dtype == torch.float32 or (CUR[0] is not None and CUR[0].dtype == torch.float32)
        cls = (arr.shape, "f", single)
        flat = arr.reshape(-1).astype(float)
        for nm in _TABLES.get(cls, []):
            o = ir.SYMS[nm].array.reshape(-1).astype(float)
            k = int(np.argmax(np.abs(o)))
            if not (np.isfinite(o[k]) and o[k] and np.isfinite(flat[k]) and flat[k]):
                continue
            c = flat[k] / o[k]
            if np.allclose(flat, c * o, rtol=6e-7 if single else 4e-13, atol=0):
                return (None if abs(c - 1) <= (3e-7 if single else 1e-12) else c), nm
    return None, table_symbol(arr, dtype)


def unlift(r):
    """The tensor object behind a snapshot (keeps object identity)."""
    if type(r) is SymTensor and r._src is not None:
        return r._src
    return r


def lift(x, like=None) -> SymTensor:
    """Snapshot of the current value (later in-place updates do not reach it)."""
    if type(x) is SymTensor:
        if x._src is not None:
            return x
        s = SymTensor(x._shape, x._dtype, x._f, x._name, x._base)
        s._memo = x._memo
        s._src = x
        return s
    if isinstance(x, SymInt):
        return SymTensor((), torch.int64, lambda idx: x.t)
    if isinstance(x, SymBool):
        return SymTensor((), torch.bool, lambda idx: x.t)
    if isinstance(x, torch.Tensor):
        a = x.detach().cpu().numpy()
        dt = x.dtype
        dg = 6 if dt == torch.float32 and eng().dtype == torch.float32 else 14
        if a.size == 1:
            v = a.reshape(-1)[0]
            t = B(bool(v)) if a.dtype.kind == "b" else (I(int(v)) if a.dtype.kind in "iu" else R(float(v), dg))
            return SymTensor(tuple(a.shape), dt, lambda idx: t)
        c, name = scaled_table(np.ascontiguousarray(a), dt)
        if c is not None:
            ct = R(float(c), dg)
            return SymTensor(tuple(a.shape), dt, lambda idx: mul(ct, app(name, idx)))
        return SymTensor(tuple(a.shape), dt, lambda idx: app(name, idx))
    if isinstance(x, (bool, np.bool_)):
        return SymTensor((), torch.bool, lambda idx: B(bool(x)))
    if isinstance(x, (int, np.integer)):
        return SymTensor((), torch.int64, lambda idx: I(int(x)))
    if isinstance(x, (float, np.floating)):
        t = R(float(x), 14 if eng().dtype == torch.float64 else 7)
        return SymTensor((), torch.get_default_dtype(), lambda idx: t)
    raise Unsupported(f"operand of type {type(x)}")


def dummy(x):
    """Concrete stand-in with the same dtype category for type promotion."""
    if type(x) is SymTensor:
        return torch.zeros((1,) * len(x._shape), dtype=x._dtype)
    if isinstance(x, SymInt):
        return 1
    if isinstance(x, SymBool):
        return True
    if isinstance(x, np.generic):
        return x.item()
    return x


def rtype(*xs):
    r = dummy(xs[0])
    if len(xs) == 1:
        return torch.result_type(r, r)
    dt = torch.result_type(r, dummy(xs[1]))
    for k in range(2, len(xs)):
        nd = max(len(getattr(x, "shape", ())) for x in xs[:k])
        dt = torch.result_type(torch.zeros((1,) * nd, dtype=dt), dummy(xs[k]))
    return dt


def shape_of(x):
    if type(x) is SymTensor:
        return x._shape
    if isinstance(x, torch.Tensor):
        return tuple(x.shape)
    return ()


def broadcast(*shapes):
    """Result shape and, per operand, a mapper from result index to its index."""
    nd = max((len(s) for s in shapes), default=0)
    out = [1] * nd
    squeeze = [set() for _ in shapes]
    for k in range(nd):
        cur = 1
        who = []
        for si, s in enumerate(shapes):
            p = k - (nd - len(s))
            if p < 0:
                continue
            d = s[p]
            if isinstance(d, int) and d == 1:
                squeeze[si].add(p)
                continue
            if isinstance(cur, int) and cur == 1 and not who:
                cur = d
                who = [(si, p)]
            elif same_dim(cur, d):
                who.append((si, p))
            elif not isinstance(d, int) and eng().decide(eq(dimterm(d), I(1))):
                squeeze[si].add(p)
            elif not isinstance(cur, int) and eng().decide(eq(dimterm(cur), I(1))):
                for sj, q in who:
                    squeeze[sj].add(q)
                cur = d
                who = [(si, p)]
            else:
                raise RuntimeError(f"The size of tensor a ({cur}) must match the size of tensor b ({d})")
        out[k] = cur

    def mapper(si):
        s = shapes[si]
        n = len(s)
        sq = squeeze[si]

        def m(idx):
            idx = idx[nd - n:]
            if sq:
                return tuple(I(0) if p in sq else idx[p] for p in range(n))
            return tuple(idx)
        return m

    return tuple(out), [mapper(k) for k in range(len(shapes))]


def finish(shape, dtype, f, base=None):
    """Result tensor; gradients are cut when grad mode is off."""
    if dtype in FLOATS and not torch.is_grad_enabled():
        g = f
        f = lambda idx: ir.detach(g(idx))  # noqa: E731
    r = SymTensor(shape, dtype, f)
    if base is not None:
        root = base._src if base._src is not None else base
        root = root._base if root._base is not None else root
        r._base = root
        root._views.append(weakref.ref(r))
    return r


def elementwise(op, *xs, dtype=None):
    ts = [lift(x) for x in xs]
    shape, maps = broadcast(*[t._shape for t in ts])
    dt = dtype if dtype is not None else rtype(*xs)
    if dt == torch.float64 and eng().track:
        ts = [cast(t, dt) if t._dtype == torch.float32 else t for t in ts]
    return finish(shape, dt, lambda idx: op(*[t.at(m(idx)) for t, m in zip(ts, maps)]))


def num(op):
    """numeric operator on converted operands."""
    def g(*a):
        return op(*[tonum(x, "I" if all(y.sort in "IB" for y in a) else "R") for x in a])
    return g


def cast(x: SymTensor, dtype):
    x = lift(x)
    if dtype is None or dtype == x._dtype:
        return x
    src = x._dtype
    if dtype == torch.bool:
        return finish(x._shape, dtype, lambda idx: tobool(x.at(idx)))
    if dtype in FLOATS:
        if src == torch.float64 and dtype == torch.float32 and eng().dtype == torch.float64:
            return finish(x._shape, dtype, lambda idx: ir.cast32(x.at(idx)))
        if eng().track and src in FLOATS and dtype in (torch.float32, torch.float64):
            return finish(x._shape, dtype, lambda idx: ir.mark(x.at(idx), "up" if dtype == torch.float64 else "down"))
        if dtype in (torch.float16, torch.bfloat16):
            return finish(x._shape, dtype, lambda idx: ir.cast32(ir.cast32(x.at(idx))))
        return finish(x._shape, dtype, lambda idx: tonum(x.at(idx), "R"))
    # integer targets
    if src in FLOATS:
        def tr(idx):
            t = x.at(idx)
            if t.sort == "I":
                return t
            raise Unsupported("float to integer conversion")
        return SymTensor(x._shape, dtype, tr)
    return SymTensor(x._shape, dtype, lambda idx: tonum(x.at(idx), "I"))


def inplace(x: SymTensor, new: SymTensor):
    if type(x) is not SymTensor:
        raise Unsupported("in-place update of a concrete tensor")
    if x._name is not None:
        eng().writes.append(x._name)
    if x._base is not None or x._hasviews:
        if x._base is not None and x._base._name is not None:
            eng().writes.append(x._base._name)
        raise Unsupported("in-place update of an aliased tensor")
    new = lift(new)
    if len(new._shape) != len(x._shape):
        raise RuntimeError("output with shape doesn't match the broadcast shape")
    if x._dtype != new._dtype:
        if not torch.can_cast(new._dtype, x._dtype):
            raise RuntimeError(f"result type {new._dtype} can't be cast to the desired output type {x._dtype}")
        new = cast(new, x._dtype)
    if x._src is not None:
        raise Unsupported("in-place update of a snapshot")
    x._f, x._memo = new._f, new._memo
    return x


HANDLERS: dict = {}
PROPS: dict = {}


def h(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


ALIAS_SKIP = {"__get__"}


def dispatch(func, args, kwargs):
    name = getattr(func, "__name__", None) or str(func)
    if name == "__get__":  # property access on a concrete type
        raise Unsupported("property get")
    n = name.strip("_") if name.startswith("__") else name
    table = {"getitem": getitem, "setitem": setitem, "truediv": HANDLERS["div"],
             "rtruediv": lambda a, b: HANDLERS["div"](b, a), "rsub": lambda a, b, **k: HANDLERS["sub"](b, a),
             "rpow": lambda a, b: HANDLERS["pow"](b, a), "radd": HANDLERS["add"], "rmul": HANDLERS["mul"],
             "rdiv": lambda a, b: HANDLERS["div"](b, a), "rmatmul": lambda a, b: HANDLERS["matmul"](b, a),
             "and": HANDLERS["bitwise_and"], "or": HANDLERS["bitwise_or"], "invert": HANDLERS["bitwise_not"],
             "xor": HANDLERS["bitwise_xor"]}
    f = table.get(n) or HANDLERS.get(n)
    if f is None and n.endswith("_") and n[:-1] in HANDLERS:
        g = HANDLERS[n[:-1]]
        return inplace(args[0], g(*args, **kwargs))
    if f is None:
        if n.startswith("i") and n[1:] in ("add", "sub", "mul", "truediv", "pow", "and", "or"):
            raise Unsupported(f"in-place update of a concrete tensor ({n})")
        raise Unsupported(f"torch.{name}")
    return unlift(f(*args, **kwargs))


def _noout(kw):
    if kw.get("out") is not None:
        raise Unsupported("out= argument")


# ------------------------------------------------------------- properties --

PROPS["shape"] = lambda x: x._shape
PROPS["dtype"] = lambda x: x._dtype
PROPS["device"] = lambda x: torch.device("cpu")
PROPS["ndim"] = lambda x: len(x._shape)
PROPS["is_cuda"] = lambda x: False
PROPS["is_sparse"] = lambda x: False
PROPS["layout"] = lambda x: torch.strided
PROPS["is_leaf"] = lambda x: x._name is not None
PROPS["grad_fn"] = lambda x: None
PROPS["grad"] = lambda x: None
PROPS["mT"] = lambda x: HANDLERS["transpose"](x, -2, -1)
PROPS["T"] = lambda x: HANDLERS["permute"](x, *reversed(range(len(x._shape))))
PROPS["mH"] = PROPS["mT"]
PROPS["H"] = PROPS["T"]
PROPS["data"] = lambda x: HANDLERS["detach"](x)
PROPS["itemsize"] = lambda x: torch.empty((), dtype=x._dtype).element_size()
PROPS["real"] = lambda x: x


def _rg(x):
    if x._dtype not in FLOATS:
        return False
    if x._rg is None:
        nm = f"requires_grad_{x._name or ir._fresh[0]}"
        ir._fresh[0] += 1
        if nm not in ir.SYMS:
            declare(nm, sort="B", kind="flag")
        x._rg = app(nm)
    return SymBool(x._rg) if not isinstance(x._rg, bool) else x._rg


PROPS["requires_grad"] = _rg

# ------------------------------------------------------------ elementwise --


def _binary(name, op, boolop=None):
    def f(a, b, *, alpha=1, out=None, rounding_mode=None):
        if out is not None or rounding_mode is not None:
            raise Unsupported("out/rounding_mode")
        if not (isinstance(alpha, (int, float)) and alpha == 1):
            b = HANDLERS["mul"](b, alpha)
        dt = rtype(a, b)
        if dt == torch.bool and boolop is not None:
            return elementwise(boolop, a, b, dtype=dt)
        if dt == torch.bool:
            raise RuntimeError(f"{name}: boolean operands not supported")
        return elementwise(num(op), a, b, dtype=dt)
    return f


HANDLERS["add"] = _binary("add", add, bor)
HANDLERS["sub"] = HANDLERS["subtract"] = _binary("sub", sub)
HANDLERS["rsub"] = lambda a, b, **k: HANDLERS["sub"](b, a, **k)
HANDLERS["mul"] = HANDLERS["multiply"] = _binary("mul", mul, band)


@h("div", "divide", "true_divide")
def _div(a, b, *, rounding_mode=None, out=None):
    if rounding_mode is not None or out is not None:
        raise Unsupported("rounding_mode")
    dt = rtype(a, b)
    if dt not in FLOATS:
        dt = torch.get_default_dtype()
    return elementwise(lambda x, y: div(tonum(x), tonum(y)), a, b, dtype=dt)


@h("floor_divide")
def _fdiv(a, b):
    dt = rtype(a, b)
    if dt in FLOATS:
        raise Unsupported("floor_divide")
    return elementwise(ir.idiv, a, b, dtype=dt)


@h("remainder", "fmod")
def _rem(a, b):
    dt = rtype(a, b)
    if dt in FLOATS:
        raise Unsupported("remainder")
    return elementwise(ir.imod, a, b, dtype=dt)


@h("pow", "float_power")
def _pow(a, b, out=None):
    dt = rtype(a, b)
    if dt == torch.bool:
        raise Unsupported("pow(bool)")
    return elementwise(lambda x, y: power(tonum(x, "I" if dt not in FLOATS else "R"), tonum(y, "I" if dt not in FLOATS else "R")), a, b, dtype=dt)


def _unary(name, op, floats=True):
    def f(x, *, out=None):
        x = lift(x)
        dt = x._dtype
        if floats and dt not in FLOATS:
            dt = torch.get_default_dtype()
        return finish(x._shape, dt, lambda idx: op(tonum(x.at(idx), "R" if floats else "I")))
    HANDLERS[name] = f
    return f


_unary("exp", ir.exp)
_unary("sqrt", ir.sqrt)
_unary("log", lambda t: fun("log", t))
_unary("log2", lambda t: div(fun("log", t), R(math.log(2.0))))
_unary("log10", lambda t: div(fun("log", t), R(math.log(10.0))))
_unary("log1p", lambda t: fun("log", add(R(1), t)))
_unary("expm1", lambda t: sub(ir.exp(t), R(1)))
_unary("exp2", lambda t: ir.exp(mul(R(math.log(2.0)), t)))
_unary("erf", lambda t: fun("erf", t))
_unary("erfc", lambda t: sub(R(1), fun("erf", t)))
_unary("sin", lambda t: fun("sin", t))
_unary("cos", lambda t: fun("cos", t))
_unary("tanh", lambda t: fun("tanh", t))
_unary("sigmoid", lambda t: div(R(1), add(R(1), ir.exp(neg(t)))))
_unary("reciprocal", lambda t: div(R(1), t))
_unary("rsqrt", lambda t: div(R(1), ir.sqrt(t)))
HANDLERS["softplus"] = lambda *a, **k: (_ for _ in ()).throw(Unsupported("softplus"))


@h("neg", "negative")
def _neg(x):
    x = lift(x)
    return finish(x._shape, x._dtype, lambda idx: neg(tonum(x.at(idx), "I" if x._dtype not in FLOATS else "R")))


@h("abs", "absolute")
def _abs(x):
    x = lift(x)
    return finish(x._shape, x._dtype, lambda idx: ir.absv(tonum(x.at(idx), "I" if x._dtype not in FLOATS else "R")))


@h("square")
def _sq(x):
    return HANDLERS["pow"](x, 2)


@h("sign", "sgn")
def _sign(x):
    x = lift(x)

    def f(idx):
        t = x.at(idx)
        z = R(0)
        return ite(lt(z, t), R(1), ite(lt(t, z), R(-1), z))
    return finish(x._shape, x._dtype, f)


@h("heaviside")
def _heav(x, v):
    return elementwise(lambda a, b: ite(lt(R(0), a), R(1), ite(lt(a, R(0)), R(0), b)), x, v)


def _cmp(name, op):
    def f(a, b, *, out=None):
        return elementwise(num(op), a, b, dtype=torch.bool)
    for n in (name,) if isinstance(name, str) else name:
        HANDLERS[n] = f


def _guard_max(op_lt):
    """x > finfo.max can only hold for an infinite x (finite reals assumed)."""
    def f(a, b):
        c = cval(a)
        if c is not None and c > Fraction(10) ** 37:
            return pos_inf(b)
        c = cval(b)
        if c is not None and c < -Fraction(10) ** 37:
            return neg_inf(a)
        c = cval(b)
        if c is not None and c > Fraction(10) ** 37:
            return bnot(bor(pos_inf(a), ir.nan_cond(a)))
        return op_lt(a, b)
    return f


def pos_inf(t):
    c = ir.inf_cond(t)
    return band(c, lt(R(0), _numer(t))) if c is not FALSE else FALSE


def neg_inf(t):
    c = ir.inf_cond(t)
    return band(c, lt(_numer(t), R(0))) if c is not FALSE else FALSE


def _numer(t):
    if t.op == "div":
        return t.args[0]
    if t.op == "mark":
        return _numer(t.args[0])
    return t


_cmp("eq", eq)
_cmp(("ne", "not_equal"), lambda a, b: bnot(eq(a, b)))
_cmp(("lt", "less"), _guard_max(lt))
_cmp(("gt", "greater"), lambda a, b: _guard_max(lt)(b, a))
_cmp(("le", "less_equal"), lambda a, b: le(a, b))
_cmp(("ge", "greater_equal"), lambda a, b: le(b, a))


def _logic(name, op, bitwise):
    def f(a, b, *, out=None):
        dt = rtype(a, b)
        if dt != torch.bool and bitwise:
            raise Unsupported("bitwise operation on integers")
        return elementwise(lambda x, y: op(tobool(x), tobool(y)), a, b, dtype=torch.bool)
    HANDLERS[name] = f


for _n, _o in (("and", band), ("or", bor), ("xor", lambda x, y: bnot(eq(x, y)))):
    _logic("bitwise_" + _n, _o, True)
    _logic("logical_" + _n, _o, False)


@h("bitwise_not", "logical_not")
def _not(x):
    x = lift(x)
    if x._dtype not in (torch.bool,):
        if x._dtype in FLOATS:
            return finish(x._shape, torch.bool, lambda idx: bnot(tobool(x.at(idx))))
        raise Unsupported("~ on integers")
    return SymTensor(x._shape, torch.bool, lambda idx: bnot(x.at(idx)))


@h("where")
def _where(c, a=None, b=None, *, input=None, other=None):
    if input is not None:
        a = input
    if other is not None:
        b = other
    if a is None:
        raise Unsupported("where(condition) alone")
    # method form x.where(cond, other): dispatch passes (x, cond, other)
    if type(c) is SymTensor and c._dtype != torch.bool and getattr(lift(a), "_dtype", None) == torch.bool:
        c, a = a, c
    dt = rtype(a, b)
    ct, at_, bt = lift(c), lift(a), lift(b)
    shape, maps = broadcast(ct._shape, at_._shape, bt._shape)

    def f(idx):
        x, y = at_.at(maps[1](idx)), bt.at(maps[2](idx))
        if dt in FLOATS:
            x, y = tonum(x), tonum(y)
        elif dt != torch.bool:
            x, y = tonum(x, "I"), tonum(y, "I")
        return ite(tobool(ct.at(maps[0](idx))), x, y)
    return finish(shape, dt, f)


@h("masked_fill")
def _mfill(x, mask, value):
    x = lift(x)
    v = lift(value)
    r = _where(mask, value if type(value) is SymTensor or isinstance(value, torch.Tensor) else value, x)
    return cast(r, x._dtype) if r._dtype != x._dtype else r


@h("maximum")
def _maximum(a, b):
    return elementwise(lambda x, y: ite(le(y, x), x, y), a, b)


@h("minimum")
def _minimum(a, b):
    return elementwise(lambda x, y: ite(le(x, y), x, y), a, b)


HANDLERS["fmax"], HANDLERS["fmin"] = _maximum, _minimum


@h("clamp", "clip")
def _clamp(x, min=None, max=None, *, out=None):
    x = lift(x)
    dt = x._dtype
    r = x
    if min is not None:
        r = elementwise(num(lambda a, lo: ite(le(lo, a), a, lo)), r, min, dtype=dt)
    if max is not None:
        r = elementwise(num(lambda a, hi: ite(le(a, hi), a, hi)), r, max, dtype=dt)
    return r


HANDLERS["clamp_min"] = lambda x, min: _clamp(x, min=min)
HANDLERS["clamp_max"] = lambda x, max: _clamp(x, max=max)


@h("relu")
def _relu(x):
    return _clamp(x, min=0.0)


@h("isnan")
def _isnan(x):
    x = lift(x)
    return SymTensor(x._shape, torch.bool, lambda idx: ir.nan_cond(x.at(idx)))


@h("isinf")
def _isinf(x):
    x = lift(x)
    return SymTensor(x._shape, torch.bool, lambda idx: ir.inf_cond(x.at(idx)))


@h("isfinite")
def _isfinite(x):
    x = lift(x)
    return SymTensor(x._shape, torch.bool, lambda idx: bnot(bor(ir.inf_cond(x.at(idx)), ir.nan_cond(x.at(idx)))))


@h("nan_to_num")
def _n2n(x, nan=0.0, posinf=None, neginf=None):
    x = lift(x)
    return finish(x._shape, x._dtype, lambda idx: ite(ir.nan_cond(x.at(idx)), R(nan or 0.0), x.at(idx)))


@h("addcmul")
def _addcmul(x, a, b, *, value=1):
    return HANDLERS["add"](x, HANDLERS["mul"](HANDLERS["mul"](a, b), value))


@h("addcdiv")
def _addcdiv(x, a, b, *, value=1):
    return HANDLERS["add"](x, HANDLERS["mul"](HANDLERS["div"](a, b), value))


@h("lerp")
def _lerp(a, b, w):
    return HANDLERS["add"](a, HANDLERS["mul"](w, HANDLERS["sub"](b, a)))


# ------------------------------------------------------------- reductions --


def _dims(x, dim):
    n = len(x._shape)
    if dim is None:
        return list(range(n))
    if isinstance(dim, int):
        dim = (dim,)
    if len(dim) == 0:
        return list(range(n))
    out = []
    for d in dim:
        if not (-max(n, 1) <= d < max(n, 1)):
            raise IndexError("Dimension out of range")
        out.append(d % n if n else 0)
    return out


def reduce(kind, x, dim, keepdim, dtype, conv):
    x = lift(x)
    ds = sorted(set(_dims(x, dim))) if len(x._shape) else []
    nd = len(x._shape)
    if keepdim:
        shape = tuple(1 if k in ds else s for k, s in enumerate(x._shape))
    else:
        shape = tuple(s for k, s in enumerate(x._shape) if k not in ds)

    def f(idx):
        it = iter(idx)
        full = []
        vs = []
        for k in range(nd):
            if k in ds:
                if keepdim:
                    next(it)
                v = fresh("r")
                vs.append((v, dimterm(x._shape[k])))
                full.append(v)
            else:
                full.append(next(it))
        t = conv(x.at(tuple(full)))
        for v, n in reversed(vs):
            t = bind(kind, v, n, t)
        return t

    return finish(shape, dtype, f)


@h("sum")
def _sum(x, dim=None, keepdim=False, *more, dtype=None, axis=None, keepdims=None, out=None):
    x = lift(x)
    if more:
        dim, keepdim = (dim, keepdim, *more), False
    if axis is not None:
        dim = axis
    if keepdims is not None:
        keepdim = keepdims
    dt = dtype or (x._dtype if x._dtype in FLOATS else torch.int64)
    if dtype is not None:
        x = cast(x, dtype)
    return reduce("sum", x, dim, keepdim, dt, lambda t: tonum(t, "R" if dt in FLOATS else "I"))


@h("nansum")
def _nansum(x, dim=None, keepdim=False):
    return _sum(_n2n(x), dim, keepdim)


@h("mean")
def _mean(x, dim=None, keepdim=False, *, dtype=None):
    x = lift(x)
    s = _sum(x, dim, keepdim, dtype=dtype)
    n = 1
    for d in set(_dims(x, dim)):
        n = n * x._shape[d]
    return HANDLERS["div"](s, n)


@h("prod")
def _prod(x, dim=None, keepdim=False, *, dtype=None):
    x = lift(x)
    return reduce("prod", x, dim, keepdim, dtype or x._dtype, lambda t: tonum(t))


class MinMax(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _minmax(kind):
    def f(x, dim=None, keepdim=False, *, other=None, axis=None):
        if other is not None or type(dim) is SymTensor or isinstance(dim, torch.Tensor):
            return (_maximum if kind == "max" else _minimum)(x, other if other is not None else dim)
        x = lift(x)
        if dim is None:
            return reduce(kind, x, None, False, x._dtype, lambda t: t)
        v = reduce(kind, x, dim, keepdim, x._dtype, lambda t: t)
        i = reduce("arg" + kind, x, dim, keepdim, torch.int64, lambda t: t)
        return MinMax((v, i))
    return f


HANDLERS["max"] = _minmax("max")
HANDLERS["min"] = _minmax("min")
HANDLERS["amax"] = lambda x, dim=None, keepdim=False: reduce("max", x, dim, keepdim, lift(x)._dtype, lambda t: t)
HANDLERS["amin"] = lambda x, dim=None, keepdim=False: reduce("min", x, dim, keepdim, lift(x)._dtype, lambda t: t)
HANDLERS["argmax"] = lambda x, dim=None, keepdim=False: reduce("argmax", x, dim, keepdim, torch.int64, lambda t: t)
HANDLERS["argmin"] = lambda x, dim=None, keepdim=False: reduce("argmin", x, dim, keepdim, torch.int64, lambda t: t)


@h("any")
def _any(x, dim=None, keepdim=False):
    return reduce("exists", x, dim, keepdim, torch.bool, tobool)


@h("all")
def _all(x, dim=None, keepdim=False):
    return reduce("forall", x, dim, keepdim, torch.bool, tobool)


@h("count_nonzero")
def _cnz(x, dim=None):
    return reduce("sum", x, dim, False, torch.int64, lambda t: tonum(tobool(t), "I"))


@h("norm", "vector_norm", "linalg_vector_norm", "linalg_norm", "frobenius_norm")
def _norm(x, p=2, dim=None, keepdim=False, *, ord=None, dtype=None):
    if ord is not None:
        p = ord
    if p in (None, "fro"):
        p = 2
    if p not in (1, 2, 2.0, 1.0):
        raise Unsupported("norm order")
    if p == 2:
        return HANDLERS["sqrt"](_sum(HANDLERS["mul"](x, x), dim, keepdim))
    return _sum(_abs(x), dim, keepdim)


@h("logsumexp")
def _lse(x, dim, keepdim=False):
    return HANDLERS["log"](_sum(HANDLERS["exp"](x), dim, keepdim))


@h("softmax")
def _softmax(x, dim=None, dtype=None):
    x = lift(x)
    if dtype is not None:
        x = cast(x, dtype)
    e = HANDLERS["exp"](x)
    return HANDLERS["div"](e, _sum(e, dim, True))


# ----------------------------------------------------------- shape changes --


def _nd(d, n):
    if not (-n <= d < n):
        raise IndexError(f"Dimension out of range (expected to be in range of [{-n}, {n - 1}], but got {d})")
    return d % n


@h("unsqueeze")
def _unsqueeze(x, dim):
    x = lift(x)
    n = len(x._shape) + 1
    d = _nd(dim, n)
    shape = x._shape[:d] + (1,) + x._shape[d:]
    return finish(shape, x._dtype, lambda idx: x.at(idx[:d] + idx[d + 1:]), base=x)


@h("squeeze")
def _squeeze(x, dim=None):
    x = lift(x)
    n = len(x._shape)
    if dim is None:
        ds = [k for k, s in enumerate(x._shape) if (isinstance(s, int) and s == 1)
              or (isinstance(s, SymInt) and eng().decide(eq(s.t, I(1))))]
    else:
        ds = []
        for d in ((dim,) if isinstance(dim, int) else dim):
            d = _nd(d, n)
            s = x._shape[d]
            if (isinstance(s, int) and s == 1) or (isinstance(s, SymInt) and eng().decide(eq(s.t, I(1)))):
                ds.append(d)
    if not ds:
        return x
    shape = tuple(s for k, s in enumerate(x._shape) if k not in ds)

    def f(idx):
        it = iter(idx)
        return x.at(tuple(I(0) if k in ds else next(it) for k in range(n)))
    return finish(shape, x._dtype, f, base=x)


def _szargs(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        return tuple(a[0])
    return tuple(a)


@h("expand", "broadcast_to")
def _expand(x, *sizes, size=None, implicit=False):
    x = lift(x)
    sz = _szargs(sizes) if size is None else tuple(size)
    n = len(x._shape)
    k = len(sz) - n
    if k < 0:
        raise RuntimeError("expand: fewer dimensions requested")
    out = []
    sq = set()
    for p, s in enumerate(sz):
        if p < k:
            out.append(s)
            continue
        d = x._shape[p - k]
        if isinstance(s, int) and s == -1:
            out.append(d)
        elif isinstance(d, int) and d == 1:
            out.append(s)
            sq.add(p - k)
        elif same_dim(d, s):
            out.append(s)
        elif isinstance(d, SymInt) and eng().decide(eq(d.t, I(1))):
            out.append(s)
            sq.add(p - k)
        else:
            raise RuntimeError("The expanded size of the tensor must match the existing size")
    return finish(tuple(out), x._dtype, lambda idx: x.at(tuple(I(0) if q in sq else idx[k + q] for q in range(n))), base=x)


HANDLERS["expand_as"] = lambda x, o: _expand(x, *o.shape)


@h("permute")
def _permute(x, *dims, **kw):
    x = lift(x)
    ds = _szargs(dims) if dims else tuple(kw["dims"])
    n = len(x._shape)
    ds = [_nd(d, n) for d in ds]
    if sorted(ds) != list(range(n)):
        raise RuntimeError("permute: invalid dims")
    inv = [ds.index(k) for k in range(n)]
    return finish(tuple(x._shape[d] for d in ds), x._dtype, lambda idx: x.at(tuple(idx[inv[k]] for k in range(n))), base=x)


@h("transpose", "swapaxes", "swapdims")
def _transpose(x, a, b):
    x = lift(x)
    n = len(x._shape)
    a, b = _nd(a, n), _nd(b, n)
    ds = list(range(n))
    ds[a], ds[b] = ds[b], ds[a]
    return _permute(x, *ds)


HANDLERS["t"] = lambda x: _transpose(x, 0, 1) if len(x._shape) == 2 else x
HANDLERS["adjoint"] = lambda x: _transpose(x, -2, -1)


@h("movedim", "moveaxis")
def _movedim(x, s, d):
    x = lift(x)
    n = len(x._shape)
    s = [s] if isinstance(s, int) else list(s)
    d = [d] if isinstance(d, int) else list(d)
    s, d = [_nd(q, n) for q in s], [_nd(q, n) for q in d]
    rest = [k for k in range(n) if k not in s]
    out = [None] * n
    for a, b in zip(s, d):
        out[b] = a
    it = iter(rest)
    out = [next(it) if q is None else q for q in out]
    return _permute(x, *out)


@h("reshape", "view", "view_as", "reshape_as")
def _reshape(x, *shape, **kw):
    x = lift(x)
    if len(shape) == 1 and isinstance(shape[0], torch.dtype):
        raise Unsupported("view(dtype)")
    if len(shape) == 1 and isinstance(shape[0], torch.Tensor):
        shape = tuple(shape[0].shape)
    if not shape and "shape" in kw:
        shape = kw["shape"]
    new = list(_szargs(tuple(shape)))
    old = list(x._shape)
    # resolve -1 by cancelling equal factors
    if any(isinstance(s, int) and s == -1 for s in new):
        o = [s for s in old if not (isinstance(s, int) and s == 1)]
        k = 1
        for s in new:
            if isinstance(s, int) and s in (-1, 1):
                continue
            for q in o:
                if (isinstance(q, int) and isinstance(s, int) and q == s) or (not isinstance(q, int) and not isinstance(s, int) and q.t is s.t):
                    o.remove(q)
                    break
            else:
                if isinstance(s, int) and s > 1:
                    k *= s
                    continue
                raise Unsupported("reshape")
        r = 1
        for q in o:
            r = r * q
        if k != 1:
            if isinstance(r, int) and r % k == 0:
                r //= k
            else:
                raise Unsupported("reshape")
        new = [r if isinstance(s, int) and s == -1 else s for s in new]
    # group matching
    groups = []
    i = j = 0
    ones_o = [k for k, s in enumerate(old) if not (isinstance(s, int) and s == 1)]
    ones_n = [k for k, s in enumerate(new) if not (isinstance(s, int) and s == 1)]
    while i < len(ones_o) or j < len(ones_n):
        if i >= len(ones_o) or j >= len(ones_n):
            raise Unsupported("reshape")
        go, gn = [ones_o[i]], [ones_n[j]]
        po, pn = old[ones_o[i]], new[ones_n[j]]
        i += 1
        j += 1
        for _ in range(8):
            if _dim_eq(po, pn):
                break
            if isinstance(po, int) and isinstance(pn, int):
                if po < pn:
                    go.append(ones_o[i]); po = po * old[ones_o[i]]; i += 1
                else:
                    gn.append(ones_n[j]); pn = pn * new[ones_n[j]]; j += 1
            elif i < len(ones_o) and _contains(pn, po):
                go.append(ones_o[i]); po = po * old[ones_o[i]]; i += 1
            elif j < len(ones_n):
                gn.append(ones_n[j]); pn = pn * new[ones_n[j]]; j += 1
            elif i < len(ones_o):
                go.append(ones_o[i]); po = po * old[ones_o[i]]; i += 1
            else:
                raise Unsupported("reshape")
        else:
            raise Unsupported("reshape")
        groups.append((go, gn))

    def f(idx):
        full = [I(0)] * len(old)
        for go, gn in groups:
            if len(go) == 1 and len(gn) == 1:
                full[go[0]] = idx[gn[0]]
                continue
            flat = idx[gn[0]]
            for k in gn[1:]:
                flat = add(mul(flat, dimterm(new[k])), idx[k])
            for k in reversed(go[1:]):
                full[k] = ir.imod(flat, dimterm(old[k]))
                flat = ir.idiv(flat, dimterm(old[k]))
            full[go[0]] = flat
        return x.at(tuple(full))

    return finish(tuple(new), x._dtype, f, base=x)


def _dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return dimterm(a) is dimterm(b)


def _contains(p, q):
    tp, tq = dimterm(p), dimterm(q)
    return any(y is tq for y in ir.subterms(tp))


HANDLERS["flatten"] = lambda x, start_dim=0, end_dim=-1: _flatten(x, start_dim, end_dim)


def _flatten(x, s, e):
    x = lift(x)
    n = len(x._shape)
    s, e = s % n, e % n
    m = 1
    for d in x._shape[s:e + 1]:
        m = m * d
    return _reshape(x, *(tuple(x._shape[:s]) + (m,) + tuple(x._shape[e + 1:])))


@h("unflatten")
def _unfl(x, dim, sizes):
    x = lift(x)
    d = dim % len(x._shape)
    return _reshape(x, *(tuple(x._shape[:d]) + tuple(sizes) + tuple(x._shape[d + 1:])))


@h("repeat", "tile")
def _repeat(x, *reps):
    x = lift(x)
    reps = _szargs(reps)
    k = len(reps) - len(x._shape)
    out, ones = [], []
    old = (1,) * k + tuple(x._shape)
    for r, d in zip(reps, old):
        out.append(d * r if not (isinstance(d, int) and d == 1) else r)

    def f(idx):
        full = []
        for q in range(len(x._shape)):
            d = old[k + q]
            r = reps[k + q]
            if isinstance(d, int) and d == 1:
                full.append(I(0))
            elif isinstance(r, int) and r == 1:
                full.append(idx[k + q])
            else:
                full.append(ir.imod(idx[k + q], dimterm(d)))
        return x.at(tuple(full))
    return finish(tuple(out), x._dtype, f)


@h("repeat_interleave")
def _ri(x, repeats, dim=None):
    if dim is None or not isinstance(repeats, (int, SymInt)):
        raise Unsupported("repeat_interleave")
    x = lift(x)
    d = dim % len(x._shape)
    shape = tuple(x._shape[:d]) + (x._shape[d] * repeats,) + tuple(x._shape[d + 1:])
    one = isinstance(x._shape[d], int) and x._shape[d] == 1
    return finish(shape, x._dtype, lambda idx: x.at(idx[:d] + (I(0) if one else ir.idiv(idx[d], dimterm(repeats)),) + idx[d + 1:]))


@h("flip")
def _flip(x, *dims):
    x = lift(x)
    ds = [d % len(x._shape) for d in _szargs(dims)]
    return finish(x._shape, x._dtype, lambda idx: x.at(tuple(sub(sub(dimterm(x._shape[k]), I(1)), i) if k in ds else i for k, i in enumerate(idx))))


@h("roll")
def _roll(x, shifts, dims=None):
    if not isinstance(shifts, int) or not isinstance(dims, int):
        raise Unsupported("roll")
    x = lift(x)
    d = dims % len(x._shape)
    return finish(x._shape, x._dtype, lambda idx: x.at(tuple(ir.imod(sub(i, I(shifts)), dimterm(x._shape[k])) if k == d else i for k, i in enumerate(idx))))


@h("stack")
def _stack(xs, dim=0, *, out=None):
    xs = [lift(x) for x in xs]
    for x in xs[1:]:
        if len(x._shape) != len(xs[0]._shape) or not all(same_dim(a, b) for a, b in zip(x._shape, xs[0]._shape)):
            raise RuntimeError("stack expects each tensor to be equal size")
    n = len(xs[0]._shape) + 1
    d = dim % n
    dt = rtype(*xs)

    def f(idx):
        rest = idx[:d] + idx[d + 1:]
        c = cval(idx[d])
        if c is not None:
            return xs[int(c)].at(rest)
        t = xs[-1].at(rest)
        for k in reversed(range(len(xs) - 1)):
            t = ite(eq(idx[d], I(k)), xs[k].at(rest), t)
        return t
    sh = xs[0]._shape
    return finish(tuple(sh[:d]) + (len(xs),) + tuple(sh[d:]), dt, f)


@h("cat", "concat", "concatenate")
def _cat(xs, dim=0, *, out=None):
    xs = [lift(x) for x in xs]
    d = dim % len(xs[0]._shape)
    tot = 0
    offs = []
    for x in xs:
        offs.append(tot)
        tot = x._shape[d] + tot
    dt = rtype(*xs)

    def f(idx):
        def at(k):
            i = sub(idx[d], dimterm(offs[k])) if not (isinstance(offs[k], int) and offs[k] == 0) else idx[d]
            return xs[k].at(idx[:d] + (i,) + idx[d + 1:])
        t = at(len(xs) - 1)
        for k in reversed(range(len(xs) - 1)):
            t = ite(lt(idx[d], dimterm(offs[k + 1])), at(k), t)
        return t
    sh = xs[0]._shape
    return finish(tuple(sh[:d]) + (tot,) + tuple(sh[d + 1:]), dt, f)


@h("chunk", "split", "unbind", "tensor_split")
def _split(x, *a, **k):
    x = lift(x)
    raise Unsupported("split")


HANDLERS["unbind"] = lambda x, dim=0: _unbind(x, dim)


def _unbind(x, dim):
    x = lift(x)
    d = dim % len(x._shape)
    n = x._shape[d]
    if not isinstance(n, int):
        raise Unsupported("unbind over symbolic size")
    return tuple(HANDLERS["select"](x, d, k) for k in range(n))


@h("select")
def _select(x, dim, index):
    x = lift(x)
    d = dim % len(x._shape)
    i = _normidx(index, x._shape[d])
    return finish(x._shape[:d] + x._shape[d + 1:], x._dtype, lambda idx: x.at(idx[:d] + (i,) + idx[d:]), base=x)


@h("narrow")
def _narrow(x, dim, start, length):
    x = lift(x)
    d = dim % len(x._shape)
    s = dimterm(start)
    return finish(x._shape[:d] + (length,) + x._shape[d + 1:], x._dtype, lambda idx: x.at(idx[:d] + (add(idx[d], s),) + idx[d + 1:]), base=x)


@h("index_select")
def _isel(x, dim, index):
    x = lift(x)
    d = dim % len(x._shape)
    return getitem(x, (slice(None),) * d + (index,))


@h("gather")
def _gather(x, dim, index):
    x = lift(x)
    ix = lift(index)
    d = dim % len(x._shape)
    return finish(ix._shape, x._dtype, lambda idx: x.at(idx[:d] + (ix.at(idx),) + idx[d + 1:]))


@h("take_along_dim")
def _tad(x, index, dim):
    return _gather(x, dim, index)


@h("diag_embed")
def _diag_embed(x, offset=0, dim1=-2, dim2=-1):
    x = lift(x)
    if offset != 0:
        raise Unsupported("diag_embed offset")
    nd = len(x._shape) + 1
    d1, d2 = sorted((_nd(dim1, nd), _nd(dim2, nd)))
    n = x._shape[-1]
    shape = list(x._shape[:-1])
    shape.insert(d1, n)
    shape.insert(d2, n)
    z = FALSE if x._dtype == torch.bool else (R(0) if x._dtype in FLOATS else I(0))

    def f(idx):
        rest = tuple(v for k, v in enumerate(idx) if k not in (d1, d2))
        return ite(eq(idx[d1], idx[d2]), x.at(rest + (idx[d2],)), z)
    return finish(tuple(shape), x._dtype, f)


@h("diag")
def _diag(x, diagonal=0):
    x = lift(x)
    if diagonal != 0:
        raise Unsupported("diag offset")
    if len(x._shape) == 1:
        return _diag_embed(x)
    return _diagonal(x)


@h("diagonal")
def _diagonal(x, offset=0, dim1=0, dim2=1):
    x = lift(x)
    n = len(x._shape)
    if offset != 0:
        raise Unsupported("diagonal offset")
    d1, d2 = _nd(dim1, n), _nd(dim2, n)
    if not same_dim(x._shape[d1], x._shape[d2]):
        raise Unsupported("diagonal of a rectangular tensor")
    rest = [k for k in range(n) if k not in (d1, d2)]

    def f(idx):
        full = [None] * n
        for k, i in zip(rest, idx[:-1]):
            full[k] = i
        full[d1] = full[d2] = idx[-1]
        return x.at(tuple(full))
    return finish(tuple(x._shape[k] for k in rest) + (x._shape[d1],), x._dtype, f, base=x)


@h("fill_diagonal")
def _filld(x, v, wrap=False):
    x = lift(x)
    v = lift(v)
    t = tonum(v.at(())) if x._dtype in FLOATS else (tobool(v.at(())) if x._dtype == torch.bool else v.at(()))
    return finish(x._shape, x._dtype, lambda idx: ite(eq(idx[0], idx[1]), t, x.at(idx)))


def _tri(lower):
    def f(x, diagonal=0):
        x = lift(x)
        z = FALSE if x._dtype == torch.bool else (R(0) if x._dtype in FLOATS else I(0))

        def g(idx):
            i, j = idx[-2], idx[-1]
            k = add(i, I(diagonal))
            c = le(j, k) if lower else le(k, j)
            return ite(c, x.at(idx), z)
        return finish(x._shape, x._dtype, g)
    return f


HANDLERS["tril"] = _tri(True)
HANDLERS["triu"] = _tri(False)


# --------------------------------------------------------------- indexing --


def _normidx(i, d):
    if isinstance(i, bool):
        raise Unsupported("bool index")
    if isinstance(i, SymInt):
        return i.t
    if i < 0:
        return add(dimterm(d), I(i))
    if isinstance(d, int) and i >= d:
        raise IndexError(f"index {i} is out of bounds for dimension with size {d}")
    return I(i)


def _is_adv(k):
    return type(k) is SymTensor or isinstance(k, (torch.Tensor, list, np.ndarray))


def getitem(x, key):
    if type(x) is not SymTensor:
        x = lift(x)
    if not isinstance(key, tuple):
        key = (key,)
    key = [torch.tensor(k) if isinstance(k, (list, np.ndarray)) else k for k in key]
    used = sum(1 for k in key if k is not None and k is not Ellipsis and not (_is_adv(k) and lift(k)._dtype == torch.bool))
    n = len(x._shape)
    if any(_is_adv(k) and lift(k)._dtype == torch.bool for k in key):
        raise Unsupported("boolean mask indexing (data-dependent shape)")
    if any(k is Ellipsis for k in key):
        p = [q for q, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + [slice(None)] * (n - used) + key[p + 1:]
    else:
        key = key + [slice(None)] * (n - used)
    # plan
    pos = 0
    plan = []  # per input dim: ('fix', t) | ('slice', outpos, start, step) | ('adv', k)
    out = []  # output dims entries: ('d', size) or marker
    advs = []
    advpos = []
    for k in key:
        if k is None:
            out.append((1, None))
            continue
        if pos >= n:
            raise IndexError(f"too many indices for tensor of dimension {n}")
        d = x._shape[pos]
        if isinstance(k, slice):
            st, sz, step = _slice(k, d)
            plan.append(("s", len(out), st, step))
            out.append((sz, pos))
        elif isinstance(k, (int, SymInt)) and not isinstance(k, bool):
            plan.append(("f", _normidx(k, d)))
        elif _is_adv(k):
            kt = lift(k)
            if len(kt._shape) == 0:
                plan.append(("f", _wrapidx(kt.at(()), d)))
            else:
                plan.append(("a", len(advs)))
                advs.append(kt)
                advpos.append((len(out), pos))
        else:
            raise Unsupported(f"index of type {type(k)}")
        pos += 1
    if not advs:
        shape = tuple(o[0] for o in out)

        def f(idx):
            full = []
            for p in plan:
                if p[0] == "f":
                    full.append(p[1])
                else:
                    i = idx[p[1]]
                    if p[3] != 1:
                        i = mul(i, I(p[3]))
                    full.append(add(i, p[2]) if p[2] is not None else i)
            return x.at(tuple(full))
        return finish(shape, x._dtype, f, base=x)
    ashape, maps = broadcast(*[a._shape for a in advs])
    contiguous = all(b[1] - a[1] == 1 for a, b in zip(advpos, advpos[1:]))
    ins = advpos[0][0] if contiguous else 0
    na = len(ashape)
    shape = tuple(o[0] for o in out[:ins]) + tuple(ashape) + tuple(o[0] for o in out[ins:])

    def f(idx):
        a = idx[ins:ins + na]
        rest = idx[:ins] + idx[ins + na:]
        full = []
        for q, p in enumerate(plan):
            if p[0] == "f":
                full.append(p[1])
            elif p[0] == "a":
                full.append(_wrapidx(advs[p[1]].at(maps[p[1]](a)), x._shape[q]))
            else:
                i = rest[p[1]]
                if p[3] != 1:
                    i = mul(i, I(p[3]))
                full.append(add(i, p[2]) if p[2] is not None else i)
        return x.at(tuple(full))
    return finish(shape, x._dtype, f)


def _wrapidx(t, d):
    from .prove import term_sign
    if t.sort != "I":
        raise Unsupported("non-integer index")
    c = cval(t)
    if c is not None and c < 0:
        return add(dimterm(d), t)
    return t


def _slice(k, d):
    step = 1 if k.step is None else k.step
    if not isinstance(step, int) or step < 1:
        raise Unsupported("slice step")
    if k.start is None and k.stop is None and step == 1:
        return None, d, 1
    st = 0 if k.start is None else k.start
    en = d if k.stop is None else k.stop
    if isinstance(d, int) and isinstance(st, int) and isinstance(en, int):
        r = range(*slice(k.start, k.stop, step).indices(d))
        return I(r.start), len(r), step
    if step != 1:
        raise Unsupported("slice step over symbolic size")

    def norm(v):
        if isinstance(v, int) and v < 0:
            v = d + v
        t = dimterm(v)
        if eng().decide(le(t, dimterm(d))):
            return (0 if not isinstance(v, int) and not eng().decide(le(I(0), t)) else v)
        return d
    st, en = norm(st), norm(en)
    if not eng().decide(le(dimterm(st), dimterm(en))):
        return I(0), 0, 1
    return dimterm(st), mkint(sub(dimterm(en), dimterm(st))), 1


def setitem(x, key, v):
    if type(x) is not SymTensor:
        raise Unsupported("assignment into a concrete tensor")
    if x._name is not None:
        eng().writes.append(x._name)
    if x._base is not None or x._hasviews:
        raise Unsupported("assignment into an aliased tensor")
    if not isinstance(key, tuple):
        key = (key,)
    old = x._f
    n = len(x._shape)
    if len(key) == 1 and _is_adv(key[0]) and lift(key[0])._dtype == torch.bool:
        m = lift(key[0])
        vt = lift(v)
        if len(vt._shape) != 0:
            raise Unsupported("masked assignment of a tensor")
        k = len(m._shape)
        val = vt.at(())
        val = tonum(val) if x._dtype in FLOATS else val
        x._f = lambda idx: ite(m.at(idx[:k]), val, old(idx))
        x._memo = {}
        return
    if any(_is_adv(k) for k in key):
        raise Unsupported("advanced assignment")
    if any(k is Ellipsis for k in key):
        p = [q for q, k in enumerate(key) if k is Ellipsis][0]
        key = tuple(key[:p]) + (slice(None),) * (n - len(key) + 1) + tuple(key[p + 1:])
    key = tuple(key) + (slice(None),) * (n - len(key))
    conds = []
    out = []
    for q, k in enumerate(key):
        d = x._shape[q]
        if isinstance(k, slice):
            st, sz, step = _slice(k, d)
            if step != 1:
                raise Unsupported("slice step")
            out.append((q, st, sz))
        elif isinstance(k, (int, SymInt)):
            conds.append((q, _normidx(k, d)))
        else:
            raise Unsupported("assignment index")
    vt = lift(v)
    shape = tuple(o[2] for o in out)
    _, maps = broadcast(shape, vt._shape)

    def f(idx):
        c = [eq(idx[q], t) for q, t in conds]
        sub_idx = []
        for q, st, sz in out:
            if st is None:
                sub_idx.append(idx[q])
            else:
                sub_idx.append(sub(idx[q], st))
                c.append(le(st, idx[q]))
                c.append(lt(idx[q], add(st, dimterm(sz))))
        val = vt.at(maps[1](tuple(sub_idx)))
        val = tonum(val) if x._dtype in FLOATS else val
        return ite(band(*c), val, old(idx))
    x._f = f
    x._memo = {}


# ----------------------------------------------------------- linear algebra --


@h("einsum", "contract")
def einsum(*args, optimize=None, backend=None, **kw):
    eqn = args[0]
    ops = args[1:]
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    if not isinstance(eqn, str):
        raise Unsupported("einsum sublist format")
    dts = {lift(o)._dtype for o in ops}
    ts = [lift(o) for o in ops]
    eqn = eqn.replace(" ", "")
    lhs, rhs = eqn.split("->") if "->" in eqn else (eqn, None)
    if len(dts) > 1:
        # pure products promote; contractions of mixed precision are rejected
        if rhs is None or not set(lhs) - set(",.") <= set(rhs):
            raise Unsupported(f"einsum contraction of mixed dtypes {dts}")
        dt = rtype(*ts)
        ts = [cast(t, dt) for t in ts]
    else:
        dt = dts.pop()
    ins = lhs.split(",")
    if len(ins) != len(ts):
        raise ValueError("einsum: operand count")
    specs = []
    for s, t in zip(ins, ts):
        if "..." in s:
            a, b = s.split("...")
            k = len(t._shape) - len(a) - len(b)
            if k < 0:
                raise RuntimeError("einsum: too few dimensions")
            specs.append(list(a) + [("E", k - 1 - q) for q in range(k)] + list(b))
        else:
            if len(s) != len(t._shape):
                raise RuntimeError("einsum: the number of subscripts does not match the number of dimensions")
            specs.append(list(s))
    nE = max([sum(1 for z in s if isinstance(z, tuple)) for s in specs])
    if rhs is None:
        letters = sorted({z for s in specs for z in s if isinstance(z, str)})
        cnt = {z: sum(s.count(z) for s in specs) for z in letters}
        rhs = ("..." if nE else "") + "".join(z for z in letters if cnt[z] == 1)
    if "..." in rhs:
        a, b = rhs.split("...")
        outs = list(a) + [("E", nE - 1 - q) for q in range(nE)] + list(b)
    else:
        outs = list(rhs)
    size: dict = {}
    ones: set = set()
    for k, (s, t) in enumerate(zip(specs, ts)):
        for q, (z, d) in enumerate(zip(s, t._shape)):
            if isinstance(d, int) and d == 1:
                size.setdefault(z, 1)
                ones.add((k, q))
                continue
            c = size.get(z)
            if c is None or (isinstance(c, int) and c == 1):
                size[z] = d
            elif not same_dim(c, d):
                raise RuntimeError(f"einsum: size mismatch for {z}: {c} vs {d}")
    shape = tuple(size[z] for z in outs)
    contracted = []
    for s in specs:
        for z in s:
            if z not in outs and z not in contracted:
                contracted.append(z)

    def f(idx):
        env = dict(zip(outs, idx))
        vs = []
        for z in contracted:
            v = fresh("e")
            env[z] = v
            vs.append((v, dimterm(size[z])))
        r = None
        for k, (s, t) in enumerate(zip(specs, ts)):
            x = tonum(t.at(tuple(I(0) if (k, q) in ones else env[z] for q, z in enumerate(s))), "R" if dt in FLOATS else "I")
            r = x if r is None else mul(r, x)
        for v, n in reversed(vs):
            r = bind("sum", v, n, r)
        return r
    return finish(shape, dt, f)


@h("matmul", "mm", "bmm", "mv", "dot", "inner")
def _matmul(a, b, out=None):
    a, b = lift(a), lift(b)
    na, nb = len(a._shape), len(b._shape)
    if na == 1 and nb == 1:
        return einsum("i,i->", a, b)
    if na == 1:
        return einsum("i,...ij->...j", a, b)
    if nb == 1:
        return einsum("...ij,j->...i", a, b)
    return einsum("...ij,...jk->...ik", a, b)


HANDLERS["outer"] = lambda a, b: einsum("i,j->ij", a, b)


@h("vecdot", "linalg_vecdot")
def _vecdot(a, b, dim=-1):
    return _sum(HANDLERS["mul"](a, b), dim)


@h("tensordot")
def _tensordot(a, b, dims=2):
    a, b = lift(a), lift(b)
    if isinstance(dims, int):
        da, db = list(range(len(a._shape) - dims, len(a._shape))), list(range(dims))
    else:
        da, db = ([dims[0]] if isinstance(dims[0], int) else list(dims[0])), ([dims[1]] if isinstance(dims[1], int) else list(dims[1]))
    da, db = [d % len(a._shape) for d in da], [d % len(b._shape) for d in db]
    L = "abcdefghijklmnop"
    U = "ABCDEFGHIJKLMNOP"
    sa = [L[k] for k in range(len(a._shape))]
    sb = [U[k] for k in range(len(b._shape))]
    for p, q in zip(da, db):
        sb[q] = sa[p]
    o = [z for k, z in enumerate(sa) if k not in da] + [z for k, z in enumerate(sb) if k not in db]
    return einsum(f"{''.join(sa)},{''.join(sb)}->{''.join(o)}", a, b)


@h("cdist")
def _cdist(x, y=None, p=2, *a, **k):
    if y is None:
        y = x
    if p not in (2, 2.0):
        raise Unsupported("cdist p")
    d = HANDLERS["sub"](_unsqueeze(x, -2), _unsqueeze(y, -3))
    return HANDLERS["sqrt"](_sum(HANDLERS["mul"](d, d), -1))


@h("cross", "linalg_cross")
def _cross(*a, **k):
    raise Unsupported("cross")


# ----------------------------------------------------- factories and casts --


def _fac(kw, dflt=None):
    return kw.get("dtype") or dflt or torch.get_default_dtype()


def const_tensor(shape, dtype, v):
    if type(v) is SymTensor or isinstance(v, torch.Tensor):
        t = lift(v).at(())
    elif isinstance(v, SymInt):
        t = v.t
    else:
        if dtype == torch.bool:
            t = B(bool(v))
        elif dtype in FLOATS:
            t = R(float(v), 14)
            if dtype == torch.float32 and eng().dtype == torch.float64 and isinstance(v, float):
                t = R(float(np.float32(v)), 14)
        else:
            t = I(int(v))
    if dtype in FLOATS:
        t = tonum(t)
    return SymTensor(shape, dtype, lambda idx: t)


@h("zeros_like")
def _zl(x, *, dtype=None, **k):
    x = lift(x)
    return const_tensor(x._shape, dtype or x._dtype, 0)


@h("ones_like")
def _ol(x, *, dtype=None, **k):
    x = lift(x)
    return const_tensor(x._shape, dtype or x._dtype, 1)


@h("full_like")
def _fl(x, v, *, dtype=None, **k):
    x = lift(x)
    return const_tensor(x._shape, dtype or x._dtype, v)


@h("empty_like", "rand_like", "randn_like")
def _el(x, *, dtype=None, **k):
    x = lift(x)
    nm = f"uninit_{ir._fresh[0]}"
    ir._fresh[0] += 1
    declare(nm, sort="R", kind="garbage")
    return SymTensor(x._shape, dtype or x._dtype, lambda idx: app(nm, idx))


HANDLERS["new_zeros"] = lambda x, *s, dtype=None, **k: const_tensor(_szargs(s), dtype or x._dtype, 0)
HANDLERS["new_ones"] = lambda x, *s, dtype=None, **k: const_tensor(_szargs(s), dtype or x._dtype, 1)
HANDLERS["new_full"] = lambda x, s, v, dtype=None, **k: const_tensor(tuple(s), dtype or x._dtype, v)
HANDLERS["new_tensor"] = lambda x, v, dtype=None, **k: torch.tensor(v, dtype=dtype or x._dtype)


@h("to")
def _to(x, *args, **kw):
    x = lift(x)
    dt = kw.get("dtype")
    for a in args:
        if isinstance(a, torch.dtype):
            dt = a
        elif isinstance(a, torch.Tensor):
            dt = a.dtype
    o = kw.get("other")
    if o is not None:
        dt = o.dtype
    if dt is None or dt == x._dtype:
        if kw.get("copy"):
            return HANDLERS["clone"](x)
        return x
    return cast(x, dt)


@h("type")
def _type(x, dtype=None, *a, **k):
    if dtype is None:
        raise Unsupported("type() query")
    if isinstance(dtype, str):
        raise Unsupported("type(str)")
    return cast(lift(x), dtype)


HANDLERS["type_as"] = lambda x, o: cast(lift(x), o.dtype)
HANDLERS["double"] = lambda x, **k: cast(lift(x), torch.float64)
HANDLERS["float"] = lambda x, **k: cast(lift(x), torch.float32)
HANDLERS["half"] = lambda x, **k: cast(lift(x), torch.float16)
HANDLERS["long"] = lambda x, **k: cast(lift(x), torch.int64)
HANDLERS["int"] = lambda x, **k: cast(lift(x), torch.int32)
HANDLERS["bool"] = lambda x, **k: cast(lift(x), torch.bool)
HANDLERS["cpu"] = lambda x, **k: x
HANDLERS["contiguous"] = lambda x, **k: x
HANDLERS["alias"] = lambda x: x
HANDLERS["resolve_conj"] = lambda x: x
HANDLERS["is_contiguous"] = lambda x, **k: SymBool(_flag("contiguous", x))
HANDLERS["is_floating_point"] = lambda x: lift(x)._dtype in FLOATS
HANDLERS["is_complex"] = lambda x: False
HANDLERS["dim"] = HANDLERS["ndimension"] = lambda x: len(x._shape)
HANDLERS["numel"] = HANDLERS["nelement"] = lambda x: lift(x)._shape.numel()
HANDLERS["element_size"] = lambda x: torch.empty((), dtype=x._dtype).element_size()
HANDLERS["get_device"] = lambda x: -1
HANDLERS["register_hook"] = lambda x, f: (_ for _ in ()).throw(Unsupported("register_hook"))
HANDLERS["retain_grad"] = lambda x: None


def _flag(what, x):
    nm = f"{what}_{x._name or id(x)}"
    if nm not in ir.SYMS:
        declare(nm, sort="B", kind="flag")
    return app(nm)


@h("size")
def _size(x, dim=None):
    return x._shape if dim is None else x._shape[dim]


@h("clone")
def _clone(x, **k):
    x = lift(x)
    f = x._f
    memo = x._memo
    return finish(x._shape, x._dtype, lambda idx: f(idx))


@h("detach")
def _detach(x):
    x = lift(x)
    return SymTensor(x._shape, x._dtype, lambda idx: ir.detach(x.at(idx)) if x._dtype in FLOATS else x.at(idx))


@h("requires_grad_")
def _rg_(x, flag=True):
    return x


@h("item", "tolist", "numpy", "unique", "nonzero", "argwhere", "cumsum", "cumprod", "sort", "argsort",
   "topk", "bincount", "index_add", "scatter", "scatter_add", "masked_select", "backward", "apply",
   "data_ptr", "inverse", "allclose", "isclose", "equal", "bernoulli", "dropout", "round", "floor", "ceil", "trunc")
def _unsup(*a, **k):
    raise Unsupported("data-dependent or unsupported tensor operation")


@h("equal")
def _equal(a, b):
    a, b = lift(a), lift(b)
    if len(a._shape) != len(b._shape) or not all(same_dim(p, q) for p, q in zip(a._shape, b._shape)):
        return False
    r = _all(HANDLERS["eq"](a, b))
    return bool(r)


@h("item")
def _item(x):
    x = lift(x)
    t = x.at(*([I(0)] * len(x._shape)))
    if t.sort == "B":
        return mkbool(t)
    if t.sort == "I":
        return mkint(t)
    return scalar_tensor(ir.detach(t), x._dtype)


@h("fill", "fill_")
def _fill(x, v):
    return const_tensor(x._shape, x._dtype, v)


@h("zero")
def _zero(x):
    return const_tensor(x._shape, x._dtype, 0)


@h("copy")
def _copy(x, src, non_blocking=False):
    s = lift(src)
    return cast(_expand(s, *x._shape), x._dtype)


@h("broadcast_tensors")
def _bt(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    xs = [lift(x) for x in xs]
    shape, _ = broadcast(*[x._shape for x in xs])
    return tuple(_expand(x, *shape) for x in xs)


@h("result_type")
def _rt(a, b):
    return rtype(a, b)


_dunders()

# ---------------------------------------------------------------- patching --


def _has_sym(x):
    if type(x) in (SymTensor, SymInt, SymBool):
        return True
    if isinstance(x, (tuple, list)):
        return any(_has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(_has_sym(y) for y in x.values())
    return False


def _shape_factory(value):
    def f(*size, out=None, dtype=None, **k):
        if value is None:  # full
            s, v = (size[0], size[1]) if len(size) > 1 else (k.pop("size", size[0] if size else ()), k.pop("fill_value"))
            if dtype is None:
                dtype = v.dtype if isinstance(v, torch.Tensor) else (torch.get_default_dtype() if isinstance(v, float) else torch.int64)
            return const_tensor(tuple(s) if isinstance(s, (tuple, list)) else (s,), dtype, v)
        if "size" in k:
            size = (k["size"],)
        return const_tensor(_szargs(size), dtype or torch.get_default_dtype(), value)
    return f


def _empty(*size, dtype=None, **k):
    nm = f"uninit_{ir._fresh[0]}"
    ir._fresh[0] += 1
    declare(nm, sort="R", kind="garbage")
    return SymTensor(_szargs(size), dtype or torch.get_default_dtype(), lambda idx: app(nm, idx))


def _eye(n, m=None, *, dtype=None, **k):
    dt = dtype or torch.get_default_dtype()
    o, z = (TRUE, FALSE) if dt == torch.bool else ((R(1), R(0)) if dt in FLOATS else (I(1), I(0)))
    return SymTensor((n, n if m is None else m), dt, lambda idx: ite(eq(idx[0], idx[1]), o, z))


def _arange(*a, dtype=None, **k):
    st, en, step = 0, None, 1
    if len(a) == 1:
        en = a[0]
    elif len(a) == 2:
        st, en = a
    else:
        st, en, step = a
    if not (isinstance(step, int) and step == 1) or isinstance(st, float) or isinstance(en, float):
        raise Unsupported("arange step")
    n = en - st
    return SymTensor((n,), dtype or torch.int64, lambda idx: add(idx[0], dimterm(st)))


def _tensor(data, dtype=None, **k):
    if isinstance(data, (SymInt, SymBool)) or type(data) is SymTensor:
        r = lift(data)
        if type(data) is SymTensor:
            r = _detach(r)
        return cast(r, dtype) if dtype else r
    if isinstance(data, (list, tuple)):
        r = _stack([lift(_tensor(x, dtype) if _has_sym(x) else torch.tensor(x, dtype=dtype)) for x in data])
        return cast(r, dtype) if dtype else r
    raise Unsupported("torch.tensor of symbolic data")


def _as_tensor(data, dtype=None, **k):
    if type(data) is SymTensor:
        return cast(data, dtype) if dtype else data
    return _tensor(data, dtype)


def _tri_indices(*a, **k):
    raise Unsupported("triu_indices")


PATCH = {
    "zeros": _shape_factory(0), "ones": _shape_factory(1), "full": _shape_factory(None), "empty": _empty,
    "eye": _eye, "arange": _arange, "tensor": _tensor, "as_tensor": _as_tensor,
    "tril_indices": _tri_indices, "triu_indices": _tri_indices,
    "combinations": _tri_indices, "cartesian_prod": _tri_indices,
    "broadcast_shapes": lambda *s: SymSize(broadcast(*s)[0]),
    "is_tensor": lambda x: True, "numel": lambda x: lift(x)._shape.numel(),
    "rand": _empty, "randn": _empty,
    "set_grad_enabled": lambda mode: _SET_GRAD(bool(mode)),
}
_SET_GRAD = torch.set_grad_enabled
# methods of ordinary tensors whose arguments may be symbolic sizes
SIZED = ("expand", "broadcast_to", "reshape", "view", "repeat", "new_zeros", "new_ones", "new_full", "new_empty", "unflatten", "split", "narrow", "__getitem__")


@contextlib.contextmanager
def active(engine):
    """Install the symbolic factories while the code under contract runs."""
    saved = []
    prev = CUR[0]
    CUR[0] = engine

    def put(obj, name, val):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    try:
        if prev is None:
            for nm, repl in PATCH.items():
                orig = getattr(torch, nm, None)
                if orig is None:
                    continue

                def wrap(*a, __o=orig, __r=repl, **k):
                    if _has_sym(a) or _has_sym(k):
                        return __r(*a, **k)
                    return __o(*a, **k)
                put(torch, nm, wrap)
            for nm in SIZED:
                if nm not in HANDLERS:
                    continue

                def method(self, *a, __o=getattr(torch.Tensor, nm), __r=HANDLERS[nm], **k):
                    if type(self) is not SymTensor and (_has_sym(a) or _has_sym(k)):
                        return __r(self, *a, **k)
                    return __o(self, *a, **k)
                put(torch.Tensor, nm, method)
            import importlib

            es = importlib.import_module("tad_mctc.math.einsum")
            import opt_einsum

            oc = opt_einsum.contract

            def contract(*a, **k):
                if _has_sym(a):
                    return einsum(*[x for x in a])
                return oc(*a, **k)
            if hasattr(es, "contract"):
                put(es, "contract", contract)
            put(opt_einsum, "contract", contract)
            if engine.cdist_stub:
                import tad_mctc.storch as st

                od = st.cdist

                def scdist(x, y=None, p=2, **k):
                    if _has_sym((x, y)) and p == 2:
                        return _cdist(x, y, p)
                    return od(x, y, p, **k)
                put(st, "cdist", scdist)
        yield
    finally:
        for obj, name, val in reversed(saved):
            setattr(obj, name, val)
        CUR[0] = prev


# ------------------------------------------------------------------ inputs --


def array(name, shape, dtype, *, sort=None, **meta) -> SymTensor:
    """Fresh input array of the given (symbolic) shape."""
    if sort is None:
        sort = "R" if dtype in FLOATS else ("B" if dtype == torch.bool else "I")
    declare(name, sort=sort, **meta)
    return SymTensor(shape, dtype, lambda idx: app(name, idx), name=name)
