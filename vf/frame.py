"""Frame conditions: what a call may modify (nothing), and that its result is a
function of its own arguments only."""
from __future__ import annotations

import copy
import sys
import time
import types

import torch

from . import ir
from .relate import Mismatch, extract
from .sym import SymTensor, Unsupported

LIB = "tad_dftd4"
PROTECTED = (f"{LIB}.defaults", f"{LIB}.reference", f"{LIB}.data", f"{LIB}.cutoff")


def _fp(v, path, out, seen, depth=0):
    if isinstance(v, (int, float, complex, str, bytes, bool, type(None), torch.dtype, torch.device)):
        out[path] = repr(v)
    elif type(v) is SymTensor:
        out[path] = ("sym", id(v))
    elif isinstance(v, torch.Tensor):
        out[path] = ("tensor", tuple(v.shape), str(v.dtype), v._version, v.requires_grad,
                     hash(v.detach().reshape(-1).contiguous().numpy().tobytes()) if v.numel() < 400000 else id(v))
    elif depth > 8 or id(v) in seen:
        out[path] = ("ref", type(v).__name__)
    elif isinstance(v, dict):
        seen[id(v)] = v
        out[path] = ("dict", sorted(map(repr, v)))
        for k in v:
            _fp(v[k], f"{path}[{k!r}]", out, seen, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset)):
        seen[id(v)] = v
        out[path] = (type(v).__name__, len(v))
        for i, x in enumerate(sorted(v, key=repr) if isinstance(v, (set, frozenset)) else v):
            _fp(x, f"{path}[{i}]", out, seen, depth + 1)
    elif isinstance(v, type):
        out[path] = ("class", v.__qualname__)
        if v.__module__.startswith(LIB) and id(v) not in seen:
            seen[id(v)] = v
            for k, x in list(vars(v).items()):
                if not k.startswith("__") and k not in ("_abc_impl",):
                    _fp(x, f"{path}.{k}", out, seen, depth + 1)
    elif isinstance(v, types.FunctionType):
        out[path] = ("function", id(v))
        if v.__module__ and v.__module__.startswith(LIB) and id(v) not in seen:
            seen[id(v)] = v
            _fp(v.__defaults__, f"{path}.__defaults__", out, seen, depth + 1)
            _fp(v.__kwdefaults__, f"{path}.__kwdefaults__", out, seen, depth + 1)
            _fp({k: x for k, x in v.__dict__.items() if k != "__wrapped__"}, f"{path}.__dict__", out, seen, depth + 1)
    elif (type(v).__module__ or "").startswith(LIB):
        seen[id(v)] = v
        out[path] = ("object", type(v).__name__)
        d = dict(getattr(v, "__dict__", {}))
        for c in type(v).__mro__:
            for k in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else ():
                if hasattr(v, k):
                    d.setdefault(k, getattr(v, k))
        for k, x in d.items():
            if k == "doi":
                continue  # bibliographic note of the last call, not used in any result
            _fp(x, f"{path}.{k}", out, seen, depth + 1)
    else:
        out[path] = ("other", type(v).__name__)


def state(*objs):
    """Fingerprint of the library's module state and of the given objects."""
    out = {}
    seen = {}
    for nm, m in sorted(sys.modules.items()):
        if m is not None and (nm == LIB or nm.startswith(LIB + ".")):
            for k, v in list(vars(m).items()):
                if k.startswith("__") or isinstance(v, types.ModuleType):
                    continue
                if isinstance(v, (types.FunctionType, type)) and not (getattr(v, "__module__", "") or "").startswith(LIB):
                    continue
                _fp(v, f"{nm}.{k}", out, seen)
    for i, o in enumerate(objs):
        _fp(o, f"argument {i}", out, {})
    out["torch"] = (str(torch.get_default_dtype()), torch.is_grad_enabled())
    return out


def changes(a, b):
    return [f"{k}: {a.get(k)} -> {b.get(k)}" for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def values(o):
    """Argument value snapshot (tensors cloned) for concrete comparison."""
    out = {}
    _fp(o, "", out, {})
    return out


def import_all():
    import importlib
    import pkgutil
    pk = importlib.import_module(LIB)
    for m in pkgutil.walk_packages(pk.__path__, LIB + "."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass


def check(rep, scn, history=True):
    """Frame obligations on every path, and independence of an earlier call on
    other arguments of the same shapes."""
    bad = []
    nm = scn.name
    single = {}
    try:
        before = state()
        exts = extract(rep, scn, strip=False)
        after = state()
        for k, e in enumerate(exts or []):
            if e.writes:
                rep.undecided(f"{nm}#{k}:frame", f"writes to its arguments {sorted(set(e.writes))}")
                bad.append(rep.obs[-1])
            else:
                rep.ok(f"{nm}#{k}:frame")
            if isinstance(e.outs, dict):
                single[k] = {o: e.outs[o][2] for o in e.outs}
        if exts is None:
            bad.append(rep.obs[-1])
            return bad
        c = changes(before, after)
        if c:
            rep.undecided(f"{nm}:library-state", "; ".join(c)[:600])
            bad.append(rep.obs[-1])
        else:
            rep.ok(f"{nm}:library-state")
        if not history:
            return bad
        def call(env):
            o = {k[2:]: v for k, v in env.items() if k in names}
            try:
                scn.call(o)
            except Unsupported:
                raise
            except Exception:
                pass
            return scn.call({k: v for k, v in env.items() if k not in names})

        names = {"o_" + p.name for p in scn.inputs}
        bad += compare(rep, scn, call, single)
    except Unsupported as ex:
        rep.unsupported(f"{nm}:frame", ex)
        bad.append(rep.obs[-1])
    except Exception as ex:
        rep.unsupported(f"{nm}:frame", f"engine: {type(ex).__name__}: {ex}")
        bad.append(rep.obs[-1])
    return bad


def compare(rep, scn, call, single):
    """`call` gets the inputs and a second, unrelated set (prefix o_) used by
    an earlier call; the result has to be the same expression in the inputs."""
    bad = []
    nm = scn.name
    two = copy.copy(scn)
    two.inputs = scn.inputs + [_old(p) for p in scn.inputs]
    two.name = nm + ":after-another-call"
    two.call = call
    names = {"o_" + p.name for p in scn.inputs} | {"o_dist"}
    t0 = time.time()
    ex2 = extract(rep, two, strip=False)
    if ex2 is None:
        return [rep.obs[-1]]
    terms = {o: {d[o].id for d in single.values() if o in d} for o in {x for d in single.values() for x in d}}
    for k, e in enumerate(ex2):
        if e.writes:
            rep.undecided(f"{nm}#{k}:frame-of-objects", f"writes to {sorted(set(e.writes))}")
            bad.append(rep.obs[-1])
        if not isinstance(e.outs, dict):
            if isinstance(e.outs, Mismatch):
                rep.undecided(f"{nm}#{k}:frame-of-objects", str(e.outs.args[-1]))
                bad.append(rep.obs[-1])
            continue
        for o in e.outs:
            t = e.outs[o][2]
            dep = sorted(ir.symbols(t) & names)
            if dep:
                rep.undecided(f"{nm}#{k}:{o}:history", f"result depends on arguments of an earlier call: {dep}")
                bad.append(rep.obs[-1])
            elif t.id not in terms.get(o, ()):
                rep.undecided(f"{nm}#{k}:{o}:history", f"result expression differs after an earlier call: {ir.pp(t, 4)}")
                bad.append(rep.obs[-1])
            else:
                rep.ok(f"{nm}#{k}:{o}:history", seconds=time.time() - t0)
    return bad


def objects(rep, scn, build, use):
    """Long-lived objects: build(env) -> objects, use(objects, env) -> result.
    The objects keep their state, and a second use does not see the first."""
    bad = []
    nm = scn.name

    def guarded(objs, env):
        a = values(objs)
        r = use(objs, env)
        c = changes(a, values(objs))
        if c:
            raise Mismatch("objects", "the call changes " + "; ".join(c)[:400])
        return r

    try:
        scn.call = lambda env: guarded(build(env), env)
        single = {}
        for k, e in enumerate(extract(rep, scn, strip=False) or []):
            if isinstance(e.outs, dict):
                single[k] = {o: e.outs[o][2] for o in e.outs}
            if isinstance(e.outs, Mismatch) or e.writes:
                rep.undecided(f"{nm}#{k}:frame-of-objects", f"{e.writes} {e.outs.args[-1] if isinstance(e.outs, Mismatch) else ''}")
                bad.append(rep.obs[-1])
            else:
                rep.ok(f"{nm}#{k}:frame-of-objects")

        if not single:
            rep.undecided(f"{nm}:frame-of-objects", "the call never returns")
            bad.append(rep.obs[-1])

        def call(env):
            o = {p.name: env["o_" + p.name] for p in scn.inputs}
            n = {p.name: env[p.name] for p in scn.inputs}
            objs = build(n)
            try:
                use(objs, o)
            except (Unsupported, Mismatch):
                raise
            except Exception:
                pass
            return guarded(objs, n)

        bad += compare(rep, scn, call, single)
    except Unsupported as ex:
        rep.unsupported(f"{nm}:objects", ex)
        bad.append(rep.obs[-1])
    except Exception as ex:
        rep.unsupported(f"{nm}:objects", f"engine: {type(ex).__name__}: {ex}")
        bad.append(rep.obs[-1])
    return bad


def _old(p):
    q = copy.copy(p)
    q.name = "o_" + p.name
    q.meta = dict(p.meta)
    return q
