"""Stand-ins for callees that are under their own contract: they tie their
result to their arguments, so the caller's use of them is checked."""
import contextlib
import sys

import torch


class StubModel:
    """Model with w(cn, q) = 2 + cn + 3*(q or 1/2 if absent); C6 = c6 + w_i w_j;
    weighted polarizabilities a_iw + w_i."""

    def __init__(self, c6=None, aiw=None, numbers=None):
        self.c6, self.aiw, self.numbers = c6, aiw, numbers
        self.calls = []

    def weight_references(self, cn=None, q=None, **kw):
        self.calls.append(("weights", q is not None, sorted(kw)))
        w = 2.0 + cn
        return w + (3.0 * q if q is not None else 0.5)

    def get_atomic_c6(self, gw):
        return self.c6 + gw.unsqueeze(-1) * gw.unsqueeze(-2)

    def get_weighted_pols(self, gw):
        return self.aiw + gw.unsqueeze(-1)


@contextlib.contextmanager
def patched(module, name, new):
    """Replace a dependency function wherever it has been imported."""
    mod = __import__(module, fromlist=[name])
    orig = getattr(mod, name)
    hit = []
    for m in list(sys.modules.values()):
        nm = getattr(m, "__name__", "")
        if m is not None and (nm.startswith("tad_") or m is mod):
            for k, v in list(vars(m).items()):
                if v is orig:
                    hit.append((m, k))
                    setattr(m, k, new)
    try:
        yield
    finally:
        for m, k in hit:
            setattr(m, k, orig)


class Eeq:
    """EEQ contract stand-in: qe + charge/16 + cutoff/100, calls recorded."""

    def __init__(self, qe):
        self.qe, self.calls = qe, []

    def __call__(self, numbers, positions, chrg=None, cutoff=None, **kw):
        self.calls.append((numbers, positions, chrg, cutoff, kw))
        q = self.qe
        if chrg is not None:
            q = q + chrg.unsqueeze(-1) * 0.0625
        if cutoff is not None:
            q = q + cutoff * 0.01
        return q
