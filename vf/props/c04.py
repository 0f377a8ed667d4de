"""C04 batching and padding."""
from .. import relate, whole
from ..e2e import complete_makers, makers


def run(rep):
    mk = makers() + complete_makers()
    for k, m in enumerate(mk):
        for lo, hi, dt in ((0, 1, "f64"), (0, 1, "f32"), (1, 2, "f64")):
            if rep.tier == "quick" and dt == "f32" and k % 2:
                continue
            try:
                a, b = m(lo, dt), m(hi, dt)
            except Exception as e:
                rep.unsupported(f"scenario {k}", f"cannot build: {type(e).__name__}: {e}")
                continue
            if rep.left() < 40:
                rep.bounded.append(f"{b.name}: not run (time)")
                continue
            relate.batch_pair(rep, a, b, count=4)
    whole.run(rep, whole.batch, 60, "whole program: batches")
