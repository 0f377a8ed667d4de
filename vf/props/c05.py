"""C05 reordering of atoms."""
from .. import relate, whole
from ..e2e import complete_makers, makers


def run(rep):
    for k, m in enumerate(makers() + complete_makers()):
        for r, dt in ((0, "f64"), (1, "f64"), (0, "f32"), (1, "f32")):
            if rep.tier == "quick" and dt == "f32" and (k + r) % 2:
                continue
            try:
                s = m(r, dt)
            except Exception as e:
                rep.unsupported(f"scenario {k}", f"cannot build: {type(e).__name__}: {e}")
                continue
            if rep.left() < 40:
                rep.bounded.append(f"{s.name}: not run (time)")
                continue
            relate.permutation(rep, s, count=4)
    whole.run(rep, whole.perm, 60, "whole program: reordering")
