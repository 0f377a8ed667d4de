"""C06 geometry only through distances."""
from .. import relate, whole
from ..e2e import complete_makers, distances, makers
from ..scen import drive


def run(rep):
    drive(rep, [distances(r, dt) for r in (0, 1, 2) for dt in ("f64", "f32")], count=4, thorough=12)
    for k, m in enumerate(makers() + complete_makers()):
        for r, dt in ((0, "f64"), (1, "f64"), (1, "f32")):
            try:
                s = m(r, dt)
            except Exception as e:
                rep.unsupported(f"scenario {k}", f"cannot build: {type(e).__name__}: {e}")
                continue
            if not any(p.name == "pos" for p in s.inputs):
                continue
            if rep.left() < 40:
                rep.bounded.append(f"{s.name}: not run (time)")
                continue
            relate.rigid(rep, s, count=4)
    whole.run(rep, whole.rigid, 60, "whole program: rigid motions")
