from .. import scenario as S, latticecheck as L
import re
NEEDS = ["fast:driver"]
CASES = {"quick": 1400, "thorough": 40000}
FLOOR = {'merge': 2000, 'merge_long': 800}
RULE = ('One evaluation is one run of the program (random QASM or LLI program, layout, pipeline, flags), its slices and applied instructions replayed cell by cell against a reference model of the lattice. Non-trivial: at least one slice was judged; distinct by flags, program and layout.')
CATS = {'route', 'merge'}


def key(c, t):
    return c + ":" + re.sub(r"\d+", "N", t)[:100]


def choose(ctx, rng):
    return S.make(ctx, rng, layout=rng.choice(["custom", "custom", "compact", "edpc"]), local=False, ngates=rng.choice([6, 12, 20]),
                  gates=["h", "s", "x", "t"] if rng.random() < 0.3 else None)


def case(ctx, c):
    L.run_case(ctx, c, CATS, key, choose)
