from .. import scenario as S, latticecheck as L
import re
NEEDS = ["fast:driver"]
CASES = {"quick": 900, "thorough": 40000}
FLOOR = {'magic_made': 1500, 'magic_used': 500, 'stall_Magic': 300}
RULE = ('One evaluation is one run of the program (random QASM or LLI program, layout, pipeline, flags), its slices and applied instructions replayed cell by cell against a reference model of the lattice. Every appearance and every request of a magic state is compared with the production schedule. Non-trivial: at least one slice was judged; distinct by flags, program and layout.')
CATS = {'magic'}


def key(c, t):
    return c + ":" + re.sub(r"\d+", "N", t)[:100]


def choose(ctx, rng):
    lay = rng.choice(["compact", "compact_no_clogging", "custom", "custom", "edpc"])
    return S.make(ctx, rng, layout=lay, kind=rng.choice(["factory", "reserved", "mixed"]), local=rng.random() < 0.1,
                  gates=["t", "tdg", "t", "tdg", "h", "x", "s"], ngates=rng.choice([4, 8, 14]))


def case(ctx, c):
    L.run_case(ctx, c, CATS, key, choose)
