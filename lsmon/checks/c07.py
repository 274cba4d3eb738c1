from .. import scenario as S, latticecheck as L, gen
import re
NEEDS = ["fast:driver"]
CASES = {"quick": 1400, "thorough": 40000}
FLOOR = {'merge': 2000, 'merge_long': 800, 'stall_MBM': 500, 'bell_routes': 300}
RULE = ('One evaluation is one run of the program (random QASM or LLI program, layout, pipeline, flags), its slices and applied instructions replayed cell by cell against a reference model of the lattice. Every applied merge is compared with the shortest legal route by breadth first search on the model; every merge that stayed unapplied must have no legal route. Non-trivial: at least one slice was judged; distinct by flags, program and layout.')
CATS = {'route'}


def key(c, t):
    return c + ":" + re.sub(r"\d+", "N", t)[:100]


def choose(ctx, rng):
    if rng.random() < 0.15:
        s = S.make(ctx, rng, layout=rng.choice(["custom", "custom", "edpc"]), local=True, fmt="lli", kind="open", graph=rng.choice(["djikstra", "astar", "boost"]),
                   pipe=rng.choice(["stream", "stream", "dag", "wave"]), nq=rng.choice([2, 3, 4, 5, 6]))
        if s:
            s.text = gen.bell_program(rng, s.ids)
        return s
    maze = rng.random() < 0.4
    return S.make(ctx, rng, layout="custom" if maze else rng.choice(["custom", "custom", "compact", "compact_no_clogging", "edpc"]), local=False, maze=maze,
                  graph=rng.choice(["djikstra", "astar", "boost"]), fmt=rng.choice(["lli", "lli", "qasm"]), ngates=rng.choice([6, 12, 20]))


def case(ctx, c):
    L.run_case(ctx, c, CATS, key, choose)
