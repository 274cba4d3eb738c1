"""Y states: bound, given back, prepared. Lattice monitor, on programs that need many of them."""
from .. import scenario as S, latticecheck as L, layouts as Y, gen
import re
NEEDS = ["fast:driver"]
CASES = {"quick": 1000, "thorough": 40000}
FLOOR = {'y_bound': 1500, 'y_back': 600, 'y_prepared': 1500, 'y_choice': 300, 'stall_YState': 300}
RULE = ('One evaluation is one run of the program on a layout with pre-distilled Y states or with twist-based S gates, its slices and applied instructions replayed cell by cell against a reference '
        'model of the lattice: every Y state request that is applied, gives back a state or waits is judged. Non-trivial: at least one slice was judged; distinct by flags, program and layout.')
CATS = {'ystate'}


def key(c, t):
    return c + ":" + re.sub(r"\d+", "N", t)[:100]


def program(rng, ids, nins, magic, sgate):
    """LLI program that requests, uses, gives back and measures out Y states."""
    names = [x for x in range(max(ids)) if x not in ids]
    live, ys, out = list(ids), [], []
    for _ in range(nins):
        k = rng.random()
        if k < 0.40 and names:
            y = names.pop(0)
            out.append("RequestYState %d %d" % (y, rng.choice(live)))
            ys.append(y)
        elif k < 0.60 and ys:
            y = ys.pop(rng.randrange(len(ys)))
            out.append("RequestYState %d %d" % (y, rng.choice(live)))
            if rng.random() < 0.5:
                names.append(y)     # the name may be used again
        elif k < 0.66 and ys:
            y = ys.pop(rng.randrange(len(ys)))
            out.append("MeasureSinglePatch %d %s" % (y, rng.choice("XZ")))
        elif k < 0.80 and len(live) + len(ys) > 1:
            a, b = rng.sample(live + ys, 2)
            out.append("MultiBodyMeasure %d:%s,%d:%s" % (a, rng.choice("XZ"), b, rng.choice("XZ")))
        elif k < 0.86:
            out.append("RotateSingleCellPatch %d" % rng.choice(live + ys))
        elif k < 0.92:
            out.append("HGate %d" % rng.choice(live + ys))
        elif k < 0.95 and sgate:
            out.append("SGate %d" % rng.choice(live))
        elif magic and names:
            m = names.pop(0)
            out.append("RequestMagicState %d %d" % (m, rng.choice(live)))
            out.append("MeasureSinglePatch %d X" % m)
        else:
            out.append("LogicalPauli %d Z" % rng.choice(live + ys))
    return "DeclareLogicalQubitPatches " + ",".join(map(str, ids)) + "\n" + "\n".join(out) + "\n"


def custom(ctx, rng):
    s = S.Scn()
    s.dt, s.stagger = rng.choice([1, 2, 3, 5]), rng.random() < 0.5
    s.pipe = rng.choice(["stream", "stream", "dag", "wave", "wave"])
    s.fmt, s.layout, s.optimal, s.gates = "lli", "custom", True, None
    s.local = rng.random() < 0.2
    s.twists = rng.random() < 0.5
    s.opids = False
    s.n = rng.choice([1, 2, 2, 3, 4])
    text = gen.ascii_layout(rng, s.n, rng.choice(["open", "open", "factory"]))
    if text is None:
        return None
    g = [list(r) for r in text.split("\n")[:-1]]
    free = [(r, c) for r, row in enumerate(g) for c, x in enumerate(row) if x == "r"]
    rng.shuffle(free)
    want = rng.randint(0 if s.twists else 1, 5)
    for r, c in free[:want]:
        g[r][c] = "Y"
    text = "\n".join("".join(r) for r in g) + "\n"
    if "Y" not in text and not s.twists:
        return None
    s.files = {"l.txt": text}
    s.spec = Y.Spec(text, s.dt, s.stagger)
    ids = rng.sample(range(0, 30), s.n)
    ng = rng.choice([4, 8, 12, 18])
    ids[rng.randrange(s.n)] = 2 * ng + 30 + rng.randrange(20)
    s.ids = ids
    # without twists, or with them but with Y states given back that were never in a Y cell, a request can wait for ever: that is judged, too
    s.text = program(rng, ids, ng, bool(s.spec.regions), not s.local)
    s.args = (["-l", "l.txt", "--disttime", str(s.dt)] + ([] if s.stagger else ["--nostagger"]) + ([] if s.twists else ["--notwists"]) +
              (["--local"] if s.local else []) + (["-P", s.pipe] if s.pipe != "stream" else []))
    return s


def choose(ctx, rng):
    k = rng.random()
    if k < 0.5:
        return custom(ctx, rng)
    gates = ["s", "sdg", "s", "sdg", "h", "x", "s", "t"]
    if k < 0.8:
        return S.make(ctx, rng, layout="edpc", fmt="qasm", local=rng.random() < 0.25, gates=gates, nq=rng.choice([1, 1, 2, 2, 3, 4]), ngates=rng.choice([6, 12, 18]),
                      variants=[["edpc", "--notwists"], ["edpc", "--notwists"], ["edpc", "--condensed", "--notwists"], ["edpc", "--numlanes", "2", "--notwists"], ["edpc", "--notwists", "--explicitfactories"]])
    return S.make(ctx, rng, layout=rng.choice(["compact", "compact_no_clogging", "edpc", "edpc"]), fmt="qasm", local=rng.random() < 0.4, gates=gates, ngates=rng.choice([6, 12]))


def case(ctx, c):
    L.run_case(ctx, c, CATS, key, choose)
