from collections import deque
from .. import scenario as S, lattice as LT
from .c15 import locate, chain_shape, Bad
import json, os, random, re
NEEDS = ["fast:driver"]
CASES = {"quick": 4000, "thorough": 120000}
FLOOR = {"rounds": 3000, "rounds_shared": 250, "paths": 8000, "crossings": 400, "crossings_bent": 20, "edge_pairs": 8000, "shortest": 4000}
RULE = ("One evaluation is one run of -P edpc -L edpc --local. The path of every Bell-based CNOT is rebuilt from its local operations; the CNOTs that first appear on the same slice form a round. "
        "Per round: no two paths use one grid edge, at most two meet in a cell and use it one after the other, the cells are routing cells that nothing else occupies, reservations shown in the slice "
        "match the paths; in any round a cell serves one path at a time; a path is never longer than the shortest one left open to it. Non-trivial: a round was judged; distinct by flags and program.")


def program(rng, n):
    """CNOTs on disjoint pairs compete for lanes; other gates shift them against each other."""
    out = ["qreg q[%d];" % n]
    for _ in range(rng.choice([1, 2, 3, 5])):
        qs = list(range(n))
        rng.shuffle(qs)
        if rng.random() < 0.4:
            # far apart, in opposite directions
            qs = [x for a in range(n // 2) for x in rng.sample((a, n - 1 - a), 2)]
        for a, b in list(zip(qs[::2], qs[1::2]))[:rng.choice([2, 3, n, n])]:
            out.append("%s q[%d],q[%d];" % (rng.choice(["cx", "cx", "cx", "cz"]), a, b))
        for _ in range(rng.choice([0, 0, 1, 4])):
            out.append("%s q[%d];" % (rng.choice("hxsh"), rng.randrange(n)))
    return "\n".join(out) + "\n"


def sides_of(path, k):
    return {LT.side(path[k], path[j]) for j in (k - 1, k + 1) if 0 <= j < len(path)}


def run(ctx, c, s):
    r = S.execute(ctx, c, s)

    def bad(k, msg):
        c.bad(k, "%s\n   args: %s\n   input: %r" % (msg, " ".join(s.args), s.text), **s.describe())
    if r is None or not r.slices:
        return
    c.evals += 1
    if not r.ok and not r.endless and "--condensed" in s.args and "requires shortest route to be at least two tiles" in str(r.a.exc):
        c.n("too_close")
    elif not r.ok and not r.endless:
        return bad("failed", "the wave could not be routed or carried out: %s" % r.a.brief())
    slices, instrs = r.slices, r.instrs
    nr, nc = len(slices[0]), len(slices[0][0])

    apps = {}
    for t, row in enumerate(instrs):
        for i in row:
            if i.kind == "BellCNOT":
                apps.setdefault(i.key(), []).append((t, i))
    paths, use, incomplete = {}, {}, set()
    for k, a in apps.items():
        t0, ins = a[0]
        ends = [locate(slices, t0, p) for p in ins.ids[:2]]
        ops = [(t, n, x) for t, i in a for n, x in i.local or []]
        try:
            if None in ends:
                raise Bad("operands not on the lattice")
            paths[k] = chain_shape([tuple(x) for _, _, x in ops], ends[::-1])     # target first, as routed
        except Bad as e:
            if not r.ok or len(slices) >= S.MAX_SLICES:
                incomplete.add(k)
                continue
            return bad("path", "%s does not follow one path from target to control: %s" % (k, e))
        for t, _, xs in ops:
            for x in xs:
                if x not in ends:
                    lo, hi = use.get((k, x), (t, t))
                    use[k, x] = (min(lo, t), max(hi, t))
    rounds = {}
    for k in apps:
        if k in paths:
            rounds.setdefault(apps[k][0][0], []).append(k)
    special = {(i, j) for i in range(nr) for j in range(nc) if slices[0][i][j] and slices[0][i][j]["patch_type"] == "DistillationQubit"}
    for t0 in sorted(rounds):
        ks = rounds[t0]
        c.n("rounds")
        c.n("paths", len(ks))
        if any(apps[k][0][0] <= t0 <= apps[k][-1][0] for k in incomplete):
            continue
        if len(ks) > 1:
            c.n("rounds_shared")
        owner, meet = {}, {}
        for k in ks:
            p = paths[k]
            for a, b in zip(p, p[1:]):
                e = (min(a, b), max(a, b))
                if e in owner:
                    return bad("edge", "slice %d: %s and %s share the edge between %s and %s" % (t0, owner[e], k, e[0], e[1]))
                owner[e] = k
                c.n("edge_pairs")
            for x in p[1:-1]:
                meet.setdefault(x, []).append(k)
        for x, m in meet.items():
            if len(m) > 2:
                return bad("meet", "slice %d: %d paths meet in %s: %s" % (t0, len(m), x, m))
            if x in special:
                return bad("occupied", "slice %d: %s is routed through distillation cell %s" % (t0, m, x))
            if len(m) == 2:
                c.n("crossings")
                k1, k2 = m
                i1, i2 = paths[k1].index(x), paths[k2].index(x)
                if sides_of(paths[k1], i1) not in ({0, 1}, {2, 3}):
                    c.n("crossings_bent")
                (a, b), (d, e) = use[k1, x], use[k2, x]
                if not (b < d or e < a):
                    return bad("phase", "slice %d: %s and %s use their common cell %s at the same time (slices %d-%d and %d-%d)" % (t0, k1, k2, x, a, b, d, e))
        # what the slice shows on cells that are reserved and not yet used
        obs = slices[t0]
        for x, m in meet.items():
            o = obs[x[0]][x[1]]
            if o is None:
                return bad("occupied", "slice %d: cell %s on the path of %s is shown free" % (t0, x, m))
            if o["patch_type"] == "Ancilla":
                want = set().union(*(sides_of(paths[k], paths[k].index(x)) for k in m))
                got = {i for i in range(4) if o["edges"][LT.SIDES[i]] in ("DashedStiched", "SolidStiched", "AncillaJoin")}
                c.n("reserved_cells")
                if got != want:
                    return bad("reserved", "slice %d: cell %s shows reserved sides %s, the paths %s use %s" % (t0, x, sorted(got), m, sorted(want)))
            elif o["patch_type"] != "Qubit" or not any(use[k, x][0] == t0 for k in m):
                return bad("occupied", "slice %d: cell %s on the path of %s holds a %s" % (t0, x, m, o["patch_type"]))
        # lengths: with what stayed free on this slice and the edges the round had used so far
        taken = set()
        prev = slices[t0 - 1] if t0 else None

        def open_(x):
            if not (0 <= x[0] < nr and 0 <= x[1] < nc):
                return False
            if x in meet:
                return True
            if obs[x[0]][x[1]] is not None:
                return False
            q = prev[x[0]][x[1]] if prev else None
            return q is None or not (q["patch_type"] == "Ancilla" and "AncillaJoin" in q["edges"].values())
        turned = {i.ids[0] for i in instrs[t0] if i.kind in ("HGate", "Rotate")}
        crossed = {}
        for k in ks:
            p = paths[k]
            ins = apps[k][0][1]
            if not turned & set(ins.ids[:2]):
                best = search(obs, p[0], p[-1], open_, taken, crossed)
                if best is not None:
                    c.n("shortest")
                    if best < len(p) - 1:
                        return bad("longer", "slice %d: %s runs over %d edges, %d were enough on what the earlier paths of the round had left" % (t0, k, len(p) - 1, best))
            for a, b in zip(p, p[1:]):
                taken.add((min(a, b), max(a, b)))
            for x in p[1:-1]:
                crossed[x] = crossed.get(x, 0) + 1
    # whatever the round, a cell serves one path at a time
    by_cell = {}
    for (k, x), (a, b) in use.items():
        by_cell.setdefault(x, []).append((a, b, k))
    for x, us in by_cell.items():
        us.sort()
        for (a, b, k), (d, e, m) in zip(us, us[1:]):
            c.n("reused_cells")
            if d <= b:
                return bad("phase", "cell %s serves %s in slices %d-%d and %s in slices %d-%d" % (x, k, a, b, m, d, e))
    if rounds:
        c.sigs.add(hash((" ".join(s.args), s.text)) & 0xffffffffffff)
        c.sample("%s | %d slices, %d rounds, %d paths" % (s.label()[:300], len(slices), len(rounds), len(paths)))


def search(obs, tgt, ctl, open_, taken, crossed):
    """Fewest edges from the target's X sides to the control's Z sides."""
    def plain(x, s):
        o = obs[x[0]][x[1]]
        return o["edges"][LT.SIDES[s]].replace("Stiched", "") if o and o["patch_type"] == "Qubit" else None
    # on the slice shown the operands' other sides tell how they lie; sides used by the operation keep their type
    q, dist = deque(), {}
    for s in range(4):
        y = (tgt[0] + LT.DELTA[s][0], tgt[1] + LT.DELTA[s][1])
        if plain(tgt, s) == "Dashed" and open_(y) and crossed.get(y, 0) < 2 and (min(tgt, y), max(tgt, y)) not in taken:
            dist[y] = 1
            q.append(y)
    while q:
        x = q.popleft()
        s = LT.side(x, ctl)
        if s is not None and plain(ctl, LT.OPP[s]) == "Solid":
            return dist[x] + 1
        for d in LT.DELTA:
            y = (x[0] + d[0], x[1] + d[1])
            if y not in dist and open_(y) and crossed.get(y, 0) < 2 and (min(x, y), max(x, y)) not in taken:
                dist[y] = dist[x] + 1
                q.append(y)
    return None


def fixed():
    """Programs on which earlier versions of the wave pipeline went wrong."""
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "edpc_fixed.json")) as f:
        return json.load(f)


def scn_fixed(ctx, f):
    n = int(re.search(r"q\[(\d+)\]", f["text"]).group(1))
    s = S.make(ctx, random.Random(n), layout="edpc", pipe="stream", fmt="qasm", local=True, annot=False, nq=n, ngates=2, gates=["h"])
    s.args, s.text, s.pipe = list(f["args"]), f["text"], "edpc"
    return s


def choose(ctx, rng):
    n = rng.choice([2, 3, 4, 6, 9, 12, 16, 20, 25, 30])
    s = S.make(ctx, rng, layout="edpc", pipe="stream", fmt="qasm", local=True, annot=False, nq=n, ngates=2, gates=["h"])
    if s is None:
        return None
    s.args = ["-L", "edpc"] + (["--condensed"] if rng.random() < 0.4 else []) + (["--notwists"] if rng.random() < 0.2 else []) + ["-I", "qasm", "--local", "-P", "edpc"]
    if rng.random() < 0.3:
        s.args += ["-g", rng.choice(["djikstra", "astar"])]
    s.text = program(rng, n)
    s.pipe = "edpc"
    return s


def case(ctx, c):
    fx = fixed()
    if c.idx < len(fx):
        c.n("fixed")
        return run(ctx, c, scn_fixed(ctx, fx[c.idx]))
    for _ in range(2):
        s = choose(ctx, c.rng)
        if s is not None:
            run(ctx, c, s)
