from .. import scenario as S, lattice as LT, gen
from ..stab import Tableau
import re
NEEDS = ["fast:driver"]
CASES = {"quick": 1400, "thorough": 30000}
FLOOR = {"cnots": 1500, "pairs": 150, "cnots_edpc": 300, "chain_even": 300, "chain_odd": 300, "measure2": 300, "prepare_y": 40}
RULE = ("One evaluation is one --local run (QASM or LLI, edpc/compact/custom layouts, stream, dag, wave and edpc pipelines). The local operations printed for every "
        "instruction are gathered over all its appearances, checked against the slices (adjacency, one operation per cell and slice, which boundaries touch, where the named patches "
        "are), joined into one chain and run on a stabilizer tableau whose group must be the one of the operation replaced. Non-trivial: at least one local operation judged; distinct by flags, program and layout.")
SIDES, DELTA, OPP = LT.SIDES, LT.DELTA, LT.OPP


class Bad(Exception):
    pass


def edge(slc, a, b):
    """What a's cell shows on its side towards b."""
    s = LT.side(a, b)
    o = slc[a[0]][a[1]]
    return o["edges"][SIDES[s]] if o else None


def joint(slc, a, b):
    """Pauli measured by a joint operation through a's boundary towards b."""
    e = edge(slc, a, b)
    if e == "SolidStiched":
        return "Z"
    if e == "DashedStiched":
        return "X"
    raise Bad("cell %s shows edge %s towards %s during a joint operation" % (a, e, b))


def locate(slices, t, pid):
    """Cell of a patch by what slices show (latest slice not after t that shows it)."""
    want = "Id: %d" % pid
    for k in range(t, -1, -1):
        xs = [(r, c) for r, row in enumerate(slices[k]) for c, o in enumerate(row) if o and o["text"] == want]
        if len(xs) == 1:
            return xs[0]
        if xs:
            return None
    return None


CONJ = {"X": "Z", "Z": "X"}


def chain_shape(pairs, ends):
    """The pairs must form one simple path between the two end cells. -> cells in order"""
    nb = {}
    for a, b in pairs:
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    if len(set(map(frozenset, pairs))) < len(nb) - 1:
        raise Bad("the local operations do not form one connected chain")
    for e in ends:
        if len(nb.get(e, ())) != 1:
            raise Bad("end cell %s of the chain touches %d cells of it" % (e, len(nb.get(e, ()))))
    out, prev = [ends[0]], None
    while out[-1] != ends[1]:
        nx = [y for y in nb[out[-1]] if y != prev]
        if len(nx) != 1:
            raise Bad("the chain branches or breaks at %s" % (out[-1],))
        prev = out[-1]
        out.append(nx[0])
        if len(out) > len(nb):
            raise Bad("the chain runs in a circle")
    if len(out) != len(nb):
        raise Bad("cells outside the chain are used")
    return out


def walk(tab, slices, ops, start):
    """Runs local operations [(t, name, cells)] on the tableau. -> (prepared, measured) counts per cell"""
    prep, gone = {}, {}

    def fresh(x, name):
        if x in tab.q:
            raise Bad("%s prepares %s, which is in use by the same operation" % (name, x))
        prep[x] = prep.get(x, 0) + 1

    def used(x, name):
        if x not in tab.q:
            raise Bad("%s acts on %s, where the operation has prepared nothing" % (name, x))

    def out(x):
        gone[x] = gone.get(x, 0) + 1
        tab.drop(x)
    for t, name, cells in ops:
        slc = slices[t]
        if name == "BellPrepare":
            a, b = cells
            fresh(a, name)
            fresh(b, name)
            tab.bell(a, b)
        elif name == "BellMeasure":
            a, b = cells
            used(a, name)
            used(b, name)
            tab.measure({a: "X", b: "X"})
            tab.measure({a: "Z", b: "Z"})
            # both leave in a Bell state of their own
            tab.measure({a: "Z"})
            tab.measure({b: "Z"})
            out(a)
            out(b)
        elif name == "Move":
            a, b = cells
            used(a, name)
            fresh(b, name)
            tab.move(a, b)
            gone[a] = gone.get(a, 0) + 1
        elif name == "ExtendSplit":
            a, b = cells
            used(a, name)
            fresh(b, name)
            p = joint(slc, a, b)
            tab.add(b, CONJ[p])
            tab.measure({a: p, b: p})
        elif name == "MergeContract":
            a, b = cells
            used(a, name)
            used(b, name)
            p = joint(slc, a, b)
            tab.measure({a: p, b: p})
            tab.measure({b: CONJ[p]})
            out(b)
        else:
            raise Bad("unexpected local operation %s" % name)
    for x in set(prep) | set(gone):
        if x not in start and x in gone and (prep.get(x, 0), gone[x]) != (1, 1):
            raise Bad("cell %s prepared %d times and measured %d times" % (x, prep.get(x, 0), gone[x]))
    return prep


def judge_cnot(c, slices, apps):
    ins = apps[0][1]
    t0 = apps[0][0]
    ctl, tgt = locate(slices, t0, ins.ids[0]), locate(slices, t0, ins.ids[1])
    if ctl is None or tgt is None:
        c.n("unlocated")
        return None
    ops = [(t, n, x) for t, i in apps for n, x in i.local or []]
    if not ops:
        return "nothing"
    tab = Tableau()
    for p, r in ((ctl, "rc"), (tgt, "rt")):
        tab.bell(p, r)
    pairs = [tuple(x) for _, _, x in ops]
    cells = chain_shape(pairs, (ctl, tgt))
    walk(tab, slices, ops, (ctl, tgt))
    left = [x for x in tab.q if x not in (ctl, tgt, "rc", "rt")]
    if left:
        raise Bad("cells %s still hold a patch of the operation" % sorted(left))
    for want in ({"rc": "X", ctl: "X", tgt: "X"}, {"rc": "Z", ctl: "Z"}, {"rt": "X", tgt: "X"}, {"rt": "Z", ctl: "Z", tgt: "Z"}):
        if not tab.has(want):
            raise Bad("the operations do not amount to a CNOT: %s is not preserved" % " ".join("%s_%s" % (v, "control" if k == ctl else "target" if k == tgt else "in:" + str(k)) for k, v in want.items()))
    c.n("chain_even" if len(cells) % 2 == 0 else "chain_odd")
    c.n("cnots")
    if len({t for t, n, _ in ops}) > 2:
        c.n("cnots_interrupted")
    return cells


def judge_pair(c, slices, instrs, apps):
    ins = apps[0][1]
    t0 = apps[0][0]
    near = [locate(slices, t0, p) for p in ins.ids[2:4]]
    ops = [(t, n, x) for t, i in apps for n, x in i.local or []]
    if not ops or None in near:
        return None
    tab = Tableau()
    walk(tab, slices, ops, ())
    left = sorted(tab.q, key=str)
    if len(left) != 2:
        raise Bad("%d cells hold a patch when the pair is ready" % len(left))
    chain_shape([tuple(x) for _, _, x in ops], left)
    a, b = left
    if not (tab.has({a: "X", b: "X"}) and tab.has({a: "Z", b: "Z"})):
        raise Bad("the two patches are not a Bell pair")
    tl = apps[-1][0]
    got = [locate(slices[tl:tl + 1], 0, p) for p in ins.ids[:2]]
    hidden = any(o and o["patch_type"] == "Ancilla" for x in left for o in [slices[tl][x[0]][x[1]]])
    if sorted(map(str, got)) != sorted(map(str, left)):
        if hidden:
            c.n("hidden")
            return None
        raise Bad("sides %s are shown at %s, the pair is at %s" % (ins.ids[:2], got, left))
    turned = {i.ids[0] for i in instrs[t0] if i.kind == "HGate"}      # shown with the boundaries they have afterwards
    for p, x, y, op, q in zip(ins.ids[:2], got, near, ins.ops, ins.ids[2:4]):
        s = LT.side(y, x)
        if s is None:
            raise Bad("side %d is at %s, not next to the patch at %s" % (p, x, y))
        o = slices[t0][y[0]][y[1]]
        e = o["edges"][SIDES[s]]
        if o["patch_type"] == "Qubit" and q not in turned and e.replace("Stiched", "") != {"Z": "Solid", "X": "Dashed"}[op]:
            raise Bad("side %d is at a %s boundary of the patch at %s, %s was asked for" % (p, e, y, op))
    c.n("pairs")
    c.n("pair_even" if len(ops) and len({z for _, _, x in ops for z in x}) % 2 == 0 else "pair_odd")
    return True


def run(ctx, c, s):
    r = S.execute(ctx, c, s)
    if r is None:
        return
    c.evals += 1
    slices, instrs = r.slices, r.instrs

    def bad(k, msg):
        c.bad(k, "%s\n   args: %s\n   input: %r\n   layout: %r" % (msg, " ".join(s.args), s.text, s.files), **s.describe())
    judged = 0
    # every operation on one cell or on two adjacent ones, none twice on a cell of one slice
    for t, row in enumerate(instrs):
        busy = {}
        for i in row:
            for name, cells in i.local or []:
                judged += 1
                if len(cells) not in (1, 2) or (len(cells) == 2 and LT.side(*cells) is None):
                    return bad("adjacent", "slice %d: %s in %s is not on adjacent cells" % (t, (name, cells), i.text))
                for x in cells:
                    if not (0 <= x[0] < len(slices[t]) and 0 <= x[1] < len(slices[t][0])):
                        return bad("adjacent", "slice %d: %s in %s leaves the grid" % (t, (name, cells), i.text))
                    if x in busy:
                        return bad("twice", "slice %d: cell %s is used by %s and by %s" % (t, x, busy[x], (name, cells, i.key())))
                    busy[x] = (name, cells, i.key())
                if len(cells) == 2 and not (str(edge(slices[t], *cells)).endswith("Stiched") and str(edge(slices[t], *cells[::-1])).endswith("Stiched")):
                    return bad("stitch", "slice %d: %s in %s: the cells are not shown joined" % (t, (name, cells), i.text))
            try:
                if i.kind == "MBM" and s.local:
                    if not i.local or [n for n, _ in i.local] != ["TwoPatchMeasure"]:
                        raise Bad("not carried out as one two-patch measurement")
                    want = [locate(slices, t, p) for p in i.ids]
                    if None not in want and i.local[0][1] != want:
                        raise Bad("acts on %s, its patches are at %s" % (i.local[0][1], want))
                    a, b = i.local[0][1]
                    if [joint(slices[t], a, b), joint(slices[t], b, a)] != list(i.ops):
                        raise Bad("boundaries that touch do not expose the operators measured")
                    c.n("measure2")
                elif i.kind == "YState" and i.local:
                    x = i.local[0][1][0]
                    y = locate(slices, t, i.extra)
                    if y is not None:
                        o, w = slices[t][x[0]][x[1]], slices[t][y[0]][y[1]]
                        if LT.side(x, y) is None:
                            raise Bad("Y state prepared at %s, not next to %s" % (x, y))
                        for p, q, z in ((x, y, o), (y, x, w)):
                            if z["patch_type"] == "Qubit" and z is not (w if any(h.kind == "HGate" and h.ids[0] == i.extra for h in row) else None) and not edge(slices[t], p, q).startswith("Solid"):
                                raise Bad("the touching boundary of %s is %s" % (p, edge(slices[t], p, q)))
                        c.n("prepare_y")
            except Bad as e:
                return bad("op:" + i.kind, "slice %d: %s: %s" % (t, i.text, e))
    # whole expansions
    apps = {}
    for t, row in enumerate(instrs):
        for i in row:
            if i.kind in ("BellCNOT", "BellPairInit"):
                apps.setdefault(i.key(), []).append((t, i))
    last = len(instrs) - 1
    dup = {}
    for l in s.text.split("\n"):
        dup[l] = dup.get(l, 0) + 1
    cells_of = {}
    for k, a in apps.items():
        if dup.get(k, 0) > 1 or (a[0][1].kind == "BellPairInit" and len(set(a[0][1].ids[2:4])) == 1):
            c.n("skipped")
            continue
        try:
            if a[0][1].kind == "BellCNOT":
                v = judge_cnot(c, slices, a)
                if v == "nothing":
                    if r.ok and len(slices) < S.MAX_SLICES:
                        raise Bad("applied without any local operation")
                    continue
                if v and s.pipe == "edpc":
                    c.n("cnots_edpc")
                    if len(a) > 1 and len({t for t, i in a if i.local}) > 2:
                        c.n("cnots_edpc_long")
                if v:
                    cells_of[k] = v
            else:
                judge_pair(c, slices, instrs, a)
        except Bad as e:
            # an expansion under way when the observation ends cannot be judged
            if (not r.ok or len(slices) >= S.MAX_SLICES) and a[-1][0] >= last - 3:
                c.n("unfinished")
                continue
            ops = "; ".join("t%d %s %s" % (t, n, x) for t, i in a for n, x in i.local or [])
            return bad("chain:" + re.sub(r"\d+", "N", str(e))[:60], "%s: %s\n   operations: %s" % (k, e, ops))
    if r.ok and s.pipe != "edpc" and s.spec:
        m = S.replay(c, s, r)
        c.evals -= 1
        hits = [x for x in m.v if x[0] == "local"]
        other = [x for x in m.v if x[0] != "local"]
        if hits:
            return bad("model:" + re.sub(r"\d+", "N", hits[0][1])[:80], hits[0][1])
        if other:
            c.n("other_category")
            c.inconclusive.append("[%s] %s" % other[0])
    if judged:
        c.obs["local_ops"] = c.obs.get("local_ops", 0) + judged
        c.sigs.add(hash((" ".join(s.args), s.text, s.spec.text)) & 0xffffffffffff)
        c.sample("%s | %d slices, %d local operations, %d expansions" % (s.label()[:300], len(slices), judged, len(apps)))


def choose(ctx, rng):
    pipe = rng.choice(["stream", "dag", "wave", "edpc", "edpc"])
    if pipe == "edpc":
        s = S.make(ctx, rng, layout="edpc", pipe="stream", fmt="qasm", local=True, annot=False, nq=rng.choice([2, 3, 4, 6, 9, 12, 16]), ngates=rng.choice([4, 8, 14, 24]),
                   gates=rng.choice([["h", "x", "z"], ["h", "s", "x"], ["h", "t", "s"]]))
        if s is None:
            return None
        s.args = [a for a in s.args if a not in ("-P", "stream", "-g", "djikstra", "astar", "boost")] + ["-P", "edpc"]
        s.pipe = "edpc"
        return s
    if rng.random() < 0.45:
        s = S.make(ctx, rng, layout=rng.choice(["custom", "custom", "custom", "edpc", "compact_no_clogging"]), pipe=pipe, local=True, fmt="lli", kind="open",
                   nq=rng.choice([2, 3, 4, 5, 6, 8]))
        if s:
            s.text = gen.bell_program(rng, s.ids)
        return s
    if rng.random() < 0.3:
        return S.make(ctx, rng, layout=rng.choice(["custom", "custom", "compact_no_clogging", "edpc"]), pipe=pipe, local=True, fmt="lli", ngates=rng.choice([5, 10, 16]))
    return S.make(ctx, rng, layout=rng.choice(["edpc", "edpc", "edpc", "compact_no_clogging"]), pipe=pipe, local=True, fmt="qasm", annot=False,
                  gates=rng.choice([None, ["h", "x", "z"], ["h", "s"]]), ngates=rng.choice([5, 10, 20]))


def case(ctx, c):
    from . import c16
    fx = c16.fixed()
    if c.idx < len(fx):
        c.n("fixed")
        return run(ctx, c, c16.scn_fixed(ctx, fx[c.idx]))
    for _ in range(3):
        s = c16.choose(ctx, c.rng) if c.rng.random() < 0.2 else choose(ctx, c.rng)
        if s is not None:
            run(ctx, c, s)
