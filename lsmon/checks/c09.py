from .. import scenario as S, latticecheck as L, lattice as LT, order as O
from . import c16
import re
NEEDS = ["fast:driver"]
CASES = {"quick": 1200, "thorough": 40000}
FLOOR = {'rotations_done': 800, 'i_HGate': 1000, 'edpc_turns': 1000, 'edpc_rotating': 1000, 'edpc_compared': 20000}
RULE = ('One evaluation is one run of the program (random QASM or LLI program, layout, pipeline, flags), its slices and applied instructions replayed cell by cell against a reference model of the lattice. Every rotation is followed from its start to its end, and every boundary of every patch is compared on every slice. '
        'Runs of the edpc pipeline (not covered by the reference model) are judged on the boundaries and places of all data patches: turned exactly by the Hadamards and rotations applied so far. Non-trivial: at least one slice was judged; distinct by flags, program and layout.')
CATS = {'rotate'}


def key(c, t):
    return c + ":" + re.sub(r"\d+", "N", t)[:100]


def choose(ctx, rng):
    return S.make(ctx, rng, local=rng.random() < 0.1, gates=["h", "h", "s", "sdg", "x", "h"], fmt=rng.choice(["lli", "qasm"]))


def lies(o):
    """0/1: how the patch lies, None if its sides are not those of one square patch."""
    e = [o["edges"][n].replace("Stiched", "") for n in LT.SIDES]
    by = {n: v for n, v in zip(LT.SIDES, e)}
    if by["Top"] == by["Bottom"] and by["Left"] == by["Right"] and {by["Top"], by["Left"]} == {"Solid", "Dashed"}:
        return int(by["Top"] == "Dashed")
    return None


def edpc(ctx, c):
    rng = c.rng
    s = c16.choose(ctx, rng)
    if s is None:
        return
    n = int(re.search(r"q\[(\d+)\]", s.text).group(1))
    lines = s.text.strip().split("\n")
    for _ in range(rng.choice([3, 10, 25])):
        lines.insert(rng.randrange(1, len(lines) + 1), "%s q[%d];" % (rng.choice("hhhsx"), rng.randrange(n)))
    s.text = "\n".join(lines) + "\n"
    r = S.execute(ctx, c, s)
    if r is None or not r.slices:
        return
    stream = L.stream_of(ctx, s)
    if stream is None:
        c.inconclusive.append("no stream")
        return
    o = O.Order(stream, r.instrs, r.tail, s.pipe, r.ok)
    if o.v:
        c.n("other_category")
        return

    def bad(k, msg):
        c.bad(k, "%s\n   args: %s\n   input: %r" % (msg, " ".join(s.args), s.text), **s.describe())
    c.evals += 1
    slices = r.slices
    where = [{int(x["text"][4:]): (i, j) for i, row in enumerate(g) for j, x in enumerate(row) if x and x["patch_type"] == "Qubit" and x["text"].startswith("Id: ")} for g in slices]
    flips, spans = {}, {}
    for i, ins in enumerate(stream):
        if o.when[i] is None:
            continue
        if ins.kind == "HGate":
            flips.setdefault(ins.ids[0], []).append(o.when[i])
        elif ins.kind == "Rotate":
            end = o.done[i] if o.done[i] is not None else len(slices)
            flips.setdefault(ins.ids[0], []).append(end)
            cells = next((r.instrs[t][p].extra[0] for (t, p), k in o.owner.items() if k == i and t < len(r.instrs) and r.instrs[t][p].kind == "Busy"), None)
            spans.setdefault(ins.ids[0], []).append((o.when[i], end, cells))
    c.n("edpc_turns", sum(map(len, flips.values())))
    made = {p for ins in stream if ins.kind in ("Init", "Magic", "YState", "BellPairInit") for p in ins.ids[:1]} | {p for ins in stream if ins.kind == "BellCNOT" for p in ins.ids[2:]}
    qubits = {p for ins in stream for p in ins.patches()} - made
    gone = {}
    for i, ins in enumerate(stream):
        if ins.kind == "Measure" and o.when[i] is not None:
            gone.setdefault(ins.ids[0], o.when[i])
    for q in sorted(qubits):
        home = base = None
        for t in range(len(slices)):
            if t >= gone.get(q, 1 << 30):
                break
            span = next((x for x in spans.get(q, ()) if x[0] <= t < x[1]), None)
            at = where[t].get(q)
            if span:
                c.n("edpc_rotating")
                if at is not None:
                    return bad("edpc:rotating", "slice %d: patch %d is at %s while it is being rotated (slices %d-%d)" % (t, q, at, span[0], span[1]))
                for x in span[2] or ():
                    p = slices[t][x[0]][x[1]]
                    if p is None or p["patch_type"] != "Ancilla":
                        return bad("edpc:region", "slice %d: cell %s of the rotation of patch %d (slices %d-%d) holds %s" % (
                            t, x, q, span[0], span[1], p and p["patch_type"]))
                if span[2] and home is not None and home not in span[2]:
                    return bad("edpc:place", "slice %d: patch %d at %s is rotated in %s" % (t, q, home, span[2]))
                continue
            if at is None:
                return bad("edpc:lost", "slice %d: patch %d is not on the lattice" % (t, q))
            k = sum(1 for f in flips.get(q, ()) if f <= t) & 1
            lie = lies(slices[t][at[0]][at[1]])
            if home is None:
                home, base = at, (lie if lie is None else lie ^ k)
            if lie is None:
                return bad("edpc:sides", "slice %d: patch %d shows sides %s" % (t, q, slices[t][at[0]][at[1]]["edges"]))
            c.n("edpc_compared")
            if at != home:
                return bad("edpc:place", "slice %d: patch %d is at %s, its cell is %s" % (t, q, at, home))
            if lie != base ^ k:
                return bad("edpc:turned", "slice %d: after %d Hadamards and finished rotations the boundaries of patch %d are exchanged %s" % (
                    t, sum(1 for f in flips.get(q, ()) if f <= t), q, "an even number of times" if k else "an odd number of times"))
    c.sigs.add(hash((" ".join(s.args), s.text)) & 0xffffffffffff)
    c.sample("%s | edpc, %d slices" % (s.label()[:300], len(slices)))


def case(ctx, c):
    L.run_case(ctx, c, CATS, key, choose, subs=3)
    edpc(ctx, c)
