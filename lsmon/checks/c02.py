"""C02: the instructions emitted for each gate, simulated for every measurement outcome, implement that gate."""
import math
from .. import blocks as BL, gen, trace as T
from ..run import run_many

NEEDS = ["fast:driver"]
CASES = {"quick": 16000, "thorough": 80000}
FLOOR = {"blocks": 8000, "block:cx": 500, "block:t": 500, "block:cz": 500, "always": 100, "local": 100}
RULE = "one evaluation is one gate's instruction block, cut out by running two prefixes of the program and simulated on a Choi state for every outcome; distinct counts block shapes with gate, mode and annotation"

LAY = {True: "rrrrrrrrrr\nrQrQrQrQrr\nrrrrrrrrAr\nrQrQrQrQrr\nrrrrrrrrrr\nr000rrrrQr\n", False: "rrrrrrrrrr\nrQrQrQrQrr\nrrrrrrrrrr\nrQrQrQrQrr\nrrrrrrrrrr\nr000rrrrQr\n"}
TYPES = ["ZXWithMBMControlFirst", "ZXWithMBMTargetFirst"]
PLACE = ["AncillaNextToControl", "AncillaNextToTarget", "AncillaFreePlacement"]


def program(rng, nq, n, ann):
    """-> [(line, gate tuple, qubits, (type, place))]"""
    out = []
    hot = rng.choice([None, None, "t", "cx", "cz", "s"])
    for _ in range(n):
        k = rng.random()
        if hot and rng.random() < 0.5:
            g = hot
        elif k < 0.35 and nq > 1:
            g = rng.choice(["cx", "cz"])
        elif k < 0.45:
            g = "rz"
        elif k < 0.48:
            g = "reset"
        else:
            g = rng.choice(gen.ONE)
        if g in ("cx", "cz") and nq < 2:
            g = "h"
        if g in ("cx", "cz"):
            a, b = rng.sample(range(nq), 2)
            typ = place = None
            parts = []
            if ann and rng.random() < 0.6:
                if rng.random() < 0.7:
                    typ = rng.choice(TYPES + (["BellBased"] if ann == "bell" else []))
                    parts.append(typ)
                if rng.random() < 0.7:
                    place = rng.choice(PLACE)
                    parts.append(place)
                rng.shuffle(parts)
            out.append(("%s q[%d],%sq[%d];%s" % (g, a, rng.choice(["", " "]), b, " // %" + ",".join(parts) if parts else ""), (g,), (a, b), (typ, place)))
        elif g == "rz":
            num = rng.choice([1, 1, 2, 3, -1, 5, 0, -2, 7])
            txt, val = rng.choice([("%d*pi" % num, num), ("%d*pi/1" % num, num), ("pi/1", 1), ("pi*-1", -1)])
            q = rng.randrange(nq)
            out.append(("rz(%s) q[%d];" % (txt, q), ("rz", val * math.pi), (q,), None))
        elif g == "reset":
            q = rng.randrange(nq)
            out.append(("reset q[%d];" % q, ("reset",), (q,), None))
        else:
            q = rng.randrange(nq)
            out.append(("%s q[%d];" % (g, q), (g,), (q,), None))
    return out


def case(ctx, c):
    rng = c.rng
    nq = rng.choice([1, 2, 2, 3, 4, 6, 9])
    n = rng.choice([3, 8, 15, 25])
    ann = rng.choice([None, "mbm", "bell"])
    local = rng.random() < 0.2
    always = rng.random() < 0.25 and not local and ann != "bell"
    anc = rng.random() < 0.5
    prog = program(rng, nq, n, ann)
    odd = None
    if rng.random() < 0.15:
        # a rotation the program has no decomposition for: refused, or else it has to be that rotation
        q = rng.randrange(nq)
        num, den = rng.choice([1, 1, 1, 3, 5, -1]), rng.choice([2, 4, 8, 3, 16])
        odd = ("rz(%s) q[%d];" % (("pi/%d" % den) if num == 1 and rng.random() < 0.5 else "%d*pi/%d" % (num, den), q), ("rz", num * math.pi / den), (q,), None)
        prog.append(odd)
    args = ["-I", "qasm", "-l", "l.txt", "--printlli"]
    if local:
        args.append("--local")
    if always:
        args += ["--cnotcorrections", "always"]
    elif rng.random() < 0.2:
        args += ["--cnotcorrections", "never"]
    head = "OPENQASM 2.0;\nqreg q[%d];\n" % nq
    progs = [head + "".join(p[0] + "\n" for p in prog[:k]) for k in range(len(prog) + 1)]
    res = run_many(ctx.drv("fast:driver"), [(args, t) for t in progs], {"l.txt": LAY[anc]})
    if odd and (res[-1] is None or not res[-1].ok):
        c.n("refused_rotation")
        if res[-1] is None or res[-1].crashed:
            c.crash("a rotation by another angle", res[-1].brief() if res[-1] else "no result", args=" ".join(args), stdin=progs[-1], layout=LAY[anc])
            return
        progs.pop(); res.pop(); prog.pop()

    def bad(key, msg):
        c.bad(key, "%s\n   args: %s\n   program:\n%s" % (msg, " ".join(args), progs[-1]), args=" ".join(args), stdin=progs[-1], layout=LAY[anc])
    for k, r in enumerate(res):
        if r is None or r.crashed:
            c.crash("a program of supported gates", r.brief() if r else "no result", args=" ".join(args), stdin=progs[k], layout=LAY[anc])
            return
        if not r.ok:
            bad("refused", "a program of supported gates is refused after %r: %s" % (prog[k - 1][0] if k else "", r.brief()))
            return
    try:
        streams = [T.parse_stream(r.out) for r in res]
    except T.TraceError as e:
        bad("unreadable", str(e))
        return
    used = set()
    for k, (line, gate, qs, note) in enumerate(prog):
        a, b = streams[k], streams[k + 1]
        if [i.text for i in b[:len(a)]] != [i.text for i in a]:
            bad("prefix", "adding %r at the end changes the instructions of the gates before it" % line)
            return
        block = b[len(a):]
        c.n("blocks"); c.n("block:" + gate[0])
        c.evals += 1
        txt = "; ".join(i.text for i in block)
        # names
        err = names(block, qs, nq, used)
        if err:
            bad("names:" + gate[0], "%r -> %s : %s" % (line, txt, err))
            continue
        if gate[0] == "reset":
            if [i.text for i in block] != ["Reset %d" % qs[0]]:
                bad("reset", "%r -> %s" % (line, txt))
            continue
        if gate[0] in ("cx", "cz"):
            err = shape(block, qs, note, anc, local)
            if err:
                bad("annotation:" + gate[0], "%r -> %s : %s" % (line, txt, err))
                continue
        mode = "always" if always and gate[0] in ("cx", "cz") else "never"
        if mode == "always":
            c.n("always")
        if local:
            c.n("local")
        err, known = BL.judge(ctx.cache.setdefault("blocks", {}), gate, block, qs, mode)
        c.sigs.add(hash((gate, BL.canon(block, qs)[0], mode)) & 0xffffffffffff)
        if err:
            bad("gate:" + gate[0], "%r -> %s : %s" % (line, txt, err))
        for w in known:
            c.bad("cnot-ancilla-basis:" + w, "%r -> %s" % (line, txt))
        if not known:
            c.n("exact:" + gate[0])
    c.sample("%s | %s -> %d instructions" % (" ".join(args), progs[-1].replace("\n", " ")[:200], len(streams[-1])))


def names(block, qs, nq, used):
    """Every extra patch of a block is new, introduced before use, measured once and not touched afterwards."""
    live, seen = set(), set()
    for i in block:
        for x in i.ids:
            if x in qs:
                continue
            if x < nq:
                return "it acts on patch %d, which the gate does not name" % x
            if i.kind in ("Init", "Magic") and x == i.ids[0] and x not in seen:
                if x in used:
                    return "the name %d has been used before" % x
                live.add(x); seen.add(x)
            elif i.kind == "BellCNOT" and x in i.ids[2:]:
                if x in used or x in seen or i.ids[2] == i.ids[3]:
                    return "the name %d has been used before" % x
                seen.add(x)
            elif x not in live:
                return "%r uses %d, which is not there" % (i.text, x)
        if i.kind in ("Init", "Magic") and i.ids[0] in qs:
            return "it introduces the patch %d anew" % i.ids[0]
        if i.kind == "Measure":
            if i.ids[0] in qs:
                return "it measures the qubit %d" % i.ids[0]
            live.discard(i.ids[0])
        near = i.extra[1][0] if i.kind == "Init" and i.extra[1] else i.extra if i.kind == "Magic" else None
        if near is not None and near not in qs:
            return "%r is placed next to a patch the gate does not name" % i.text
    used |= seen
    return "patches %s stay behind" % sorted(live) if live else None


def shape(block, qs, note, anc, local):
    """Does the block follow the annotation?"""
    typ, place = note
    bell = [i for i in block if i.kind == "BellCNOT"]
    if local or typ == "BellBased":
        if len(bell) != 1:
            return "a Bell based CNOT was asked for"
        return None
    if bell:
        return "a Bell based CNOT was not asked for"
    ini = [i for i in block if i.kind == "Init"]
    mb = [i for i in block if i.kind == "MBM"]
    if len(ini) != 1 or len(mb) != 2:
        return "%d ancillas, %d joint measurements" % (len(ini), len(mb))
    place = place or ("AncillaFreePlacement" if anc else "AncillaNextToTarget")
    want = {"AncillaFreePlacement": None, "AncillaNextToControl": (qs[0], "Z"), "AncillaNextToTarget": (qs[1], "X")}[place]
    if ini[0].extra[1] != want:
        return "the ancilla should be placed %s" % place
    first = qs[1] if typ == "ZXWithMBMTargetFirst" else qs[0]
    if first not in mb[0].ids:
        return "the first joint measurement should involve %d" % first
    return None
