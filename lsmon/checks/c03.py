"""C03: what the injection passes chosen by layout and S mode do to the instruction stream."""
from .. import blocks as BL, gen, qsim as Q, trace as T, layouts as Y, lattice as LT
from ..run import run_many
from . import c02

NEEDS = ["fast:driver"]
CASES = {"quick": 16000, "thorough": 80000}
FLOOR = {"steps": 40000, "sgate:teleported": 300, "sgate:catalytic": 100, "rotations": 1000, "rotation_not_needed": 1000, "h_rotations": 200, "lli": 100}
RULE = "one evaluation is what one gate or instruction became under one layout and S mode; distinct counts (mode, instruction kind, inserted instructions) shapes"

OPEN = "rrrrrrrr\nrQrQrQrr\nrrrrrrAr\nrQrQrQrr\nrrrrrrrr\n"
SHUT = OPEN.replace("A", "r")
MODES = [("compact", ["-L", "compact"]), ("compact", []), ("compact", []), ("compact", ["-L", "compact"]), ("compact_no_clogging", ["-L", "compact_no_clogging"]), ("compact_no_clogging", ["-L", "compact_no_clogging"]),
         ("edpc", ["-L", "edpc"]), ("edpc", ["-L", "edpc", "--condensed"]), ("edpc", ["-L", "edpc", "--numlanes", "2"]), ("edpc", ["-L", "edpc", "--explicitfactories"]),
         ("catalytic", ["-L", "edpc", "--notwists"]), ("catalytic", ["-L", "edpc", "--notwists", "--condensed"]), ("custom", None)]


def lli_program(rng):
    ids = rng.sample(range(0, 40), rng.choice([1, 2, 3, 5, 8]))
    if max(ids) < 12:
        ids[0] = rng.randint(20, 50)
    names = [x for x in range(max(ids)) if x not in ids]
    rng.shuffle(names)
    if rng.random() < 0.05:
        names = [max(ids) + 1 + x for x in range(6)]
    live = list(ids)
    out = []
    for _ in range(rng.choice([4, 10, 20])):
        k = rng.random()
        p = rng.choice(live) if live else None
        if p is None:
            break
        if k < 0.25:
            out.append("SGate %d" % p)
        elif k < 0.40:
            out.append("HGate %d" % p)
        elif k < 0.5:
            out.append("RotateSingleCellPatch %d" % p)
        elif k < 0.70 and len(live) > 1:
            n = rng.choice([2, 2, 2, 3]) if len(live) > 2 else 2
            out.append("MultiBodyMeasure %s" % ",".join("%d:%s" % (x, rng.choice("XZ")) for x in rng.sample(live, n)))
        elif k < 0.78 and names:
            new = names.pop(rng.randrange(len(names)))
            out.append("Init %d %s%s" % (new, rng.choice(["|0>", "|+>"]), " %d:%s" % (p, rng.choice("XZ")) if rng.random() < 0.6 else ""))
            live.append(new)
        elif k < 0.84 and names:
            new = names.pop(0)
            out.append("RequestMagicState %d %d" % (new, p))
            live.append(new)
        elif k < 0.90:
            out.append("LogicalPauli %d %s" % (p, rng.choice("XZ")))
        elif k < 0.93 and len(live) > 3 and len(names) > 1:
            a, b = rng.sample(live, 2)
            out.append("BellBasedCNOT %d %d %d %d" % (a, b, names.pop(), names.pop()))
        elif len(live) > 1:
            out.append("MeasureSinglePatch %d %s" % (p, rng.choice("XZ")))
            live.remove(p)
            if rng.random() < 0.3:
                # the name comes back for an ancilla
                out.append("Init %d |0>" % p)
                live.append(p)
    return "DeclareLogicalQubitPatches " + ",".join(map(str, ids)) + "\n", out, ids


def case(ctx, c):
    rng = c.rng
    mode, largs = rng.choice(MODES)
    local = rng.random() < (0.35 if mode == "catalytic" else 0.1)
    cust = OPEN if rng.random() < 0.5 else SHUT
    always = False
    if rng.random() < 0.65:
        fmt = "qasm"
        nq = rng.choice([1, 2, 2, 3, 4, 6])
        always = rng.random() < 0.2 and not local
        ann = None if always else rng.choice([None, "mbm", "mbm", "bell"])
        prog = c02.program(rng, nq, rng.choice([3, 8, 14]), ann)
        if rng.random() < 0.6:
            prog = [p if rng.random() < 0.6 or len(p[2]) > 1 else ("%s q[%d];" % (g, p[2][0]), (g,), p[2], None) for p in prog for g in [rng.choice(["s", "s", "sdg", "h", "t"])]]
        head = "OPENQASM 2.0;\nqreg q[%d];\n" % nq
        lines = [p[0] for p in prog]
        ids = list(range(nq))
        fargs = ["-I", "qasm"] + (["--cnotcorrections", "always"] if always else [])
    else:
        fmt = "lli"
        head, lines, ids = lli_program(rng)
        prog = [(l, None, None, None) for l in lines]
        fargs = []
        c.n("lli")
    # the stream without passes: a custom layout gets none. Ancilla placement follows the layout, so use one of the same kind
    raw_l = SHUT if mode in ("edpc", "catalytic") else OPEN
    if mode == "custom":
        raw_l = cust
    files = {"raw.txt": raw_l, "l.txt": cust}
    loc = ["--local"] if local else []
    raw_args = fargs + loc + ["--printlli", "-l", "raw.txt"]
    args = fargs + loc + ["--printlli"] + (largs if largs is not None else ["-l", "l.txt"])
    progs = [head + "".join(l + "\n" for l in lines[:k]) for k in range(len(lines) + 1)]
    res = run_many(ctx.drv("fast:driver"), [(raw_args, p) for p in progs] + [(args, p) for p in progs], files)

    def bad(key, msg):
        c.bad(key, "%s\n   args: %s\n   program:\n%s" % (msg, " ".join(args), progs[-1]), args=" ".join(args), stdin=progs[-1])
    for r in res:
        if r is None or r.crashed:
            c.crash("a program of supported gates", r.brief() if r else "no result", args=" ".join(args), stdin=progs[-1])
            return
        if not r.ok:
            bad("refused", r.brief())
            return
    try:
        st = [T.parse_stream(r.out) for r in res]
    except T.TraceError as e:
        bad("unreadable", str(e))
        return
    n = len(progs)
    raws, injs = st[:n], st[n:]
    if mode == "custom":
        c.n("custom")
    expo = None
    if mode in ("compact", "compact_no_clogging"):
        m = LT.Lattice(Y.Spec(Y.compact(len(ids), mode == "compact_no_clogging")), sorted_ids(ids))
        expo = {}
        for x, cell in list(m.g.items()):
            if cell.kind == "Qubit" and cell.id is not None:
                expo[cell.id] = {op for op in "XZ" if any(m.free(y) and m.boundary_ok(x, y, op) for y in m.spec.neigh(x))}
    core = set(ids)
    ren = {}            # ancilla names of the raw stream -> injected stream
    used = set(core)
    if fmt == "lli":
        # what the program itself names
        for i in raws[-1]:
            used |= set(i.ids)
    userids = set(used) if fmt == "lli" else core
    for k, (line, gate, qs, note) in enumerate(prog):
        a, b = injs[k], injs[k + 1]
        if [i.text for i in b[:len(a)]] != [i.text for i in a]:
            bad("prefix", "adding %r at the end changes the instructions before it" % line)
            return
        rb, ib = raws[k + 1][len(raws[k]):], b[len(a):]
        c.n("steps")
        c.evals += 1
        txt = "%r -> %s" % (line, "; ".join(i.text for i in ib))
        err = align(c, ctx, mode, rb, ib, core, expo, ren, used, userids, local)
        if err:
            bad(err[0], "%s : %s (without the passes: %s)" % (txt, err[1], "; ".join(i.text for i in rb)))
            return
        c.sigs.add(hash((mode, local, tuple(i.kind for i in ib), gate)) & 0xffffffffffff)
        if gate and gate[0] != "reset":
            # the whole of it still is the gate
            corr = "always" if always and gate[0] in ("cx", "cz") else "never"
            e, known = judge_gate(ctx, gate, ib, qs, corr, mode)
            if e:
                bad("gate:" + gate[0], "%s : %s" % (txt, e))
            if known:
                c.n("cnot_basis_elsewhere")      # the lowering of CNOT itself is judged by C02
    c.sample("%s | %s -> %d instructions" % (" ".join(args), progs[-1].replace("\n", " ")[:200], len(injs[-1])))


def sorted_ids(ids):
    return list(ids)


def judge_gate(ctx, gate, ib, qs, corr, mode):
    if gate[0] in ("t", "tdg") and any(i.kind == "YState" for i in ib):
        # magic state block, then the S correction as a teleported or catalytic S: put the S back for judging
        ib = fold_s(ib)
    return BL.judge(ctx.cache.setdefault("blocks", {}), gate, ib, qs, corr, zero=not any(i.kind == "YState" for i in ib))


def fold_s(ib):
    """Replaces an S block (judged on its own) by the S gate."""
    ys = [k for k, i in enumerate(ib) if i.kind == "YState"]
    q = ib[ys[0]].extra
    last = max(k for k, i in enumerate(ib) if ib[ys[0]].ids[0] in i.ids)
    if last + 1 < len(ib) and ib[last + 1].kind == "ZGate":
        last += 1
    return ib[:ys[0]] + [T.Instr("SGate %d" % q, "SGate", [q])] + ib[last + 1:]


def same(r, i, ren, used, userids):
    """Is injected instruction i the raw instruction r under the renaming? New ancilla names are added."""
    if r.kind != i.kind or r.ops != i.ops or r.neg != i.neg or len(r.ids) != len(i.ids):
        return False
    pairs = list(zip(r.ids, i.ids))
    rx = ix = None
    if r.kind == "Init":
        if r.extra[0] != i.extra[0] or bool(r.extra[1]) != bool(i.extra[1]):
            return False
        if r.extra[1]:
            if r.extra[1][1] != i.extra[1][1]:
                return False
            pairs.append((r.extra[1][0], i.extra[1][0]))
    elif r.kind in ("Magic", "YState"):
        pairs.append((r.extra, i.extra))
    elif r.extra != i.extra:
        return False
    new = {}
    for x, y in pairs:
        if x in userids:
            if x != y:
                return False
        elif x in ren or x in new:
            if ren.get(x, new.get(x)) != y:
                return False
        else:
            if y in used or y in new.values():
                return False
            new[x] = y
    ren.update(new)
    used |= set(new.values())
    return True


def needs(r, expo):
    """Core patches whose boundary the instruction needs although it is not exposed."""
    if expo is None:
        return []
    want = []
    if r.kind == "MBM":
        want = list(zip(r.ids, r.ops))
    elif r.kind == "BellCNOT":
        want = [(r.ids[0], "Z"), (r.ids[1], "X")]
    elif r.kind == "SGate":
        want = [(r.ids[0], "Z")]
    elif r.kind == "Init" and r.extra[1]:
        want = [r.extra[1]]
    return [p for p, op in want if p in expo and op not in expo[p]]


FLIP = {"X": "Z", "Z": "X"}


def align(c, ctx, mode, rb, ib, core, expo, ren, used, userids, local):
    pos = 0
    for n, r in enumerate(rb):
        need = sorted(needs(r, expo))
        got = []
        replaced = r.kind == "SGate" and r.ids[0] in core and mode != "custom"
        while pos < len(ib) and ib[pos].kind == "Rotate" and len(got) < len(need):
            got.append(ib[pos].ids[0])
            pos += 1
        if sorted(got) != need:
            return "rotation", "%r needs %s rotated first, rotated are %s" % (r.text, need, got)
        for p in got:
            expo[p] = {FLIP[x] for x in expo[p]}
            c.n("rotations")
        if expo is not None and not need and r.kind in ("MBM", "SGate", "BellCNOT"):
            c.n("rotation_not_needed")
        if pos >= len(ib) and not replaced:
            return "dropped", "%r is missing" % r.text
        if replaced:
            # everything up to where the rest of the block continues
            rest = rb[n + 1:]
            left = len(rest) + sum(1 for x in rest if mode in ("edpc", "catalytic") and x.kind == "HGate" and x.ids[0] in core)
            blk = ib[pos:len(ib) - left]
            e = sblock(c, ctx, blk, r.ids[0], mode, used, local, userids, core)
            if e:
                return e
            pos += len(blk)
        else:
            if not same(r, ib[pos], ren, used, userids):
                return "changed", "%r became %r" % (r.text, ib[pos].text)
            pos += 1
            if r.kind == "HGate" and r.ids[0] in core and mode in ("edpc", "catalytic"):
                if pos >= len(ib) or ib[pos].kind != "Rotate" or ib[pos].ids[0] != r.ids[0]:
                    return "h_rotation", "the patch is not rotated back after %r" % r.text
                pos += 1
                c.n("h_rotations")
        if expo is not None:
            if r.kind in ("HGate", "Rotate") and r.ids[0] in expo:
                expo[r.ids[0]] = {FLIP[x] for x in expo[r.ids[0]]}
            elif r.kind == "Measure" or r.kind == "Init":
                pass
    if pos != len(ib):
        return "extra", "%r does not belong there" % ib[pos].text
    return None


def sblock(c, ctx, blk, q, mode, used, local, userids, core):
    cat = mode == "catalytic"
    c.n("sgate:" + ("catalytic" if cat else "teleported"))
    if not blk or any(i.kind == "SGate" for i in blk):
        return "bare_s", "an S gate is left for a layout that cannot execute it"
    # names
    live, mine = set(), set()
    for i in blk:
        if i.kind == "YState" and i.ids[0] in live:
            live.discard(i.ids[0])
            continue
        new = i.ids[:1] if i.kind in ("Init", "YState", "Magic") else i.ids[2:] if i.kind == "BellCNOT" else ()
        for x in new:
            if x in used or x in mine:
                if x in userids - core and x > max(core):
                    return "lli-name-collision", "%r takes the name %d of a patch the program introduces itself" % (i.text, x)
                return "names", "%r reuses the name %d" % (i.text, x)
            mine.add(x)
            if i.kind != "BellCNOT":
                live.add(x)
        for x in i.ids:
            if x != q and x not in live and x not in new:
                return "names", "%r uses %d, which is not there" % (i.text, x)
        if i.kind == "Measure":
            live.discard(i.ids[0])
        near = i.extra if i.kind == "YState" else i.extra[1][0] if i.kind == "Init" and i.extra[1] else q
        if near != q:
            return "names", "%r is placed next to another patch" % i.text
    if live:
        return "names", "patches %s stay behind" % sorted(live)
    used |= mine
    if cat:
        if any(i.kind == "Rotate" and i.ids[0] == q for i in blk):
            return "extra", "the qubit itself is rotated"
        nh = sum(i.kind == "HGate" for i in blk)
        if sum(i.kind == "Rotate" for i in blk) != nh:
            return "h_rotation", "%d Hadamards, %d rotations of the Y state" % (nh, sum(i.kind == "Rotate" for i in blk))
        if any(i.kind == "BellCNOT" for i in blk) != local or any(i.kind == "MBM" for i in blk) == local:
            return "sgate", "CNOTs of the wrong kind for this mode"
        e, known = BL.judge(ctx.cache.setdefault("blocks", {}), ("s",), blk, [q], zero=False)
        if known:
            c.bad("catalytic-cnot-basis", "; ".join(i.text for i in blk))
    else:
        if any(i.kind == "Rotate" for i in blk):
            return "extra", "a rotation that nothing needs"
        e, known = BL.judge(ctx.cache.setdefault("blocks", {}), ("s",), blk, [q], zero=False)
        if not e:
            e = correction(ctx, blk, q)
    return ("sgate", "not an S gate: " + e) if e else None


def correction(ctx, blk, q):
    """The outcome dependent Z of a teleported S has to be there to be applied."""
    key, ib, names = BL.canon(blk, [q])
    k = ("corr", key)
    if k not in ctx.cache:
        u = BL.unitary_of(("s",), names)
        z = [n for n, i in enumerate(ib) if i.kind in BL.PAULIS and i.ids[0] == names[0]]
        err = None
        if len(z) != 1 or ib[z[0]].kind != "ZGate":
            err = "%d corrections" % len(z)
        else:
            for s, oc in Q.run([i for n, i in enumerate(ib) if n != z[0]], names):
                r = Q.residual(s, names, u)
                if r not in ("I", "Z"):
                    err = "outcomes %s leave %s, which the correction does not undo" % (oc, r)
        ctx.cache[k] = err
    return ctx.cache[k]
