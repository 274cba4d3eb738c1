"""C12: what the first slice shows of a layout, against a reference construction (generated) or the characters of its text (custom)."""
from collections import deque
from .. import layouts as Y, trace as T
from ..run import run_cli

NEEDS = ["fast:driver"]
CASES = {"quick": 1500, "thorough": 40000}
FLOOR = {"compact": 800, "no_clogging": 500, "edpc": 1500, "edpc_condensed": 500, "edpc_factories": 500, "edpc_ystates": 400, "custom": 3000, "custom_regions": 3000, "one_digit_two_regions": 200,
         "reachable": 20000, "refused": 2500, "ancilla_cells": 700, "spare_core": 300}
RULE = ("One evaluation is one run whose first slice is compared, cell by cell, with the reference layout (kind of cell, boundaries, one patch per declared id, distillation regions with their first "
        "countdown), or one ASCII text that has to be refused, or one program filling all ancilla cells. On generated layouts every core qubit must reach a free cell and a magic source through free cells. "
        "Distinct by layout (text or generator flags and number of qubits).")
STD = {"Top": "Solid", "Bottom": "Solid", "Left": "Dashed", "Right": "Dashed"}
NAMES = ["Top", "Bottom", "Left", "Right"]
DELTA = [(-1, 0), (1, 0), (0, -1), (0, 1)]


def compare(slc, spec, ids):
    """-> description of the first difference, or None"""
    if [len(r) for r in slc] != [spec.ncols] * spec.nrows:
        return "the grid is %dx%s, the layout %dx%d" % (len(slc), sorted({len(r) for r in slc}), spec.nrows, spec.ncols)
    region = {x: k for k, reg in enumerate(spec.regions) for x in reg}
    shown, timers = {}, {}
    spare = 0
    for r, row in enumerate(slc):
        for c, o in enumerate(row):
            ch, x = spec.rows[r][c], (r, c)
            what = "cell %s, '%s' in the layout, shows %s" % (x, ch, o)
            if o and o["activity"].get("activity_type") is not None:
                return what
            if ch in "rATD" or (ch == "Q" and o is None):
                if o is not None:
                    return what
                spare += ch == "Q"
            elif o is None:
                return what
            elif ch in "QY":
                if o["patch_type"] != "Qubit" or o["edges"] != STD:
                    return what
                if ch == "Y":
                    if o["text"] != "Not bound":
                        return what
                elif o["text"] in shown or not o["text"].startswith("Id: "):
                    return what
                else:
                    shown[o["text"]] = x
            elif ch in "XM":
                if o["patch_type"] != ("Ancilla" if ch == "X" else "DistillationQubit") or o["text"] or set(o["edges"].values()) != {"None"}:
                    return what
            else:
                want = {NAMES[k]: "None" if region.get((r + d[0], c + d[1])) == region[x] else "Solid" for k, d in enumerate(DELTA)}
                if o["patch_type"] != "DistillationQubit" or o["edges"] != want:
                    return what + ", edges should be %s" % want
                if o["text"]:
                    timers.setdefault(region[x], []).append(o["text"])
    if set(shown) != {"Id: %d" % i for i in ids}:
        return "patches %s are shown, %s were declared" % (sorted(shown), sorted(ids))
    if spare != len(spec.core) - len(ids):
        return "%d core cells without a patch" % spare
    want = {k: ["Time to next magic state:%d" % t] for k, t in enumerate(spec.times)} if not spec.reserved else {}
    if timers != want:
        return "distillation regions show %s, %s expected" % (timers, want)
    return None


def flood(start, free, dims):
    seen, q = set(start), deque(start)
    while q:
        r, c = q.popleft()
        for d in DELTA:
            y = (r + d[0], c + d[1])
            if 0 <= y[0] < dims[0] and 0 <= y[1] < dims[1] and y not in seen and free(y):
                seen.add(y)
                q.append(y)
    return seen


def reach(c, slc):
    """Every core qubit needs a free neighbour and, through free cells, a magic source (judged on the slice alone)."""
    nr, nc = len(slc), len(slc[0])
    near = lambda x: [(x[0] + d[0], x[1] + d[1]) for d in DELTA if 0 <= x[0] + d[0] < nr and 0 <= x[1] + d[1] < nc]
    at = lambda x: slc[x[0]][x[1]]
    free = lambda x: at(x) is None
    done = {}
    for r in range(nr):
        for col in range(nc):
            o = slc[r][col]
            if not (o and o["patch_type"] == "Qubit" and o["text"].startswith("Id")):
                continue
            start = [y for y in near((r, col)) if free(y)]
            if not start:
                return "core qubit %s has no free cell next to it" % o["text"]
            ok = False
            for s in start:
                if s not in done:
                    comp = flood([s], free, (nr, nc))
                    v = any(at(y) and at(y)["patch_type"] == "DistillationQubit" for x in comp for y in near(x))
                    for x in comp:
                        done[x] = v
                ok |= done[s]
            if not ok:
                return "core qubit %s at %s reaches no magic source through free cells" % (o["text"], (r, col))
            c.n("reachable")
    return None


def first(ctx, args, text, files=None):
    r = run_cli(ctx.drv("fast:driver"), args, text, files, cpu=20.0, limit=24 << 20)
    return r, (T.parse_slices(r.out, True, 1)[0] if r.ok else None)


def generated(ctx, c):
    rng = c.rng
    n = rng.choice([rng.randint(1, 12), rng.randint(1, 40), rng.randint(1, 40), rng.randint(40, 150)])
    if ctx.tier == "thorough" and rng.random() < 0.05:
        n = rng.randint(150, 420)
    dt, stag = rng.choice([1, 3, 10, 17]), rng.random() < 0.6
    kind = rng.choice(["compact", "no_clogging", "edpc", "edpc", "edpc"])
    if kind == "edpc":
        lanes = rng.choice([None, None, 1, 2, 2, 3, 4])
        cond, fact, y = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.4
        args = ["-L", "edpc"] + (["--numlanes", str(lanes)] if lanes else []) + (rng.choice([["--condensed"], ["--condensed", "1"]]) if cond else []) + (["--explicitfactories"] if fact else []) + (["--notwists"] if y else [])
        text = Y.edpc(n, lanes or 1, cond, fact, y)
        for k, v in (("edpc_condensed", cond), ("edpc_factories", fact), ("edpc_ystates", y)):
            if v:
                c.n(k)
    else:
        args = ["-L", "compact_no_clogging"] if kind == "no_clogging" else rng.choice([[], ["-L", "compact"]])
        text = Y.compact(n, kind == "no_clogging")
    c.n(kind)
    args = args + ["--disttime", str(dt)] + ([] if stag else ["--nostagger"])
    if rng.random() < 0.5:
        ids = list(range(n))
        prog = "qreg q[%d];\nx q[%d];\n" % (n, rng.randrange(n))
        args += ["-I", "qasm"]
    else:
        ids = rng.sample(range(3 * n), n)
        prog = "DeclareLogicalQubitPatches %s\nXGate %d\n" % (",".join(map(str, ids)), rng.choice(ids))
        if "--notwists" in args:
            pass
    r, slc = first(ctx, args, prog)
    c.evals += 1
    c.sigs.add(hash((" ".join(args), n)) & 0xffffffffffff)
    show = "`%s`, %d qubits" % (" ".join(args), n)
    if slc is None:
        return c.bad("generated:fails", "%s: %s" % (show, r.brief()), args=" ".join(args), stdin=prog)
    d = compare(slc, Y.Spec(text, dt, stag), ids)
    if d:
        return c.bad("generated:" + kind, "%s: %s\nexpected\n%s" % (show, d, text), args=" ".join(args), stdin=prog)
    d = reach(c, slc)
    if d:
        return c.bad("reach:" + kind, "%s: %s" % (show, d), args=" ".join(args), stdin=prog)
    c.sample("%s: %dx%d cells" % (show, len(slc), len(slc[0])))


def custom_text(rng, factories=None):
    nr, nc = rng.choice([1, 2, 3, 4, 6, 9, 14]), rng.choice([1, 2, 3, 5, 8, 12, 20])
    w = {"r": rng.choice([1, 6]), "Q": rng.choice([1, 2, 4]), "A": rng.choice([0, 1]), "X": rng.choice([0, 1]), "Y": rng.choice([0, 1]), "T": rng.choice([0, 0, 1]), "D": rng.choice([0, 0, 1])}
    mode = rng.choice(["none", "M", "digits", "digits", "digits"])
    if mode == "M":
        w["M"] = 1
    ds = rng.sample("0123456789", rng.choice([1, 1, 2, 3, 10])) if mode == "digits" else []
    dense = rng.choice([0.2, 1, 4])
    for d in ds:
        w[d] = dense
    g = [rng.choices(list(w), list(w.values()), k=nc) for _ in range(nr)]
    if ds and rng.random() < 0.5:
        for _ in range(rng.randint(1, 4)):
            d = rng.choice(ds)
            a, b = rng.randrange(nr), rng.randrange(nc)
            for r in range(a, min(nr, a + rng.randint(1, 3))):
                for k in range(b, min(nc, b + rng.randint(1, 4))):
                    g[r][k] = d
    if not any("Q" in r for r in g):
        g[rng.randrange(nr)][rng.randrange(nc)] = "Q"
    return ["".join(r) for r in g]


def render(rng, rows):
    if rng.random() < 0.7:
        return "\n".join(rows) + "\n"
    return "\n" * rng.choice([0, 1, 2]) + ("\n" * rng.choice([1, 1, 2])).join(rows) + "\n" * rng.choice([0, 1, 3])


def custom(ctx, c):
    rng = c.rng
    rows = custom_text(rng)
    dt, stag = rng.choice([1, 2, 10, 30]), rng.random() < 0.6
    spec = Y.Spec("\n".join(rows), dt, stag)
    n = len(spec.core) if rng.random() < 0.75 else rng.randint(1, len(spec.core))
    if n < len(spec.core):
        c.n("spare_core")
    ids = rng.sample(range(3 * n + 2), n)
    text = render(rng, rows)
    args = ["-l", "l.txt", "--disttime", str(dt)] + ([] if stag else ["--nostagger"])
    prog = "DeclareLogicalQubitPatches %s\nXGate %d\n" % (",".join(map(str, ids)), ids[0])
    r, slc = first(ctx, args, prog, {"l.txt": text})
    c.evals += 1
    c.n("custom")
    c.n("custom_regions", len(spec.regions))
    if any(len({k for k, reg in enumerate(spec.regions) for x in reg if rows[x[0]][x[1]] == d}) > 1 for d in "0123456789"):
        c.n("one_digit_two_regions")
    c.sigs.add(hash(text) & 0xffffffffffff)
    kw = dict(args=" ".join(args), stdin=prog, files={"l.txt": text})
    if slc is None:
        return c.bad("custom:fails", "%r: %s" % (text, r.brief()), **kw)
    d = compare(slc, spec, ids)
    if d:
        return c.bad("custom:differs", "layout %r: %s" % (text, d), **kw)
    c.sample("custom %r: %d regions, %d core qubits" % ("/".join(rows), len(spec.regions), n))


def refused(ctx, c):
    rng = c.rng
    rows = custom_text(rng)
    n = sum(r.count("Q") for r in rows)
    text = None
    k = rng.randrange(6)
    if k in (0, 1):
        why = "a character that names no cell"
        i = rng.randrange(len(rows))
        j = rng.randrange(len(rows[i]) + 1)
        rows[i] = rows[i][:j] + rng.choice(list("qRaxymtdBCEZ#. ?-\t\r\0\xe9|,")) + rows[i][j + rng.randrange(2):]
        if len({len(r) for r in rows}) > 1 and rng.random() < 0.5:
            rows = [rows[i]]
    elif k == 2:
        why = "rows of different lengths"
        i = rng.randrange(len(rows))
        if len(rows) < 2:
            rows.append(rows[0])
        rows[i] = rows[i] + rng.choice(["r", "Q", "rr"]) if len(rows[i]) < 2 or rng.random() < 0.5 else rows[i][:-1]
    elif k == 3:
        why = "distillation regions together with reserved magic cells"
        flat = list("".join(rows)) if len(rows) * len(rows[0]) > 2 else list("Qrr")
        w = len(rows[0]) if len(flat) > 3 or len(rows[0]) == 3 else len(flat)
        if len(flat) % w:
            w = len(flat)
        a, b = rng.sample([i for i in range(len(flat))], 2)
        flat[a], flat[b] = "M", rng.choice("0123456789")
        rows = ["".join(flat[i:i + w]) for i in range(0, len(flat), w)]
        n = max(1, "".join(rows).count("Q"))
    elif k == 4:
        why = "nothing"
        text = rng.choice(["", "\n", "\n\n\n"])
        n = 1
    else:
        why = "fewer core cells than patches"
        n += rng.randint(1, 3)
    text = text if text is not None else render(rng, rows)
    prog = "DeclareLogicalQubitPatches %s\nXGate 0\n" % ",".join(map(str, range(max(n, 1))))
    args = ["-l", "l.txt"]
    r = run_cli(ctx.drv("fast:driver"), args, prog, {"l.txt": text.encode("utf-8") if isinstance(text, str) else text}, cpu=5.0, limit=4 << 20)
    c.evals += 1
    c.n("refused")
    c.sigs.add(hash(text) & 0xffffffffffff)
    kw = dict(args=" ".join(args), stdin=prog, files={"l.txt": text})
    if r.crashed or r.status != "ok":
        c.bad("refused:crash", "layout %r (%s): %s" % (text, why, r.brief()), **kw)
    elif r.ok:
        c.bad("refused:" + why, "a layout with %s is accepted: %r" % (why, text), **kw)
    elif not (r.exc or r.err).strip():
        c.bad("silent:" + why, "a layout with %s is refused without a message: %r" % (why, text), **kw)


def ancillas(ctx, c):
    """Patches initialised without a place go to the ancilla cells, all of them and no others."""
    rng = c.rng
    k = rng.randrange(3)
    if k < 2:
        n = rng.randint(1, 30)
        args, files = (["-L", "compact_no_clogging"], None) if k else (rng.choice([[], ["-L", "compact"]]), None)
        spec = Y.Spec(Y.compact(n, bool(k)))
    else:
        rows = custom_text(rng)
        spec = Y.Spec("\n".join(rows))
        n = len(spec.core)
        args, files = ["-l", "l.txt"], {"l.txt": "\n".join(rows) + "\n"}
    new = list(range(n, n + len(spec.anc)))
    prog = "DeclareLogicalQubitPatches %s\n" % ",".join(map(str, range(n))) + "".join("Init %d %s\n" % (i, rng.choice(["|0>", "|+>"])) for i in new) + "XGate 0\n"
    args = args + ["-P", rng.choice(["stream", "dag", "wave"])]
    r, _ = first(ctx, args, prog, files)
    c.evals += 1
    kw = dict(args=" ".join(args), stdin=prog, files=files)
    if not r.ok:
        return c.bad("ancilla:fails", "%d patches without a place of their own do not go onto the %d ancilla cells of %r: %s" % (len(new), len(new), spec.text, r.brief()), **kw)
    last = T.parse_slices(r.out, True, 100000)[-1]
    got = {(i, j): int(o["text"][4:]) for i, row in enumerate(last) for j, o in enumerate(row) if o and o["text"].startswith("Id: ") and int(o["text"][4:]) >= n}
    c.n("ancilla_cells", len(new))
    if set(got) != set(spec.anc) or sorted(got.values()) != new:
        return c.bad("ancilla:where", "patches without a place of their own are at %s, the ancilla cells of %r are %s" % (got, spec.text, spec.anc), **kw)
    # one too many
    prog2 = prog.replace("XGate", "Init %d |0>\nXGate" % (n + len(new)), 1)
    r = run_cli(ctx.drv("fast:driver"), args[:-1] + ["dag"], prog2, files, cpu=5.0, limit=40 << 20)
    c.evals += 1
    kw["stdin"] = prog2
    if r.ok:
        c.bad("ancilla:extra", "%d patches without a place of their own find one, %r has %d ancilla cells" % (len(new) + 1, spec.text, len(new)), **kw)


def case(ctx, c):
    for _ in range(3):
        generated(ctx, c)
    for _ in range(3):
        custom(ctx, c)
    refused(ctx, c)
    refused(ctx, c)
    ancillas(ctx, c)
