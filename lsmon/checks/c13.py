"""C13: what the program reports (slices, counts, machine line, volumes) against each other."""
import json, os, re
from .. import scenario as S, trace as T
from ..run import run_cli

NEEDS = ["fast:driver"]
CASES = {"quick": 700, "thorough": 30000}
FLOOR = {"arrays": 400, "files": 200, "machine": 100, "stats": 150, "stitched_pairs": 3000, "graceful_errors": 20, "sliced_files": 50}
RULE = ("One evaluation is one report (JSON array, output file, progress/machine/stats text, sliced instruction file) compared with the same quantity "
        "recomputed from the emitted slices and instruction streams of separate runs. Distinct by flags, program, layout and report.")
EDGES = {"None", "Solid", "Dashed", "SolidStiched", "DashedStiched", "AncillaJoin"}
STITCHED = {"SolidStiched", "DashedStiched", "AncillaJoin"}
TYPES = {"Qubit", "Ancilla", "DistillationQubit"}
NUM = r"(\d+)"


def choose(ctx, rng):
    k = rng.random()
    if k < 0.12:
        s = S.make(ctx, rng, layout="edpc", pipe="wave", local=True, fmt="qasm")
        if s and "--numlanes" not in s.args:
            s.pipe = "edpc"
            s.args[s.args.index("-P") + 1] = "edpc"
            s.args = [a for i, a in enumerate(s.args) if a != "-g" and (i == 0 or s.args[i - 1] != "-g")]
        return s
    return S.make(ctx, rng)


def cells_ok(case, s, slices, bad, dims, facing):
    """Shape, vocabulary and agreement of neighbouring cells."""
    for t, sl in enumerate(slices):
        if len(sl) != dims[0] or any(len(r) != dims[1] for r in sl):
            return bad("dims", "slice %d is not %dx%d" % (t, *dims))
        for r, row in enumerate(sl):
            for c, x in enumerate(row):
                if x is None:
                    continue
                e = x.get("edges", {})
                if set(e) != {"Top", "Bottom", "Left", "Right"} or not set(e.values()) <= EDGES or x.get("patch_type") not in TYPES \
                        or set(x) - {"edges", "patch_type", "activity", "text", "operation_id"} or "activity_type" not in (x.get("activity") or {}):
                    return bad("cell", "slice %d cell (%d,%d) is not a cell: %s" % (t, r, c, json.dumps(x)))
                for mine, his, r2, c2 in (("Bottom", "Top", r + 1, c), ("Right", "Left", r, c + 1), ("Top", "Bottom", r - 1, c), ("Left", "Right", r, c - 1)):
                    a = e[mine]
                    if a not in STITCHED or not facing:
                        continue
                    y = sl[r2][c2] if 0 <= r2 < dims[0] and 0 <= c2 < dims[1] else None
                    b = y["edges"][his] if y else "nothing"
                    case.n("stitched_pairs")
                    # a route ends in a join at the patch it measures
                    if a != b and not (b in STITCHED and {x["patch_type"], y["patch_type"]} != {"Ancilla"}):
                        return bad("edges", "slice %d: %s edge of (%d,%d) is %s, the facing edge is %s" % (t, mine, r, c, a, b))


def volumes(s, slices, spec):
    """total, distillation, unused, dead as the statistics define them, off the emitted cells"""
    region = {x for reg in spec.regions for x in reg}
    dead = set(spec.dead)
    vol = dist = unused = nd = 0
    for sl in slices:
        for r, row in enumerate(sl):
            for c, x in enumerate(row):
                vol += 1
                if x is None:
                    unused += 1
                elif (r, c) in region:
                    dist += 1
                elif (r, c) in dead:
                    nd += 1
                elif spec.reserved and x["patch_type"] == "DistillationQubit":
                    dist += 1
    return vol, dist, unused, nd


def pct(a, b):
    """as an ostream prints a double"""
    return "nan" if b == 0 else "%.6g" % (a / b * 100.0)


def judge(ctx, case, s, graceful):
    drv = ctx.drv("fast:driver")
    rng = case.rng
    g = ["--graceful"] if graceful else []
    args = s.args + g
    kw = dict(files=s.files, cpu=6.0, limit=6 << 20)
    bad = lambda k, m: case.bad(k, "%s\n   args: %s\n   input: %r\n   layout: %r" % (m, " ".join(args), s.text, s.files), **s.describe())
    a = run_cli(drv, args, s.text, **kw)
    if a.status in ("timeout", "outlimit"):
        return case.n("endless")
    if a.crashed:
        return case.crash("`%s` %r" % (" ".join(args), s.text), a.brief(), args=" ".join(args), stdin=s.text)
    if not a.ok:
        case.n("errors")
        if graceful and a.exc is not None and not (a.exc or "").startswith(("Line", "line")):
            # the error may come from reading the program while slicing is not under way yet
            case.n("graceful_exc")
        if a.exc is None or graceful:
            return
        # a run that ends in an error still wrote whole slices
        return
    halted = graceful and "Halting slicing" in a.cerr
    if halted:
        case.n("graceful_errors")
    case.evals += 1
    try:
        slices = json.loads(a.out)
    except ValueError as e:
        return bad("json", "standard output is not JSON: %s" % e)
    if not isinstance(slices, list):
        return bad("json", "standard output is not an array")
    case.n("arrays")
    n = len(slices)
    dims = (s.spec.nrows, s.spec.ncols)
    cells_ok(case, s, slices, bad, dims, s.pipe != "edpc")      # there, labels of reserved cells are shown as stitched edges (C16)
    sliced = run_cli(drv, args + ["--printlli", "sliced"], s.text, **kw)
    if not sliced.ok:
        return bad("sliced:outcome", "--printlli sliced: %s" % sliced.brief())
    rows, tail = T.parse_sliced(sliced.out, True)
    case.evals += 1
    if len(rows) != n:
        return bad("sliced:lines", "%d slices but %d lines of instructions" % (n, len(rows)))
    if tail and not halted:
        return bad("sliced:tail", "instructions after the last slice: %s" % tail)
    applied = [i for r in rows for i in r] + tail
    before = run_cli(drv, s.args + ["--printlli", "before"], s.text, **kw)
    stream = [l for l in before.out.split("\n") if l] if before.ok else None
    vol = volumes(s, slices, s.spec)
    if s.pipe == "stream":
        read = len(stream) if stream is not None and not halted else None
    else:
        read = len(applied)

    def counts(label, x, y):
        """instruction and slice counts as printed"""
        case.evals += 1
        if read is not None and int(x) != read:
            bad("count:instructions:" + s.pipe, "%s reports %s instructions, %d were %s" % (label, x, read, "read" if s.pipe == "stream" else "applied"))
        y = int(y)
        if y == n:
            return case.n("slice_count_exact")
        if s.pipe == "stream":
            # slices ended by an instruction with something left to do; the others were spent waiting for an instruction to become applicable
            if halted and y >= n and stalls_possible(rows, y):
                return case.n("slice_count_halted")
            if y < n and stalls_possible(rows, y):
                return bad("slice-count:stream-waits", "%s reports %d slices, %d were emitted" % (label, y, n))
        elif y == n + 1 and not halted:
            return bad("slice-count:one-too-many", "%s reports %d slices, %d were emitted" % (label, y, n))
        elif halted and y in (n, n + 1):
            return case.n("slice_count_halted")
        bad("count:slices:" + s.pipe, "%s reports %d slices, %d were emitted" % (label, y, n))

    def stalls_possible(rows, y):
        """Is y one more than the number of slices that ended because an instruction goes on in the next one?"""
        ends = 0
        for i, r in enumerate(rows):
            if not r:
                continue                # nothing applied: waited
            last = r[-1]
            later = rows[i + 1] if i + 1 < len(rows) else []
            if last.kind in ("Rotate", "SGate") or (last.kind == "Busy" and last.extra[1] > 0):
                ends += 1
            elif last.kind in ("BellPairInit", "BellCNOT", "MBM", "YState") and last.local is not None and later and later[0].key() == last.key():
                ends += 1
        return y == 1 + ends

    def text_report(label, out, stats):
        m = re.match(r"^(?:Slice count: \d+\r)*LS Instructions read  %s\nSlices %s\nMade patch computation. Took [0-9.e+-]+s.\n(.*)$" % (NUM, NUM), out, re.S)
        if not m:
            return bad("report:" + label, "unreadable report %r" % out[:300])
        counts(label, m.group(1), m.group(2))
        rest = m.group(3)
        if not stats:
            if rest:
                bad("report:" + label, "unexpected text %r" % rest[:200])
            return
        v, d, u, x = vol
        o = v - d - u - x
        want = "Total volume: %d\nDistillation volume: %d (%s%%)\nUnused routing volume: %d (%s%%)\nDead volume: %d (%s%%)\nOther active volume: %d (%s%%)\n" % (
            v, d, pct(d, v), u, pct(u, v), x, pct(x, v), o, pct(o, v))
        case.evals += 1
        case.n("stats")
        if re.sub(r"-nan", "nan", rest) != want:
            bad("stats", "statistics %r, recomputed from the slices %r" % (rest, want))

    def same_file(label, name, want):
        path = os.path.join(drv.scratch, name)
        try:
            with open(path) as f:
                got = f.read()
            os.unlink(path)
        except OSError:
            return bad("file:missing", "%s wrote no file" % label)
        case.evals += 1
        case.n("files" if name == "o.json" else "sliced_files")
        if got != want:
            k = next((i for i, (p, q) in enumerate(zip(got, want)) if p != q), min(len(got), len(want)))
            bad("file:" + label, "the file differs from standard output at byte %d: %r / %r" % (k, got[max(0, k - 40):k + 60], want[max(0, k - 40):k + 60]))

    modes = ["plain", "progress", "machine", "stats", "noprogress", "noslices", "nmachine", "nstats", "slicedfile", "slicedstats"]
    for mode in rng.sample(modes, 4):
        extra = {"plain": ["-o", "o.json"], "progress": ["-o", "o.json", "-f", "progress"], "machine": ["-o", "o.json", "-f", "machine"],
                 "stats": ["-f", "stats", "-o", "o.json"], "noprogress": ["-o", "o.json", "-f", "noprogress"], "noslices": ["--noslices"],
                 "nmachine": ["--noslices", "-f", "machine"], "nstats": ["--noslices", "-f", "stats"],
                 "slicedfile": ["--printlli", "sliced", "-o", "o.txt"], "slicedstats": ["--printlli", "sliced", "-o", "o.txt", "-f", "stats"]}[mode]
        r = run_cli(drv, args + extra, s.text, **kw)
        if r.status == "timeout":
            continue
        if not r.ok:
            bad("mode:" + mode, "%s: %s" % (" ".join(extra), r.brief()))
            continue
        case.sigs.add(hash((" ".join(args), s.text, s.spec.text, mode)) & 0xffffffffffff)
        if mode in ("plain", "progress", "noslices", "slicedfile"):
            text_report(mode, r.out, False)
        elif mode in ("stats", "nstats", "slicedstats"):
            text_report(mode, r.out, True)
        elif mode in ("machine", "nmachine"):
            m = re.match(r"^%s,%s,[0-9.e+-]+\n$" % (NUM, NUM), r.out)
            case.n("machine")
            if not m:
                bad("machine", "unreadable machine line %r" % r.out[:200])
            else:
                counts(mode, m.group(1), m.group(2))
        elif mode == "noprogress":
            case.evals += 1
            if r.out:
                bad("noprogress", "-f noprogress prints %r" % r.out[:200])
        if "-o" in extra:
            if mode.startswith("sliced"):
                same_file(mode, "o.txt", sliced.out)
            else:
                same_file(mode, "o.json", a.out)
    case.sample("%s | %d slices, volumes %s" % (s.label()[:200], n, vol))


def case(ctx, c):
    for sub in range(2):
        s = choose(ctx, c.rng)
        if s is None:
            continue
        g = c.rng.random() < 0.3
        judge(ctx, c, s, g)
