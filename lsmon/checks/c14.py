"""C14: the same input gives the same output, whatever ran before, however it is run."""
import json, re
from .. import gen, scenario as S, layouts as Y
from ..run import run_cli

NEEDS = ["fast:driver"]
CASES = {"quick": 500, "thorough": 20000}
FLOOR = {"fresh": 400, "after_others": 1500, "strings": 500, "files": 200, "opid_runs": 100, "error_runs": 60, "cached": 60, "cached_merges": 200, "not_utf8": 5}
RULE = ("One evaluation compares one run with the first run of the same program, layout and flags in a process of its own: run again, run after other "
        "programs (failing ones too) in one process, through the string API, or with its input read from a file; cached router runs are compared with "
        "the default router on programs whose routes cannot change. Distinct by flags, program and layout.")


def call(drv, runs, files, cpu=10.0, limit=6 << 20):
    """-> (status, list of (code, exc, out, err)) of the runs made in one process"""
    rep = drv.run({"runs": runs, "files": files, "cpu": cpu, "limit": limit})
    return rep["status"], [(r.get("code"), r.get("exc"), r.get("out") or "", r.get("err") or "") for r in rep.get("runs") or []]


def mask(r):
    """Times taken are not part of the result"""
    code, exc, out, err = r
    if "Took " in out:
        out = re.sub(r"Took [0-9.e+-]+s", "Took _s", out)
    elif re.match(r"^\d+,\d+,[0-9.e+-]+\n$", out):
        out = out[:out.rindex(",")] + ",_\n"
    return code, exc, out, err


OUT = [[], [], [], ["--printlli", "before"], ["--printlli", "sliced"], ["--printlli", "sliced"], ["--printdag", "input"], ["--printdag", "processedlli"],
       ["--noslices", "-f", "stats"], ["--noslices", "-f", "machine"], ["--op-ids"], ["--op-ids"], ["--cnotcorrections", "always"], ["--graceful"]]


def one(ctx, rng, k):
    """A run of the command line: (args, stdin, files)"""
    if rng.random() < 0.15:
        s = S.make(ctx, rng, layout="edpc", pipe="wave", local=True, fmt="qasm", graph=rng.choice(["djikstra", "astar"]))
        if s and "--numlanes" not in s.args:
            s.args[s.args.index("-P") + 1] = "edpc"
    else:
        s = S.make(ctx, rng)
    if s is None:
        return None
    args = list(s.args) + rng.choice(OUT)
    files = {}
    if s.files:
        name = "l%d.txt" % k
        files[name] = s.files["l.txt"]
        args = [name if a == "l.txt" else a for a in args]
    text = s.text
    z = rng.random()
    if z < 0.12:
        lines = text.split("\n")
        i = rng.randrange(len(lines))
        lines[i] = rng.choice(["garbage", "h q[99];", "HGate 77", "cx q[0],q[0];", "Init 0 |0>", "x\u00e9 q[0];", "MultiBodyMeasure 0:X,99:Z", "MeasureSinglePatch 55 X"])
        text = "\n".join(lines)
    elif z < 0.16:
        args += rng.choice([["-P", "nonsense"], ["-g", "nonsense"], ["--nosuchoption"], ["-f", "stats"], ["-I", "nonsense"]])
    return args, text, files


def judge(ctx, case):
    rng = case.rng
    drv = ctx.drv("fast:driver")
    jobs = []
    files = {}
    for k in range(rng.randint(2, 4)):
        j = one(ctx, rng, k)
        if j:
            jobs.append(j)
            files.update(j[2])
    # the same program under another name, layout or format mode shares whatever state there is
    if jobs and rng.random() < 0.5:
        a, t, f = jobs[0]
        jobs.append((a + (["--op-ids"] if "--op-ids" not in a else []), t, f))
    base = []
    for a, t, f in jobs:
        st, r = call(drv, [{"args": a, "stdin": t}], files, cpu=1.5)
        if st != "ok" or not r:
            base.append(None)
            continue
        base.append(mask(r[0]))
        case.n("error_runs" if r[0][0] != 0 else "good_runs")
        if "--op-ids" in a:
            case.n("opid_runs")
    live = [i for i, b in enumerate(base) if b is not None]
    if not live:
        return

    def differ(kind, i, got, how):
        b = base[i]
        if got == b:
            return
        what = ["exit code", "exception", "output", "error text"]
        d = [w for w, x, y in zip(what, b, got) if x != y]
        x, y = next((x, y) for x, y in zip(b, got) if x != y)
        if isinstance(x, str) and isinstance(y, str):
            k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            x, y = x[max(0, k - 60):k + 100], y[max(0, k - 60):k + 100]
        case.bad(kind, "%s differs %s: %r / %r\n   args: %s\n   input: %r\n   layout: %r" % (
            "/".join(d), how, x, y, " ".join(jobs[i][0]), jobs[i][1], jobs[i][2]), args=" ".join(jobs[i][0]), stdin=jobs[i][1], files=jobs[i][2],
            others=[[" ".join(j[0]), j[1]] for j in jobs])

    for i in live:
        case.sigs.add(hash(repr(jobs[i])) & 0xffffffffffff)
    case.sample(" || ".join("%s <<< %s" % (" ".join(jobs[i][0]), jobs[i][1].replace("\n", "/")[:80]) for i in live))
    # a process of its own, started anew
    if case.idx % 5 == 0:
        drv.close()
        drv.p = None
    i = rng.choice(live)
    st, r = call(drv, [{"args": jobs[i][0], "stdin": jobs[i][1]}], files)
    if st == "ok" and r:
        case.evals += 1
        case.n("fresh")
        differ("again", i, mask(r[0]), "when run again in a new process")
    for rep in range(2):
        seq = live + [rng.choice(live) for _ in range(3)]
        rng.shuffle(seq)
        apis = [rng.random() < 0.35 and all(" " not in x and x for x in jobs[i][0]) for i in seq]
        runs = [{"api": "strings", "cmdline": " ".join(jobs[i][0]), "stdin": jobs[i][1]} if s else {"args": jobs[i][0], "stdin": jobs[i][1]} for i, s in zip(seq, apis)]
        st, rs = call(drv, runs, files, cpu=12.0, limit=16 << 20)
        for pos, (i, s, r) in enumerate(zip(seq, apis, rs)):
            case.evals += 1
            how = "after %d other runs in the process" % pos
            if s:
                case.n("strings")
                if r[1] is not None:
                    case.bad("strings:throws", "the string API throws %s: %s <<< %r" % (r[1], " ".join(jobs[i][0]), jobs[i][1]), args=" ".join(jobs[i][0]), stdin=jobs[i][1], files=files)
                    continue
                try:
                    d = json.loads(r[2])
                    code, out, err = d["exit_code"], d["output"], d["err"]
                except (ValueError, KeyError) as e:
                    case.bad("strings:json", "the string API returns %r (%s)" % (r[2][:200], e), args=" ".join(jobs[i][0]), stdin=jobs[i][1], files=files)
                    continue
                b = base[i]
                exc = None
                m = re.search(r"Compiler exception: (.*)\n$", err, re.S)
                if m and code == 100:
                    exc, err, code = m.group(1), err[:m.start()], None
                differ("strings", i, mask((code, exc, out, err)), "through the string API, " + how)
            else:
                case.n("after_others")
                differ("history", i, mask(r), how)
    # input from a file
    i = rng.choice(live)
    fs = dict(files)
    fs["in.txt"] = jobs[i][1]
    st, r = call(drv, [{"args": jobs[i][0] + ["-i", "in.txt"], "stdin": rng.choice(["", "garbage\n"])}], fs)
    if st == "ok" and r:
        case.evals += 1
        case.n("files")
        differ("file", i, mask(r[0]), "when its input is read from a file")


def not_utf8(ctx, case):
    """Error messages quote the input; the string API has to report them whatever its bytes."""
    drv = ctx.drv("fast:driver")
    bad = case.rng.choice([b"h\xff q[0];", b"\xc3( q[0];", b"h q[\xe2\x28\xa1];", b"\x80"])
    text = b"qreg q[2];\n" + bad + b"\n"
    drv.run({"runs": [], "files": {"bad.txt": text}})
    rep = drv.run({"runs": [{"api": "strings", "cmdline": "-I qasm -i bad.txt", "stdin": ""}], "cpu": 5.0})
    case.evals += 1
    case.n("not_utf8")
    r = (rep.get("runs") or [{}])[0]
    ok = rep["status"] == "ok" and r.get("exc") is None
    if ok:
        try:
            d = json.loads(r["out"])
            ok = d["exit_code"] != 0 and d["err"]
        except (ValueError, KeyError):
            ok = False
    if not ok:
        case.bad("strings:not-utf8", "the string API on %r: %s" % (text, json.dumps(r)[:300]), stdin=repr(text))


def hub(rng):
    """A layout without factories and an LLI program in which every merge shares a patch with the one before: routes can never change."""
    for _ in range(50):
        n = rng.randint(3, 6)
        lay = gen.ascii_layout(rng, n, "open", rng.random() < 0.4)
        if lay is None or "Y" in lay:
            continue
        ids = rng.sample(range(30), n)
        h = rng.choice(ids)
        out = []
        for _ in range(rng.randint(4, 14)):
            o = rng.choice([x for x in ids if x != h])
            ps = [(h, rng.choice("XZ")), (o, rng.choice("XZ"))]
            if rng.random() < 0.5:
                ps.reverse()
            out.append("MultiBodyMeasure " + ",".join("%d:%s" % p for p in ps))
        return lay, "DeclareLogicalQubitPatches %s\n%s\n" % (",".join(map(str, ids)), "\n".join(out)), len(out)


def cached(ctx, case):
    rng = case.rng
    x = hub(rng)
    if x is None:
        return
    lay, text, n = x
    args = ["-l", "l.txt", "-P", rng.choice(["stream", "wave", "dag"])]
    if rng.random() < 0.6:
        args += ["-g", rng.choice(["djikstra", "astar", "boost"])]
    if rng.random() < 0.4:
        args += ["--op-ids"]
    args += rng.choice([[], [], ["--printlli", "sliced"]])
    drv = ctx.drv("fast:driver")
    files = {"l.txt": lay}
    # a program with a merge that can never be routed is cut at the output limit
    a = run_cli(drv, args + ["-r", "graph_search"], text, files, cpu=4.0, limit=1 << 20)
    if a.status != "ok":
        return case.n("cached_endless")
    b = run_cli(drv, args + ["-r", "graph_search_cached"], text, files, cpu=4.0, limit=2 << 20)
    case.evals += 1
    case.n("cached")
    case.n("cached_merges", n)
    if (a.code, a.exc, a.out) != (b.code, b.exc, b.out):
        case.bad("cached", "the cached router gives another result: %s / %s\n   args: %s\n   input: %r\n   layout: %r" % (a.brief(), b.brief(), " ".join(args), text, lay),
                 args=" ".join(args), stdin=text, files=files)


def case(ctx, c):
    judge(ctx, c)
    cached(ctx, c)
    if c.idx % 10 == 0:
        not_utf8(ctx, c)
