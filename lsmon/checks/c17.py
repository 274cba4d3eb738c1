"""C17: what every option value does, how runs end."""
import json, os, re, time
from .. import gen, order as O, scenario as S, trace as T
from ..run import run_cli
from . import c16

NEEDS = ["fast:driver"]
CASES = {"quick": 800, "thorough": 40000}
FLOOR = {"equivalent": 600, "refused": 900, "combinations": 2000, "terminated": 500, "graceful_halts": 60, "timeouts": 5, "dag_gives_up": 30, "effects": 200, "help": 5}
RULE = ("One evaluation is one run judged by the option contract (documented value accepted and equal to what it stands for, unknown value or invalid "
        "combination refused with a message, graceful halting, time limit) or one program that the layout can execute run to its end. Distinct by flags, program and layout.")


def text_of(rng, n=None, magic=True, annot=None, ng=None, two=("cx", "cz")):
    n = n or rng.choice([1, 2, 3, 4, 5, 6, 8])
    t, _, _ = gen.qasm(rng, n, ng or rng.choice([3, 8, 14]), gates=gen.ONE if magic else ["x", "y", "z", "h", "s", "sdg"], annot=(rng.random() < 0.4) if annot is None else annot, rz=False, two=two)
    return t, n


def lli_of(rng, n=None):
    n = n or rng.choice([2, 3, 4])
    ids = list(range(n))
    t, _ = gen.lli(rng, ids, rng.choice([3, 6]), anc=False, magic=False, near=False, sgate=False)
    return t


def sig(c, *a):
    c.sigs.add(hash(repr(a)) & 0xffffffffffff)


def strip_time(out):
    out = re.sub(r"Took [0-9.e+-]+s", "Took _s", out)
    m = re.match(r"^(\d+,\d+,)[0-9.e+-]+\n$", out)
    return m.group(1) + "_\n" if m else out


def same(ctx, c, a, b, text, what, files=None):
    """Both command lines give the same result."""
    drv = ctx.drv("fast:driver")
    kw = dict(files=files, cpu=2.0, limit=3 << 20)
    x = run_cli(drv, a, text, **kw)
    if x.status in ("timeout", "outlimit"):
        return c.n("endless")
    y = run_cli(drv, b, text, **kw)
    c.evals += 1
    c.n("equivalent")
    sig(c, a, b, text)
    c.sample("`%s` and `%s` agree on %r" % (" ".join(a), " ".join(b), text[:80]))
    if (x.status, x.code, x.exc, strip_time(x.out)) != (y.status, y.code, y.exc, strip_time(y.out)):
        c.bad("equivalent:" + what, "%s: `%s` and `%s` differ: %s / %s\n   input %r" % (what, " ".join(a), " ".join(b), x.brief(), y.brief(), text),
              args=" ".join(a), stdin=text, files=files)


def equivalents(ctx, c):
    """Values documented as the default, or as the same thing."""
    rng = c.rng
    k = rng.randrange(9)
    pipe = rng.choice([[], ["-P", "wave"], ["-P", "dag"]])
    lay = rng.choice([[], ["-L", "compact_no_clogging"], ["-L", "edpc"]])
    base = ["-I", "qasm"] + lay + pipe
    t, n = text_of(rng, magic=bool(lay))
    if k == 0:
        same(ctx, c, base, ["--input-format", "q"] + lay + pipe, t, "-I q")
    elif k == 1:
        l = lli_of(rng)
        same(ctx, c, lay + pipe, ["-I", rng.choice(["lli", "l"])] + lay + pipe, l, "-I lli")
    elif k == 2:
        same(ctx, c, ["-I", "qasm"] + lay, ["-I", "qasm", rng.choice(["-P", "--pipeline"]), "stream"] + lay, t, "-P stream")
    elif k == 3:
        same(ctx, c, base, base + [rng.choice(["-r", "--router"]), "graph_search"], t, "-r graph_search")
    elif k == 4:
        same(ctx, c, base, base + [rng.choice(["-g", "--graph-search"]), "djikstra"], t, "-g djikstra")
    elif k == 5:
        same(ctx, c, ["-I", "qasm"] + pipe, ["-I", "qasm", rng.choice(["-L", "--layoutgenerator"]), "compact"] + pipe, text_of(rng, magic=False)[0], "-L compact")
    elif k == 6:
        same(ctx, c, base + ["--printlli"], base + ["--printlli", "before"], t, "--printlli")
        same(ctx, c, base + ["--printdag"], base + ["--printdag", "input"], t, "--printdag")
    elif k == 7:
        same(ctx, c, base, base + ["--cnotcorrections", "never"], t, "--cnotcorrections never")
        same(ctx, c, base, base + ["--disttime", "10"], t, "--disttime 10")
        cond = ["-I", "qasm", "-L", "edpc"] + pipe
        same(ctx, c, cond + ["--condensed"], cond + ["--condensed", "1"], t, "--condensed 1")
        same(ctx, c, cond, cond + ["--condensed", "0"], t, "--condensed 0")
    else:
        v = rng.choice([["--noslices"], ["-o", "o.json"]])
        same(ctx, c, base + v, base + v + ["-f", "progress"], t, "-f progress")
        same(ctx, c, ["-I", "qasm", "-L", "edpc"] + pipe, ["-I", "qasm", "-L", "edpc", "--numlanes", "1"] + pipe, t, "--numlanes 1")
    # asked for more time than needed
    if k == 0:
        same(ctx, c, base, base + [rng.choice(["-t", "--timeout"]), "1000"], t, "-t 1000")
        same(ctx, c, base, base + ["--graceful"], text_of(rng, magic=False, annot=False)[0], "--graceful")


def refused(ctx, c):
    """Unknown values, combinations that cannot work, and unreadable input end in an error with a message and no result."""
    rng = c.rng
    drv = ctx.drv("fast:driver")
    bogus = lambda *near: rng.choice(["nonsense", "Stream", "0", *near])
    q, n = text_of(rng, magic=False, n=rng.choice([2, 3, 4]))
    F = {}
    lay = rng.choice([[], ["-L", "edpc"]])
    I = ["-I", "qasm"]
    wide = "rrrrrrr\nrQrQrQr\nrrrrrrr\nrQrQrQr\nrrrrrrr\n"
    table = [
        ("-I", ["-I", bogus("qasmx", "QASM", "ll", "qq")], q),
        ("-P", I + lay + ["-P", bogus("waves", "streams", "wav", "edpcx")], q),
        ("-g", I + lay + ["-g", bogus("dijkstra", "astar2", "boos")], q),
        ("-r", I + lay + ["-r", bogus("graph_search_cache", "cached", "graph")], q),
        ("-L", I + ["-L", bogus("compactx", "edpcc", "compact_no")], q),
        ("-f", I + lay + ["--noslices", "-f", bogus("stat", "machines", "progres")], q),
        ("--printlli", I + lay + ["--printlli", bogus("after", "slice", "befor")], q),
        ("--printdag", I + lay + ["--printdag", bogus("output", "inputs", "lli")], q),
        ("--cnotcorrections", I + lay + ["--cnotcorrections", bogus("random", "alway")], q),
        ("-f without -o", I + lay + ["-f", rng.choice(["progress", "noprogress", "machine", "stats"])], q),
        ("unknown option", I + lay + [rng.choice(["--nosuchoption", "-z", "--slices", "--layouts"])], q),
        ("no input file", I + lay + ["-i", "does-not-exist.qasm"], q),
        ("unreadable input file", rng.choice([I, []]) + lay + ["-i", "."], q),
        ("unwritable output file", I + lay + ["-o", rng.choice([".", "no/such/dir/out.json"])], q),
        ("full output device", I + lay + ["-o", "/dev/full"], "qreg q[2];\nx q[0];\nh q[1];\n"),
        ("unreadable layout", I + ["-l", "."], q),
        ("one name for both sides", ["-L", "edpc", "--local"], "DeclareLogicalQubitPatches 0,1\n%s\n" % rng.choice(["BellPairInit 5 5 0:Z,1:X", "BellBasedCNOT 0 1 5 5", "BellBasedCNOT 0 0 5 6"])),
        ("no layout file", I + ["-l", "does-not-exist.txt"], q),
        ("--notwists on compact", I + ["--notwists"] + rng.choice([[], ["-L", "compact"], ["-L", "compact_no_clogging"]]), q),
        ("--notwists without Y", I + ["--notwists", "-l", "w.txt"], q),
        ("edpc pipeline, not local", I + ["-L", "edpc", "-P", "edpc"], q),
        ("edpc pipeline, compact", I + ["-P", "edpc", "--local"] + rng.choice([[], ["-L", "compact"], ["-L", "compact_no_clogging"]]), q),
        ("edpc pipeline, custom layout", I + ["-P", "edpc", "--local", "-l", "w.txt"], q),
        ("edpc pipeline, lanes", I + ["-P", "edpc", "--local", "-L", "edpc", "--numlanes", rng.choice(["2", "3"])], q),
        ("edpc pipeline, boost", I + ["-P", "edpc", "--local", "-L", "edpc", "-g", "boost"], q + "cx q[0],q[1];\n"),
        ("edpc pipeline, cached router", I + ["-P", "edpc", "--local", "-L", "edpc", "-r", "graph_search_cached"], q + "cx q[0],q[1];\n"),
        ("layout too small", I + ["-l", "w.txt"], "qreg q[%d];\nx q[0];\n" % rng.randint(7, 12)),
        ("-L with -l", I + ["-l", "w.txt", "-L", rng.choice(["compact", "edpc", "compact_no_clogging"])], q),
        ("not a number", I + lay + rng.choice([["--disttime"], ["-t"], ["-L", "edpc", "--numlanes"], ["-L", "edpc", "--condensed"]])
         + [rng.choice(["x", "5x", "1e3", "-1", "0x10", "3.5", "99999999999999999999999"])], q),
        ("number missing", I + lay + rng.choice([["--disttime"], ["-t"], ["-L", "edpc", "--numlanes"]]), q),
        ("bad layout", I + ["-l", "bad.txt"], q),
        ("empty LLI", lay, ""),
        ("no declaration", lay, "HGate 0\n"),
        ("unknown instruction", lay, "DeclareLogicalQubitPatches 0,1\n%s 0\n" % rng.choice(["HGat", "Foo", "hgate", "XGates"])),
        ("unknown gate", I + lay, "qreg q[2];\n%s q[0];\n" % rng.choice(["foo", "hh", "H", "ccx"])),
        ("no register", I + lay, "h q[0];\n"),
        ("non-local Bell CNOT", ["-l", "w.txt"], "DeclareLogicalQubitPatches 0,1\nBellBasedCNOT 0 1 5 6\n"),
        ("magic without a source", ["-l", "w.txt"], "DeclareLogicalQubitPatches 0,1\nRequestMagicState 5 0\n"),
        ("three patch measurement", ["-l", "w.txt"], "DeclareLogicalQubitPatches 0,1,2\nMultiBodyMeasure 0:X,1:X,2:X\n"),
    ]
    files = {"w.txt": wide, "bad.txt": rng.choice(["rrr\nrZr\nrrr\n", "rrr\nrQ\nrrr\n", "?\n", "rQr\nrqr\nrrr\n"])}
    for name, args, text in rng.sample(table, 6):
        z = rng.random()
        args = list(args)
        if name not in ("unknown option", "-I", "-f", "-f without -o", "--printlli", "--printdag", "-P", "not a number", "number missing") and z < 0.3:
            args += ["-P", rng.choice(["stream", "dag", "wave"])] if "-P" not in args else []
        grace = False
        r = run_cli(drv, args, text, files, cpu=3.0, limit=1 << 20)
        c.evals += 1
        c.n("refused")
        sig(c, args, text)
        show = "%s: `%s` <<< %r" % (name, " ".join(args), text[:300])
        if r.status in ("timeout", "outlimit"):
            c.bad("refused:" + name, "does not end: " + show, args=" ".join(args), stdin=text, files=files)
        elif r.crashed:
            c.bad("refused:" + name, "%s: %s" % (r.brief(), show), args=" ".join(args), stdin=text, files=files)
        elif r.ok:
            c.bad("refused:" + name, "succeeds: " + show, args=" ".join(args), stdin=text, files=files)
        elif not (r.exc or r.err).strip():
            c.bad("silent:" + name, "ends without a message: " + show, args=" ".join(args), stdin=text, files=files)
        elif "[\n" in r.out and r.out.rstrip().endswith("\n]\n]"):
            c.bad("refused-output:" + name, "writes a complete result: " + show, args=" ".join(args), stdin=text, files=files)


def combinations(ctx, c):
    """Any set of documented options: refused exactly when it has a documented conflict."""
    rng = c.rng
    drv = ctx.drv("fast:driver")
    maybe = lambda p, *a: list(a) if rng.random() < p else []
    wide = "rrrrrrr\nrQrQrQr\nrrrrrrr\n"
    files = {"w.txt": wide, "y.txt": wide + "rrrYrrr\n"}
    for _ in range(6):
        lay = rng.choice(["", "compact", "compact_no_clogging", "edpc", "edpc", "edpc", "w.txt", "y.txt"])
        pipe = rng.choice(["", "stream", "dag", "wave", "edpc", "edpc", "edpc"])
        lanes = rng.choice([None, None, 1, 2, 3])
        cond = rng.choice([[], [], ["--condensed"], ["--condensed", "1"], ["--condensed", "0"]])
        local = rng.random() < 0.6
        twists = rng.random() < 0.8
        router = rng.choice(["", "", "", "graph_search", "graph_search_cached"])
        graph = rng.choice(["", "", "", "djikstra", "astar", "boost"])
        out = rng.choice([[], ["-o", "o.json"], ["--noslices"]])
        fmt = rng.choice(["", "", "progress", "noprogress", "machine", "stats"])
        stop = rng.choice([[], [], [], ["--printlli"], ["--printdag", "processedlli"]])
        args = (["-l", lay] if lay.endswith("txt") else ["-L", lay] if lay else []) + (["-P", pipe] if pipe else []) + (["--numlanes", str(lanes)] if lanes else []) + cond
        args += (["--local"] if local else []) + ([] if twists else ["--notwists"]) + (["-r", router] if router else []) + (["-g", graph] if graph else []) + out + (["-f", fmt] if fmt else [])
        args += maybe(0.2, "--op-ids") + maybe(0.2, "--nostagger") + maybe(0.2, "--disttime", "5") + maybe(0.2, "--explicitfactories") + maybe(0.2, "--cnotcorrections", rng.choice(["always", "never"])) + stop + maybe(0.1, "-t", "100")
        groups, k = [], 0
        while k < len(args):
            e = k + 1
            while e < len(args) and not args[e].startswith("-"):
                e += 1
            groups.append(args[k:e])
            k = e
        rng.shuffle(groups)
        args = [x for g in groups for x in g]
        if rng.random() < 0.7:
            args += ["-I", "qasm"]
            text = "qreg q[%d];\nx q[0];\n" % rng.choice([1, 2, 3])
        else:
            text = "DeclareLogicalQubitPatches 0,1\nZGate 1\n"
        why = []
        if fmt and not out:
            why.append("-f without -o")
        if not twists and lay in ("", "compact", "compact_no_clogging", "w.txt"):
            why.append("--notwists on " + (lay or "the default layout"))
        if pipe == "edpc" and not (lay == "edpc" and local and lanes in (None, 1)):
            why.append("edpc pipeline on another layout, not local or with more lanes")
        if pipe == "edpc" and not stop and (graph == "boost" or router == "graph_search_cached"):
            why.append("edpc pipeline with a router that cannot find disjoint paths")
        r = run_cli(drv, args, text, files, cpu=3.0, limit=1 << 20)
        c.evals += 1
        c.n("combinations")
        c.n("combinations_refused", bool(why))
        sig(c, args, text)
        show = "`%s` <<< %r" % (" ".join(args), text)
        if r.status in ("timeout", "outlimit") or r.crashed:
            c.bad("combination", "%s: %s" % (r.brief(), show), args=" ".join(args), stdin=text, files=files)
        elif why and r.ok:
            c.bad("combination:accepted", "accepted in spite of %s: %s" % (", ".join(why), show), args=" ".join(args), stdin=text, files=files)
        elif why and not (r.exc or r.err).strip():
            c.bad("combination:silent", "ends without a message: %s" % show, args=" ".join(args), stdin=text, files=files)
        elif not why and not r.ok:
            c.bad("combination:refused", "%s: %s" % (r.brief(), show), args=" ".join(args), stdin=text, files=files)


def effects(ctx, c):
    """Values other than the default do what they are documented to do."""
    rng = c.rng
    drv = ctx.drv("fast:driver")
    kw = dict(cpu=3.0, limit=4 << 20)
    k = rng.randrange(8)
    t, n = text_of(rng, n=rng.choice([2, 3, 4, 5]), magic=k != 5)
    c.evals += 1
    c.n("effects")
    sig(c, k, t)

    def bad(key, msg):
        c.bad("effect:" + key, msg + "\n   input %r" % t, stdin=t)
    if k == 0:
        # nothing but the summary goes to standard output
        for v in ([], ["--printlli", "sliced"]):
            r = run_cli(drv, ["-I", "qasm", "-L", "edpc", "--noslices"] + v, t, **kw)
            if not r.ok or (not v and not re.match(r"^LS Instructions read  \d+\nSlices \d+\nMade patch computation\. Took [0-9.e+-]+s\.\n$", r.out)):
                bad("noslices", "--noslices prints %r (%s)" % (r.out[:200], r.brief()))
    elif k == 1:
        # printing instructions or dependencies stops before slicing: no layout problem can appear
        for v in (["--printlli", "before"], ["--printdag", "input"], ["--printdag", "processedlli"]):
            r = run_cli(drv, ["-I", "qasm", "-l", "s.txt"] + v, t, {"s.txt": "Qr\nrr\n"}, **kw)
            if not r.ok or (v[0] == "--printdag") != r.out.startswith("digraph"):
                bad("print", "%s on a layout too small to run on: %s" % (v, r.brief()))
    elif k == 2:
        # corrections after every CNOT, nothing else
        def stream(*v):
            r = run_cli(drv, ["-I", "qasm", "-L", "edpc", "--printlli", "before", *v], t, **kw)
            return [l for l in r.out.split("\n") if l] if r.ok else None
        a, b = stream(), stream("--cnotcorrections", "always")
        cx = t.count("\ncx ") + t.count("\ncz ")
        if a is None or b is None:
            return bad("corrections", "refused")
        rest = list(b)
        it = iter(b)
        if not all(any(x == y for y in it) for x in a):
            bad("corrections", "with corrections the stream is not the one without plus corrections:\n%s\n%s" % (a, b))
        for x in a:
            rest.remove(x)
        if sorted(x.split(" ")[0] for x in rest) != ["XGate"] * cx + ["ZGate"] * cx:
            bad("corrections", "%d CNOTs, corrections added: %s" % (cx, rest))
    elif k == 3:
        # Y states come from the layout instead of being prepared
        t2 = t + "s q[0];\n"
        r = run_cli(drv, ["-I", "qasm", "-L", "edpc", "--printlli", "before", "--notwists"], t2, **kw)
        q = run_cli(drv, ["-I", "qasm", "-L", "edpc", "--printlli", "before"], t2, **kw)
        if not r.ok or not q.ok:
            return bad("notwists", "refused: %s %s" % (r.brief(), q.brief()))
        if "SGate" in r.out or "SGate" in q.out or "RequestYState" not in r.out or "RequestYState" not in q.out or r.out == q.out:
            bad("notwists", "--notwists: %r, twists: %r" % (r.out[-300:], q.out[-300:]))
    elif k == 4:
        # an LLI and a QASM program go through the format they are announced as
        a = run_cli(drv, ["-I", "lli"], t, **kw)
        b = run_cli(drv, ["-I", "qasm"], lli_of(rng), **kw)
        if a.ok or b.ok:
            bad("format", "a program in the other format is accepted: %s %s" % (a.brief(), b.brief()))
    elif k == 5:
        # local mode: CNOTs by Bell pairs; otherwise by an ancilla
        l = run_cli(drv, ["-I", "qasm", "-L", "edpc", "--local", "--printlli", "before"], t, **kw)
        m = run_cli(drv, ["-I", "qasm", "-L", "edpc", "--printlli", "before"], t, **kw)
        cx = t.count("\ncx ") + t.count("\ncz ")
        if not l.ok or not m.ok or l.out.count("BellBasedCNOT") != cx or "BellBasedCNOT" in m.out or m.out.count("Init ") != cx:
            bad("local", "%d CNOTs: --local %r, otherwise %r" % (cx, l.out[:300], m.out[:300]))
    elif k == 6:
        # operation ids only on request
        a = run_cli(drv, ["-I", "qasm", "-L", "edpc", "--op-ids"], t + "cx q[0],q[1];\n", **kw)
        b = run_cli(drv, ["-I", "qasm", "-L", "edpc"], t + "cx q[0],q[1];\n", **kw)
        if not a.ok or not b.ok or "operation_id" not in a.out or "operation_id" in b.out:
            bad("op-ids", "%s %s" % (a.brief(), b.brief()))
    else:
        # options that only apply to the edpc layout do nothing elsewhere
        x = rng.choice([["--numlanes", "3"], ["--condensed"], ["--explicitfactories"], ["--port", "1234"]])
        lay = rng.choice([[], ["-L", "compact_no_clogging"]])
        a = run_cli(drv, ["-I", "qasm"] + lay, t, **kw)
        b = run_cli(drv, ["-I", "qasm"] + lay + x, t, **kw)
        if a.status == "ok" and (a.code, a.exc, a.out) != (b.code, b.exc, b.out):
            bad("edpc-only", "%s changes a run on another layout: %s %s" % (x, a.brief(), b.brief()))


NOTW = [["edpc"], ["edpc", "--condensed"], ["edpc", "--numlanes", "2"], ["edpc", "--numlanes", "3"], ["edpc", "--notwists"], ["edpc", "--condensed", "--notwists"]]


def terminates(ctx, c, fix=None):
    """Programs the layout can execute: generated layouts with enough room, all pipelines."""
    rng = c.rng
    drv = ctx.drv("fast:driver")
    pipe = rng.choice(["stream", "dag", "wave", "wave", "edpc"])
    k = rng.random()
    magic, annot, local = True, False, False
    if k < 0.6 or pipe == "edpc":
        v = rng.choice(NOTW)
        annot = rng.random() < 0.4
        local = rng.random() < 0.5
        if pipe == "edpc":
            v = rng.choice([x for x in NOTW if "--numlanes" not in x])
            local = True
        if "--condensed" in v and pipe not in ("stream", "edpc"):
            # nowhere for several ancillas to wait at once
            local, annot = True, False
    elif k < 0.8:
        v = ["compact_no_clogging"]
    else:
        v = ["compact"]
        magic = False
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13])
    ng = rng.choice([4, 10, 20, 35])
    dt = rng.choice([1, 2, 3, 5, 10])
    if pipe == "dag" and magic:
        # gives up after a hundred slices
        ng, dt = min(ng, 12), min(dt, 3)
    t, _ = text_of(rng, n=n, magic=magic, annot=annot, ng=ng)
    args = ["-I", "qasm", "-L"] + v + ["-P", pipe, "--disttime", str(dt)] + (["--local"] if local else [])
    args += rng.choice([[], [], ["-g", "astar"], ["-g", "boost"] if pipe != "edpc" else []]) + rng.choice([[], ["--nostagger"]]) + rng.choice([[], ["--graceful"]])
    if fix is not None or pipe == "edpc" and rng.random() < 0.5:
        # CNOTs on disjoint pairs competing for lanes
        n = rng.choice([4, 6, 9, 12, 16, 20, 25])
        args, t = ["-I", "qasm", "-L", "edpc"] + rng.choice([[], ["--condensed"]]) + ["-P", "edpc", "--local"], c16.program(rng, n)
        if fix is not None:
            args, t = fix["args"], fix["text"]
        ng = t.count(";")
        c.n("terminated_dense")
    bound = 300 + ng * (60 + 3 * dt)
    r = run_cli(drv, args + ["--printlli", "sliced"], t, cpu=6.0, limit=8 << 20, lines=bound)
    c.evals += 1
    c.n("terminated")
    c.n("terminated_" + pipe)
    sig(c, args, t)
    show = "`%s` <<< %r" % (" ".join(args), t)
    if r.status == "outlimit":
        c.bad("terminates:spins", "still slicing after %d slices: %s" % (bound, show), args=" ".join(args), stdin=t)
    elif r.status == "timeout":
        c.bad("terminates:hangs", "no end: %s" % show, args=" ".join(args), stdin=t)
    elif "--condensed" in args and "--local" in args and "requires shortest route to be at least two tiles" in str(r.exc) + r.cerr:
        # operands too close for a chain of Bell pairs: not executable, and said so
        c.n("too_close")
    elif not r.ok or "Halting slicing" in r.cerr:
        c.bad("terminates:error", "%s %s: %s" % (r.brief(), r.cerr[-300:], show), args=" ".join(args), stdin=t)
    else:
        # everything was done
        b = run_cli(drv, args + ["--printlli", "before"], t, cpu=6.0, limit=8 << 20)
        rows, tail = T.parse_sliced(r.out, True)
        o = O.Order(T.parse_stream(b.out), rows, tail, pipe, True)
        if o.v:
            c.bad("terminates:incomplete", "%s: %s" % (o.v[:3], show), args=" ".join(args), stdin=t)
        c.n("slices", len(rows))


IMPOSSIBLE = ["HGate 9", "MeasureSinglePatch 9 X", "MultiBodyMeasure 0:X,9:Z", "RotateSingleCellPatch 9", "Init 1 |0>", "Init 5 |0>", "Init 5 |0> 9:Z", "RequestYState 5 9",
              "LogicalPauli 9 X", "SGate 9", "MultiBodyMeasure 8:X,9:Z", "Init 5 |+> 9:X",
              # operands that are gone
              "MeasureSinglePatch 1 X\nHGate 1", "MeasureSinglePatch 1 Z\nMultiBodyMeasure 0:X,1:Z", "MeasureSinglePatch 0 X\nMultiBodyMeasure 0:Z,1:Z",
              "MeasureSinglePatch 1 X\nMeasureSinglePatch 1 X", "MeasureSinglePatch 1 Z\nLogicalPauli 1 X", "MeasureSinglePatch 1 Z\nRotateSingleCellPatch 1",
              "MeasureSinglePatch 1 Z\nSGate 1",
              # names that are taken
              "Init 5 |0> 0:Z\nInit 5 |+> 1:Z"]
FATAL = ["MultiBodyMeasure 0:X", "MultiBodyMeasure 0:Y,1:Z", "RequestMagicState 5 0", "BellBasedCNOT 0 1 5 6", "Init 5 |0> 0:Y"]
LAY = "rrrrrr\nrQrQrr\nrrrrrr\n"


def halting(ctx, c):
    """A program that fails part way: error without --graceful; with it success, the slices so far and a message."""
    rng = c.rng
    drv = ctx.drv("fast:driver")
    good = ["MultiBodyMeasure 0:%s,1:%s" % (rng.choice("XZ"), rng.choice("XZ")) if rng.random() < 0.5 else rng.choice(["HGate 0", "XGate 1", "RotateSingleCellPatch 1"]) for _ in range(rng.randint(0, 5))]
    good = [g.replace("XGate", "LogicalPauli").replace("LogicalPauli 1", "LogicalPauli 1 X") for g in good]
    fatal = rng.random() < 0.6
    pipe = rng.choice(["stream", "wave", "dag"]) if fatal else "dag"
    *setup, badone = rng.choice(FATAL if fatal else IMPOSSIBLE).split("\n")
    good += setup
    after = ["HGate 0"] if rng.random() < 0.5 else []
    t = "DeclareLogicalQubitPatches 0,1\n" + "\n".join(good + [badone] + after) + "\n"
    files = {"l.txt": LAY}
    args = ["-l", "l.txt", "-P", pipe] + rng.choice([[], ["--op-ids"]])
    kw = dict(files=files, cpu=4.0, limit=8 << 20)
    r = run_cli(drv, args, t, **kw)
    g = run_cli(drv, args + ["--graceful"], t, **kw)
    c.evals += 2
    sig(c, args, t)
    show = "`%s` <<< %r" % (" ".join(args), t)

    def bad(key, msg):
        c.bad("halting:" + key, msg + ": " + show, args=" ".join(args), stdin=t, files=files)
    if r.status != "ok" or g.status != "ok":
        return bad("end", "%s / %s" % (r.brief(), g.brief()))
    if r.exc is None or not r.exc.strip():
        return bad("error", "a failing program ends with %s" % r.brief())
    if not fatal:
        c.n("dag_gives_up")
        head = re.sub(r"LogicalPauli (\d+) X", r"XGate \1", badone)
        if head not in r.exc:
            bad("which", "the error does not name the instruction: %r" % r.exc)
    if not g.ok:
        return bad("graceful", "--graceful ends with %s" % g.brief())
    c.n("graceful_halts")
    if "Encountered exception: " not in g.cerr or r.exc.split("\n")[0] not in g.cerr:
        bad("message", "--graceful prints %r, the error is %r" % (g.cerr[:300], r.exc))
    try:
        sl = json.loads(g.out)
    except ValueError as e:
        return bad("json", "--graceful output is not JSON (%s)" % e)
    try:
        part = T.parse_slices(r.out, False)
    except ValueError as e:
        return bad("partial", "the output up to the error is unreadable (%s)" % e)
    if sl != part:
        bad("slices", "--graceful writes %d slices, the run without it %d (or they differ)" % (len(sl), len(part)))
    s = run_cli(drv, args + ["--graceful", "--printlli", "sliced"], t, **kw)
    rows, tail = T.parse_sliced(s.out, s.ok)
    c.evals += 1
    done = [i.key() for row in rows + [tail] for i in row if i.kind != "Busy"]
    want = [x.replace("LogicalPauli 1 X", "XGate 1") for x in good]
    if not (sorted(done) == sorted(want) if pipe == "stream" else all(x in want + [y for y in after] for x in done)):
        bad("applied", "applied before the failure: %s" % done)


def timeouts(ctx, c):
    """-t: a run that would wait for ever stops in time."""
    rng = c.rng
    drv = ctx.drv("fast:driver")
    pipe = rng.choice(["stream", "wave"])
    t = "DeclareLogicalQubitPatches 0,1\nHGate 0\n%s\n" % rng.choice(IMPOSSIBLE)
    grace = rng.random() < 0.5
    args = ["-l", "l.txt", "-P", pipe, "-t", "1", "--noslices"] + (["--graceful"] if grace else [])
    t0 = time.time()
    r = run_cli(drv, args, t, {"l.txt": LAY}, cpu=20.0)
    wall = time.time() - t0
    c.evals += 1
    c.n("timeouts")
    sig(c, args, t)
    show = "`%s` <<< %r (%.1f s)" % (" ".join(args), t, wall)
    if r.status != "ok":
        return c.bad("timeout:end", "%s: %s" % (r.brief(), show), args=" ".join(args), stdin=t)
    if wall < 0.9:
        c.bad("timeout:early", "stopped early, %s: %s" % (r.brief(), show), args=" ".join(args), stdin=t)
    if grace and (not r.ok or "Out of time" not in r.cerr):
        c.bad("timeout:graceful", "%s %r: %s" % (r.brief(), r.cerr[-200:], show), args=" ".join(args), stdin=t)
    if not grace and "Out of time" not in (r.exc or ""):
        c.bad("timeout:error", "%s: %s" % (r.brief(), show), args=" ".join(args), stdin=t)


def helped(ctx, c):
    rng = c.rng
    r = run_cli(ctx.drv("fast:driver"), [rng.choice(["-h", "--help"])], "")
    c.evals += 1
    c.n("help")
    for w in ("--input", "--layout", "--pipeline", "--graceful", "--printlli", "--layoutgenerator", "--notwists", "--op-ids", "--disttime"):
        if w not in r.cout + r.out:
            c.bad("help", "the help text lacks %s" % w)
    if not r.ok:
        c.bad("help", r.brief())


def case(ctx, c):
    equivalents(ctx, c)
    refused(ctx, c)
    combinations(ctx, c)
    effects(ctx, c)
    fx = c16.fixed()
    terminates(ctx, c, fx[c.idx] if c.idx < len(fx) else None)
    terminates(ctx, c)
    halting(ctx, c)
    if c.idx % 40 == 0:
        timeouts(ctx, c)
        helped(ctx, c)
