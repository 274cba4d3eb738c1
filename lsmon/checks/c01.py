"""C01: no memory error, undefined behaviour or crash, whatever the input."""
import re, subprocess
from .. import gen, layouts as Y, scenario as S
from ..run import Driver, Result
from . import c10

NEEDS = ["asan:driver", "fast:driver"]
CASES = {"quick": 1600, "thorough": 200000}
CHUNK = 2
FLOOR = {"runs": 7000, "ended_ok": 1500, "ended_refused": 1500, "k_valid": 300, "k_mutated": 300, "k_soup": 150, "k_layout": 200, "k_args": 200, "k_several": 150,
         "k_hostile": 200, "k_long": 6, "k_valgrind": 30, "k_strings": 40}
RULE = ("One evaluation is one run of the program (AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions, or valgrind, or the plain build for very long "
        "programs). It has to come back with an exit code or a std::exception. Distinct by flags, program and layout; trivial runs are those that neither sliced "
        "anything nor were refused.")
DIST = "0123456789"


# ---- workloads: each returns (args, stdin, files)

def flags(rng, layout=True):
    a = []
    if layout:
        k = rng.random()
        if k < 0.3:
            a += ["-L", "edpc"]
            if rng.random() < 0.4:
                a += ["--numlanes", str(rng.choice([1, 1, 2, 3, 4, 7]))]
            if rng.random() < 0.4:
                a += ["--condensed"]
            if rng.random() < 0.3:
                a += ["--explicitfactories"]
        elif k < 0.75:
            a += ["-L", rng.choice(["compact", "compact_no_clogging"])]
    p = rng.choice(["stream", "stream", "dag", "wave", "wave", "edpc"])
    a += ["-P", p]
    if rng.random() < (0.9 if p == "edpc" else 0.25):
        a += ["--local"]
    for f, q in (("--nostagger", 0.3), ("--op-ids", 0.25), ("--notwists", 0.2), ("--noslices", 0.08), ("--graceful", 0.1), ("--cnotcorrections", 0.08)):
        if rng.random() < q:
            a += [f] + ([rng.choice(["always", "never"])] if f == "--cnotcorrections" and rng.random() < 0.7 else [])
    if rng.random() < 0.5:
        a += ["--disttime", str(rng.choice([0, 1, 1, 2, 3, 5, 10]))]
    if rng.random() < 0.3:
        a += ["-g", rng.choice(["djikstra", "astar", "boost"])]
    if rng.random() < 0.12:
        a += ["-r", rng.choice(["graph_search_cached", "graph_search"])]
    if rng.random() < 0.2:
        a += ["--printlli", rng.choice(["before", "sliced", "sliced"])]
    if rng.random() < 0.08:
        a += ["--printdag", rng.choice(["input", "processedlli"])]
    if rng.random() < 0.1:
        a += ["-o", "out.json", "-f", rng.choice(["progress", "noprogress", "machine", "stats", "stats"])]
    if rng.random() < 0.1:
        a += ["-t", rng.choice(["0", "0", "0", "1"])]
    return a


def program(rng, big=False):
    """A well formed program -> (flags, text)"""
    if rng.random() < 0.55:
        n = rng.choice([1, 1, 2, 3, 4, 5, 7, 9] + ([16, 30] if big else []))
        t, _, _ = gen.qasm(rng, n, rng.choice([0, 1, 3, 8, 16] + ([60] if big else [])), annot=rng.random() < 0.4, rz=rng.random() < 0.2, two=("cx", "cz"),
                           gates=gen.ONE if rng.random() < 0.5 else ["x", "z", "h", "s", "sdg"])
        return ["-I", "qasm"], t
    nq = rng.choice([1, 2, 3, 4, 6])
    ng = rng.choice([1, 4, 8, 20])
    ids = rng.sample(range(0, 30), nq)
    if rng.random() < 0.8 and max(ids) < 2 * ng + nq:
        ids[rng.randrange(nq)] = rng.randrange(2 * ng + nq, 2 * ng + nq + 30)
    t, _ = gen.lli(rng, ids, ng, ystates=rng.random() < 0.4, bell=rng.random() < 0.3, clash=0.1 if rng.random() < 0.4 else 0.0)
    return (["-I", "lli"] if rng.random() < 0.5 else []), t


def any_layout(rng):
    """Well formed or odd layout texts."""
    k = rng.random()
    if k < 0.45:
        t = gen.ascii_layout(rng, rng.choice([1, 2, 3, 4]), None, rng.random() < 0.3) or "Q\n"
        if rng.random() < 0.5:
            return t
        return mutate(rng, t, "QrAX0123456789MYTD \n\t\rq", rng.choice([1, 1, 2, 6]))
    if k < 0.8:
        rows, cols = rng.choice([1, 1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 4, 6, 9])
        al = rng.choice(["Qr", "Q", "r", "QrA", "QrAMY", "Qr0", "Qr01", "Qr0123456789", "QrAMYX0TD", "0", "01", "Q0", "QA", "QrX", "QY", "QM", "QrY"])
        lines = ["".join(rng.choice(al) for _ in range(cols)) for _ in range(rows)]
        if rng.random() < 0.25:
            lines[rng.randrange(rows)] = "".join(rng.choice(al) for _ in range(rng.randint(0, cols + 2)))
        return "\n".join(lines) + rng.choice(["\n", "\n", "", "\n\n"])
    return rng.choice(["", "\n", " ", "Q", "r", "A", "0", "00\n00", "QQ", "Q\nQ\n", "Q0", "0Q", "rQr\n0rr\n", "\x00", "Q\x00r\n", "ÿ", "QrQ\r\nrrr\r\n", "\n\nQrr\n\n", "M\nQ\n", "Y\nQ\n", "MQ\n", "rrr\nrQr\nrrr\nM\n",
                       "0r0\nrQr\n0r0\n", "000\n0Q0\n000\n", "0\n0\n0\nQ\n", "Qr\n11\n22\n33\n"])


NUMS = ["-1", "0", "1", "00", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-0", "+1", "1e3", "0x1", "", "99", "7.5", "1/0", "1/3", "-9223372036854775808", "2147483648"]
WORDS = ["Init", "MeasureSinglePatch", "MultiBodyMeasure", "RequestMagicState", "RequestYState", "LogicalPauli", "HGate", "SGate", "XGate", "YGate", "ZGate", "Reset", "RotateSingleCellPatch",
         "BellPairInit", "BellBasedCNOT", "DeclareLogicalQubitPatches", "BusyRegion", "|0>", "|+>", "|1>", "|T>", "0:Z", "1:X", "0:Y", "1:I", "0:Z,1:X", "1:Z,0:Z", "-0:Z,1:X", "0:X,0:Z", "0:Z,1:Z,2:Z", "X", "Z", "-X", "Y", "I",
         "0", "1", "2", "3", "7", "0", "1", "10", "11", ":", ",", ",,", "#"]
QWORDS = ["qreg", "creg", "cx", "cz", "x", "y", "z", "h", "s", "t", "sdg", "tdg", "rz", "rx", "ry", "crz", "crx", "rzz", "u1", "u2", "u3", "id", "ccx", "measure", "reset", "barrier", "if", "gate", "opaque", "include", "OPENQASM 2.0;",
          "q[0]", "q[1]", "q[2]", "q[-1]", "q[99]", "q[", "q]", "q", "[0]", "q[0];", "q[1];", "q[0],q[1];", "q[1],q[0];", "q[0],q[0];", "(pi/2)", "(pi/4)", "(pi)", "(-pi/8)", "(pi/0)", "(0)", "(3*pi/4)", "(pi", ")", "pi", ";", ",", "->",
          "//", "//%", "AncillaNextToControl", "ZXWithMBMTargetFirst", "BellBased", "{", "}", "\"", "qelib1.inc"]


def mutate(rng, t, alphabet=None, times=1):
    for _ in range(times):
        k = rng.randrange(10)
        n = len(t)
        i = rng.randrange(n + 1)
        if k == 0:
            t = t[:i]
        elif k == 1:
            j = min(n, i + rng.choice([1, 1, 2, 5, 20]))
            t = t[:i] + t[j:]
        elif k == 2:
            t = t[:i] + (rng.choice(alphabet) if alphabet else chr(rng.choice([0, 9, 10, 11, 13, 32, 33, 34, 35, 40, 41, 42, 44, 45, 47, 58, 59, 91, 93, 95, 124, 127, 128, 200, 255, 0xdc80, 0xdcff, rng.randrange(256)]))) + t[i:]
        elif k == 3:
            j = min(n, i + rng.choice([1, 3, 8, 30]))
            t = t[:j] + t[i:j] + t[j:]
        elif k == 4:
            m = list(re.finditer(r"-?\d+", t))
            if m:
                x = rng.choice(m)
                t = t[:x.start()] + rng.choice(NUMS[:3] + ["2", "3", "5"] if rng.random() < 0.5 else NUMS) + t[x.end():]
        elif k == 5:
            l = t.split("\n")
            if len(l) > 1:
                a, b = rng.randrange(len(l)), rng.randrange(len(l))
                l[a], l[b] = l[b], l[a]
                t = "\n".join(l)
        elif k == 6:
            l = t.split("\n")
            a = rng.randrange(len(l))
            l.insert(rng.randrange(len(l) + 1), l[a])
            t = "\n".join(l)
        elif k == 7:
            l = t.split("\n")
            del l[rng.randrange(len(l))]
            t = "\n".join(l)
        elif k == 8:
            w = re.split(r"(\s+)", t)
            if len(w) > 2:
                w[rng.randrange(0, len(w), 2)] = rng.choice(WORDS + QWORDS) if not alphabet else rng.choice(alphabet)
                t = "".join(w)
        else:
            w = re.split(r"(\s+)", t)
            if len(w) > 2:
                w[rng.randrange(1, len(w), 2)] = rng.choice(["", " ", "  ", "\t", "\n", "\n\n", "\r\n", ","])
                t = "".join(w)
    return t


def tame(t):
    """No register or patch count that only exhausts memory."""
    return re.sub(r"(q(?:reg|REG)?[^\n]{0,12}\[\s*)(\d{4,})", lambda m: m.group(1) + (m.group(2) if len(m.group(2)) > 11 else "300"), t)


def valid(rng):
    f, t = program(rng, True)
    a = flags(rng)
    files = None
    if rng.random() < 0.35:
        a = [x for x in a]
        files = {"l.txt": gen.ascii_layout(rng, rng.choice([1, 2, 3, 5]), None, rng.random() < 0.3) or "Q\n"}
        a += ["-l", "l.txt"]
    return f + a, t, files


def mutated(rng):
    a, t, files = valid(rng)
    return a, tame(mutate(rng, t, None, rng.choice([1, 1, 2, 3, 8]))), files


def soup(rng):
    lines = []
    if rng.random() < 0.5:
        if rng.random() < 0.8:
            lines.append("DeclareLogicalQubitPatches " + rng.choice(["0,1", "0,1,2", "0", "0,1,2,3", "1,0"]))
        for _ in range(rng.randint(1, 8)):
            lines.append(" ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 6))))
        a = []
    else:
        if rng.random() < 0.8:
            lines.append("qreg q[%d];" % rng.choice([1, 2, 3, 4]))
        for _ in range(rng.randint(1, 8)):
            w = [rng.choice(QWORDS) for _ in range(rng.randint(1, 6))]
            lines.append((" " if rng.random() < 0.7 else "").join(w) + (";" if rng.random() < 0.5 else ""))
        a = ["-I", "qasm"]
    return a + flags(rng), tame(rng.choice(["\n", "\n", "\r\n"]).join(lines) + "\n"), None


def layout(rng):
    f, t = program(rng)
    a = [x for x in flags(rng, False)]
    return f + a + ["-l", "l.txt"], t, {"l.txt": any_layout(rng)}


def args(rng):
    """Odd command lines; whatever names a file stays inside the scratch directory."""
    f, t = program(rng)
    pool = [["-i", rng.choice(["in.txt", "nofile", ".", "/dev/null"])], ["-I", rng.choice(["qasm", "q", "lli", "l", "pandora", "p", "", "x", "QASM"])],
            ["-l", rng.choice(["l.txt", "nofile", ".", "/dev/null", "in.txt"])], ["-o", rng.choice(["out.json", ".", "nodir/x", "/dev/full"])], ["-f", rng.choice(["progress", "noprogress", "machine", "stats", "bogus", "p"])],
            ["-t", rng.choice(["0", "0", "1", "-1", "x", "0.5", ""])], ["-r", rng.choice(["graph_search", "graph_search_cached", "x"])], ["-P", rng.choice(["stream", "wave", "edpc", "dag", "x", "s"])],
            ["-g", rng.choice(["djikstra", "astar", "boost", "x"])], ["--port", rng.choice(["1", "0", "-1", "x", "99999"])], ["--graceful"], ["--printlli"], ["--printlli", rng.choice(["before", "sliced", "x"])],
            ["--printdag"], ["--printdag", rng.choice(["input", "processedlli", "x"])], ["--noslices"], ["--cnotcorrections", rng.choice(["always", "never", "x"])], ["--cnotcorrections"], ["--op-ids"],
            ["-L", rng.choice(["compact", "compact_no_clogging", "edpc", "x", ""])], ["--numlanes", rng.choice(["0", "1", "2", "5", "-1", "x", "18446744073709551615", "3.7"])], ["--condensed"], ["--explicitfactories"],
            ["--nostagger"], ["--disttime", rng.choice(["0", "1", "-1", "x", "18446744073709551615", "4294967296", "3"])], ["--local"], ["--notwists"], ["-h"], ["--bogus"], ["extra"], ["-"], ["--"], [""]]
    a = list(f) if rng.random() < 0.8 else []
    for o in rng.sample(pool, rng.randint(0, 7)):
        if rng.random() < 0.08:
            o = o[:1]
        a += o
    if rng.random() < 0.05:
        a += rng.choice(pool)
    return a, t, {"l.txt": any_layout(rng) if rng.random() < 0.5 else "rrrrr\nrQrQr\nrrArr\nr000r\n", "in.txt": t if rng.random() < 0.8 else ""}


def hostile(rng):
    """LLI that parses but does not fit: names unknown, gone, twice; any instruction on any of a few names."""
    ids = rng.sample(range(8), rng.choice([1, 2, 3, 4]))
    lines = ["DeclareLogicalQubitPatches " + ",".join(map(str, ids))]
    n = lambda: str(rng.choice(ids) if rng.random() < 0.6 else rng.randrange(9))
    op = lambda: rng.choice("XXZZYI" if rng.random() < 0.2 else "XZ")
    pool = [lambda: "Init %s %s" % (n(), rng.choice(["|0>", "|+>"])), lambda: "Init %s |0> %s:%s" % (n(), n(), op()), lambda: "MeasureSinglePatch %s %s" % (n(), op()),
            lambda: "MultiBodyMeasure %s:%s,%s:%s" % (n(), op(), n(), op()), lambda: "MultiBodyMeasure %s:%s" % (n(), op()), lambda: "MultiBodyMeasure %s:X,%s:X,%s:Z" % (n(), n(), n()),
            lambda: "RequestMagicState %s %s" % (n(), n()), lambda: "RequestYState %s %s" % (n(), n()), lambda: "LogicalPauli %s %s" % (n(), rng.choice("XYZ")), lambda: "HGate " + n(), lambda: "SGate " + n(),
            lambda: "RotateSingleCellPatch " + n(), lambda: "Reset " + n(), lambda: "BellPairInit %s %s %s:%s,%s:%s" % (n(), n(), n(), op(), n(), op()), lambda: "BellBasedCNOT %s %s %s %s" % (n(), n(), n(), n())]
    few = rng.sample(pool, rng.randint(2, len(pool)))
    for _ in range(rng.choice([2, 5, 10, 25])):
        lines.append(rng.choice(few)())
    a = flags(rng)
    files = None
    if rng.random() < 0.4:
        files = {"l.txt": any_layout(rng)}
        a += ["-l", "l.txt"]
    return a, "\n".join(lines) + "\n", files


def tiny(rng):
    """Empty and nearly empty programs."""
    t = rng.choice(["", "\n", " ", "qreg q[0];", "qreg q[1];", "qreg q[1];\n", "x q[0];\nqreg q[1];\n", "DeclareLogicalQubitPatches 0\n", "DeclareLogicalQubitPatches \n", "DeclareLogicalQubitPatches\n", "HGate 0\n", "\n\nDeclareLogicalQubitPatches 0",
                    "OPENQASM 2.0;\n", "// only a comment\n", "//", "/", ";", "qreg q[2];\ncx q[0],q[1];", "qreg q[1];\nqreg r[1];\n", "creg c[1];\n", "\0", "qreg q[1];\n\0\n", "DeclareLogicalQubitPatches 4294967295\nHGate 4294967295\n",
                    "DeclareLogicalQubitPatches 4294967295,0\nSGate 0\n", "DeclareLogicalQubitPatches 4294967294\nSGate 4294967294\nRequestMagicState 5 4294967294\n"])
    return (["-I", "qasm"] if rng.random() < 0.5 else []) + flags(rng), t, None


LONG = ["stream", "wave", "edpc"]


def long_run(rng, i):
    """Programs whose length alone may hurt."""
    k = i % 6
    n = 30000
    g = rng.choice(["x", "z", "y"])
    if k == 0:
        return ["-I", "qasm", "-L", "edpc", "-P", "wave", "--noslices"], "qreg q[2];\n" + "%s q[0];\n" % g * n, None
    if k == 1:
        return ["-I", "qasm", "-L", "edpc", "-P", "edpc", "--local", "--noslices"], "qreg q[2];\n" + ("%s q[0];\n%s q[1];\n" % (g, g)) * (n // 2), None
    if k == 2:
        return ["-I", "qasm", "-P", "stream", "--noslices"], "qreg q[3];\n" + "".join("%s q[%d];\n" % (g, j % 3) for j in range(n)), None
    if k == 3:
        return ["-P", "wave", "--noslices", "-L", "edpc"], "DeclareLogicalQubitPatches 0,1\n" + "LogicalPauli 0 X\nReset 1\n" * (n // 2), None
    if k == 4:
        return ["-I", "qasm", "--printlli"], "qreg q[9];\n" + "".join("%s q[%d];\n" % (rng.choice(["x", "h", "s"]), j % 9) for j in range(n)), None
    return ["-I", "qasm", "-L", "edpc", "-P", "wave", "--noslices"], "qreg q[40];\n" + "".join("x q[%d];\nz q[%d];\n" % (j % 40, (j * 7) % 40) for j in range(n // 2)), None


# ---- judging

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\s:]+:\d+)?")


def signature(status, cerr):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", cerr) or re.search(r"runtime error: ([a-z ]+)", cerr) or re.search(r"Assertion '([^']*)'", cerr) or re.search(r"==\d+== ((?:Invalid|Conditional|Use of)[^\n]*)", cerr)
    kind = m.group(1).strip() if m else status
    fn = re.search(r"(lsqecc::[\w:~]+)", cerr)
    return "%s:%s" % (kind, fn.group(1) if fn else "?")


def judge(c, what, rep, runs, files, flavor):
    got = rep.get("runs") or []
    st = rep["status"]
    cerr = rep.get("cerr", "")
    c.evals += len(got)
    c.n("runs", len(got))
    for i, r in enumerate(got):
        if r.get("exc") == "(not a std::exception)":
            a, t = runs[min(i, len(runs) - 1)]
            c.bad("foreign-exception", "a run ended with something that is not a std::exception: `%s` %r %r" % (" ".join(a), t[:2000], files), args=" ".join(a), stdin=t, files=files, flavor=flavor)
            continue
        good = r.get("exc") is None and r.get("code") == 0
        c.n("ended_ok" if good else "ended_refused" if r.get("exc") is not None or r.get("code") is not None else "ended_cut")
        a, t = runs[min(i, len(runs) - 1)]
        if not good or len(r.get("out") or "") > 4:
            c.sample("%s: `%s` %r: %s" % (what, " ".join(a), t[:80], "ended well" if good else "refused: %s" % (r.get("exc") or r.get("code"))))
            c.sigs.add(hash((" ".join(a), t, repr(files))) & 0xffffffffffff)
    if st in ("ok", "outlimit"):
        return
    if st == "timeout":
        return c.n("timeouts")
    if st == "signal:9":
        c.inconclusive.append("a run was killed from outside")
        return
    a, t = runs[min(len(got), len(runs) - 1)]
    lines = [l for l in cerr.split("\n") if "ERROR" in l or "runtime error" in l or "Assertion" in l or "#" in l[:12] or "==" in l[:3]]
    c.bad(signature(st, cerr), "%s (%s build): a run ended with %s: %s\n   args: %s\n   input: %r\n   files: %r\n   earlier runs in the process: %r" % (
        what, flavor, st, " | ".join(x.strip()[:160] for x in lines[:7]), " ".join(a), t[:3000], files, [(" ".join(x), y) for x, y in runs[:len(got)]]),
        args=" ".join(a), stdin=t[:200000], files=files, flavor=flavor, earlier=[[list(x), y] for x, y in runs[:len(got)]])


class Valgrind(Driver):
    def _start(self):
        from ..run import ENV
        self.p = subprocess.Popen(["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--exit-on-first-error=no", self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=self.scratch, env=ENV, bufsize=1 << 20)


def go(c, drv, what, items, flavor, cpu=1.5, limit=300000, strings=False):
    """One process; several items share the files of the first one."""
    files = items[0][2]
    runs = [(a, t) for a, t, _ in items]
    if strings:
        req = [{"api": "strings", "cmdline": " ".join(a), "stdin": t} for a, t in runs]
    else:
        req = [{"args": a, "stdin": t} for a, t in runs]
    rep = drv.run({"runs": req, "files": enc(files), "cpu": cpu, "limit": limit})
    judge(c, what, rep, runs, files, flavor)


def enc(files):
    if not files:
        return files
    return {k: v.encode("latin-1", "replace") if isinstance(v, str) else v for k, v in files.items()}


KINDS = {"valid": valid, "mutated": mutated, "soup": soup, "layout": layout, "args": args, "hostile": hostile, "tiny": tiny}


def clean(t):
    """What JSON can carry to the driver: surrogates stand for single bytes there, so keep to code points."""
    return "".join(ch if ord(ch) < 0xd800 else "\u00ff" for ch in t)


def case(ctx, c):
    rng = c.rng
    asan = ctx.drv("asan:driver")
    for sub in range(6):
        k = rng.choice(["valid", "valid", "mutated", "mutated", "soup", "layout", "layout", "args", "hostile", "hostile", "tiny"])
        a, t, f = KINDS[k](rng)
        c.n("k_" + k)
        go(c, asan, k, [(a, clean(t), f)], "asan")
    # several runs in one process share whatever static state there is
    items = []
    for _ in range(rng.choice([2, 3, 4])):
        a, t, f = KINDS[rng.choice(["valid", "valid", "mutated", "hostile", "layout"])](rng)
        items.append((a, clean(t), f))
    files = next((f for _, _, f in items if f), None)
    c.n("k_several")
    go(c, asan, "several runs in one process", [(a, t, files) for a, t, _ in items], "asan", cpu=3.0)
    if c.idx % 16 == 3:
        c.n("k_strings")
        a, t, f = KINDS[rng.choice(["valid", "mutated", "soup"])](rng)
        a = [x for x in a if x not in ("-l", "l.txt")]
        go(c, asan, "string interface", [(a, clean(t), None)] * 2, "asan", strings=True)
    if c.idx % 20 == 7:
        if "valgrind" not in ctx.cache:
            import os
            d = os.path.join(ctx.scratch, "vg")
            ctx.cache["valgrind"] = Valgrind(ctx.exes["fast:driver"], d)
        c.n("k_valgrind")
        a, t, f = KINDS[rng.choice(["valid", "valid", "valid", "hostile", "layout"])](rng)
        go(c, ctx.cache["valgrind"], "valgrind", [(a, clean(t), f)], "valgrind", cpu=12.0, limit=300000)
    if c.idx % 100 == 11:
        c.n("k_long")
        a, t, f = long_run(rng, c.idx // 100)
        go(c, ctx.drv("fast:driver"), "long program", [(a, t, f)], "plain", cpu=15.0, limit=8 << 20)
