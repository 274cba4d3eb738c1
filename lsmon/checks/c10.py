"""C10: what the parsers read, against the program the text was written from; malformed lines are refused by their line number."""
import re
from .. import gen
from ..run import run_many
from . import c02

NEEDS = ["fast:driver"]
CASES = {"quick": 6000, "thorough": 100000}
FLOOR = {"gates_read": 20000, "instructions_read": 15000, "bad_qasm": 4000, "bad_lli": 4000, "round_trips": 300, "changed_read": 5000}
RULE = "one evaluation is one program read (compared with what it was written from) or one malformed program refused; distinct counts line shapes"

LAY = "rrrrrrrrrr\nrQrQrQrQrr\nrrrrrrrrAr\nrQrQrQrQrr\nrrrrrrrrrr\nr000rrrrQr\n"
LABEL = re.compile(r"^  (\d+) \[.*?<b>(.*?)</b>", re.M)
LINE = re.compile(r"at line (\d+)")


def shape(s):
    return re.sub(r"\d+", "9", s)


# ---- QASM

def qasm_gates(rng, nq, n, lower):
    """-> [(canonical line, label or None, annotation)]; with lower, only what can be lowered"""
    out = []
    for _ in range(n):
        k = rng.random()
        q = rng.randrange(nq)
        if k < 0.35 and nq > 1:
            a, b = rng.sample(range(nq), 2)
            g = rng.choice(["cx", "cz"])
            ann = ""
            if rng.random() < 0.4:
                parts = [rng.choice(c02.TYPES + ["BellBased"])] if rng.random() < 0.7 else []
                if rng.random() < 0.7 or not parts:
                    parts.append(rng.choice(c02.PLACE))
                rng.shuffle(parts)
                ann = " // %" + ",".join(parts)
            out.append((g, "", [a, b], "%s q[%d],q[%d];" % (g, a, b), ann))
        elif k < 0.42 and nq > 1 and not lower:
            a, b = rng.sample(range(nq), 2)
            m = rng.choice([2, 4, 8, 16, 3, 1024])
            out.append(("crz", "(pi/%d)" % m, [a, b], "crz(pi/%d) q[%d],q[%d];" % (m, a, b), ""))
        elif k < 0.5:
            m = rng.choice([1, 2, 4, 8, 3]) if not lower else 1
            num = rng.choice([1, 1, 3, 5, 2, 6, 7, 12345])
            neg = rng.random() < 0.3
            if m == 1:
                t = rng.choice(["%d*pi" % num, "%d*pi/1" % num] + (["pi/1"] if num == 1 else []))
                if num == 1 and neg and rng.random() < 0.3:
                    t, neg = "pi*-1", False
                lab = "z q[%d];" % q if num % 2 else None
            else:
                t = "%d*pi/%d" % (num, m) if num > 1 or rng.random() < 0.5 else "pi/%d" % m
                lab = "rz(%s%dpi/%d) q[%d];" % ("-" if neg else "", num, m, q)
            out.append(("rz", "(%s%s)" % ("-" if neg else "", t), [q], lab, ""))
        elif k < 0.55:
            out.append(("reset", "", [q], "reset q[%d];" % q, ""))
        else:
            g = rng.choice(gen.ONE)
            out.append((g, "", [q], "%s q[%d];" % (g, q), ""))
    return out


def text(g, reg="q", sep=","):
    name, par, qs, _, ann = g
    return "%s%s %s;%s" % (name, par, sep.join("%s[%d]" % (reg, x) for x in qs), ann)


FILL = ["", "", "// a comment", "//", "   // x q[0];", "include \"qelib1.inc\";", "creg c[3];", "barrier %s[0];", "barrier %s;", "OPENQASM 2.0;", "  ", "\t", "//cx q[0],q[0];"]
TAIL = ["", "", "", " ", "  // note", " // cx q[0],q[1];", " //%AncillaNextToControl", "\t", " // % x"]


def render(rng, gates, nq):
    """-> (lines, number of the line (from 1) of each gate, line number of qreg)"""
    reg = rng.choice(["q", "q", "reg", "q0", "A_1"])
    lines = []
    if rng.random() < 0.7:
        lines += ["OPENQASM 2.0;"]
    if rng.random() < 0.7:
        lines += ['include "qelib1.inc";']
    fill = lambda: rng.choice(FILL).replace("%s", reg)
    if rng.random() < 0.3:
        lines.append(fill())
    lines.append("qreg %s[%d];%s" % (reg, nq, rng.choice(["", " // the qubits"])))
    pos = []
    for g in gates:
        while rng.random() < 0.2:
            lines.append(fill())
        t = text(g, reg, rng.choice([",", ",", ", ", ",  "]))
        if not g[4]:
            t += rng.choice(TAIL)
        lead = rng.choice(["", "", "", " ", "    ", "\t"])
        if rng.random() < 0.1 and not g[1]:
            t = t.replace(" ", "  ", 1) if not g[4] else t
        lines.append(lead + t)
        pos.append(len(lines))
    if rng.random() < 0.3:
        lines.append(fill())
    return lines, pos, reg


def join(rng, lines):
    nl = rng.choice(["\n", "\n", "\r\n"])
    return nl.join(lines) + (nl if rng.random() < 0.8 else "")


def bad_qasm_line(rng, nq, reg):
    q = rng.randrange(nq)
    i = "%s[%d]" % (reg, q)
    o = "%s[%d]" % (reg, nq + rng.choice([0, 0, 1, 7, 1000]))
    j = "%s[%d]" % (reg, (q + 1) % nq)
    g1 = rng.choice(gen.ONE)
    g2 = rng.choice(["cx", "cz"])
    forms = ["%s %s;" % (g1, o), "%s %s[-1];" % (g1, reg), "%s %s,%s;" % (g1, i, j), "%s %s;" % (g2, i), "%s %s,%s;" % (g2, i, i), "%s %s,%s;" % (g2, i, o), "%s %s,%s;" % (g2, o, i),
             "%s %s,%s,%s;" % (g2, i, j, i), "%s %s;" % (g1.upper(), i), "%sx %s;" % (g1, i), "%s;" % g1, "%s %s[];" % (g1, reg), "%s %s[x];" % (g1, reg), "%s %s[%dx];" % (g1, reg, q),
             "%s %s;" % (g1, reg), "%s\t%s;" % (g1, i), "ccx %s,%s,%s;" % (i, j, i), "u3(0,0,0) %s;" % i, "rx(pi/2) %s;" % i, "rz(0.5) %s;" % i, "rz(pi) %s;" % i, "rz(x*pi/2) %s;" % i, "rz(3*pi/x) %s;" % i,
             "rz() %s;" % i, "rz %s;" % i, "rz(pi/2) %s;" % o, "rz(pi/2) %s,%s;" % (i, j), "rzz(pi/1) %s,%s;" % (i, j), "measure %s -> c[0];" % i, "if(c==1) x %s;" % i, "reset %s;" % reg, "reset %s;" % o,
             "qreg r[2];", "qreg %s[%d];" % (reg, nq), "swap %s,%s;" % (i, j), "cy %s,%s;" % (i, j), "gate foo a { x a; }", "}", ";", "%s %s[99999999999999999999];" % (g1, reg), "%s %s[4294967296];" % (g1, reg),
             "%s %s[%d];" % (g1, reg, (1 << 32) + q), "CX %s,%s;" % (i, j), "id %s;" % i, "ch %s,%s;" % (i, j), "cnot %s,%s;" % (i, j), "%s %s %s;" % (g2, i, j), "%s [;" % g1, "%s ];" % g1, "%s,%s;" % (g1, i), "\x00%s %s;" % (g1, i),
             "crz(0.5) %s,%s;" % (i, j), "crz(pi) %s,%s;" % (i, j), "crz(pi/x) %s,%s;" % (i, j), "crz(pi/4) %s;" % i, "crz(pi/4) %s,%s;" % (i, i), "crz(pi/4) %s,%s,%s;" % (i, j, i)]
    return rng.choice(forms)


# ---- LLI

NUM = {"Init": "0", "MeasureSinglePatch": "1", "MultiBodyMeasure": "2", "RequestMagicState": "3", "LogicalPauli": "4", "HGate": "5", "SGate": "6", "RotateSingleCellPatch": "7",
       "BellPairInit": "8", "RequestYState": "9", "BellBasedCNOT": "10"}


def lli_instr(rng, big):
    """-> (text, expected print)"""
    i = lambda: rng.randrange(rng.choice([3, 20, 1000, 2147483647])) if big else rng.randrange(30)
    P = lambda: rng.choice("XYZ")
    k = rng.randrange(13)

    def other(x):
        y = i()
        return y if y != x else x + 1 if x < 2147483646 else 0

    def op(name):
        return NUM[name] if rng.random() < 0.2 else name
    if k in (0, 1):
        st = rng.choice(["0", "+"])
        x = i()
        near = " %d:%s" % (i(), rng.choice("XZ")) if rng.random() < 0.5 else ""
        return "%s %d %s%s" % (op("Init"), x, rng.choice([st, "|%s>" % st]), near), "Init %d |%s>%s" % (x, st, near)
    if k == 2:
        a = "%d %s" % (i(), P())
        return "%s %s" % (op("MeasureSinglePatch"), a), "MeasureSinglePatch " + a
    if k in (3, 4):
        ids = {i() for _ in range(rng.choice([1, 2, 2, 2, 3, 5]))}
        ids = list(ids)
        rng.shuffle(ids)
        a = ",".join("%d:%s" % (x, P()) for x in ids)
        return "%s %s" % (op("MultiBodyMeasure"), a), "MultiBodyMeasure " + a
    if k in (5, 6):
        n = rng.choice(["RequestMagicState", "RequestYState"])
        a = "%d %d" % (i(), i())
        return "%s %s" % (op(n), a), "%s %s" % (n, a)
    if k == 7:
        x, p = i(), P()
        return (rng.choice(["%s %d %s" % (op("LogicalPauli"), x, p), "%sGate %d" % (p, x)])), "%sGate %d" % (p, x)
    if k in (8, 9, 10):
        n = rng.choice(["HGate", "SGate", "RotateSingleCellPatch"])
        a = "%d" % i()
        return "%s %s" % (op(n), a), "%s %s" % (n, a)
    if k == 11:
        x = i()
        a = "%d %d %d:%s,%d:%s" % (x, other(x), i(), P(), i(), P())
        return "%s %s" % (op("BellPairInit"), a), "BellPairInit " + a
    if rng.random() < 0.3:
        a = "Reset %d" % i()
        return a, a
    x, y = i(), i()
    a = "%d %d %d %d" % (x, other(x), y, other(y))
    return "%s %s" % (op("BellBasedCNOT"), a), "BellBasedCNOT " + a


BADID = ["x", "-1", "", "1x", "1.5", "99999999999", "2147483648", "4294967296", "0x1", "+1", "|0>"]


def bad_lli_line(rng):
    b = rng.choice(BADID)
    i = rng.randrange(20)
    p = rng.choice(["W", "x", "", "XX", "-X", "0"])
    forms = ["HGate " + b, "SGate " + b, "XGate " + b, "RotateSingleCellPatch " + b, "MeasureSinglePatch %s X" % b, "MeasureSinglePatch %d %s" % (i, p), "MultiBodyMeasure %s:X,%d:Z" % (b, i),
             "MultiBodyMeasure %d:Z,%d:%s" % (i + 1, i, p), "MultiBodyMeasure %d" % i, "MultiBodyMeasure %d:X:Z,%d:Z" % (i, i + 1), "MultiBodyMeasure %d:X,,%d:Z" % (i, i + 1), "MultiBodyMeasure %d:X,%d:Z," % (i, i + 1), "MultiBodyMeasure %d:X,%d:X" % (i, i),
             "MultiBodyMeasure %d:X, %d:X" % (i, i + 1),
             "Init %s |0>" % b, "Init %d |1>" % i, "Init %d |->" % i, "Init %d 1" % i, "Init %d" % i, "Init %d |0> %s:X" % (i, b), "Init %d |0> %d" % (i, i + 1), "Init %d |0> %d:%s" % (i, i + 1, p), "Init %d |0> %d:X:Z" % (i, i + 1), "RequestMagicState %d" % i, "RequestMagicState %s %d" % (b, i), "RequestMagicState %d %s" % (i, b),
             "RequestYState %d" % i, "RequestYState %d %s" % (i, b), "LogicalPauli %d" % i, "LogicalPauli %d %s" % (i, p), "LogicalPauli %d I" % i, "LogicalPauli %s X" % b, "BellPairInit %d %d" % (i, i + 1), "BellPairInit %d %d 1:X" % (i, i + 1),
             "BellPairInit %d %d 1:X,2:X,3:X" % (i, i + 1), "BellPairInit %s 2 1:X,2:Z" % b, "BellPairInit %d %d 1:X,2:Z" % (i, i), "BellBasedCNOT 0 1 %d %d" % (i, i), "BellBasedCNOT %d %d 22 23" % (i, i), "BellPairInit 1 2 1:X,2:%s" % p, "BellBasedCNOT 0 1 2", "BellBasedCNOT 0 1 2 %s" % b, "BellBasedCNOT %s 1 2 3" % b,
             "Hgate %d" % i, "hgate %d" % i, "TGate %d" % i, "11 %d" % i, "-1 %d" % i, "HGate", " HGate %d" % i, "HGate  %d" % i, "HGate\t%d" % i, "# comment", "// comment", "DeclareLogicalQubitPatches 1,2", "DeclareLogicalQubitPatches",
             "BusyRegion (0,0),StepsToClear(1)", "MeasureSinglePatch X %d" % i, "Reset " + b, "Reset", "5", "0", "2", " ", "Q", ";"]
    return rng.choice(forms)


# ---- lines changed at random: what they denote, if anything

class Bad(Exception):
    pass


NAMEOF = {v: k for k, v in NUM.items()}


def read_lli(line):
    """-> (denoted instruction as printed or None when there is no telling, well formed beyond doubt); Bad: malformed"""
    t = line.split(" ")
    name = NAMEOF.get(t[0], t[0])
    sure = [True]

    def tok():
        if not t:
            raise Bad
        return t.pop(0)

    def pid(x):
        if not re.fullmatch(r"[0-9]+", x) or int(x) > 2147483647:
            raise Bad
        if x != str(int(x)):
            sure[0] = False
        return int(x)

    def op(x, i=False):
        if x == "I" and not i:
            sure[0] = False
        elif x not in ("X", "Y", "Z"):
            raise Bad
        return x

    def pairs(x):
        r = []
        for e in x.split(","):
            e = e.split(":")
            if len(e) != 2:
                raise Bad
            r.append((pid(e[0]), op(e[1])))
        return r
    tok()
    if name == "Init":
        x, st = pid(tok()), tok()
        if st not in ("0", "+", "|0>", "|+>"):
            raise Bad
        near = ""
        if t:
            e = pairs(tok())
            if len(e) != 1:
                raise Bad
            near = " %d:%s" % e[0]
        r = "Init %d |%s>%s" % (x, st.strip("|>"), near)
    elif name == "MeasureSinglePatch":
        r = "MeasureSinglePatch %d %s" % (pid(tok()), op(tok()))
    elif name == "MultiBodyMeasure":
        e = pairs(tok())
        if len({x for x, _ in e}) < len(e):
            raise Bad
        r = "MultiBodyMeasure " + ",".join("%d:%s" % x for x in e)
    elif name in ("RequestMagicState", "RequestYState"):
        r = "%s %d %d" % (name, pid(tok()), pid(tok()))
    elif name == "LogicalPauli":
        x = pid(tok())
        r = "%sGate %d" % (op(tok(), True), x)
    elif name in ("HGate", "SGate", "XGate", "YGate", "ZGate", "RotateSingleCellPatch", "Reset"):
        r = "%s %d" % (name, pid(tok()))
    elif name == "BellPairInit":
        x, y, e = pid(tok()), pid(tok()), pairs(tok())
        if x == y or len(e) != 2:
            raise Bad
        r = "BellPairInit %d %d %s" % (x, y, ",".join("%d:%s" % z for z in e))
    elif name == "BellBasedCNOT":
        x = [pid(tok()) for _ in range(4)]
        if x[0] == x[1] or x[2] == x[3]:
            raise Bad
        r = "BellBasedCNOT %d %d %d %d" % tuple(x)
    else:
        raise Bad
    return r, sure[0] and not t


def read_qasm(line, nq, reg):
    """The same for a QASM line (None: no gate, or no telling)."""
    split = lambda s, d: s.split(d) if s else []
    s = line.lstrip(" \t\v\f")
    if s == "" or s.startswith("//"):
        return None, True
    name, args = s, []
    if " " in s:
        s = s.split(";")[0]
        if " " not in s:
            if s in ("OPENQASM", "include", "creg", "barrier"):
                return None, False
            raise Bad
        name, details = s.split(" ", 1)
        args = [a.lstrip(" ") for a in split(details, ",")]
    if name in ("OPENQASM", "include", "creg", "barrier", "//"):
        return None, bool(re.fullmatch(r'\s*(OPENQASM 2.0;|include "qelib1.inc";|creg c\[3\];|barrier [A-Za-z0-9_]+(\[\d+\])?;)\s*', line))

    def number(v):
        if not re.fullmatch(r"\s*[+-]?[0-9]+", v) or abs(int(v)) >= 1 << 63:
            raise Bad
        return int(v)

    def idx(a):
        p = split(a, "[")
        p = split(p[1], "]") if len(p) > 1 else []
        if not p:
            raise Bad
        v = number(p[0])
        if not 0 <= v < nq:
            raise Bad
        return v

    def qubits(n):
        if len(args) != n:
            raise Bad
        q = [idx(a) for a in args]
        if len(set(q)) < n:
            raise Bad
        return q
    NUMBER = r"(0|[1-9][0-9]*)"
    Q = reg + r"\[" + NUMBER + r"\]"
    POS = r"[1-9][0-9]{0,8}"
    strict = lambda nm, n: bool(re.fullmatch(r"\s*" + nm + r" +" + ", *".join([Q] * n) + r"; *(//.*)?\s*", line))
    if name in gen.ONE:
        return "%s q[%d];" % (name, qubits(1)[0]), strict(name, 1)
    if name in ("cx", "cz"):
        return "%s q[%d],q[%d];" % (name, *qubits(2)), strict(name, 2)
    if name == "reset":
        return "reset q[%d];" % qubits(1)[0], strict(name, 1)
    if name.startswith("crz"):
        if name[3:7] != "(pi/":
            raise Bad
        a = split(name[4:].split("(")[0].split(")")[0], ")")[0]
        number(a[3:])
        q = qubits(2)
        if re.fullmatch(r"crz\(pi/(%s)\)" % POS, name):
            return "crz(pi/%d) q[%d],q[%d];" % (number(a[3:]), *q), strict(re.escape(name), 2)
        return None, False
    if name == "rz" or name.startswith("rz("):
        p = split(name, "(")
        p = split(p[1], ")") if len(p) > 1 else []
        if not p:
            raise Bad
        a = p[0]
        if a == "pi*-1":
            return "z q[%d];" % qubits(1)[0], strict(re.escape(name), 1)
        b = a[1:] if a.startswith("-") else a
        if b.startswith("pi/"):
            number(b[3:])
        else:
            e = split(b, "*pi/") if "*pi/" in b else split(b + "/1", "*pi/")
            if len(e) != 2:
                raise Bad
            number(e[0]), number(e[1])
        m = re.fullmatch(r"rz\(-?(?:(%s)\*pi(?:/(%s))?|pi/(%s))\)" % (POS, POS, POS), name)
        if not m:
            return None, False
        num, den = int(m[1] or 1), int(m[2] or m[3] or 1)
        if den == 1 and num % 2 == 0:
            # nothing to apply the identity to: only whether the operand is one is looked at
            if len(args) != 1:
                raise Bad
            try:
                idx(args[0])
            except Bad:
                p = split(args[0], "[")
                number(((split(p[1], "]") if len(p) > 1 else []) or [""])[0])
                return None, False
            return None, strict(re.escape(name), 1)
        q = qubits(1)[0]
        return ("z q[%d];" % q if den == 1 else "rz(%s%dpi/%d) q[%d];" % ("-" if name[3] == "-" else "", num, den, q)), strict(re.escape(name), 1)
    raise Bad


def mutate(rng, line, other):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        at = rng.randrange(len(line) + 1)
        if k < 0.25:
            line = line[:at] + line[at + 1:]
        elif k < 0.5:
            line = line[:at] + rng.choice("0123456789xXqhzpi[](),;:/*-+ |>.IZ\t_#") + line[at:]
        elif k < 0.7:
            line = line[:at] + rng.choice("0123456789xXqhzpi[](),;:/*-+ |>.IZ\t_#") + line[at + 1:]
        elif k < 0.78 and len(line) > 1:
            at = rng.randrange(len(line) - 1)
            line = line[:at] + line[at + 1] + line[at] + line[at + 2:]
        elif k < 0.9:
            # a number written otherwise
            nums = list(re.finditer(r"\d+", line))
            if nums:
                m = rng.choice(nums)
                v = m[0]
                v = rng.choice(["0x" + v, "0" + v, "00" + v, "+" + v, "-" + v, " " + v, v + ".0", v + "e0", v + "u", v + "L", v + "_", "0b" + v, "0o" + v, str(int(v) + (1 << 32)), str(int(v) + (1 << 64)), str(int(v) + (1 << 31)), "%x" % (int(v) + 10), v + "'"])
                line = line[:m.start()] + v + line[m.end():]
        else:
            a, b = sorted(rng.randrange(len(line) + 1) for _ in range(2))
            line = line[:a] + other[a:b] + line[b:] if rng.random() < 0.5 else line[:b] + line[a:]
    return line


def mutants(ctx, c, lines, first, n, args, readings, read, got_of, judge, kind):
    """`lines`, one of them changed; from the index `first` on each line has its reading."""
    rng = c.rng
    drv = ctx.drv("fast:driver")
    todo = []
    for _ in range(n):
        at = rng.randrange(first, len(lines))
        new = mutate(rng, lines[at], rng.choice(lines[first:]))
        if new == lines[at] or "\n" in new or "qreg" in new.split(";")[0] or new.startswith("DeclareLogicalQubitPatches") or new == "":
            continue
        try:
            r = read(new)
        except Bad:
            r = None
        todo.append((at, new, r, "\n".join(lines[:at] + [new] + lines[at + 1:]) + "\n"))
    for (at, new, r, txt), out in zip(todo, run_many(drv, [(args, t[3]) for t in todo], {"l.txt": LAY})):
        c.sigs.add(hash(("mutant", shape(new))) & 0xffffffffffff)
        if r is None:
            judge(out, args, txt, at + 1, kind)
            continue
        label, sure = r
        c.evals += 1
        c.n("changed_read")
        if out is None or out.crashed:
            c.crash("the line %r, changed from a well formed one" % new, out.brief() if out else "no result", args=" ".join(args), stdin=txt)
        elif not out.ok:
            if sure:
                c.bad("refused", "a well formed line %r is refused: %s" % (new, out.brief()), args=" ".join(args), stdin=txt)
        elif label is not None or sure:
            want = [x for k, x in enumerate(readings[:at - first] + [label] + readings[at - first + 1:]) if x is not None]
            got = got_of(out)
            if got != want:
                c.bad("changed_line", "the line %r, which denotes %r, makes the program read as %r instead of %r" % (new, label, got, want), args=" ".join(args), stdin=txt)


def labels(r):
    return [l for _, l in sorted(((int(a), b) for a, b in LABEL.findall(r.out)))]


def case(ctx, c):
    rng = c.rng
    files = {"l.txt": LAY}
    drv = ctx.drv("fast:driver")

    def bad(key, msg, args, txt):
        c.bad(key, "%s\n   args: %s\n   program: %r" % (msg, " ".join(args), txt), args=" ".join(args), stdin=txt)

    def refused(r, args, txt, where, kind):
        """A malformed line at line `where` has to end the run with an error naming that line (None: no line to name)."""
        c.evals += 1
        c.n(kind)
        if r is None or r.crashed:
            c.crash("a malformed line %s" % where, r.brief() if r else "no result", args=" ".join(args), stdin=txt)
        elif r.exc and "Out of time" in r.exc:
            c.n("out_of_time")       # did not get as far as the line
        elif r.ok or (r.exc is None and not r.err):
            bad("accepted", "a malformed line %s is accepted" % where, args, txt)
        elif where is not None:
            m = LINE.search((r.exc or "") + (r.err or ""))
            if not m:
                bad("no_line", "the error does not name the line %d: %s" % (where, r.brief()), args, txt)
            elif int(m.group(1)) != where:
                bad("wrong_line", "the error names line %s, malformed is line %d: %s" % (m.group(1), where, r.brief()), args, txt)
    if rng.random() < 0.5:
        # -------- QASM
        nq = rng.choice([1, 2, 3, 5, 9])
        lower = rng.random() < 0.5
        gates = qasm_gates(rng, nq, rng.choice([1, 4, 10, 20]), lower)
        lines, pos, reg = render(rng, gates, nq)
        txt = join(rng, lines)
        runs = [(["-I", "qasm", "--printdag", "input"], txt)]
        canon = "OPENQASM 2.0;\nqreg q[%d];\n" % nq + "".join(text(g) + "\n" for g in gates)
        pl = ["-I", "qasm", "--printlli", "-l", "l.txt"]
        if lower:
            runs += [(pl, txt), (pl, canon)]
        bads = []
        for _ in range(3):
            at = rng.randrange(len(lines) + 1)
            while at < lines.index(next(l for l in lines if l.startswith("qreg"))) + 1:
                at += 1
            bl = bad_qasm_line(rng, nq, reg)
            t = join(rng, lines[:at] + [rng.choice(["", "", " "]) + bl] + lines[at:])
            bads.append((at + 1, bl))
            runs.append((rng.choice([["-I", "qasm", "--printdag", "input"], pl, ["-I", "qasm", "-L", "compact", "--noslices", "-t", "5"]] if lower and "BellBased" not in txt and "reset" not in txt else [["-I", "qasm", "--printdag", "input"], pl] if lower else [["-I", "qasm", "--printdag", "input"]]), t))
        kind = rng.choice(["none", "late", "zero", "noindex", "negative", "two", "empty", "huge"])
        t = {"none": [l for l in lines if not l.startswith("qreg")], "late": [l for l in lines if not l.startswith("qreg")] + ["qreg %s[%d];" % (reg, nq)],
             "zero": [l if not l.startswith("qreg") else "qreg %s[0];" % reg for l in lines], "noindex": [l if not l.startswith("qreg") else "qreg %s;" % reg for l in lines],
             "negative": [l if not l.startswith("qreg") else "qreg %s[-2];" % reg for l in lines], "two": [l if not l.startswith("qreg") else "qreg %s[%d],b[2];" % (reg, nq) for l in lines], "empty": [],
             "huge": [l if not l.startswith("qreg") else "qreg %s[%d];" % (reg, 1 << 32) for l in lines]}[kind]
        if kind != "late" or pos:
            runs.append((["-I", "qasm", "--printdag", "input"], join(rng, t)))
            bads.append((None if kind in ("none", "late", "empty") else 1 + next(k for k, l in enumerate(lines) if l.startswith("qreg")), kind))
        # programs that consist of identity rotations only before qreg are not malformed in a way worth telling
        if kind == "late" and all(g[3] is None for g in gates):
            runs.pop(); bads.pop()
        res = run_many(drv, runs, files)
        r = res[0]
        c.evals += 1
        if r is None or r.crashed:
            c.crash("a well formed program", r.brief() if r else "no result", args=" ".join(runs[0][0]), stdin=runs[0][1])
            return
        want = [g[3] for g in gates if g[3] is not None]
        if not r.ok:
            bad("refused", "a well formed program is refused: %s" % r.brief(), *runs[0])
            return
        got = [l for _, l in sorted(((int(a), b) for a, b in LABEL.findall(r.out)))]
        if got != want:
            k = next((k for k, (x, y) in enumerate(zip(got + [None], want + [None])) if x != y), min(len(got), len(want)))
            bad("gates", "gate %d is read as %s, written was %s" % (k, got[k:k + 1], want[k:k + 1]), *runs[0])
        c.n("gates_read", len(got))
        for l in lines:
            c.sigs.add(hash(shape(l)) & 0xffffffffffff)
        n = 1
        if lower:
            a, b = res[1], res[2]
            n = 3
            if a is None or b is None or a.crashed or b.crashed:
                for x, y in ((a, runs[1]), (b, runs[2])):
                    if x is None or x.crashed:
                        c.crash("a well formed program", x.brief() if x else "no result", args=" ".join(y[0]), stdin=y[1])
                return
            c.evals += 1
            if not a.ok or not b.ok:
                bad("refused", "a well formed program is refused: %s / %s" % (a.brief(), b.brief()), *runs[1])
            elif a.out != b.out:
                bad("spelling", "differently spaced, the program lowers to other instructions than %r" % canon, *runs[1])
            elif lower and "BellBased" not in canon:
                # and what was printed reads back
                decl = "DeclareLogicalQubitPatches " + ",".join(map(str, range(nq))) + "\n"
                rr = run_many(drv, [(["--printlli", "-l", "l.txt"], decl + a.out)], files)[0]
                c.n("round_trips")
                c.evals += 1
                if rr is None or not rr.ok or rr.out != a.out:
                    bad("round_trip", "what --printlli prints does not read back to itself: %s" % (rr.brief() if rr else "no result"), ["--printlli", "-l", "l.txt"], decl + a.out)
        if gates:
            head = ["OPENQASM 2.0;", "qreg %s[%d];" % (reg, nq)]
            plain = [text(g, reg) for g in gates]
            mutants(ctx, c, head + plain, 2, 8, ["-I", "qasm", "--printdag", "input"], [g[3] for g in gates], lambda l: read_qasm(l, nq, reg), labels, refused, "bad_qasm")
        for (where, bl), (args, t), r in zip(bads, runs[n:], res[n:]):
            refused(r, args, t, where, "bad_qasm")
            c.sigs.add(hash(("bad", shape(bl))) & 0xffffffffffff)
    else:
        ids = rng.sample(range(0, 40), rng.choice([1, 2, 4, 9]))
        ins = [lli_instr(rng, rng.random() < 0.3) for _ in range(rng.choice([0, 1, 5, 15, 30]))]
        lines = ["DeclareLogicalQubitPatches " + ",".join(map(str, ids))]
        for t, _ in ins:
            while rng.random() < 0.1:
                lines.append("")
            lines.append(t)
        if rng.random() < 0.2:
            lines.insert(0, "")
        args = ["--printlli", "-l", "l.txt"] + rng.choice([[], ["-I", "lli"], ["-I", "l"]])
        txt = join(rng, lines)
        runs = [(args, txt)]
        bads = []
        d0 = next(k for k, l in enumerate(lines) if l)
        for _ in range(4):
            at = rng.randrange(d0 + 1, len(lines) + 1)
            bl = bad_lli_line(rng)
            bads.append((at + 1, bl))
            runs.append((args, join(rng, lines[:at] + [bl] + lines[at:])))
        kind = rng.choice(["none", "late", "badid", "empty", "space", "comma", "neg"])
        rest = lines[d0 + 1:]
        k0 = d0 + 1
        t = {"none": (None, rest), "late": (None, rest + [lines[d0]]), "badid": (k0, lines[:d0] + ["DeclareLogicalQubitPatches 0,x"] + rest), "empty": (None, []),
             "space": (k0, lines[:d0] + ["DeclareLogicalQubitPatches 0, 1"] + rest), "comma": (k0, lines[:d0] + ["DeclareLogicalQubitPatches 0,1,"] + rest), "neg": (k0, lines[:d0] + ["DeclareLogicalQubitPatches 0,-1"] + rest)}[kind]
        if kind != "late" or any(rest):
            bads.append((t[0], kind))
            runs.append((args, join(rng, t[1])))
        res = run_many(drv, runs, files)
        r = res[0]
        c.evals += 1
        if r is None or r.crashed:
            c.crash("a well formed program", r.brief() if r else "no result", args=" ".join(runs[0][0]), stdin=runs[0][1])
            return
        if not r.ok:
            bad("refused", "a well formed program is refused: %s" % r.brief(), *runs[0])
            return
        want = [w for _, w in ins]
        got = r.out.split("\n")[:-1]
        if got != want:
            k = next((k for k, (x, y) in enumerate(zip(got + [None], want + [None])) if x != y), min(len(got), len(want)))
            bad("instructions", "instruction %d is read as %s, written was %s" % (k, got[k:k + 1], want[k:k + 1]), *runs[0])
        c.n("instructions_read", len(got))
        for (t, w) in ins:
            c.sigs.add(hash(shape(t)) & 0xffffffffffff)
        if ins:
            mutants(ctx, c, [lines[d0]] + [t for t, _ in ins], 1, 8, args, want, read_lli, lambda r: r.out.split("\n")[:-1], refused, "bad_lli")
        for (where, bl), (a, t), r in zip(bads, runs[1:], res[1:]):
            refused(r, a, t, where, "bad_lli")
            c.sigs.add(hash(("bad", shape(bl))) & 0xffffffffffff)
    c.sample("%s | %r" % (" ".join(runs[0][0]), runs[0][1][:200]))
