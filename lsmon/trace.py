"""Readers for what the program emits: slices (JSON), applied instructions (--printlli sliced), printed instruction streams."""
import json, re

CELL = re.compile(r"\((-?\d+),(-?\d+)\)")


class Instr:
    __slots__ = ("text", "kind", "ids", "ops", "extra", "local", "neg")

    def __init__(self, text, kind, ids=(), ops=(), extra=None, local=None, neg=False):
        self.text, self.kind, self.ids, self.ops, self.extra, self.local, self.neg = text, kind, tuple(ids), tuple(ops), extra, local, neg

    def key(self):
        """Text without the run time local expansion."""
        return self.text.split(" [")[0]

    def patches(self):
        """Logical patches the instruction acts on (what orders it)."""
        if self.kind == "Init":
            return self.ids[:1]
        return self.ids

    def names(self):
        """Every patch the instruction names: those it acts on, and the one near which a new patch is to be placed."""
        ps = self.patches()
        if self.kind == "Init" and self.extra[1]:
            ps += (self.extra[1][0],)
        elif self.kind in ("Magic", "YState") and self.extra is not None:
            ps += (self.extra,)
        return ps

    def __repr__(self):
        return self.text


class TraceError(Exception):
    pass


def _cells(s):
    return [(int(a), int(b)) for a, b in CELL.findall(s)]


def parse_instr(text):
    t = text.strip()
    local = None
    head = t
    m = re.match(r"^(.*?) \[(.*)\]$", t, re.S)
    if m:
        head, inner = m.group(1), m.group(2)
        local = []
        # phases are concatenated; tolerate a missing separator between two local instructions
        for name, args in re.findall(r"([A-Z][A-Za-z]+) ((?:\(-?\d+,-?\d+\),?)+)", inner):
            local.append((name, _cells(args)))
    w = head.split(" ")
    k = w[0]
    try:
        if k in ("XGate", "YGate", "ZGate", "HGate", "SGate", "RotateSingleCellPatch", "Reset"):
            return Instr(t, {"RotateSingleCellPatch": "Rotate"}.get(k, k), [int(w[1])], local=local)
        if k == "MeasureSinglePatch":
            p = w[2]
            return Instr(t, "Measure", [int(w[1])], [p.lstrip("-")], neg=p.startswith("-"))
        if k == "MultiBodyMeasure":
            s = w[1]
            neg = s.startswith("-")
            pairs = [x.split(":") for x in s.lstrip("-").split(",")]
            return Instr(t, "MBM", [int(a) for a, _ in pairs], [b for _, b in pairs], local=local, neg=neg)
        if k == "Init":
            near = None
            if len(w) > 3:
                a, b = w[3].split(":")
                near = (int(a), b)
            return Instr(t, "Init", [int(w[1])], extra=(w[2], near))
        if k == "RequestMagicState":
            return Instr(t, "Magic", [int(w[1])], extra=int(w[2]))
        if k == "RequestYState":
            return Instr(t, "YState", [int(w[1])], extra=int(w[2]), local=local)
        if k == "BusyRegion":
            n = re.search(r"StepsToClear\((-?\d+)\)", head)
            return Instr(t, "Busy", [], extra=(_cells(head), int(n.group(1))))
        if k == "BellPairInit":
            pairs = [x.split(":") for x in w[3].split(",")]
            return Instr(t, "BellPairInit", [int(w[1]), int(w[2])] + [int(a) for a, _ in pairs], [b for _, b in pairs], local=local)
        if k == "BellBasedCNOT":
            return Instr(t, "BellCNOT", [int(x) for x in w[1:5]], local=local)
    except (ValueError, IndexError, AttributeError):
        pass
    raise TraceError("unreadable instruction %r" % t)


def split_instrs(line):
    out, depth, cur = [], 0, []
    for ch in line:
        if ch == "[":
            depth += 1
        elif ch == "]":
            depth -= 1
        if ch == ";" and depth == 0:
            out.append("".join(cur)); cur = []
        else:
            cur.append(ch)
    if cur and "".join(cur).strip():
        out.append("".join(cur))
    return out


def parse_sliced(out, complete):
    """-> list (per visited slice) of lists of Instr, and the instructions applied after the last visited slice."""
    if complete and out.endswith("\n"):
        out = out[:-1]
    lines = out.split("\n")
    tail = lines.pop()
    return [[parse_instr(x) for x in split_instrs(l)] for l in lines], [parse_instr(x) for x in split_instrs(tail)]


def parse_stream(out):
    return [parse_instr(l) for l in out.split("\n") if l]


def parse_slices(out, complete, most=None):
    """JSON slices (the first `most`); an output cut off by an error lacks the closing bracket."""
    if most is None and complete:
        return json.loads(out)
    if not out.startswith("[\n"):
        return [] if not out.strip() else json.loads(out)
    body = out[2:]
    if complete:
        if not body.endswith("]\n"):
            raise ValueError("array not closed")
        body = body[:-2]
    parts = body.split("\n],\n[")
    res = []
    for i, p in enumerate(parts if most is None else parts[:most]):
        if i:
            p = "[" + p
        if i + 1 < len(parts):
            p += "\n]"
        try:
            res.append(json.loads(p))
        except ValueError:
            if complete or i + 1 < len(parts):
                raise
            break       # cut in the middle of the last slice
    return res
