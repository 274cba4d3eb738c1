"""A small state vector simulator for instruction blocks: what an instruction sequence does to the logical qubits, for every outcome."""
import cmath, itertools, math

R2 = 1 / math.sqrt(2)
I2 = ((1, 0), (0, 1))
X = ((0, 1), (1, 0))
Y = ((0, -1j), (1j, 0))
Z = ((1, 0), (0, -1))
H = ((R2, R2), (R2, -R2))
S = ((1, 0), (0, 1j))
SDG = ((1, 0), (0, -1j))
T = ((1, 0), (0, cmath.exp(1j * math.pi / 4)))
TDG = ((1, 0), (0, cmath.exp(-1j * math.pi / 4)))
GATES = {"x": X, "y": Y, "z": Z, "h": H, "s": S, "sdg": SDG, "t": T, "tdg": TDG}
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}
STATES = {"|0>": (1, 0), "|+>": (R2, R2), "T": (R2, R2 * cmath.exp(1j * math.pi / 4)), "Y": (R2, 1j * R2)}
EPS = 1e-9


def rz(theta):
    return ((cmath.exp(-0.5j * theta), 0), (0, cmath.exp(0.5j * theta)))


class State:
    """Amplitudes over an ordered list of named qubits (first name = most significant bit)."""
    __slots__ = ("q", "a")

    def __init__(self, q=(), a=(1,)):
        self.q, self.a = list(q), list(a)

    def copy(self):
        return State(self.q, self.a)

    def add(self, name, st):
        assert name not in self.q, "qubit %s added twice" % name
        self.q.append(name)
        self.a = [x * s for x in self.a for s in st]

    def bit(self, name):
        return len(self.q) - 1 - self.q.index(name)

    def gate(self, name, m):
        b = 1 << self.bit(name)
        a = self.a
        for i in range(len(a)):
            if not i & b:
                u, v = a[i], a[i | b]
                a[i], a[i | b] = m[0][0] * u + m[0][1] * v, m[1][0] * u + m[1][1] * v

    def cx(self, c, t):
        bc, bt = 1 << self.bit(c), 1 << self.bit(t)
        a = self.a
        for i in range(len(a)):
            if i & bc and not i & bt:
                a[i], a[i | bt] = a[i | bt], a[i]

    def project(self, ops, outcome):
        """Projects on the (-1)^outcome eigenspace of a Pauli product {name: P}; returns the probability (state renormalised)."""
        p = self.copy()
        for n, o in ops.items():
            p.gate(n, PAULI[o])
        s = -1 if outcome else 1
        a = [(u + s * v) / 2 for u, v in zip(self.a, p.a)]
        pr = sum(abs(x) ** 2 for x in a)
        if pr > EPS:
            r = 1 / math.sqrt(pr)
            a = [x * r for x in a]
        self.a = a
        return pr

    def drop(self, name, op, outcome):
        """Removes a qubit that is in an eigenstate of op."""
        if op == "X":
            self.gate(name, H)
        elif op == "Y":
            self.gate(name, SDG)
            self.gate(name, H)
        b = self.bit(name)
        keep = [i for i in range(len(self.a)) if (i >> b) & 1 == outcome]
        self.a = [self.a[i] for i in keep]
        self.q.remove(name)

    def overlap(self, other):
        """|<self|other>| with other's qubits in the same order."""
        assert self.q == other.q, (self.q, other.q)
        return abs(sum(complex(u).conjugate() * v for u, v in zip(self.a, other.a)))


def choi(names):
    s = State()
    for n in names:
        s.q += [("ref", n), n]
        k = len(s.a)
        s.a = [x * y for x in s.a for y in (R2, 0, 0, R2)]
    return s


class BlockError(Exception):
    pass


def step(st, ins, branches):
    """Applies one instruction to a list of (state, outcomes); outcomes: tuple of (kind, bit)."""
    k = ins.kind
    out = []
    for s, oc in branches:
        s = s.copy()
        try:
            if k == "Init":
                s.add(ins.ids[0], STATES[ins.extra[0]])
                out.append((s, oc))
            elif k == "Magic":
                s.add(ins.ids[0], STATES["T"])
                out.append((s, oc))
            elif k == "YState":
                if ins.ids[0] in s.q:
                    # handed back: it has to be the Y state again, up to a Pauli, whatever happened before
                    ok = False
                    for b in (0, 1):
                        c = s.copy()
                        if c.project({ins.ids[0]: "Y"}, b) > 1 - 1e-7:
                            c.drop(ins.ids[0], "Y", b)
                            ok = True
                            break
                    if not ok:
                        raise BlockError("the Y state handed back by %r is not a Y state" % ins.text)
                    out.append((c, oc))
                else:
                    s.add(ins.ids[0], STATES["Y"])
                    out.append((s, oc))
            elif k in ("XGate", "YGate", "ZGate", "HGate", "SGate"):
                s.gate(ins.ids[0], {"X": X, "Y": Y, "Z": Z, "H": H, "S": S}[k[0]])
                out.append((s, oc))
            elif k == "Rotate":
                s.bit(ins.ids[0])
                out.append((s, oc))
            elif k == "BellCNOT":
                s.cx(ins.ids[0], ins.ids[1])
                out.append((s, oc))
            elif k in ("MBM", "Measure"):
                ops = dict(zip(ins.ids, ins.ops))
                if len(ops) != len(ins.ids):
                    raise BlockError("one patch twice in %r" % ins.text)
                for b in (0, 1):
                    c = s.copy()
                    if c.project(ops, b) > EPS:
                        if k == "Measure":
                            c.drop(ins.ids[0], ins.ops[0], b)
                        out.append((c, oc + ((k, b ^ ins.neg),)))
            else:
                raise BlockError("no meaning for %r" % ins.text)
        except ValueError:
            raise BlockError("%r uses a patch that is not there" % ins.text)
        except AssertionError as e:
            raise BlockError("%r: %s" % (ins.text, e))
    return out


def run(block, names):
    br = [(choi(names), ())]
    for ins in block:
        br = step(None, ins, br)
    return br


def residual(state, names, unitary):
    """The Pauli (as text over names) with state = P U |choi>, or None."""
    if set(x for x in state.q if not isinstance(x, tuple)) != set(names):
        return None
    want = choi(names)
    unitary(want)
    for ps in itertools.product("IXYZ", repeat=len(names)):
        w = want.copy()
        for n, p in zip(names, ps):
            if p != "I":
                w.gate(n, PAULI[p])
        if state.overlap(w) > 1 - 1e-7:
            return "".join(ps)
    return None
