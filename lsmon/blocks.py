"""What the instructions emitted for one gate do, judged by simulation. Verdicts are cached per block shape."""
import math
from . import qsim as Q
from .trace import Instr

PAULIS = ("XGate", "YGate", "ZGate")


def canon(block, qubits):
    """Block with patches renamed by role -> (key, [Instr], names of the gate's qubits)."""
    ren = {q: "q%d" % i for i, q in enumerate(qubits)}
    out = []
    for i in block:
        for x in list(i.ids) + ([i.extra[1][0]] if i.kind == "Init" and i.extra[1] else []) + ([i.extra] if i.kind in ("Magic", "YState") else []):
            if x not in ren:
                ren[x] = "a%d" % (len(ren) - len(qubits))
        extra = i.extra
        if i.kind == "Init":
            extra = (i.extra[0], (ren[i.extra[1][0]], i.extra[1][1]) if i.extra[1] else None)
        elif i.kind in ("Magic", "YState"):
            extra = ren[i.extra]
        out.append(Instr(i.text, i.kind, [ren[x] for x in i.ids], i.ops, extra, neg=i.neg))
    key = tuple((i.kind, i.ids, i.ops, i.extra, i.neg) for i in out)
    return key, out, ["q%d" % k for k in range(len(qubits))]


def repair(block):
    """The same block with every CNOT ancilla finished in the basis its entangling measurements need (a listed finding).
    -> (block, set of which forms were repaired)"""
    out, what = list(block), set()
    for n, ini in enumerate(block):
        if ini.kind != "Init" or ini.extra[0] != "|+>":
            continue
        a = ini.ids[0]
        mb = [i for i in block if i.kind == "MBM" and a in i.ids]
        me = [k for k, i in enumerate(block) if i.kind == "Measure" and i.ids[0] == a]
        if len(mb) != 2 or len(me) != 1:
            continue
        first = dict(zip(mb[0].ids, mb[0].ops))[a]
        if first == "Z" and block[me[0]].ops[0] == "X":
            m = block[me[0]]
            out[me[0]] = Instr(m.text, m.kind, m.ids, ["Z"], m.extra, neg=m.neg)
            what.add("control-first")
        elif first == "X" and block[me[0]].ops[0] == "X":
            out[n] = Instr(ini.text, ini.kind, ini.ids, ini.ops, ("|0>", ini.extra[1]), neg=ini.neg)
            what.add("target-first")
    return out, what


def unitary_of(gate, names):
    g = gate[0]
    if g in Q.GATES:
        return lambda s: s.gate(names[0], Q.GATES[g])
    if g == "cx":
        return lambda s: s.cx(names[0], names[1])
    if g == "cz":
        def cz(s):
            s.gate(names[1], Q.H)
            s.cx(names[0], names[1])
            s.gate(names[1], Q.H)
        return cz
    if g == "rz":
        return lambda s: s.gate(names[0], Q.rz(gate[1]))
    if g == "id":
        return lambda s: None
    raise KeyError(g)


def _plain(block, names, u, exact, zero):
    br = Q.run(block, names)
    for s, oc in br:
        r = Q.residual(s, names, u)
        if r is None:
            return "for outcomes %s it is not the gate up to Paulis" % (oc,)
        if exact and r.strip("I"):
            return "it is the gate followed by %s" % r
        if zero and not any(b for _, b in oc) and r.strip("I"):
            return "with all outcomes +1 it is the gate followed by %s" % r
    return None


def _conditional(block, names, u, zero):
    """[..., measurement of the magic state] + correction executed on some outcomes only."""
    m = [i.ids[0] for i in block if i.kind == "Magic"]
    if len(m) != 1:
        return "it requests %d magic states" % len(m)
    cut = [k for k, i in enumerate(block) if i.kind == "Measure" and i.ids[0] == m[0]]
    if len(cut) != 1:
        return "the magic state is measured out %d times" % len(cut)
    pre, suf = block[:cut[0] + 1], block[cut[0] + 1:]
    seen = set()
    for s, oc in Q.run(pre, names):
        r0 = Q.residual(s, names, u)
        br = [(s, oc)]
        for i in suf:
            br = Q.step(None, i, br)
        r1 = [Q.residual(x, names, u) for x, _ in br]
        if r0 is None and None in r1:
            return "for outcomes %s neither leaving out nor applying the correction gives the gate" % (oc,)
        if zero and not any(b for _, b in oc) and r0 is not None and r0.strip("I"):
            return "with all outcomes +1 it is the gate followed by %s" % r0
        seen.add("plain" if r0 is not None else "corrected")
    if seen != {"plain", "corrected"}:
        return "the correction is needed for %s outcomes" % ("all" if seen == {"corrected"} else "no")
    return None


def _always(block, names, u):
    """With corrections on, what is left must not depend on the joint measurements."""
    br = [(Q.choi(names), ())]
    last = None
    for i in block:
        if i.kind in PAULIS and any(j.kind == "MBM" for j in block):
            a = [x for x in br if not (x[1] and [o for k, o in x[1] if k == "MBM"][-1:] == [1])]
            b = [x for x in br if x[1] and [o for k, o in x[1] if k == "MBM"][-1:] == [1]]
            br = a + Q.step(None, i, b)
        else:
            br = Q.step(None, i, br)
    by = {}
    for s, oc in br:
        r = Q.residual(s, names, u)
        if r is None:
            return "for outcomes %s it is not the gate up to Paulis" % (oc,)
        by.setdefault(tuple(b for k, b in oc if k == "Measure"), set()).add(r)
    for k, v in by.items():
        if len(v) > 1:
            return "with the corrections applied, %s is left depending on the joint outcomes" % "/".join(sorted(v))
    if sum(i.kind in PAULIS for i in block) != sum(i.kind == "MBM" for i in block):
        return "%d corrections for %d joint measurements" % (sum(i.kind in PAULIS for i in block), sum(i.kind == "MBM" for i in block))
    return None


def _judge(gate, block, names, corrections, zero):
    u = unitary_of(gate, names)
    try:
        if gate[0] in ("t", "tdg"):
            return _conditional(block, names, u, zero and gate[0] == "t")
        if gate[0] in ("cx", "cz"):
            if corrections == "always":
                return _always(block, names, u)
            if any(i.kind in PAULIS for i in block):
                return "it contains corrections nobody asked for"
        det = not any(i.kind in ("MBM", "Measure") for i in block)
        return _plain(block, names, u, det and gate[0] not in ("sdg",), zero and gate[0] in ("cx", "cz"))
    except Q.BlockError as e:
        return str(e)


def judge(cache, gate, block, qubits, corrections="never", zero=True):
    """-> (None | error text, set of known deviation names)"""
    key, ib, names = canon(block, qubits)
    k = (gate, key, corrections, zero)
    if k not in cache:
        err, what = _judge(gate, ib, names, corrections, zero), set()
        if err:
            rb, what = repair(ib)
            if what:
                e2 = _judge(gate, rb, names, corrections, zero)
                if e2:
                    err = e2 + " (even with the ancilla basis repaired)"
                    what = set()
                else:
                    err = None
        cache[k] = (err, what)
    return cache[k]
