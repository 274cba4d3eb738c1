"""C11: dependency graphs, printed by the program and driven in process, against reference partial orders."""
import html, itertools, re
from .. import gen
from ..run import run_cli
from ..trace import parse_stream
from .. import qsim
from . import c10

NEEDS = ["fast:driver"]
OPTIONAL = ["fast:dagops"]
CASES = {"quick": 24000, "thorough": 120000}
FLOOR = {"gate_pairs": 60000, "lli_pairs": 50000, "commuting_shared": 500, "graphs": 3500}
OPTIONAL_FLOOR = {"fast:dagops": {"histories": 800, "ops": 8000, "pops": 2000, "expands": 800}}
RULE = "one evaluation is one printed graph or one operation of an in-process history compared with the reference; distinct counts graph shapes"

NODE = re.compile(r"^  (\d+) \[.*?<b>(.*?)</b>", re.M)
EDGE = re.compile(r"^  (\d+) -> (\d+)( \[penwidth=5\])?;$", re.M)


def closure(n, edges):
    """Reachability as bit sets; n nodes, edges forward."""
    succ = [0] * n
    for a, b in edges:
        succ[a] |= 1 << b
    reach = [0] * n
    for a in range(n - 1, -1, -1):
        r = 0
        m = succ[a]
        while m:
            b = (m & -m).bit_length() - 1
            m &= m - 1
            r |= (1 << b) | reach[b]
        reach[a] = r
    return reach


_comm = {}


def unitary(g, qs):
    """Applies gate g to a State over qs."""
    name, par, on = g[0], g[1], g[2]

    def f(s):
        if name in qsim.GATES:
            s.gate(on[0], qsim.GATES[name])
        elif name == "cx":
            s.cx(on[0], on[1])
        elif name == "cz":
            s.gate(on[1], qsim.H); s.cx(on[0], on[1]); s.gate(on[1], qsim.H)
        elif name == "rz":
            s.gate(on[0], qsim.rz(angle(par)))
        elif name == "crz":
            th = angle(par)
            s.gate(on[1], qsim.rz(th / 2)); s.cx(on[0], on[1]); s.gate(on[1], qsim.rz(-th / 2)); s.cx(on[0], on[1])
        else:
            raise ValueError(name)
    return f


def angle(par):
    import math
    t = par.strip("()")
    neg = t.startswith("-")
    t = t.lstrip("-")
    if t == "pi*-1":
        return -math.pi
    num, den = 1, 1
    if "/" in t:
        t, d = t.split("/")
        den = int(d)
    if "*" in t:
        num = int(t.split("*")[0])
    return (-1 if neg else 1) * num * math.pi / den


def commute(a, b):
    """Whether two gates truly commute (up to a global phase); a reset only with resets and what it shares no qubit with."""
    if not set(a[2]) & set(b[2]):
        return True
    if "reset" in (a[0], b[0]):
        return a[0] == b[0]
    qs = sorted(set(a[2]) | set(b[2]))
    key = (a[0], a[1], tuple(qs.index(x) for x in a[2]), b[0], b[1], tuple(qs.index(x) for x in b[2]))
    if key not in _comm:
        u, v = qsim.choi(qs), qsim.choi(qs)
        unitary(a, qs)(u); unitary(b, qs)(u)
        unitary(b, qs)(v); unitary(a, qs)(v)
        _comm[key] = u.overlap(v) > 1 - 1e-7
    return _comm[key]


def may_order_gates(a, b):
    """Pairs the graph may order directly: any that share a qubit, except controlled gates that share nothing but the control."""
    sh = set(a[2]) & set(b[2])
    if not sh:
        return False
    if len(a[2]) == 2 and len(b[2]) == 2 and a[2][0] == b[2][0]:
        return a[2][1] == b[2][1]
    return True


def read_graph(c, out, what, **rep):
    """-> (labels by node, edges) or None"""
    if not (out.startswith("digraph") and out.rstrip().endswith("}")):
        c.bad("format", "%s: not one digraph: %r" % (what, out[:200]), **rep)
        return None
    nodes = [(int(a), html.unescape(t)) for a, t in NODE.findall(out)]
    edges = [(int(a), int(b)) for a, b, _ in EDGE.findall(out)]
    lines = [l for l in out.split("\n")[1:] if l.strip() and l.strip() != "}"]
    if len(lines) != len(nodes) + len(edges):
        c.bad("format", "%s: unexpected lines in the graph: %r" % (what, [l for l in lines if not NODE.match(l) and not EDGE.match(l)][:3]), **rep)
        return None
    return nodes, edges


def judge(c, what, labels, want, nodes, edges, required, allowed, rep, n_obs):
    n = len(want)
    ids = [a for a, _ in nodes]
    if len(set(ids)) != len(ids) or len(ids) != n:
        c.bad("nodes", "%s: %d nodes for %d %s" % (what, len(set(ids)), n, n_obs), **rep)
        return
    order = {a: k for k, a in enumerate(sorted(ids))}       # labels number the program in order
    for a, t in nodes:
        k = order[a]
        if labels[k] is not None and t != labels[k]:
            c.bad("label", "%s: node %d reads %r, the program's %d. entry is %r" % (what, a, t, k, labels[k]), **rep)
            return
    for a, b in edges:
        if a not in order or b not in order:
            c.bad("edge", "%s: edge %d -> %d to a node that is not there" % (what, a, b), **rep)
            return
        if order[a] >= order[b]:
            c.bad("backward", "%s: edge %d -> %d goes against program order" % (what, a, b), **rep)
            return
    got = closure(n, [(order[a], order[b]) for a, b in edges])
    most = closure(n, [(i, j) for i in range(n) for j in range(i + 1, n) if allowed(i, j)])
    for i in range(n):
        for j in range(i + 1, n):
            c.n(n_obs + "_pairs")
            o = (got[i] >> j) & 1
            if required(i, j) and not o:
                c.bad("unordered", "%s: %r and %r are not ordered although they do not commute" % (what, want[i], want[j]), i=i, j=j, **rep)
                return
            if o and not (most[i] >> j) & 1:
                c.bad("overordered", "%s: %r is ordered before %r although nothing connects them" % (what, want[i], want[j]), i=i, j=j, **rep)
                return
    c.n("graphs")
    c.evals += 1
    c.sample("%s of %r: %d nodes, %d edges" % (what, want[:6], n, len(edges)))
    c.sigs.add("%s:%d:%x" % (n_obs, n, hash(tuple(got)) & 0xffffffff))


def gates(ctx, c):
    rng = c.rng
    nq = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 20])
    gs = c10.qasm_gates(rng, nq, rng.choice([1, 2, 3, 5, 8, 12, 20, 30]), lower=False)
    kept = [g for g in gs if g[3] is not None]
    lines, pos, reg = c10.render(rng, kept, nq)
    text = "\n".join(lines) + "\n"
    args = ["-I", "qasm", "--printdag", "input"] + rng.choice([[], ["-L", "edpc"], ["-L", "compact"], ["-P", "dag"]])
    r = run_cli(ctx.drv("fast:driver"), args, text)
    rep = {"args": args, "program": text}
    if not r.ok:
        c.bad("failed", "printing the graph of a well formed program failed: %s" % r.brief(), **rep)
        return
    g = read_graph(c, r.out, "gate graph", **rep)
    if g is None:
        return
    for i, j in itertools.combinations(range(len(kept)), 2):
        if set(kept[i][2]) & set(kept[j][2]) and commute(kept[i], kept[j]):
            c.n("commuting_shared")
    # labels are left to C10
    judge(c, "gate graph", [None] * len(kept), [c10.text(x, reg) for x in kept], g[0], g[1],
          lambda i, j: not commute(kept[i], kept[j]), lambda i, j: may_order_gates(kept[i], kept[j]), rep, "gate")


def lli_sets(stream):
    """-> per instruction (patches it acts on, patches it may additionally be ordered by)"""
    # an instruction placing a patch next to another has to come after what makes that one and before what removes it
    act, bound = [], set()
    for x in stream:
        act.append(set(x.ids if x.kind == "YState" and x.ids[0] in bound else x.names()))
        if x.kind == "YState":
            bound ^= {x.ids[0]}
    extra = []
    for k, x in enumerate(stream):
        e = set()
        if x.kind == "Init" and x.extra[1]:
            e.add(x.extra[1][0])
        if x.kind in ("Magic", "YState"):
            e.add(x.extra)
        if x.kind in ("Init", "Magic", "YState"):
            # an ancilla waits for the operands of the merges it takes part in
            for y in stream[k + 1:]:
                if x.ids[0] in y.ids and y.kind in ("MBM", "BellCNOT"):
                    e |= set(y.ids)
                if x.ids[0] in y.ids and y.kind in ("Measure", "Init"):
                    break
        extra.append(e)
    return act, extra


def lli_judge(c, what, stream, g, rep):
    act, extra = lli_sets(stream)
    judge(c, what, [html.unescape(x.text) for x in stream], [x.text for x in stream], g[0], g[1],
          lambda i, j: bool(act[i] & act[j]), lambda i, j: bool((act[i] | extra[i]) & (act[j] | extra[j])), rep, "lli")


def lli(ctx, c):
    rng = c.rng
    drv = ctx.drv("fast:driver")
    if rng.random() < 0.5:
        n = rng.choice([1, 2, 4, 8, 16, 25])
        ids = list(range(10))
        text = "DeclareLogicalQubitPatches %s\n" % ",".join(map(str, ids))
        text += "\n".join(c10.lli_instr(rng, False)[0] for _ in range(n)) + "\n"
    else:
        ids = sorted(rng.sample(range(14), rng.choice([1, 2, 3, 5, 8])))
        text, _ = gen.lli(rng, ids, rng.choice([2, 5, 10, 20]), ystates=True)
    a = rng.choice([[], ["-P", "wave"]])
    r0 = run_cli(drv, ["--printlli", "before", "-l", "x.txt"], text, files={"x.txt": "\n".join(["r" * 12] + ["rQrQrQrQrQrr", "r" * 12] * 4) + "\n"})
    mode = "input"
    args = ["--printdag", mode] + a
    r = run_cli(drv, args, text)
    rep = {"args": args, "program": text}
    if not (r.ok and r0.ok):
        c.bad("failed", "printing the graph of a well formed program failed: %s / %s" % (r.brief(), r0.brief()), **rep)
        return
    stream = parse_stream(r0.out)
    g = read_graph(c, r.out, "instruction graph", **rep)
    if g:
        lli_judge(c, "instruction graph", stream, g, rep)


def processed(ctx, c):
    """The graph of the stream after lowering and injection."""
    rng = c.rng
    drv = ctx.drv("fast:driver")
    text, nq, _ = gen.qasm(rng, ngates=rng.choice([1, 2, 3, 5, 8]), rz=False, annot=rng.random() < 0.4)
    args = ["-I", "qasm"] + rng.choice([["-L", "compact"], ["-L", "edpc"], ["-L", "edpc", "--notwists"], ["-L", "edpc", "--local"], ["-L", "edpc", "--local", "--notwists"], ["-L", "compact_no_clogging"]])
    if rng.random() < 0.3:
        args += ["--cnotcorrections", "always"]
    r0 = run_cli(drv, args + ["--printlli", "before"], text)
    args += ["--printdag", "processedlli"]
    r = run_cli(drv, args, text)
    rep = {"args": args, "program": text}
    if not (r.ok and r0.ok):
        if r.ok == r0.ok:
            c.n("refused")
            return
        c.bad("failed", "printing the stream and its graph end differently: %s / %s" % (r.brief(), r0.brief()), **rep)
        return
    stream = parse_stream(r0.out)
    g = read_graph(c, r.out, "processed graph", **rep)
    if g:
        lli_judge(c, "processed graph", stream, g, rep)


# ---- in-process histories

class Model:
    def __init__(self):
        self.tok, self.name, self.edges, self.pd, self.ph, self.cur, self.n = {}, {}, set(), set(), set(), 0, 0

    def add(self, toks):
        l = self.cur
        self.cur += 1
        self.tok[l], self.name[l] = set(toks), "i%d" % self.n
        self.n += 1
        return l

    def push(self, toks):
        l = self.add(toks)
        for e in list(self.tok):
            if e != l and self.tok[e] & self.tok[l]:
                self.edges.add((e, l))
        return l

    def heads(self):
        into = {b for _, b in self.edges}
        return {l for l in self.tok if l not in into}

    def pop(self, l):
        for a, b in list(self.pd):
            if a == l:
                self.ph.add(b)
                self.pd.discard((a, b))
        self.ph.discard(l)
        self.edges = {(a, b) for a, b in self.edges if l not in (a, b)}
        del self.tok[l], self.name[l]

    def expand(self, l, reps, prox):
        new = [self.add(t) for t in reps]
        self.edges = {(new[-1] if a == l else a, new[0] if b == l else b) for a, b in self.edges}
        self.edges |= set(zip(new, new[1:]))
        if prox:
            self.pd |= set(zip(new, new[1:]))
        self.pd = {(new[-1] if a == l else a, new[0] if b == l else b) for a, b in self.pd}
        if l in self.ph:
            self.ph.discard(l)
            self.ph.add(new[0])
        del self.tok[l], self.name[l]
        return new[0]

    def reach(self):
        succ = {}
        for a, b in self.edges:
            succ.setdefault(a, set()).add(b)
        return reach_of(self.tok, succ)


def reach_of(nodes, succ):
    memo = {}

    def go(a, path):
        if a in memo:
            return memo[a]
        if a in path:
            return None
        r = set()
        for b in succ.get(a, ()):
            x = go(b, path | {a})
            if x is None:
                return None
            r |= {b} | x
        memo[a] = r
        return r
    for a in nodes:
        if go(a, frozenset()) is None:
            return None
    return memo


def history(ctx, c):
    if "fast:dagops" not in ctx.exes:
        return
    rng = c.rng
    m = Model()
    ops, marks = [], []
    ntok = rng.choice([1, 2, 3, 5, 8])
    toks = lambda: rng.sample(range(ntok), rng.randint(0 if rng.random() < 0.1 else 1, min(ntok, 3)))
    nops = rng.choice([5, 10, 20, 35])
    drain = rng.random() < 0.7
    k = 0
    while k < nops or (drain and m.tok and k < 150):
        k += 1
        x = rng.random()
        ret = None
        draining = k > nops
        if not m.tok or (x < 0.45 and not draining):
            t = toks()
            if rng.random() < 0.15:
                ops.append(["iso", t]); ret = m.add(t)
            else:
                ops.append(["push", t]); ret = m.push(t)
        elif x < 0.62 and not (draining and x > 0.5):
            cands = sorted(m.heads()) if rng.random() < 0.7 else sorted(m.tok)
            l = rng.choice(cands)
            reps = [toks() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if draining and len(reps) > 1:
                reps = reps[:1]
            prox = rng.random() < 0.7
            ops.append(["expand", l, reps, prox])
            ret = m.expand(l, reps, prox)
            c.n("expands")
            if prox and rng.random() < 0.5 and ret in m.heads():
                marks.append((ret, snapshot(m)))
                ops.append(["prox", ret])
                m.ph.add(ret)
                ret = None
        else:
            hs = sorted(m.heads())
            ps = sorted(m.ph & set(hs))
            l = rng.choice(ps) if ps and rng.random() < 0.5 else rng.choice(hs)
            ops.append(["pop", l])
            m.pop(l)
            c.n("pops")
        marks.append((ret, snapshot(m)))
    rep = ctx.drv("fast:dagops").run({"ops": ops})
    sts = rep["states"]
    if len(sts) != len(ops):
        c.bad("history", "%d states for %d operations" % (len(sts), len(ops)), ops=ops)
        return
    for i, (op, s, (ret, w)) in enumerate(zip(ops, sts, marks)):
        c.n("ops")
        c.evals += 1

        def bad(key, msg):
            c.bad("history:" + key, "after %s (operation %d): %s" % (op, i, msg), ops=ops[:i + 1])
        if s["exc"]:
            bad("exception", s["exc"]); return
        if ret is not None and s["ret"] != ret:
            # labels are names only, but the history was written with the expected ones
            bad("label", "returned label %r, expected the next number %r" % (s["ret"], ret)); return
        if sorted(s["topo"]) != sorted(w["nodes"]):
            bad("nodes", "nodes %s, expected %s" % (sorted(s["topo"]), sorted(w["nodes"]))); return
        at = {int(a): b for a, b in s["at"].items()}
        if at != w["nodes"]:
            bad("items", "instructions %s, expected %s" % (at, w["nodes"])); return
        suc = {int(a): set(b) for a, b in s["suc"].items()}
        pre = {int(a): set(b) for a, b in s["pre"].items()}
        if {(a, b) for a in suc for b in suc[a]} != {(a, b) for b in pre for a in pre[b]}:
            bad("backedges", "successors and predecessors disagree"); return
        r = reach_of(suc, suc)
        if r is None:
            bad("cycle", "the graph has a cycle"); return
        if r != w["reach"]:
            d = [a for a in r if r[a] != w["reach"][a]][0]
            bad("order", "node %d precedes %s, expected %s" % (d, sorted(r[d]), sorted(w["reach"][d]))); return
        posn = {l: k for k, l in enumerate(s["topo"])}
        if any(posn[b] > posn[a] for a in r for b in r[a]):
            bad("topo", "topological order (tails first) %s contradicts the edges" % s["topo"]); return
        if set(s["heads"]) != w["heads"] or len(s["heads"]) != len(w["heads"]):
            bad("heads", "applicable %s, expected %s" % (s["heads"], sorted(w["heads"]))); return
        if set(s["gt"]) != w["tails"]:
            bad("tails", "tails %s, expected %s" % (s["gt"], sorted(w["tails"]))); return
        if set(s["prox"]) != w["ph"]:
            bad("proximate", "proximate %s, expected %s" % (s["prox"], sorted(w["ph"]))); return
        if s["empty"] != (not w["nodes"]):
            bad("empty", "empty() is %s with %d nodes" % (s["empty"], len(w["nodes"]))); return
        bold = {(int(a), int(b)) for a, b, p in EDGE.findall(s["viz"]) if p}
        if bold != w["pd"]:
            bad("proximate-edges", "proximate pairs %s, expected %s" % (sorted(bold), sorted(w["pd"]))); return
        c.sigs.add("h:%s:%d:%d:%d" % (op[0], len(w["nodes"]), len(w["heads"]), len(w["ph"])))
    c.n("histories")


def snapshot(m):
    return {"nodes": dict(m.name), "reach": m.reach(), "heads": m.heads(), "tails": {l for l in m.tok if l not in {a for a, _ in m.edges}},
            "ph": set(m.ph), "pd": set(m.pd)}


def case(ctx, c):
    k = c.idx % 6
    if k in (0, 1):
        gates(ctx, c)
    elif k in (2, 3):
        lli(ctx, c) if c.rng.random() < 0.6 else processed(ctx, c)
    elif k == 4:
        processed(ctx, c)
    else:
        history(ctx, c)
