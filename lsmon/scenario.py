"""Whole runs of the program for the slice-history monitors."""
import json
from . import gen, layouts as Y, trace as T, lattice as LT
from .run import run_cli

EDPC_VARIANTS = [["edpc"], ["edpc", "--condensed"], ["edpc", "--numlanes", "2"], ["edpc", "--explicitfactories"],
                 ["edpc", "--notwists"], ["edpc", "--condensed", "--explicitfactories"], ["edpc", "--numlanes", "3"]]


class Scn:
    __slots__ = ("args", "text", "n", "ids", "spec", "files", "pipe", "local", "opids", "fmt", "dt", "stagger", "layout", "optimal", "gates", "twists")

    def describe(self):
        return {"args": " ".join(self.args), "stdin": self.text, "files": self.files}

    def label(self):
        return "%s|%s|%s" % (" ".join(self.args), self.text.replace("\n", "/")[:200], (self.files or {}).get("l.txt", "").replace("\n", "/"))


def pristine_spec(ctx, n, largs, dt, stagger):
    """The generated layout as the program shows it before anything ran (the layouts themselves are C12's business)."""
    key = (n, tuple(largs))
    if key not in ctx.cache:
        r = run_cli(ctx.drv("fast:driver"), ["-L"] + list(largs) + ["-I", "qasm"], "qreg q[%d];\nx q[0];\n" % n)
        if not r.ok:
            ctx.cache[key] = None
        else:
            ctx.cache[key] = Y.text_from_slice(json.loads(r.out)[0])
    text = ctx.cache[key]
    return Y.Spec(text, dt, stagger) if text else None


def make(ctx, rng, layout=None, pipe=None, fmt=None, local=None, opids=None, graph=None, nq=None, ngates=None, annot=None, gates=None, kind=None, maze=False, variants=None):
    """A random scenario."""
    s = Scn()
    s.dt = rng.choice([1, 2, 3, 4, 5, 7, 10])
    s.stagger = rng.random() < 0.5
    s.pipe = pipe or rng.choice(["stream", "stream", "stream", "dag", "wave", "wave"])
    s.fmt = fmt or rng.choice(["qasm", "qasm", "lli"])
    s.layout = layout or rng.choice(["compact", "compact_no_clogging", "custom", "custom", "edpc"])
    s.local = (rng.random() < 0.15) if local is None else local
    s.opids = (rng.random() < 0.2) if opids is None else opids
    s.files = None
    s.optimal = True
    s.twists = True
    s.gates = None
    nq = nq or rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9])
    ng = ngates or rng.choice([2, 5, 8, 12, 16])
    annot = (rng.random() < 0.3) if annot is None else annot
    s.n = nq
    args = []
    custom_text = None
    if s.layout == "custom":
        custom_text = gen.ascii_layout(rng, nq, kind, maze)
        if custom_text is None:
            s.layout = "compact"
    if s.layout == "custom":
        s.files = {"l.txt": custom_text}
        args += ["-l", "l.txt"]
        s.spec = Y.Spec(custom_text, s.dt, s.stagger)
    elif s.layout == "edpc":
        v = rng.choice(variants or EDPC_VARIANTS)
        if "--notwists" in v:
            s.twists = False
        args += ["-L"] + v
        s.spec = pristine_spec(ctx, nq, v, s.dt, s.stagger)
    else:
        args += ["-L", s.layout] if (s.layout != "compact" or rng.random() < 0.5) else []
        s.spec = Y.Spec(Y.compact(nq, s.layout == "compact_no_clogging"), s.dt, s.stagger)
    if s.spec is None:
        return None
    args += ["--disttime", str(s.dt)] + ([] if s.stagger else ["--nostagger"])
    if s.local:
        args += ["--local"]
    if s.opids:
        args += ["--op-ids"]
    if s.pipe != "stream" or rng.random() < 0.5:
        args += ["-P", s.pipe]
    g = graph or rng.choice([None, None, None, "djikstra", "astar", "boost"])
    if g:
        args += ["-g", g]
    have_magic = bool(s.spec.regions or s.spec.reserved)
    if s.fmt == "qasm":
        args += ["-I", "qasm"]
        gs = gates or [x for x in gen.ONE if have_magic or x not in ("t", "tdg")]
        s.text, _, s.gates = gen.qasm(rng, nq, ng, gates=gs, annot=annot, rz=False, p2=rng.choice([0.2, 0.5, 0.8]))
        s.ids = list(range(nq))
    else:
        if rng.random() < 0.5:
            args += ["-I", "lli"]
        ids = rng.sample(range(0, 30), nq)
        room = (2 if s.local else 1) * ng + nq
        if max(ids) < room:
            ids[rng.randrange(nq)] = rng.randrange(room, room + 40)
        s.text, _ = gen.lli(rng, ids, ng, anc=bool(s.spec.anc), magic=have_magic, ystates=bool(s.spec.ystates) and not s.local, sgate=not s.local,
                            bell=s.local, clash=0.06 if rng.random() < 0.15 else 0.0)
        s.ids = ids
    s.args = args
    return s


class Run:
    """Slices and applied instructions of one scenario (prefixes, if the run ended in an error)."""
    __slots__ = ("a", "b", "slices", "instrs", "tail", "ok", "endless")


MAX_SLICES = 150


def execute(ctx, case, s, flavor="fast:driver", cpu=6.0, limit=2 << 20):
    """-> Run or None (case.inconclusive says why). A run that never ends is read up to the output limit."""
    drv = ctx.drv(flavor)
    a = run_cli(drv, s.args, s.text, s.files, cpu=cpu, limit=limit)
    if a.status == "timeout":
        case.n("endless")
        case.inconclusive.append("run timeout")
        return None
    if a.status == "outlimit":
        b = run_cli(drv, s.args + ["--printlli", "sliced"], s.text, s.files, cpu=cpu, limit=4 << 20, lines=60)
        r = Run()
        r.a, r.b, r.ok, r.endless = a, b, False, True
        case.n("runs_cut")
        try:
            r.slices = T.parse_slices(a.out, False, 40)
            r.instrs, r.tail = T.parse_sliced(b.out[:b.out.rfind("\n") + 1], False)
        except (ValueError, T.TraceError) as e:
            case.inconclusive.append("unreadable output: %s" % e)
            return None
        k = min(len(r.slices), len(r.instrs))
        r.slices, r.instrs, r.tail = r.slices[:k], r.instrs[:k], []
        return r
    if a.crashed:
        case.n("crashed")
        case.crash("`%s` %r" % (" ".join(s.args), s.text), a.brief(), **s.describe())
        return None
    b = run_cli(drv, s.args + ["--printlli", "sliced"], s.text, s.files, cpu=cpu, limit=limit)
    if b.status != "ok" or (a.exc is None) != (b.exc is None):
        case.crash("with --printlli sliced: `%s` %r" % (" ".join(s.args), s.text), b.brief(), **s.describe())
        return None
    r = Run()
    r.a, r.b, r.ok, r.endless = a, b, a.ok, False
    case.n("runs_ok" if a.ok else "runs_error")
    try:
        r.slices = T.parse_slices(a.out, a.ok, MAX_SLICES)
        r.instrs, r.tail = T.parse_sliced(b.out, b.ok)
    except (ValueError, T.TraceError) as e:
        if a.ok:
            case.inconclusive.append("unreadable output: %s" % e)
        return None
    if len(r.slices) != len(r.instrs):
        if a.ok and len(r.slices) < MAX_SLICES:
            case.inconclusive.append("%d slices but %d instruction lines" % (len(r.slices), len(r.instrs)))
            case.n("length_mismatch")
        k = min(len(r.slices), len(r.instrs))
        r.slices, r.instrs = r.slices[:k], r.instrs[:k]
    return r


def execute_sliced(ctx, case, s, flavor="fast:driver", cpu=6.0, limit=4 << 20):
    """Applied instructions per slice only."""
    b = run_cli(ctx.drv(flavor), s.args + ["--printlli", "sliced"], s.text, s.files, cpu=cpu, limit=limit, lines=500)
    if b.status not in ("ok", "outlimit"):
        case.n("crashed" if b.crashed else "endless")
        case.crash("`%s` --printlli sliced %r" % (" ".join(s.args), s.text), b.brief(), **s.describe())
        return None
    r = Run()
    r.a, r.b, r.ok, r.endless, r.slices = None, b, b.ok, b.status == "outlimit", None
    case.n("runs_cut" if r.endless else "runs_ok" if r.ok else "runs_error")
    try:
        r.instrs, r.tail = T.parse_sliced(b.out[:b.out.rfind("\n") + 1] if r.endless else b.out, b.ok)
    except T.TraceError as e:
        case.inconclusive.append("unreadable output: %s" % e)
        return None
    return r


def replay(case, s, r, stall=None, max_slices=400):
    """Runs the lattice model along the observed history. -> Lattice"""
    m = LT.Lattice(s.spec, s.ids, s.optimal, s.opids, s.local)
    case.evals += 1
    k = 0
    if s.local and s.optimal and r.ok and len(r.slices) < MAX_SLICES:
        lines = s.text.split("\n")
        for i in (i for row in r.instrs for i in row if i.kind in ("BellCNOT", "BellPairInit") and i.local):
            if lines.count(i.key()) < 2:
                m.routes.setdefault(i.key(), set()).update(x for _, xs in i.local for x in xs)
    try:
        for t, (o, i) in enumerate(zip(r.slices[:max_slices], r.instrs)):
            m.step(t, o, i)
            k += 1
            if stall and not (t == len(r.slices) - 1 and not r.endless):
                for ins in stall(t):
                    m.stalled(ins, s.twists)
    except LT.Stop as e:
        if not m.v:
            case.n("stopped_early")
    case.obs.update(m.stats)
    m.judged = k
    return m
