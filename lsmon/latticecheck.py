"""Shared case body of the checks that replay the lattice model over a run's slices."""
from . import order as O, scenario as S, trace as T
from .run import run_cli


def stream_of(ctx, s):
    r = run_cli(ctx.drv("fast:driver"), [a for a in s.args if a != "--op-ids"] + ["--printlli", "before"], s.text, s.files)
    return T.parse_stream(r.out) if r.ok else None


def run_case(ctx, case, cats, key, choose, after=None, subs=4, stalls=True):
    for sub in range(subs):
        s = choose(ctx, case.rng)
        if s is None:
            continue
        r = S.execute(ctx, case, s)
        if r is None:
            continue
        stall = None
        if stalls:
            stream = stream_of(ctx, s)
            if stream is not None:
                o = O.Order(stream, r.instrs, r.tail, s.pipe, r.ok)
                if not o.v:
                    cl = o.client_deps() if s.pipe != "stream" else None
                    n = len(r.instrs)
                    stall = lambda t: [stream[i] for i in o.attempted(t, n, r.instrs, cl)]
        m = S.replay(case, s, r, stall)
        hits = [(c, t) for c, t in m.v if c in cats]
        other = [(c, t) for c, t in m.v if c not in cats]
        if other and not hits:
            case.n("other_category")
            case.inconclusive.append("[%s] %s" % other[0])
        seen = set()
        for c, t in hits:
            k = key(c, t)
            if k not in seen:
                seen.add(k)
                case.bad(k, "%s\n   args: %s\n   input: %r\n   layout: %r" % (t, " ".join(s.args), s.text, s.files), **s.describe())
        if m.judged:
            case.sigs.add(hash((" ".join(s.args), s.text, s.spec.text)) & 0xffffffffffff)
            case.sample("%s | %d slices, %d merges, %s" % (s.label()[:300], m.judged, m.stats.get("merge", 0), "ok" if r.ok else "ended in error"))
        if after:
            after(ctx, case, s, r, m)
