from .. import gen, scenario as S, latticecheck as L, order as O, trace as T
import re
NEEDS = ["fast:driver"]
CASES = {"quick": 8000, "thorough": 120000}
FLOOR = {"applied": 10000, "dep_pairs": 5000, "followups": 1000, "runs_ok": 500}
RULE = ("One evaluation is one run; the instructions it reports as applied (--printlli sliced) are matched with the instruction stream it was given "
        "(--printlli before): each exactly once, follow-ups of rotations / S corrections / multi-slice Bell operations attributed to their instruction, "
        "pairs on a common patch in program order and not overlapping, whole order in the stream pipeline. Non-trivial: at least two dependent "
        "instructions were applied; distinct by flags, program and layout.")


def key(c, t):
    return c + ":" + re.sub(r"\d+", "N", t)[:100]


def case(ctx, c):
    for sub in range(4):
        rng = c.rng
        s = S.make(ctx, rng, ngates=rng.choice([4, 8, 14, 24, 36]), local=rng.random() < 0.25, opids=False)
        if s is None:
            continue
        if rng.random() < 0.12 and s.layout == "edpc" and "--numlanes" not in s.args and "lli" != s.fmt:
            s.args = [a for a in s.args if a not in ("-P", "stream", "dag", "wave", "--local", "-g", "djikstra", "astar", "boost")] + ["-P", "edpc", "--local"]
            s.pipe, s.local = "edpc", True
        elif s.fmt == "lli" and s.local and s.layout == "edpc" and rng.random() < 0.4:
            s.text = gen.bell_program(rng, s.ids, reuse=rng.choice([0.0, 0.5, 1.0]))
            c.n("bell_programs")
        r = S.execute_sliced(ctx, c, s)
        if r is None:
            continue
        stream = L.stream_of(ctx, s)
        if stream is None:
            c.inconclusive.append("no stream")
            continue
        o = O.Order(stream, r.instrs, r.tail, s.pipe, r.ok)
        n = o.check_order()
        c.evals += 1
        c.n("applied", sum(map(len, r.instrs)))
        c.n("followups", o.nfollow)
        c.n("dep_pairs", n)
        c.n("pipe_" + s.pipe)
        seen = set()
        for cat, t in o.v:
            k = key(cat, t)
            if k not in seen:
                seen.add(k)
                c.bad(k, "%s\n   args: %s\n   input: %r\n   layout: %r" % (t, " ".join(s.args), s.text, s.files), **s.describe())
        if n:
            c.sigs.add(hash((" ".join(s.args), s.text, s.spec.text)) & 0xffffffffffff)
            c.sample("%s | %d applied on %d slices" % (s.label()[:300], sum(map(len, r.instrs)), len(r.instrs)))
