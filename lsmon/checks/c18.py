from .. import scenario as S, latticecheck as L, trace as T
from ..run import run_cli
import re, json
NEEDS = ["fast:driver"]
CASES = {"quick": 900, "thorough": 40000}
FLOOR = {"opids": 1000, "noids_runs": 50}
RULE = ("One evaluation is one run, with --op-ids, replayed against the lattice model, which predicts which cells carry an id; distinct operations must carry "
        "distinct ids over the whole run. Every fourth case compares the same run without --op-ids (no ids, everything else equal). "
        "Distinct by flags, program and layout.")


def choose(ctx, rng):
    return S.make(ctx, rng, opids=True, local=rng.random() < 0.1)


def strip(slices):
    n = 0
    for sl in slices:
        for row in sl:
            for x in row:
                if x and x.pop("operation_id", None) is not None:
                    n += 1
    return n


def after(ctx, case, s, r, m):
    if case.idx % 4 or not r.a.ok or "operation_id" not in r.a.out:
        return
    args = [a for a in s.args if a != "--op-ids"]
    b = run_cli(ctx.drv("fast:driver"), args, s.text, s.files)
    case.evals += 1
    if not b.ok:
        case.bad("noids:outcome", "the run succeeds with --op-ids but not without: %s\n  %s" % (b.brief(), s.label()), **s.describe())
        return
    x, y = json.loads(r.a.out), json.loads(b.out)
    case.n("noids_runs")
    if strip(y):
        case.bad("noids:present", "operation ids are shown without --op-ids: %s" % s.label(), **s.describe())
    strip(x)
    if x != y:
        case.bad("noids:differ", "slices with and without --op-ids differ beyond the ids: %s" % s.label(), **s.describe())


def case(ctx, c):
    L.run_case(ctx, c, {"opid"}, lambda k, t: k + ":" + re.sub(r"\d+", "N", t)[:100], choose, after, stalls=False)
