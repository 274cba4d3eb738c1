"""Runs one property's check: cases are generated from (seed, property, index), executed by worker processes against the real program
built from /repo, judged by the property's monitors, and summed up in evidence/<id>.json."""
import collections, importlib, json, multiprocessing as mp, os, random, re, shutil, signal, sys, tempfile, time, traceback
from . import build as B
from .run import Driver

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    """What a case gets: drivers, randomness, and somewhere to record what it observed."""

    def __init__(self, prop, tier, exes, scratch):
        self.prop, self.tier, self.exes, self.scratch = prop, tier, exes, scratch
        self.drivers = {}
        self.cache = {}

    def drv(self, name):
        if name not in self.drivers:
            self.drivers[name] = Driver(self.exes[name], os.path.join(self.scratch, name.replace(":", "_")))
        return self.drivers[name]


class Case:
    """Observations of one case."""

    def __init__(self, seed, prop, idx):
        self.idx = idx
        self.rng = random.Random("%s/%s/%s" % (seed, prop, idx))
        self.obs = collections.Counter()
        self.viol = []          # (key, message, replay dict)
        self.sigs = set()       # distinct non-trivial observations
        self.inconclusive = []
        self.evals = 0
        self.samples = []

    def n(self, what, d=1):
        self.obs[what] += d

    def bad(self, key, msg, **replay):
        self.viol.append((key, msg, replay))

    def crash(self, what, brief, **replay):
        """A valid input whose run was ended by a signal delivered nothing of what the property promises; when something else may have
        ended it (memory, the machine), nothing is known."""
        if re.search(r"status=signal:(4|6|7|8|11)\b", brief):
            self.bad("crash", "%s: the run is ended by a signal, so that nothing the property promises is delivered: %s" % (what, brief), **replay)
        else:
            self.inconclusive.append("%s %s" % (what, brief))

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)


_W = {}


def _init(prop, tier, seed, exes, scratch):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    d = os.path.join(scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    _W.update(prop=prop, tier=tier, seed=seed, mod=importlib.import_module("lsmon.checks." + prop.lower()), ctx=Ctx(prop, tier, exes, d))


def _one(idx):
    c = Case(_W["seed"], _W["prop"], idx)
    try:
        _W["mod"].case(_W["ctx"], c)
    except Exception:
        return idx, "".join(traceback.format_exc()[-3000:]), None
    return idx, None, (dict(c.obs), c.viol, sorted(c.sigs), c.inconclusive, c.evals, c.samples)


def load_known(prop):
    try:
        with open(KNOWN) as f:
            doc = json.load(f)
    except FileNotFoundError:
        return {}
    return {k["key"]: k for k in doc["known"] if k["property"] == prop}


def main(argv):
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    only = None
    for a in argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--seed="):
            seed = a[7:]
        elif a.startswith("--only="):
            only = [int(x) for x in a[7:].split(",")]
        elif a.startswith("--replay="):
            with open(a[9:]) as f:
                rp = json.load(f)
            seed, tier, only = rp["seed"], rp["tier"], [rp["case"]]
    t0 = time.time()
    mod = importlib.import_module("lsmon.checks." + prop.lower())
    exes = {}
    for spec in mod.NEEDS:
        fl, _, h = spec.partition(":")
        exes[spec] = B.build(fl, h)
    for spec in getattr(mod, "OPTIONAL", []):
        # in-process harnesses follow the library's own interfaces; without one the check goes on from outside only
        fl, _, h = spec.partition(":")
        try:
            exes[spec] = B.build(fl, h)
        except B.BuildError as e:
            print("note: harness %s does not build against this tree, its observations are left out: %s" % (spec, str(e).strip().split("\n")[-1][:200]), file=sys.stderr)
    known = load_known(prop)
    total = mod.CASES[tier]
    budget = {"quick": 420.0, "thorough": 3300.0}[tier]
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    scratch = tempfile.mkdtemp(prefix="lsmon-")
    obs, sigs, inconc, evals, samples = collections.Counter(), set(), [], 0, []
    viols, khits, errors, done = {}, {}, [], 0
    workers = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 4)))
    cut = False
    try:
        pool = mp.get_context("fork").Pool(workers, _init, (prop, tier, seed, exes, scratch))
        try:
            idxs = only if only is not None else range(total)
            for idx, err, res in pool.imap_unordered(_one, idxs, chunksize=getattr(mod, "CHUNK", 4)):
                done += 1
                if err:
                    errors.append((idx, err))
                    if len(errors) > 20:
                        break
                    continue
                o, v, s, inc, e, sm = res
                obs.update(o)
                if len(sigs) < 2000000:
                    sigs.update(s)
                inconc += [(idx, x) for x in inc]
                evals += e
                if len(samples) < 6:
                    samples += sm
                for key, msg, rep in v:
                    if key in known:
                        khits.setdefault(key, [0, msg])[0] += 1
                    elif key not in viols:
                        viols[key] = {"case": idx, "key": key, "message": msg, "replay": rep, "count": 1}
                    else:
                        viols[key]["count"] += 1
                if len(viols) >= 25:
                    break
                if time.time() - t0 > budget:
                    cut = True
                    break
        finally:
            pool.terminate()
            pool.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    rc = 0
    for key in sorted(known):
        if key in khits:
            print("KNOWN-FINDING: property=%s %s (seen %d times, e.g. %s)" % (prop, known[key]["what"], khits[key][0], " ".join(khits[key][1].split())[:200]))
        else:
            print("note: known finding %s was not exercised in this run" % key)
    if viols:
        rdir = os.path.join(B.BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (key, v) in enumerate(sorted(viols.items(), key=lambda kv: kv[1]["case"])):
            path = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, **v, "how": "cd /verif && python3 -m lsmon %s --replay=%s" % (prop, path)}, f, indent=1)
            if i < 10:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  [%s] x%d %s" % (key, v["count"], v["message"][:1200]))
        rc = 1
    if errors:
        print("%d cases failed inside the checker, first (case %d):\n%s" % (len(errors), errors[0][0], errors[0][1]), file=sys.stderr)
        if not viols:
            rc = 2
    # a run that observed nothing decides nothing
    starved = []
    if only is None and not viols:
        floor = dict(getattr(mod, "FLOOR", {}))
        for spec, fl in getattr(mod, "OPTIONAL_FLOOR", {}).items():
            if spec in exes:
                floor.update(fl)
        for what, least in floor.items():
            if obs[what] < least:
                starved.append("%s=%d<%d" % (what, obs[what], least))
        if not evals:
            starved.append("no evaluations")
        if starved and rc == 0:
            print("observed too little: " + ", ".join(starved), file=sys.stderr)
            rc = 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        ev = {"property": prop, "tier": tier, "seed": int(seed) if str(seed).isdigit() else 0, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs),
                           "rule": mod.RULE, "samples": samples[:6],
                           "observed": dict(sorted(obs.items())), "cases": done, "cut_by_time": cut,
                           "inconclusive": len(inconc), "inconclusive_examples": ["case %d: %s" % x for x in inconc[:5]],
                           "known_findings_seen": {k: v[0] for k, v in sorted(khits.items())}},
              "wall_s": round(wall, 2),
              "violations": len(viols)}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=False)
    print("%s %s seed=%s: %d cases, %d evaluations, %d distinct, %d inconclusive, %.1fs: %s" % (
        prop, tier, seed, done, evals, len(sigs), len(inconc), wall, {0: "held", 1: "VIOLATED", 2: "no verdict"}[rc]))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(dict(sorted(obs.items())), indent=1))
        for x in inconc[:20]:
            print("inconclusive", x)
    return rc
