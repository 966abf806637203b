"""Collects what a check analysed and found, compares with the known findings, writes evidence."""
import gc, os, json, time, sys, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class AnalysisBroken(Exception):
    """the analysis lost an anchor it cannot do without"""


class Ctx:
    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.findings = {}
        self.counts = {}
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.rules = []
        self.failed = []
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def find(self, rule, construct, msg, where=""):
        k = rule + "|" + construct
        if k not in self.findings:
            self.findings[k] = {"rule": rule, "construct": construct, "message": msg, "where": [where] if where else []}
        elif where and where not in self.findings[k]["where"] and len(self.findings[k]["where"]) < 6:
            self.findings[k]["where"].append(where)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, name, n):
        if self.counts.get(name, 0) < n:
            raise AnalysisBroken("%s: %s analysed, at least %d expected" % (name, self.counts.get(name, 0), n))

    def rule(self, text):
        self.rules.append(text)

    def guard(self, name, f, *a, **k):
        """run one scenario; an internal failure of the analyser skips it and is reported"""
        try:
            r = f(*a, **k)
            self.count("scenarios")
            return r
        except AnalysisBroken:
            raise
        except Exception as ex:
            self.failed.append("%s: %s: %s" % (name, type(ex).__name__, str(ex)[:300]))
            if os.environ.get("KDSA_DEBUG"):
                traceback.print_exc()
            return None


def load_known(prop):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line[len("known: property=%s " % prop):]
                key, _, desc = rest.partition(" :: ")
                if key.startswith("key="):
                    known[key[4:].strip()] = desc.strip()
    return known


def main(prop, run):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier)
    code = 0
    try:
        run(ctx)
        n = ctx.counts.get("scenarios", 0)
        if ctx.failed and len(ctx.failed) > max(2, n):
            raise AnalysisBroken("most scenarios failed: " + "; ".join(ctx.failed[:5]))
    except AnalysisBroken as ex:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, ex))
        for f in ctx.failed:
            print("  failed:", f)
        code = 3
    known = load_known(prop)
    new = {k: v for k, v in ctx.findings.items() if k not in known}
    hit = {k: v for k, v in ctx.findings.items() if k in known}
    wall = time.time() - ctx.t0
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    cov = {"explanation": "Static analysis of the current source of /repo; rules applied: " + " || ".join(ctx.rules)}
    cov.update(ctx.counts)
    cov["samples"] = ctx.samples
    if ctx.notes:
        cov["notes"] = ctx.notes[:40]
    if ctx.failed:
        cov["scenarios_not_analysed"] = ctx.failed
    cov["known_findings_seen"] = sorted(hit)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("property=%s tier=%s wall=%.1fs %s" % (prop, tier, wall, " ".join("%s=%s" % i for i in sorted(ctx.counts.items()))))
    for f in ctx.failed:
        print("  note: scenario not analysed:", f)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k] or hit[k]["message"], k))
    if new:
        rp = os.path.join(evd, prop + ".violations.json")
        with open(rp, "w") as f:
            json.dump(list(new.values()), f, indent=1, default=str)
        for k, v in sorted(new.items()):
            print("  %s: %s\n     at %s\n     key=%s" % (v["rule"], v["message"], "; ".join(v["where"]), k))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return code


# ---------------------------------------------------------------------------- parallel scenarios
_TASKS = None


def _worker(i):
    prop, tier, name, f = _TASKS[i]
    gc.set_threshold(200000, 20, 50)
    sub = Ctx(prop, tier)
    sub.seen, sub.sites, sub.facts = set(), set(), {}
    t0 = time.time()
    sub.guard(name, f, sub)
    if os.environ.get("KDSA_TIME"):
        print("%6.1fs %s" % (time.time() - t0, name), file=sys.stderr)
    return (i, sub.findings, sub.counts, sub.samples, sub.notes, sub.failed, sub.seen, len(sub.sites), sub.facts)


def run_scenarios(ctx, tasks, procs=8):
    """tasks: list of (name, f(subctx)); merged into ctx.  Returns the per-task facts in order."""
    global _TASKS
    import multiprocessing as mp
    only = os.environ.get("KDSA_ONLY")
    if only:
        tasks = [t for t in tasks if only in t[0]]
    _TASKS = [(ctx.prop, ctx.tier, n, f) for n, f in tasks]
    facts = [None] * len(tasks)
    ctx.seen = getattr(ctx, "seen", set())
    out = []
    if os.environ.get("KDSA_SERIAL"):
        out = [_worker(i) for i in range(len(tasks))]
    else:
        from .worlds import PROJECT
        PROJECT().all()
        with mp.get_context("fork").Pool(min(procs, max(1, len(tasks)))) as pool:
            out = list(pool.imap_unordered(_worker, range(len(tasks)), chunksize=1))
    for i, fd, counts, samples, notes, failed, seen, nsites, fa in sorted(out, key=lambda x: x[0]):
        for k, v in fd.items():
            for wh in v["where"] or [""]:
                ctx.find(v["rule"], v["construct"], v["message"], wh)
        for k, v in counts.items():
            ctx.count(k, v)
        for s in samples:
            ctx.sample(s)
        ctx.notes += notes
        ctx.failed += failed
        ctx.seen |= seen
        ctx.count("statement_visits_distinct_per_scenario_sum", nsites)
        facts[i] = fa
    ctx.counts["functions"] = len(ctx.seen)
    return facts


def drive(an, f, sub):
    """run scenario f(world) under analysis an"""
    from .worlds import World
    from .interp import Budget
    w = World(an)
    w.enter()
    try:
        f(w)
    except Budget as b:
        sub.notes.append("truncated: %s" % b)
        sub.count("truncated_scenarios")
    sub.seen |= w.eng.funcs_seen
    sub.sites |= w.eng.sites
    sub.count("call_evaluations", w.eng.ncalls)
    return w
