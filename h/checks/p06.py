import random
import world, drive

PID = "P06"
RULE = ("every algorithm on several landscapes/domains with random population sizes, cost compared after every step with the number of "
        "objective calls divided by the number of objectives (and with the number of distinct candidates where survivors are looked up "
        "repeatedly), with and without a shared archive of known values; combinations compared with the sum over their recorded "
        "populations; non-trivial = run of at least 3 steps that created new candidates")
NEED = {"steps": 300, "cost_checks": 400, "archive_hits": 20, "meta_steps": 60, "nodes": 100}
CPU = 140


class Archive(dict):
    def __contains__(self, k):
        hit = dict.__contains__(self, tuple(k))
        if hit:
            self.hits = getattr(self, "hits", 0) + 1
        return hit

    def __getitem__(self, k):
        return dict.__getitem__(self, tuple(k))

    def __setitem__(self, k, v):
        dict.__setitem__(self, tuple(k), v)


def cases(tier, seed):
    out = []
    r = random.Random(seed)
    k = 1 if tier == "quick" else 8
    for rep in range(k):
        for a in world.BASE_DRIVERS:
            for shape in ("sphere", "zdt", "plateau", "negative"):
                out.append({"algo": a, "shape": shape, "archive": False, "seed": "%d/%d" % (seed, rep)})
            out.append({"algo": a, "shape": "sphere", "archive": True, "seed": "%d/%d" % (seed, rep)})
            out.append({"algo": a, "shape": "zdt", "archive": True, "seed": "%d/%d" % (seed, rep)})
            for meta in ("HGS", "IMGA"):
                out.append({"algo": meta + "+" + a, "shape": r.choice(["sphere", "zdt"]), "archive": False, "seed": "%d/%d" % (seed, rep)})
    r.shuffle(out)
    return out


def run_case(case, obs):
    rng = random.Random("%s/%s/%s" % (case["seed"], case["algo"], case["shape"]))
    algo = case["algo"]
    m = rng.choice([2, 2, 3])
    prob = world.make_problem(case["shape"], rng.choice(["unit", "sym", "mixed"]), rng.choice([3, 5]), m, rng, "SYN6")
    if "+" in algo:
        return meta(case, obs, rng, prob, m)
    P = rng.choice([8, 12, 20, 21])
    pop = world.random_population(P, prob.dims, rng)
    over = {"mutation_rate": 1.0}
    arch = None
    if case["archive"]:
        arch = Archive()
        for x in rng.sample(pop, P // 3):
            arch[x] = prob.objectives(x)
        over["fitness_archive"] = arch
        known = set(dict.keys(arch))
    drv, _ = drive.build(algo, prob, pop=pop, **over)
    drv.max_budget = 5000
    last = 0
    steps = 10 if algo != "NSLS" else 6
    for s in range(-1, steps):
        if s >= 0:
            drv.next_step()
            obs.event("steps")
        before = (drv.cost, prob.log.calls)
        cost = drv.cost
        obs.event("cost_checks")
        obs.require(cost >= last, "cost-decreases", "%s: cost went from %r to %r" % (algo, last, cost), step=s)
        if algo == "IBEA":
            # looks objective values up again and again: count candidates instead of calls
            fresh = set(prob.log.points)
            if arch is not None:
                fresh -= known
                # candidates found in the archive are free
            obs.require(len(fresh) <= cost + (len(known) if arch else 0) and cost <= len(fresh) + 2 + 0.04 * len(fresh), "cost-vs-candidates",
                        "%s: cost %r but %d distinct new candidates were evaluated" % (algo, cost, len(fresh)), step=s, P=P)
        else:
            obs.require(cost * m == prob.log.calls, "cost-vs-evaluations",
                        "%s: cost %r but %d objective calls (%d objectives)" % (algo, cost, prob.log.calls, m), step=s, P=P, archive=case["archive"])
            fresh = len(prob.log.points)
            if algo == "NSLS":      # tries two variants of every coordinate of every individual, nothing else
                n = len(prob.dims)
                obs.require(cost - last <= 2 * P * n + (P if s == 0 else 0), "charged-twice",
                            "%s: one step cost %r" % (algo, cost - last), step=s, P=P, n=n)
            if algo == "OMOPSO":    # one new position per particle; particles do meet in a corner of the domain
                obs.require(cost - last <= P, "charged-twice", "%s: one step cost %r" % (algo, cost - last), step=s, P=P)
            # gene jumping re-creates existing points now and then
            obs.require(cost <= fresh * {"JGBL": 1.6, "NSLS": 99, "OMOPSO": 99}.get(algo, 1.04) + 4, "charged-twice",
                        "%s: cost %r but only %d distinct candidates" % (algo, cost, fresh), step=s, P=P)
        last = cost
        if not (algo == "SPEA2" and s < 0):
            drive.final(drv)
            drive.final(drv)
            obs.require(drv.cost == cost, "reporting-costs", "%s: asking for the result changed the cost from %r to %r" % (algo, cost, drv.cost), step=s)
            if algo != "IBEA":
                obs.require(prob.log.calls == before[1], "reporting-evaluates", "%s: asking for the result evaluated candidates" % algo, step=s)
    if arch is not None:
        obs.event("archive_hits", getattr(arch, "hits", 0))
    if len(prob.log.points) > P:
        obs.nontrivial(algo, case["shape"], P, m, case["archive"], case["seed"])
        obs.sample({"P": P, "m": m, "cost": last, "calls": prob.log.calls, "distinct": len(prob.log.points)})


def meta(case, obs, rng, prob, m):
    algo = case["algo"]
    P = 33 if algo.startswith("IMGA") else 24
    over = {}
    if algo.startswith("HGS"):
        over["cost_modifiers"] = rng.choice([(1.0, 1.0, 1.0), (1.0, 0.5, 0.25)])
    drv, rec = drive.build(algo, prob, pop=world.random_population(P, prob.dims, rng), **over)
    obs.require(drv.cost == 0, "cost-start", "%s starts with cost %r" % (algo, drv.cost))
    last = 0
    for s in range(4 if algo.startswith("IMGA") else 8):
        drv.next_step()
        obs.event("meta_steps")
        obs.event("cost_checks")
        if algo.startswith("HGS"):
            etas = {10.0: 0, 12.0: 1, 15.0: 2}
            want = sum(over["cost_modifiers"][etas[kw["mutation_eta"]]] * d.cost for d, kw in rec.created if d.v_steps)
        else:
            want = sum(d.cost for d, kw in rec.created)
        obs.require(abs(drv.cost - want) <= 1e-6 * max(1.0, want), "cost-sum", "%s: cost %r but its populations report %r" % (algo, drv.cost, want), step=s)
        obs.require(drv.cost > last, "cost-decreases", "%s: cost did not grow in a step: %r -> %r" % (algo, last, drv.cost), step=s)
        last = drv.cost
        c = drv.cost
        drive.final(drv)
        obs.require(drv.cost == c, "reporting-costs", "%s: asking for the result changed the cost" % algo, step=s)
        if "IBEA" not in algo:
            obs.require(sum(d.cost for d, _ in rec.created) * m <= prob.log.calls, "overcharged",
                        "%s: populations charged more than %d objective calls" % (algo, prob.log.calls), step=s)
    obs.event("nodes", len(rec.created))
    if len(rec.created) > 1:
        obs.nontrivial(algo, case["shape"], P, m, case["seed"], len(rec.created))
