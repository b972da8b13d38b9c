import random
import world, drive
from world import o_dominates

PID = "P10"
RULE = ("every single-population algorithm for 8..40 generations on landscapes with ties, plateaus, both signs and 2..4 objectives; after each step the "
        "pool (previous result plus every point evaluated in the step, seen by the instrumented objectives) is compared by value with the new "
        "result; non-trivial = generation in which at least one candidate was discarded and one new candidate survived")
NEED = {"generations": 500, "discards": 2000, "new_survivors": 800, "dominance_pairs": 20000, "archives": 40}
CPU = 150
STRICT = {"NSGAII": 0.0, "SPEA2": 0.0, "SMSEMOA": 0.0, "IBEA": 1e-3}
ASSUMPTIONS = ["IBEA decides by sums of exponentials: pairs closer than 1e-3 of the objective range are not judged",
               "SMS-EMOA is observed with one replacement per step, the unit in which its selection acts"]


def cases(tier, seed):
    out = []
    for rep in range(1 if tier == "quick" else 8):
        for a in list(world.BASE_DRIVERS) + ["BOGO"]:
            for shape in ("sphere", "zdt", "plateau", "negative", "rugged", "flat"):
                out.append({"algo": a, "shape": shape, "seed": "%d/%d" % (seed, rep)})
    return out


def archive_case(case, obs):
    """the random-search baseline: its result is exactly the non-dominated part of everything it has evaluated"""
    from algorithms.BOGO.BOGO import BOGO
    rng = random.Random("%s/bogo/%s" % (case["seed"], case["shape"]))
    for rep in range(6):
        m, n = rng.choice([2, 2, 3]), rng.choice([2, 3, 4])
        prob = world.make_problem(case["shape"], rng.choice(["unit", "sym", "mixed"]), n, m, rng, "SYN10")
        seen = []
        prob.log.listeners.append(lambda k, x: seen.append(tuple(x)) if k == 0 else None)
        P = rng.choice([1, 2, 8, 16])
        pop = world.random_population(P, prob.dims, rng)
        if rng.random() < 0.3:
            pop += [list(pop[0])]
        drv = BOGO(population=pop, dims=prob.dims, fitnesses=prob.fitnesses, mutation_variance=1, crossover_variance=1)
        for s in range(-1, 40):
            if s >= 0:
                before = drv.finalized_population()
                drv.step()
                obs.event("generations")
            got = sorted(set(tuple(x) for x in drv.finalized_population()))
            pts = sorted(set(seen))
            fs = {x: tuple(prob.objectives(x)) for x in pts}
            want = [x for x in pts if not any(o_dominates(fs[y], fs[x]) for y in pts)]
            obs.events["dominance_pairs"] += len(pts) ** 2
            obs.event("archives")
            obs.require(got == want, "baseline-archive", "random search: the result is not the non-dominated part of what was evaluated", step=s, got=len(got), want=len(want),
                        lost=[fs[x] for x in want if x not in got][:1], extra=[x for x in got if x not in want][:1])
            obs.require(drv.cost == len(seen), "baseline-cost", "random search: cost %s after %d evaluations" % (drv.cost, len(seen)))
            if s >= 0 and [tuple(x) for x in before] != [tuple(x) for x in drv.finalized_population()]:
                obs.event("new_survivors")
        obs.nontrivial("BOGO", case["shape"], rep)


def run_case(case, obs):
    if case["algo"] == "BOGO":
        return archive_case(case, obs)
    rng = random.Random("%s/%s/%s" % (case["seed"], case["algo"], case["shape"]))
    algo = case["algo"]
    m = rng.choice([2, 2, 3, 4]) if algo != "SMSEMOA" else rng.choice([2, 3])
    n = rng.choice([3, 4, 6]) if m < 4 else 6
    prob = world.make_problem(case["shape"], rng.choice(["unit", "sym", "mixed"]), n, m, rng, "SYN10")
    P = rng.choice([8, 11, 16, 20])
    pop = world.random_population(P, prob.dims, rng)
    if rng.random() < 0.3:                    # the same individual several times
        for i in range(P // 4):
            pop[i] = list(pop[-1])
    over = {}
    if algo == "SMSEMOA":
        over["epoch_length_multiplier"] = 1.01 / P
        if case["shape"] == "negative" or rng.random() < 0.5:
            over["reference_point"] = [200.0] * m
    drv, _ = drive.build(algo, prob, pop=pop, **over)
    drv.max_budget = 4000
    every = 1 if rng.random() < 0.75 else 3
    steps = {"NSLS": 8, "SMSEMOA": 40, "OMOPSO": 16, "IBEA": 10}.get(algo, 14)
    val = {}

    def objs(x):
        if x not in val:
            val[x] = tuple(prob.objectives(x))
        return val[x]

    def checked_result():
        got = [tuple(x) for x in drive.final(drv)]
        again = [tuple(x) for x in drive.final(drv)]
        obs.require(sorted(got) == sorted(again), "result-unstable", "%s: two requests for the result differ" % algo)
        return got

    def on_eval(k, x):
        step_pts.add(x)

    step_pts = set()
    prev = [tuple(x) for x in pop] if algo not in ("SPEA2", "OMOPSO") else []
    if algo not in ("SPEA2",):
        first = checked_result()
        if algo != "OMOPSO":
            obs.require(sorted(first) == sorted(prev), "initial-result", "%s: the initial result is not the initial population" % algo)
        prev = first
    prob.log.listeners.append(on_eval)
    best = None
    fixed = len(pop)
    for s in range(steps):
        if s % every == 0:
            step_pts.clear()
            base = list(prev)
        held = [tuple(x) for x in drv.population]
        drv.next_step()
        if (s + 1) % every:
            continue
        # candidates created earlier but evaluated now (SPEA2) are new candidates of this step
        new = set(step_pts)
        surv = checked_result()
        obs.event("generations")
        pool = set(base) | new
        alien = [x for x in surv if x not in pool]
        obs.require(not alien, "alien-survivor", "%s: %d of %d survivors come neither from the previous result nor from the new candidates" % (algo, len(alien), len(surv)),
                    step=s, first=alien[:1])
        if algo != "OMOPSO":
            obs.require(len(surv) == fixed, "size", "%s: %d individuals after selection, configured %d" % (algo, len(surv), fixed), step=s)
        sset = set(surv)
        gone = [x for x in pool if x not in sset]
        obs.event("discards", len(gone))
        obs.event("new_survivors", len(sset - set(base)))
        margin = STRICT.get(algo)
        judged = None
        if margin is not None and every == 1:
            judged = gone
        elif algo == "NSLS" and every == 1:
            judged = [x for x in gone if x in set(base)]
            margin = 0.0
        if judged:
            all_f = [objs(x) for x in pool]
            span = [max(f[i] for f in all_f) - min(f[i] for f in all_f) for i in range(m)]
            sf = [(x, objs(x)) for x in sset]
            for g in judged:
                fg = objs(g)
                for x, fx in sf:
                    obs.events["dominance_pairs"] += 1
                    if o_dominates(fg, fx):
                        if margin and max((b - a) / w if w else 0.0 for a, b, w in zip(fg, fx, span)) < margin:
                            continue
                        obs.violate("dominating-discard", "%s: a discarded candidate dominates a survivor" % algo, step=s, discarded=fg, survivor=fx, P=P, m=m)
            obs.check(len(judged))
        if algo == "NSGAII":
            now = [min(objs(x)[i] for x in surv) for i in range(m)]
            pool_best = [min(objs(x)[i] for x in pool) for i in range(m)]
            if every == 1:
                obs.require(now == pool_best, "extreme-lost", "NSGAII lost the best value of an objective", now=now, best=pool_best, step=s, P=P)
            if best:
                obs.require(all(a <= b for a, b in zip(now, best)), "extreme-lost", "NSGAII lost the best value of an objective", now=now, best=best, step=s, P=P)
            best = now
        if algo == "OMOPSO":
            archs = [("result", [objs(x) for x in surv])]
            la = getattr(getattr(drv, "leader_archive", None), "archive", None)
            if la is not None and all(hasattr(i, "value") for i in la):
                archs.append(("leaders archive", [objs(tuple(i.value)) for i in la]))
                obs.require(len(la) <= P, "leaders-size", "OMOPSO: %d leaders, at most %d allowed" % (len(la), P))
            for nm, fs in archs:
                obs.event("archives")
                bad = [(a, b) for a in fs for b in fs if o_dominates(a, b)]
                obs.require(not bad, "dominated-in-archive", "OMOPSO: the %s contains a dominated member" % nm, step=s, n=len(fs), bad=bad[:1], shape=case["shape"])
                obs.events["dominance_pairs"] += len(fs) ** 2
            obs.require(surv, "empty-result", "OMOPSO: empty result")
        if gone and sset - set(base):
            obs.nontrivial(algo, case["shape"], case["seed"], s)
        prev = surv
    obs.sample({"P": P, "m": m, "n": n, "every": every})
