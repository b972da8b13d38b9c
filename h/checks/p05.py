import random
import world, drive

PID = "P05"
RULE = ("every algorithm and meta+algorithm combination, run several steps on box domains of several kinds (unit, symmetric, mixed scale, "
        "narrow, not containing zero) and landscapes that pull the search to and beyond the bounds; the instrumented objectives "
        "check every evaluated point, populations and results are checked after every step; non-trivial = a run that evaluated "
        "at least 100 distinct points of which some touch a bound or come within 1% of it")
NEED = {"evaluated_points": 40000, "population_points": 10000, "reported_points": 8000, "runs": 80}
CPU = 140
KINDS = ["unit", "sym", "mixed", "shifted", "narrow"]


def cases(tier, seed):
    out = []
    r = random.Random(seed)
    reps = 1 if tier == "quick" else 6
    for rep in range(reps):
        for a in world.BASE_DRIVERS:
            for k in KINDS:
                out.append({"algo": a, "dom": k, "steps": 14, "seed": "%d/%d" % (seed, rep)})
        for a in world.BASE_DRIVERS:
            ks = KINDS if tier != "quick" else r.sample(["unit", "sym", "mixed"], 2) + ["shifted", "narrow"]
            for k in ks:
                out.append({"algo": "HGS+" + a, "dom": k, "steps": 8, "seed": "%d/%d" % (seed, rep)})
            for k in (KINDS if tier != "quick" else r.sample(KINDS, 2)):
                out.append({"algo": "IMGA+" + a, "dom": k, "steps": 3, "seed": "%d/%d" % (seed, rep)})
    r.shuffle(out)
    return out


def corner_problem(kind, n, rng):
    """objectives whose optima lie on or outside the bounds"""
    dims = world.make_dims(kind, n, rng)
    targets = [[rng.choice([-0.3, 0.0, 1.0, 1.4, 0.5]) for _ in range(n)] for _ in range(2)]

    def mk(t):
        return lambda x: sum((a - b) ** 2 for a, b in zip(world.unit(x, dims), t))
    return world.Problem("SYN5", dims, [mk(t) for t in targets], [[0.0, 1.0], [1.0, 0.0]])


def run_case(case, obs):
    rng = random.Random("%s/%s/%s" % (case["seed"], case["algo"], case["dom"]))
    n = rng.choice([2, 4, 7])
    prob = corner_problem(case["dom"], n, rng)
    P = 18 if "+" not in case["algo"] else 30
    over = {}
    if rng.random() < 0.5 and "+" not in case["algo"]:
        over["mutation_rate"] = rng.choice([0.5, 1.0])
        over["mutation_eta"] = rng.choice([2.0, 20.0])
    drv, rec = drive.build(case["algo"], prob, pop=world.random_population(P, prob.dims, rng), **over)
    drv.max_budget = 2000
    near = 0

    def look(points, what):
        nonlocal near
        for x in points:
            w = world.bad_point(x, prob.dims)
            obs.check()
            if w:
                obs.violate("out-of-domain:" + what, "%s on %s: %s point: %s" % (case["algo"], case["dom"], what, w), point=list(x), dims=prob.dims)
                return False
        return True

    for s in range(case["steps"]):
        drv.next_step()
        holders = rec.drivers() if rec else [drv]
        for d in holders:
            pts = drive.live_points(d)
            obs.event("population_points", len(pts))
            if not look(pts, "population"):
                return
        fin = drive.final(drv)
        obs.event("reported_points", len(fin))
        if not look(fin, "reported"):
            return
        if prob.log.bad:
            break
    obs.event("evaluated_points", prob.log.calls)
    obs.event("runs")
    obs.check(len(prob.log.points))
    for x, w in prob.log.bad[:2]:
        obs.violate("out-of-domain:evaluated", "%s on %s evaluated a bad point: %s" % (case["algo"], case["dom"], w), point=x, dims=prob.dims)
    for x in prob.log.points:
        if any(u < 0.01 or u > 0.99 for u in world.unit(x, prob.dims)):
            near += 1
    obs.event("points_near_bounds", near)
    if len(prob.log.points) >= 100 and near:
        obs.nontrivial(case["algo"], case["dom"], n, case["seed"])
        obs.sample({"distinct_points": len(prob.log.points), "near_bounds": near, "dims": prob.dims})
