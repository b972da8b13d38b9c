import math, random
import world

PID = "P03"
RULE = ("random solution sets and reference fronts (1..25 points, 1..5 objectives; singletons, duplicates, sets equal to the front, "
        "subsets, shifted fronts) evaluated through every public indicator in two orders, against direct formulae; non-trivial = "
        "set and front differ and the set contains a dominated point")
NEED = {"evaluated": 8000, "singletons": 100, "coinciding": 100, "pdi": 300}
CPU = 150


def cases(tier, seed):
    n = 40 if tier == "quick" else 400
    return [{"seed": "%d/%d" % (seed, i), "reps": 100} for i in range(n)]


def d2(a, b):
    return math.fsum((x - y) ** 2 for x, y in zip(a, b))


def rms_near(frm, to):
    return math.sqrt(math.fsum(min(d2(f, t) for t in to) for f in frm) / len(frm))


def o_spacing(pts):
    if len(pts) < 2:
        return 0.0
    near = [min(math.fsum(abs(x - y) for x, y in zip(a, b)) for j, b in enumerate(pts) if j != i) for i, a in enumerate(pts)]
    mean = math.fsum(near) / len(near)
    return math.sqrt(math.fsum((mean - d) ** 2 for d in near) / (len(pts) - 1))


def gen(rng):
    m = rng.choice([1, 2, 2, 3, 3, 4, 5])
    n, q = rng.choice([1, 2, 3, 6, 12, 25]), rng.choice([1, 2, 4, 10, 20])
    sc = rng.choice([1.0, 10.0, 1e-3, 40.0])

    def v():
        if rng.random() < 0.3:
            return [float(rng.randint(0, 3)) * sc for _ in range(m)]
        return [rng.uniform(-0.2, 1.0) * sc for _ in range(m)]

    front = [v() for _ in range(q)]
    mode = rng.choice(["free", "free", "equal", "subset", "shift", "dups"])
    if mode == "free":
        sol = [v() for _ in range(n)]
    elif mode == "equal":
        sol = [list(p) for p in front]
        rng.shuffle(sol)
    elif mode == "subset":
        sol = [list(rng.choice(front)) for _ in range(n)]
    elif mode == "shift":
        sol = [[x + 0.25 * sc for x in p] for p in front]
    else:
        b = [v() for _ in range(max(1, n // 3))]
        sol = [list(rng.choice(b)) for _ in range(n)]
    return m, mode, sol, front


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-12 * scale


def run_case(case, obs):
    from metrics import metrics
    rng = random.Random(case["seed"])
    for _ in range(case["reps"]):
        m, mode, sol, front = gen(rng)
        nd0 = world.o_nondominated(sol)
        want = {
            "generational_distance": rms_near(nd0, front),
            "inverse_generational_distance": rms_near(front, sol),
            "epsilon": max(min(max(p[k] - s[k] for k in range(m)) for p in front) for s in nd0),
            "extent": math.sqrt(math.fsum(max(x[k] for x in sol) - min(x[k] for x in sol) for k in range(m))),
            "spacing": o_spacing(nd0),
            "non_domination_ratio": len(nd0) / len(sol),
        }
        want["average_hausdorff_distance"] = max(want["generational_distance"], want["inverse_generational_distance"])
        if len(sol) == 1 or len(front) == 1:
            obs.event("singletons")
        for rep in range(2):
            s, f = [list(x) for x in sol], [list(x) for x in front]
            if rep:
                rng.shuffle(s)
                rng.shuffle(f)
                s, f = [tuple(x) for x in s], [tuple(x) for x in f]
            nd = metrics.filter_not_dominated(s)
            keep = (list(s), list(nd), list(f))
            for name in want:
                got = float(getattr(metrics, name)(s, nd, f))
                obs.event("evaluated")
                sc = max(1.0, max(abs(c) for p in sol + front for c in p))
                obs.require(math.isfinite(got) and close(got, want[name], sc * (1e4 if name in ("spacing", "extent") else 1)), "indicator:" + name,
                            "%s differs from its definition" % name, got=got, want=want[name], sol=sol, front=front, order=rep)
            obs.require((list(s), list(nd), list(f)) == keep, "argument-changed", "an indicator altered its arguments", sol=sol)
        if mode == "equal":
            obs.event("coinciding")
            for name in ("inverse_generational_distance",):
                obs.require(float(getattr(metrics, name)(sol, nd0, front)) == 0.0, "indicator:" + name, "not zero on coinciding sets", sol=sol)
            obs.require(float(metrics.generational_distance(sol, nd0, front)) == 0.0, "indicator:generational_distance",
                        "not zero on a set contained in the front", sol=sol)
        # share of ordered pairs farther apart than a radius, mean distance from a front
        from metrics import metrics_utils
        gaps = [math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(x, y))) for i, x in enumerate(sol) for j, y in enumerate(sol) if i != j]
        for sigma in (None, rng.choice([0.05, 0.3, 1.0, 4.0])):
            r = 0.5 if sigma is None else sigma
            got = float(metrics_utils.distribution(sol) if sigma is None else metrics_utils.distribution(sol, sigma))
            if gaps and all(abs(d - r) > 1e-9 * (1 + d) for d in gaps):
                obs.require(close(got, sum(1 for d in gaps if d > r) / len(gaps)), "indicator:distribution", "the share of pairs farther apart than %g differs from its definition" % r, got=got, sol=sol)
        got = float(metrics_utils.distance_from_pareto(sol, front))
        wantp = math.fsum(min(math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(x, y))) for y in front) for x in sol) / len(sol)
        obs.require(close(got, wantp, max(1.0, max(abs(c) for p in sol + front for c in p))), "indicator:distance_from_pareto", "the mean distance from the front differs from its definition", got=got, want=wantp, sol=sol)
        # dominance indicator: shares of the joint front
        groups = [sol] + [[[rng.choice(sol)[k] - rng.choice([0, 0, 0.1]) for k in range(m)] for _ in range(rng.randint(1, 6))] for _ in range(2)]
        joint = set(map(tuple, world.o_nondominated([tuple(p) for g in groups for p in g])))
        for g in groups:
            nd = metrics.filter_not_dominated(g)
            got = float(metrics.pareto_dominance_indicator(g, nd, joint))
            wantp = sum(1 for p in nd if tuple(p) in joint) / len(joint)
            obs.event("pdi")
            obs.require(close(got, wantp), "indicator:pdi", "share of the joint front is wrong", got=got, want=wantp, groups=groups)
        if len(nd0) < len(sol) and mode != "equal":
            obs.nontrivial(tuple(map(tuple, sol)), tuple(map(tuple, front)))
            obs.sample({"m": m, "mode": mode, "n": len(sol), "front": len(front), "gd": want["generational_distance"]})
