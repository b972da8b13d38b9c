import contextlib, importlib, io, json, math, os, random
import world, drive

PID = "P11"
RULE = ("every algorithm and sequential combination run with the shipped configuration (single populations and islands of 20) on ZDT1, ZDT4 and a two-objective "
        "sphere; the distance of the known front to the result set is compared with that of equally many uniform samples, with that of the initial population, "
        "and with that of the same search's earlier result; limits lie five standard errors beyond the values measured over independent seeds; "
        "non-trivial = a finished search")
NEED = {"searches": 120, "comparisons": 60}
CPU = 400
BASE = world.BASE_DRIVERS
ALGOS = BASE + ["HGS+" + a for a in BASE] + ["IMGA+" + a for a in BASE]
PROBLEMS = ["ZDT1", "ZDT4", "sphere"]
RUNS = 2
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "p11_limits.json")


class Fn:
    """memoises, and turns whatever number type the search uses into floats: speed only"""

    def __init__(self, f):
        self.f, self.m = f, {}

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __call__(self, x):
        k = tuple(map(float, x))
        v = self.m.get(k)
        if v is None:
            v = self.m[k] = self.f(k)
        return v


def problem(name, rng):
    if name == "sphere":
        n = 8
        dims = [(0, 1)] * n
        T = [[0.15 + 0.7 * rng.random() for _ in range(n)] for _ in range(2)]
        D = sum((a - b) ** 2 for a, b in zip(*T))
        fs = [lambda x, t=t: sum((a - b) ** 2 for a, b in zip(x, t)) / D for t in T]
        p = world.Problem("SYN11", dims, fs, [[(i / 20.0) ** 2, (1 - i / 20.0) ** 2] for i in range(21)])
    else:
        from checks import p23
        f, box, _, _ = p23.spec(name)       # the published definition, not the module under test
        front = [[i / 37.0, 1 - math.sqrt(i / 37.0)] for i in range(38)]
        p = world.Problem("SYN11", [tuple(b) for b in box], [lambda x, k=k: f(x)[k] for k in (0, 1)], front)
    p.fitnesses = [Fn(f) for f in p.raw]
    return p


def distance(p, pop):
    pts = [[f(x) for f in p.fitnesses] for x in pop]
    nd = []
    for q in sorted(map(tuple, pts)):
        if not nd or q[1] < nd[-1][1]:
            nd.append(q)
    return sum(min(math.hypot(a[0] - b[0], a[1] - b[1]) for b in nd) for a in p.pareto_front) / len(p.pareto_front)


def budgets(algo, name):
    if "NSLS" in algo:
        return 3000, 12000
    return 500, 1800


def search(algo, name, seed):
    """(log ratio to uniform sampling, to the initial population, to the earlier result)"""
    rng = random.Random("p11/%s/%s/%s" % (algo, name, seed))
    random.seed(rng.random())
    import numpy
    numpy.random.seed(rng.randrange(2 ** 31))
    p = problem(name, rng)
    b1, b2 = budgets(algo, name)
    with contextlib.redirect_stdout(io.StringIO()):
        if algo.startswith("HGS"):
            p.register()
            from simulation import factory
            d = factory.prepare(algo, p.name)[0]()
            init = drive.pop_for(algo, p, rng, 64)      # what its root starts from
        else:
            pop = drive.pop_for(algo, p, rng, 20)
            d, _ = drive.build(algo, p, pop)
            init = pop
        i0 = distance(p, init)
        n = 0
        while d.cost < b1:
            d.next_step()
            n += 1
        e1 = distance(p, drive.final(d))
        while d.cost < b2 or n < 2:
            d.next_step()
            n += 1
        c2 = int(d.cost)
        e2 = distance(p, drive.final(d))
    r2 = distance(p, [[rng.uniform(lo, hi) for lo, hi in p.dims] for _ in range(c2)])
    lg = lambda a, b: math.log((a + 1e-4) / (b + 1e-4))
    return {"random": lg(e2, r2), "initial": lg(e2, i0), "earlier": lg(e2, e1), "cost": c2, "distance": e2}


def cases(tier, seed):
    out = []
    for r in range(1 if tier == "quick" else 8):
        for a in ALGOS:
            for p in PROBLEMS:
                out.append({"algo": a, "problem": p, "seed": "%d/%d" % (seed, r)})
    slow = ["IBEA", "HGS+IBEA", "IMGA+IBEA"]
    out.sort(key=lambda c: (c["algo"] not in slow, "IBEA" not in c["algo"]))
    return out


def run_case(case, obs):
    with open(TABLE) as fh:
        lim = json.load(fh)
    a, p = case["algo"], case["problem"]
    got = []
    for k in range(RUNS):
        got.append(search(a, p, "%s/%d" % (case["seed"], k)))
        obs.event("searches")
        obs.nontrivial(a, p, case["seed"], k)
    for key, what in (("random", "equally many uniform samples"), ("initial", "its initial population"), ("earlier", "its own earlier result")):
        L = lim["%s/%s/%s" % (a, p, key)]
        limit = L["mean"] + 5 * L["sd"] / math.sqrt(RUNS) + 0.15
        if key == "earlier":
            limit = max(limit, 0.1)
        elif limit > -0.02:
            continue        # too noisy to say
        v = sum(g[key] for g in got) / RUNS
        obs.event("comparisons")
        obs.require(v <= limit, "no-progress:" + key, "%s on %s: the remaining distance is %.2f times that of %s (%.2f is usual, at most %.2f allowed), after %s evaluations" % (
            a, p, math.exp(v), what, math.exp(L["mean"]), math.exp(limit), [g["cost"] for g in got]), runs=got)
    obs.sample({"algo": a, "problem": p, "ratio": math.exp(got[0]["random"])})
