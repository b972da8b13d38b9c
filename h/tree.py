"""Random results trees written through the real store, with the truth kept beside them."""
import os, random
import world


class Run:
    def __init__(self, name):
        self.name = name
        self.results = {}       # checkpoint -> (population, fitnesses, cost)


class Tree:
    """runs[problem][algo] = {run dir name: Run}"""

    def __init__(self, root):
        self.root = root
        self.runs = {}

    def order(self, p, a):
        return sorted(self.runs[p][a])

    def checkpoints(self, p, a):
        return sorted({c for r in self.runs[p][a].values() for c in r.results})


def run_name(rng, taken):
    while True:
        k = rng.random()
        date = "20%02d-%02d-%02d.%02d%02d%02d.%06d" % (rng.choice([9, 19, 19, 20, 21]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                                                       rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 5, 99999, rng.randint(0, 999999)]))
        if taken and k < 0.5:
            date = rng.choice(sorted(taken)).split("__")[0]     # started at the same moment
        n = "%s__%07d" % (date, rng.choice([1, 2, 10, rng.randint(1000000, 9999999)]))
        if n not in taken:
            taken.add(n)
            return n


def problem(rng, name, m=None, shape=None):
    m = m or rng.choice([2, 2, 3])
    p = world.make_problem(shape or rng.choice(["sphere", "zdt", "rugged"]), "unit", 3, m, rng, name)
    p.register()
    return p


def population(prob, rng, n, quality):
    """quality in [0,1]: how far towards the targets the points are pulled (different algorithms, different quality)"""
    base = [0.15 + 0.7 * rng.random() for _ in prob.dims]
    out = []
    for _ in range(n):
        x = [lo + (hi - lo) * (quality * b + (1 - quality) * rng.random()) for (lo, hi), b in zip(prob.dims, base)]
        out.append(x)
    return out


def make(root, rng, probs, algos, runs=(1, 5), checkpoints=None, foreign=0.5, missing=0.2, size=(1, 14), share=0.0, even=False, over=60, same=0.0, odd=0.0):
    from simulation.model import SimulationCase
    from simulation.serializer import Serializer, Result
    t = Tree(root)
    jobs = []
    for p in probs:
        t.runs[p.name] = {}
        for a in algos:
            if not even and rng.random() < 0.15 and len(t.runs[p.name]) > 0:
                continue
            t.runs[p.name][a] = {}
            taken = set()
            q = rng.random() * 0.9
            cps = checkpoints or sorted(set(rng.choice([9, 10, 100, 40, 500, 1000, rng.randint(1, 3000)]) for _ in range(rng.randint(1, 5))))
            for _ in range(rng.randint(*runs)):
                r = Run(run_name(rng, taken))
                t.runs[p.name][a][r.name] = r
                jobs.append((p, a, r, cps, q))
    rng.shuffle(jobs)
    pool = {}
    for p, a, r, cps, q in jobs:
        sim = SimulationCase(p.name, a, int(r.name.split("__")[1]), None, root, r.name)
        todo = [c for c in cps if even or rng.random() >= missing]
        rng.shuffle(todo)
        for c in todo:
            pop = population(p, rng, rng.randint(*size), q)
            twin = [x for a2 in t.runs[p.name].values() for x in a2.values() if c in x.results]
            if twin and rng.random() < same:        # two runs that found the same
                pop = [list(x) for x in rng.choice(twin).results[c][0]]
            old = pool.get(p.name)
            if old and rng.random() < share:        # points that several algorithms found
                pop += [list(x) for x in rng.sample(old, min(len(old), 3)) if list(x) not in pop]
            pool.setdefault(p.name, []).extend([x for x in pop if x not in pool.get(p.name, [])])
            fit = [p.objectives(x) for x in pop]
            cost = c + rng.randint(0, over)
            if odd and rng.random() < odd and r is min((x for y, z, x, _, _ in jobs if (y, z) == (p, a)), key=lambda x: x.name):      # one run out of line
                pop = population(p, rng, rng.randint(*size), 0.999)
                fit = [p.objectives(x) for x in pop]
                cost = c + rng.choice([12 * over, 50 * over, 40000, -min(c, 12 * over)])
            Serializer(sim).store(Result(pop, fit, cost=cost), str(c))
            r.results[c] = (pop, fit, cost)
        if not todo and rng.random() < 0.5:
            os.makedirs(os.path.join(root, p.name, a, r.name), exist_ok=True)
    # keep only what is really there
    for p in t.runs.values():
        for a in list(p):
            for n in list(p[a]):
                if not p[a][n].results and not os.path.isdir(os.path.join(root, [k for k, v in t.runs.items() if v is p][0], a, n)):
                    del p[a][n]
            if not p[a]:
                del p[a]
    for pn in list(t.runs):
        if not t.runs[pn]:
            del t.runs[pn]
    if foreign:
        add_foreign(t, rng, foreign)
    return t


FOREIGN_DIRS = ["tmp", ".cache", "2020-01-01.000000.000000__123", "20-01-01.000000.000000__0000001", "0old__0000001", "zzz",
                "2019-05-05.101010.000001__0000001.bak", "x2019-05-05.101010.000001__0000001"]
FOREIGN_RUN_FILES = ["best.pickle", "12a.pickle", "-5.pickle", "5.5.pickle", "500.pickle~", "500.json", ".pickle", "500.pickle.bak", "x500.pickle"]


def add_foreign(t, rng, prob):
    import pickle
    for p, algos in t.runs.items():
        if rng.random() < prob:
            with open(os.path.join(t.root, p, rng.choice(["readme.txt", "notes", "zz.pickle"])), "wb") as fh:
                fh.write(b"nothing")
        for a, runs in algos.items():
            if rng.random() < prob:
                d = os.path.join(t.root, p, a, rng.choice(FOREIGN_DIRS))
                os.makedirs(d, exist_ok=True)
                if rng.random() < 0.7:
                    from simulation.serializer import Result
                    with open(os.path.join(d, "%d.pickle" % rng.choice([500, 9, 40])), "wb") as fh:
                        pickle.dump(Result([[0.0, 0.0, 0.0]], [[-9.0, -9.0, -9.0]], cost=1), fh)
            if rng.random() < prob:
                with open(os.path.join(t.root, p, a, rng.choice(["500.pickle", "log.txt", ".DS_Store"])), "wb") as fh:
                    fh.write(b"nothing")
            for r in runs:
                d = os.path.join(t.root, p, a, r)
                if os.path.isdir(d) and rng.random() < prob:
                    with open(os.path.join(d, rng.choice(FOREIGN_RUN_FILES)), "wb") as fh:
                        fh.write(b"nothing")
                if os.path.isdir(d) and rng.random() < prob / 2:
                    os.makedirs(os.path.join(d, rng.choice(["77.pickle", "sub"])), exist_ok=True)


def listing(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), "rb") as fh:
                out[os.path.relpath(os.path.join(d, f), root)] = fh.read()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = None
    return out
