import math, random
import world
from world import o_dominates
from checks.p25 import layers, crowding

PID = "P27"
RULE = ("real algorithms, configured through run_config with crossover off and a mutation too small to matter, on table landscapes (every point has the objectives "
        "of the nearest start point), so that each child names its parent; over many children the parents' layers, fitness ranks and crowding are compared "
        "with the exact expectation of the algorithm's tournament for the members at hand.  OMOPSO runs with turbulence off: every displacement must decompose "
        "into inertia, a pull to the particle's own best and a pull to one non-dominated leader, within the ranges of their weights.  "
        "Non-trivial = step whose children could all be traced to a parent and whose members differ in fitness, or a step of which every particle was judged")
NEED = {"children": 60000, "layer_children": 36000, "fitness_children": 18000, "crowd_children": 4000, "uniform_children": 3000, "steps": 1500, "guides": 1800, "moves": 1600, "bests": 600, "decomposed": 1000}
CPU = 300
ASSUMPTIONS = ["crowding is judged between crowded and well spread members of one layer only",
               "mating in the jumping-gene algorithm is judged in steps whose mating pool can be told from outside"]
Z = 6.0
TIES = 1e-9


def cases(tier, seed):
    out = []
    for rep in range(2 if tier == "quick" else 16):
        for a in ("NSGAII", "JGBL", "SPEA2", "IBEA"):
            for land in ("halves", "random", "chain", "mixed"):
                out.append({"what": "pressure", "algo": a, "land": land, "seed": "%d/%d" % (seed, rep)})
        for a in ("NSGAII", "JGBL"):
            out.append({"what": "crowd", "algo": a, "seed": "%d/%d" % (seed, rep)})
        for a in ("SMSEMOA", "NSGAIII"):
            out.append({"what": "even", "algo": a, "seed": "%d/%d" % (seed, rep)})
        out.append({"what": "guides", "seed": "%d/%d" % (seed, rep)})
        for k in range(3):
            out.append({"what": "swarm", "seed": "%d/%d/%d" % (seed, rep, k)})
    return out


class Table:
    """objectives of the nearest start point: clones keep their parent's values"""

    def __init__(self, dims, pop, values, name="SYN27"):
        self.pop, self.memo = [tuple(p) for p in pop], {}
        self.values = values
        m = len(values[0])
        self.problem = world.Problem(name, dims, [lambda x, k=k: values[self.root(x)][k] for k in range(m)], [[0.0] * m])

    def root(self, x):
        x = tuple(x)
        if x not in self.memo:
            self.memo[x] = min(range(len(self.pop)), key=lambda i: sum((a - b) ** 2 for a, b in zip(x, self.pop[i])))
        return self.memo[x]


def start(algo, problem, pop, **settings):
    from simulation import factory, run_config
    problem.register()

    def init(config, problem_mod):
        config.update(settings)
        config["population"] = [list(x) for x in pop]
    setattr(run_config, "init_alg___%s____%s" % (algo, problem.name), init)
    part, _ = factory.prepare(algo, problem.name)
    return part()


def settings_for(algo, rng):
    s = dict(mutation_rate=1.0, mutation_eta=1e7, crossover_rate=0.0, crossover_eta=15.0)
    if algo in ("NSGAII", "JGBL", "IBEA"):
        s["mating_population_size"] = 2.0
    if algo == "JGBL":
        s.update(jumping_rate=0.0, jumping_percentage=0.5)
    if algo == "IBEA":
        s["mating_population_size"] = 1.0
        s["kappa"] = rng.choice([0.05, 0.3])
    return s


def values_for(land, P, rng):
    m = 2 if rng.random() < 0.7 else 3
    if land == "chain":
        v = [[float(i + 1)] * m for i in range(P)]
    elif land == "random":
        v = [[rng.gauss(0, 1) for _ in range(m)] for _ in range(P)]
    elif land == "mixed":
        v = [[rng.choice([-3.0, -1.0, 0.0, 2.0, 5.0]) for _ in range(m)] for _ in range(P)]
    else:
        t = [rng.random() for _ in range(P)]
        v = [[a + (3.0 if i % 2 else 0.0), 1 - a + (3.0 if i % 2 else 0.0)] + [7.0] * (m - 2) for i, a in enumerate(t)]
    rng.shuffle(v)
    return v


def tournament(keys, p=None):
    """keys[i]: smaller is better -> probability that member i wins.  p: chance that the better one wins (two draws with replacement);
    None: two distinct members, the better one always wins.  Members within rounding share"""
    n = len(keys)
    order = sorted(range(n), key=lambda i: keys[i])
    q = [0.0] * n
    i = 0
    while i < n:
        j = i
        while j + 1 < n and keys[order[j + 1]] - keys[order[j]] <= TIES * (1 + abs(keys[order[j]])):
            j += 1
        better, same, worse = i, j - i + 1, n - 1 - j
        if p is None:
            s = (2.0 * worse + (same - 1)) / (n * (n - 1))
        else:
            s = (2.0 * (p * worse + (1 - p) * better) + same) / (n * n)
        for k in range(i, j + 1):
            q[order[k]] = s
        i = j + 1
    return q


def strengths(fs):
    n = len(fs)
    dom = [[o_dominates(a, b) for b in fs] for a in fs]
    st = [sum(r) for r in dom]
    k = int(math.sqrt(n))
    out = []
    for i in range(n):
        d = sorted(math.sqrt(sum((a - b) ** 2 for a, b in zip(fs[i], f))) for f in fs)
        out.append(sum(st[j] for j in range(n) if dom[j][i]) + 1.0 / (d[k] + 2.0))
    return out


def indicator_loss(fs, kappa):
    """IBEA: the larger, the worse"""
    n, m = len(fs), len(fs[0])
    lo = [min(f[i] for f in fs) for i in range(m)]
    hi = [max(f[i] for f in fs) for i in range(m)]
    sc = [[(f[i] - lo[i]) / (hi[i] - lo[i]) if hi[i] > lo[i] else 0.0 for i in range(m)] for f in fs]
    ind = [[max(a - b for a, b in zip(x, y)) for y in sc] for x in sc]
    c = max(abs(v) for r in ind for v in r)
    if not c:
        return None
    return [sum(math.exp(-ind[j][i] / (c * kappa)) for j in range(n) if j != i) for i in range(n)]


class Pool:
    """observed minus expected, pooled over steps"""

    def __init__(self):
        self.d = self.v = 0.0
        self.n = 0

    def add(self, q, score, parents):
        tot = sum(q)
        mean = sum(a * s for a, s in zip(q, score)) / tot
        var = sum(a * (s - mean) ** 2 for a, s in zip(q, score)) / tot
        self.d += sum(score[i] for i in parents) - mean * len(parents)
        self.v += var * len(parents)
        self.n += len(parents)

    def z(self):
        return self.d / math.sqrt(self.v) if self.v > 1e-12 else 0.0


def watch(algo, table, pop, steps, rng, obs, settings):
    """yields (clan of each member of the mating pool, clan of each candidate its fitness was measured among, clan of each child's parent)
    for every step that can be told from outside"""
    d = start(algo, table.problem, pop, **settings)
    P = len(pop)
    seen = set(map(tuple, pop))
    before = [tuple(x) for x in d.population]
    archive = []
    for _ in range(steps):
        d.next_step()
        now = [tuple(x) for x in d.population]
        kids = list(dict.fromkeys([x for x in list(table.problem.log.points) + now if x not in seen]))
        seen.update(kids)
        ks = set(kids)
        members = among = None
        if algo == "SPEA2":
            members = [tuple(x) for x in d.finalized_population()]
            among, archive = archive + before, members
            kids = now
        else:
            rest = [x for x in now if x not in ks]
            if len(rest) == P and len(now) > P:
                members = rest
            elif len(before) == P:
                members = before
        before = now
        obs.event("steps")
        if members is None or len(members) != P:
            continue
        obs.event("children", len(kids))
        yield [[table.root(x) for x in c] for c in (members, among or members, kids)]


def pressure(case, obs, rng):
    algo = case["algo"]
    lay, fit = Pool(), Pool()
    judged = 0
    for run in range({"IBEA": 16, "SPEA2": 26}.get(algo, 20)):
        P = rng.choice([16, 20] if algo == "IBEA" else [24, 30])
        dims = world.make_dims(rng.choice(["unit", "mixed", "sym"]), 4, rng)
        pop = world.random_population(P, dims, rng)
        values = values_for(case["land"], P, rng)
        table = Table(dims, pop, values)
        s = settings_for(algo, rng)
        for members, among, parents in watch(algo, table, pop, 4, rng, obs, s):
            fs = [values[c] for c in members]
            # children stand for a clan: every member of a clan has the same objectives
            first = {}
            for i, c in enumerate(members):
                first.setdefault(c, i)
            if any(c not in first for c in parents):
                obs.violate("stray-parent", "%s: a child descends from no member of the mating pool" % algo, case=case)
                return
            par = [first[c] for c in parents]
            if algo in ("NSGAII", "JGBL"):
                r = [float(x) for x in layers(fs)]
                lay.add(tournament(r, 0.9), r, par)
            elif algo == "IBEA":
                loss = indicator_loss(fs, s["kappa"])
                if loss is None:
                    continue
                q = tournament(loss, 0.9)
                o = sorted(set(round(x, 9) for x in loss))
                fit.add(q, [float(o.index(round(x, 9))) / len(o) for x in loss], par)
            else:
                by = dict(zip(among, strengths([values[c] for c in among])))
                score = [by[c] for c in members]
                q = tournament(score)
                o = sorted(set(round(x, 9) for x in score))
                fit.add(q, [float(o.index(round(x, 9))) / len(o) for x in score], par)
            judged += 1
    for pool, what, ev in ((lay, "layers", "layer_children"), (fit, "fitness", "fitness_children")):
        if pool.n:
            obs.event(ev, pool.n)
            obs.require(abs(pool.z()) <= Z, "mating-pressure",
                        "%s on %s: the parents of %d children are %s than the tournament chooses (%s, z = %.1f)"
                        % (algo, case["land"], pool.n, "worse" if pool.z() > 0 else "better", what, pool.z()))
    if judged >= 40:
        obs.nontrivial("pressure", algo, case["land"], case["seed"])


def crowd(case, obs, rng):
    """one layer, half of it crowded into a corner: the well spread half is the better one"""
    algo = case["algo"]
    good = n = 0
    for run in range(30):
        P = rng.choice([28, 32])
        dims = world.make_dims(rng.choice(["unit", "mixed", "sym"]), 4, rng)
        pop = world.random_population(P, dims, rng)
        t = [(k + rng.uniform(-0.3, 0.3)) / (P // 2) for k in range(P // 2)]
        c = t[rng.randrange(3, P // 2 - 3)] + 0.3 / (P // 2)
        t += [c + 1e-5 * (k + rng.uniform(-0.3, 0.3)) for k in range(P // 2)]
        sc = rng.choice([1.0, 40.0])
        values = [[sc * x, 1 - x] for x in t]
        o = list(range(P))
        rng.shuffle(o)
        table = Table(dims, pop, [values[i] for i in o])
        spread = [i < P // 2 for i in o]
        for members, among, parents in watch(algo, table, pop, 1, rng, obs, settings_for(algo, rng)):
            good += sum(1 for x in parents if spread[x])
            n += len(parents)
    obs.event("crowd_children", n)
    # 0.70 when every spread member is less crowded than every crowded one; the members at the corner's edge are in between
    if obs.require(n >= 500, "crowd-unseen", "%s: only %d children could be traced" % (algo, n)):
        sd = math.sqrt(0.21 / n)
        obs.require(0.66 - Z * sd <= good / n <= 0.73 + Z * sd, "crowding-pressure",
                    "%s: %.3f of %d parents come from the well spread half of the layer, the tournament gives about 0.70" % (algo, good / n, n))
        obs.nontrivial("crowd", algo, case["seed"])


def even(case, obs, rng):
    """every member is as likely a parent as any other"""
    algo = case["algo"]
    P = 20
    by_place, n = [0] * P, 0
    by_value = [0] * P
    for run in range(60):
        dims = world.make_dims(rng.choice(["unit", "mixed", "sym"]), 4, rng)
        pop = world.random_population(P, dims, rng)
        t = sorted(rng.random() for _ in range(P))
        o = list(range(P))
        rng.shuffle(o)
        values = [[t[i], 1 - t[i]] for i in o]
        table = Table(dims, pop, values)
        s = settings_for(algo, rng)
        if algo == "SMSEMOA":
            s.update(reference_point=[5.0, 5.0], epoch_length_multiplier=1.0)
        d = start(algo, table.problem, pop, **s)
        d.next_step()
        for x in table.problem.log.points:
            if tuple(x) not in set(table.pop):
                by_place[table.root(x)] += 1
                by_value[o[table.root(x)]] += 1
                n += 1
    obs.event("uniform_children", n)
    if not obs.require(n >= 200, "even-unseen", "%s: only %d children" % (algo, n)):
        return
    for what, c in (("place in the population", by_place), ("objective values", by_value)):
        chi = sum((x - n / P) ** 2 / (n / P) for x in c)
        # Wilson-Hilferty
        k = P - 1.0
        w = ((chi / k) ** (1 / 3.0) - (1 - 2 / (9 * k))) / math.sqrt(2 / (9 * k))
        obs.require(w <= Z, "uneven-parents", "%s: parents are not drawn evenly: chi2 %.1f over the %s of %d parents" % (algo, chi, what, n), counts=c)
    obs.nontrivial("even", algo, case["seed"])


# ---- the swarm ----------------------------------------------------------------

def swarm_start(problem, pop):
    return start("OMOPSO", problem, pop, mutation_probability=0.0, mutation_perturbation=0.5, mutation_rate=0.0, mutation_eta=20.0,
                 crossover_rate=0.0, crossover_eta=20.0)


def guides(case, obs, rng):
    """particles start at rest and at their own best: the first displacement points at the leader"""
    good = n = 0
    for run in range(60):
        P = rng.choice([24, 30])
        dims = [(-100.0, 100.0)] * 5
        pop = [[rng.uniform(-1, 1) for _ in dims] for _ in range(P)]
        t = [(k + rng.uniform(-0.2, 0.2)) / (P // 2) for k in range(P // 2)]
        c = t[rng.randrange(3, P // 2 - 3)] + 0.4 / (P // 2)
        t += [c + 1e-5 * (k + rng.uniform(-0.3, 0.3)) for k in range(P // 2)]
        values = [[x, 1 - x] for x in t]
        o = list(range(P))
        rng.shuffle(o)
        spread = [i < P // 2 for i in o]
        d = swarm_start(Table(dims, pop, [values[i] for i in o]).problem, pop)
        d.next_step()
        now = [list(x) for x in d.population]
        if not obs.require(len(now) == P, "swarm-size", "OMOPSO: %d particles after one step instead of %d" % (len(now), P)):
            return
        for i, (a, b) in enumerate(zip(pop, now)):
            step = [y - x for x, y in zip(a, b)]
            if max(map(abs, step)) < 1e-12:
                g = i
            else:
                ray = []
                for j in range(P):
                    if j == i:
                        continue
                    u = [y - x for x, y in zip(a, pop[j])]
                    c = sum(x * y for x, y in zip(step, u)) / sum(x * x for x in u)
                    if max(abs(s - c * x) for s, x in zip(step, u)) < 1e-9 and -1e-12 <= c <= 2 + 1e-9:
                        ray.append(j)
                if not obs.require(len(ray) == 1, "no-guide", "OMOPSO: a particle at rest and at its own best does not move towards one leader", start=a, end=b):
                    return
                g = ray[0]
            n += 1
            good += spread[g]
    obs.event("guides", n)
    sd = math.sqrt(0.19 / n)
    obs.require(good / n >= 0.72 - Z * sd, "guide-pressure", "OMOPSO: %.3f of %d guides come from the well spread half of the leaders, a tournament of two gives about 0.75" % (good / n, n))
    obs.require(good / n <= 0.80 + Z * sd, "guide-pressure", "OMOPSO: %.3f of %d guides come from the well spread half of the leaders, a tournament of two gives about 0.75" % (good / n, n))
    obs.nontrivial("guides", case["seed"])


def decompose(vecs, y):
    """y as a combination of vecs -> (residual, coefficients or None when vecs are nearly dependent and the coefficients not unique)"""
    def dot(u, v):
        return sum(a * b for a, b in zip(u, v))
    base, tri, unique = [], [], True
    for v in vecs:
        w, row = list(v), []
        for e in base:
            c = dot(v, e)
            row.append(c)
            w = [a - c * b for a, b in zip(w, e)]
        ln = math.sqrt(dot(w, w))
        ref = math.sqrt(dot(v, v))
        if ln <= 1e-4 * ref:
            unique = False
        if ln <= 1e-10 * ref:
            continue
        base.append([a / ln for a in w])
        tri.append(row + [ln])
    rhs = [dot(y, e) for e in base]
    rest = [a - sum(c * e[j] for c, e in zip(rhs, base)) for j, a in enumerate(y)]
    co = None
    if unique:
        co = [0.0] * len(vecs)
        for i in reversed(range(len(vecs))):
            co[i] = (rhs[i] - sum(tri[k][i] * co[k] for k in range(i + 1, len(vecs)))) / tri[i][i]
    return max(map(abs, rest)), co


def swarm(case, obs, rng):
    for run in range(3):
        P, n = rng.choice([16, 24]), 7
        dims = [(-1000.0, 1000.0)] * n
        shape = rng.choice(["ball", "signed", "three"])
        ts = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(3 if shape == "three" else 2)]

        def f(x, t):
            return sum((a - b) ** 2 for a, b in zip(x, t)) - (3.0 if shape == "signed" else 0.0)
        problem = world.Problem("SYN27S", dims, [lambda x, t=t: f(x, t) for t in ts], [[0.0] * len(ts)])
        pop = [[rng.uniform(-4, 4) for _ in range(n)] for _ in range(P)]
        d = swarm_start(problem, pop)
        pos = [list(x) for x in pop]
        best = [list(x) for x in pop]
        speed = [[0.0] * n for _ in pop]
        leaders, ok = join([], problem, pos)
        for step in range(9):
            if not ok:
                break           # the archive was full once: who leads cannot be told from outside
            d.next_step()
            now = [list(x) for x in d.population]
            for i in range(P):
                y = [b - a for a, b in zip(pos[i], now[i])]
                if any(abs(v) >= 999.9 for v in now[i]):
                    ok = False
                    break
                found = None
                pull = [b - a for a, b in zip(pos[i], best[i])]
                for _, g in leaders:
                    vecs = [speed[i], pull, [b - a for a, b in zip(pos[i], g)]]
                    names = ["inertia", "own", "leader"]
                    use = [(v, m) for v, m in zip(vecs, names) if max(map(abs, v)) > 1e-10]
                    if not use:
                        found = found or max(map(abs, y)) < 1e-9
                        continue
                    err, co = decompose([v for v, _ in use], y)
                    scale = max(max(map(abs, y)), max(max(map(abs, v)) for v, _ in use))
                    lim = {"inertia": (0.1, 0.5), "own": (0.0, 2.0), "leader": (0.0, 2.0)}
                    if err <= 1e-7 * (1e-3 + scale) and (co is None or all(lim[m][0] - 1e-4 <= c <= lim[m][1] + 1e-4 for c, (_, m) in zip(co, use))):
                        found = True
                        obs.event("decomposed" if co is not None else "dependent")
                        break
                obs.event("moves")
                if not found:
                    obs.violate("swarm-move", "OMOPSO step %d: a displacement is not inertia plus pulls to the particle's own best and to a leader" % step,
                                start=pos[i], end=now[i], best=best[i], speed=speed[i])
                    return
            if not ok:
                break
            for i in range(P):
                speed[i] = [b - a for a, b in zip(pos[i], now[i])]
                pos[i] = now[i]
                if o_dominates(problem.objectives(now[i]), problem.objectives(best[i])):
                    best[i] = list(now[i])
                    obs.event("bests")
            leaders, ok = join(leaders, problem, pos)
    obs.nontrivial("swarm", case["seed"])


def join(leaders, problem, pos):
    """-> the non-dominated ones so far, and whether there were never more of them than particles"""
    ok = True
    for x in pos:
        v = tuple(problem.objectives(x))
        if not any(o_dominates(w, v) for w, _ in leaders):
            leaders = [(w, y) for w, y in leaders if not o_dominates(v, w)] + [(v, tuple(x))]
        ok = ok and len(leaders) <= len(pos)
    return leaders, ok


def run_case(case, obs):
    rng = random.Random("p27/%s/%s/%s/%s" % (case["seed"], case["what"], case.get("algo"), case.get("land")))
    random.seed(rng.random())
    globals()[case["what"]](case, obs, rng)
