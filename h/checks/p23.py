import math, random, importlib
import world

PID = "P23"
RULE = ("every shipped benchmark evaluated on uniform, boundary, corner, degenerate and near-optimal points and compared with an independent implementation "
        "of the published definition; every reference point reproduced from a point of the published Pareto set; reference fronts searched for dominated "
        "points, points outside and gaps; non-trivial = evaluation at a distinct point")
NEED = {"evaluations": 40000, "front_points": 1700, "near_optimal": 10000, "kursawe_searches": 20}
CPU = 300

pi = math.pi


# ---- published definitions (Zitzler et al. 2000, Kursawe 1990, Ackley 1987, Zhang et al. CEC 2009), written index by index
def zdt(k):
    n = {1: 30, 2: 30, 3: 30, 4: 10, 6: 10}[k]

    def f(x):
        s = 0.0
        for i in range(2, n + 1):
            v = x[i - 1]
            s += v * v - 10 * math.cos(4 * pi * v) if k == 4 else v
        a = 1 - math.exp(-4 * x[0]) * math.sin(6 * pi * x[0]) ** 6 if k == 6 else x[0]
        g = 1 + 10 * (n - 1) + s if k == 4 else 1 + 9 * (s / (n - 1)) ** 0.25 if k == 6 else 1 + 9 * s / (n - 1)
        q = a / g
        h = 1 - math.sqrt(q) if k in (1, 4) else 1 - q * q if k in (2, 6) else 1 - math.sqrt(q) - q * math.sin(10 * pi * a)
        return [a, g * h]
    box = [(0, 1)] + [(-5, 5) if k == 4 else (0, 1)] * (n - 1)

    def optimum(p):
        if k != 6:
            return [p[0]] + [0.0] * (n - 1)
        return None
    curve = {1: lambda a: 1 - math.sqrt(a), 4: lambda a: 1 - math.sqrt(a), 2: lambda a: 1 - a * a, 6: lambda a: 1 - a * a,
             3: lambda a: 1 - math.sqrt(a) - a * math.sin(10 * pi * a)}[k]

    def truefront(rng):
        if k == 6:
            a = 0.2807753191 + rng.random() * (1 - 0.2807753191)
            return [a, curve(a)]
        if k == 3:
            lo, hi = rng.choice([(0, 0.0830015349), (0.1822287280, 0.2577623634), (0.4093136748, 0.4538821041), (0.6183967944, 0.6525117038), (0.8233317983, 0.8518328654)])
            a = lo + rng.random() * (hi - lo)
            return [a, curve(a)]
        a = rng.random()
        return [a, curve(a)]
    return f, box, optimum, truefront


def cec2(k):
    n = 10 if k == 5 else 30
    N = {5: 10, 6: 30}.get(k)      # number of segments at which the module is parametrised
    eps = 0.1

    def target(x, j):
        if k == 2:
            amp = 0.3 * x[0] ** 2 * math.cos(24 * pi * x[0] + 4 * j * pi / n) + 0.6 * x[0]
            return amp * (math.cos(6 * pi * x[0] + j * pi / n) if j % 2 else math.sin(6 * pi * x[0] + j * pi / n))
        if k == 3:
            return x[0] ** (0.5 * (1 + 3.0 * (j - 2) / (n - 2)))
        return math.sin(6 * pi * x[0] + j * pi / n)

    def f(x):
        out = []
        a = x[0]
        lead = {1: (a, 1 - math.sqrt(a)), 2: (a, 1 - math.sqrt(a)), 3: (a, 1 - math.sqrt(a)), 4: (a, 1 - a * a), 5: (a, 1 - a), 6: (a, 1 - a),
                7: (a ** 0.2, 1 - a ** 0.2)}[k]
        if k == 5:
            e = (1.0 / (2 * N) + eps) * abs(math.sin(2 * N * pi * a))
            lead = (lead[0] + e, lead[1] + e)
        if k == 6:
            e = max(0.0, 2 * (1.0 / (2 * N) + eps) * math.sin(2 * N * pi * a))
            lead = (lead[0] + e, lead[1] + e)
        for odd in (1, 0):
            s, prod, cnt = 0.0, 1.0, 0
            for j in range(2, n + 1):
                if j % 2 != odd:
                    continue
                cnt += 1
                y = x[j - 1] - target(x, j)
                if k in (1, 2, 7):
                    s += y * y
                elif k in (3, 6):
                    s += y * y
                    prod *= math.cos(20 * y * pi / math.sqrt(j))
                elif k == 4:
                    s += abs(y) / (1 + math.exp(2 * abs(y)))
                elif k == 5:
                    s += 2 * y * y - math.cos(4 * pi * y) + 1
            if k in (3, 6):
                s = 4 * s - 2 * prod + 2
            out.append(lead[1 - odd] + 2.0 * s / cnt)
        return out
    box = [(0, 1)] + [(0, 1) if k == 3 else (-2, 2) if k == 4 else (-1, 1)] * (n - 1)

    def optimum(p):
        a = p[0] ** 5 if k == 7 else p[0]
        a = min(1.0, max(0.0, float(a)))
        return [a] + [target([a], j) for j in range(2, n + 1)]

    def truefront(rng):
        if k == 5:
            i = rng.randint(0, 2 * N)
            return [i / (2.0 * N), 1 - i / (2.0 * N)]
        if k == 6:
            i = rng.randint(0, N)
            a = 0.0 if i == 0 else (2 * i - 1 + rng.random()) / (2.0 * N)
            return [a, 1 - a]
        a = rng.random()
        return [a, 1 - math.sqrt(a) if k < 4 else 1 - a * a if k == 4 else 1 - a]
    return f, box, optimum, truefront


def cec3(k):
    n, eps = 30, 0.1

    def target(x, j):
        return 2 * x[1] * math.sin(2 * pi * x[0] + j * pi / n)

    def f(x):
        a, b = x[0], x[1]
        if k == 9:
            e = max(0.0, (1 + eps) * (1 - 4 * (2 * a - 1) ** 2))
            lead = [0.5 * (e + 2 * a) * b, 0.5 * (e - 2 * a + 2) * b, 1 - b]
        else:
            lead = [math.cos(0.5 * a * pi) * math.cos(0.5 * b * pi), math.cos(0.5 * a * pi) * math.sin(0.5 * b * pi), math.sin(0.5 * a * pi)]
        for i in (1, 2, 3):
            s, cnt = 0.0, 0
            for j in range(3, n + 1):
                if (j - i) % 3 == 0:
                    y = x[j - 1] - target(x, j)
                    s += 4 * y * y - math.cos(8 * pi * y) + 1 if k == 10 else y * y
                    cnt += 1
            lead[i - 1] += 2.0 * s / cnt
        return lead
    box = [(0, 1)] * 2 + [(-2, 2)] * (n - 2)

    def optimum(p):
        if k == 9:
            b = min(1.0, max(0.0, 1 - p[2]))
            a = min(1.0, max(0.0, p[0] / b)) if b > 1e-12 else 0.0
        else:
            a = math.asin(min(1.0, max(0.0, p[2]))) * 2 / pi
            c = math.hypot(p[0], p[1])
            b = math.atan2(p[1], p[0]) * 2 / pi if c > 1e-12 else 0.0
        return [a, b] + [target([a, b], j) for j in range(3, n + 1)]

    def truefront(rng):
        if k == 9:
            z = rng.random()
            x = rng.random() * 0.25 * (1 - z)
            if rng.random() < 0.5:
                x = 1 - z - x
            return [x, 1 - x - z, z]
        v = [abs(rng.gauss(0, 1)) for _ in range(3)]
        m = math.sqrt(sum(q * q for q in v))
        return [q / m for q in v]
    return f, box, optimum, truefront


def kursawe():
    def f(x):
        return [sum(-10 * math.exp(-0.2 * math.hypot(x[i], x[i + 1])) for i in (0, 1)), sum(abs(v) ** 0.8 + 5 * math.sin(v * v * v) for v in x)]
    return f, [(-5, 5)] * 3, None, None


def ackley():
    def f(x):
        v = -20 * math.exp(-0.2 * math.sqrt((x[0] ** 2 + x[1] ** 2) / 2)) - math.exp((math.cos(2 * pi * x[0]) + math.cos(2 * pi * x[1])) / 2) + 20 + math.e
        return [v, v]
    return f, [(-1.5, 1.5)] * 2, lambda p: [0.0, 0.0], lambda rng: [0.0, 0.0]


DEFS = {"ZDT%d" % k: (zdt, k) for k in (1, 2, 3, 4, 6)}
DEFS.update({"UF%d" % k: (cec2, k) for k in range(1, 8)})
DEFS.update({"UF%d" % k: (cec3, k) for k in (8, 9, 10)})
# how far a stored reference point may be from the published front (UF6 steps over the ends of its segments), and how far any point of the
# published front may be from the nearest stored point
REACH = {"UF6": 0.0066}
GRID = {"UF6": 0.0066, "ZDT3": 0.0035}       # sampling step of fronts whose segments end between grid points
GAP = {"ZDT1": 0.045, "ZDT2": 0.01, "ZDT3": 0.07, "ZDT4": 0.045, "ZDT6": 0.06, "UF1": 0.045, "UF2": 0.045, "UF3": 0.045, "UF4": 0.01, "UF5": 1e-9, "UF6": 0.012,
       "UF7": 0.006, "UF8": 0.27, "UF9": 0.1, "UF10": 0.27, "ackley": 1e-9}
STEP = {"ZDT6": 0.06}                        # the same along the first objective alone, which the fronts of two objectives are sampled by


def spec(name):
    if name == "kursawe":
        return kursawe()
    if name == "ackley":
        return ackley()
    fn, k = DEFS[name]
    return fn(k)


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    names = sorted(DEFS) + ["kursawe", "ackley"]
    out = [{"kind": "values", "p": n, "seed": "%d/%d" % (seed, i)} for n in names for i in range(k)]
    out += [{"kind": "front", "p": n, "seed": "%d/%d" % (seed, i)} for n in names if n != "kursawe" for i in range(k)]
    out += [{"kind": "kursawe", "p": "kursawe", "seed": "%d/%d" % (seed, i)} for i in range(6 * k)]
    return out


def points(rng, box, near, n):
    for i in range(n):
        k = rng.choice(["uniform", "uniform", "uniform", "edge", "corner", "mid", "sparse", "near"])
        if k == "edge":
            x = [rng.choice([lo, hi, rng.uniform(lo, hi)]) for lo, hi in box]
        elif k == "corner":
            x = [rng.choice([lo, hi]) for lo, hi in box]
        elif k == "mid":
            x = [rng.choice([(lo + hi) / 2.0, (3.0 * lo + hi) / 4.0, rng.uniform(lo, hi)]) for lo, hi in box]
        elif k == "sparse":
            x = [0.0 if lo <= 0 <= hi else lo for lo, hi in box]
            for _ in range(rng.randint(0, 3)):
                j = rng.randrange(len(box))
                x[j] = rng.uniform(*box[j])
            if rng.random() < 0.3:
                x[0] = rng.choice([box[0][0], box[0][1]])
        elif k == "near" and near:
            x = near(rng)
        else:
            x = [rng.uniform(lo, hi) for lo, hi in box]
        yield k, x


def nearby(opt, tf, box):
    if not opt or not tf or opt(tf(random.Random(0))) is None:
        return None

    def go(rng):
        x = opt(tf(rng))
        s = rng.choice([0, 1e-6, 1e-3, 0.05, 0.3])
        for j in range(len(x)):
            if rng.random() < rng.choice([0.1, 1.0]):
                x[j] += rng.gauss(0, s)
        return [min(hi, max(lo, v)) for v, (lo, hi) in zip(x, box)]
    return go


def close(a, b, t=1e-9):
    return abs(a - b) <= t * (1 + abs(a) + abs(b))


def run_case(case, obs):
    rng = random.Random("p23/%s/%s/%s" % (case["kind"], case["p"], case["seed"]))
    mod = importlib.import_module("problems.%s.problem" % case["p"])
    {"values": values, "front": front, "kursawe": kfront}[case["kind"]](case, obs, rng, mod, case["p"])


def values(case, obs, rng, mod, name):
    f, box, opt, tf = spec(name)
    obs.require(len(mod.fitnesses) == len(f([0.5] * len(box))), "objectives", "%s: %d objectives" % (name, len(mod.fitnesses)))
    obs.require([tuple(map(float, b)) for b in mod.dims] == [tuple(map(float, b)) for b in box], "domain", "%s: domain %r instead of %r" % (name, mod.dims, box))
    keep = ([tuple(b) for b in mod.dims], [tuple(p) for p in mod.pareto_front])
    near = nearby(opt, tf, box)
    again = []
    for kind, x in points(rng, box, near, 2600):
        want = f(x)
        y = list(x)
        got = [fn(y) for fn in mod.fitnesses]
        obs.event("evaluations")
        obs.nontrivial(tuple(x))
        obs.require(y == x, "argument-changed", "%s: evaluating changed its argument" % name)
        for i, (a, b) in enumerate(zip(got, want)):
            obs.require(close(float(a), b, 2e-6 if name == "ZDT6" else 1e-9), "value:" + name, "%s: objective %d of a %s point is %r instead of %r" % (name, i + 1, kind, float(a), b), x=x)
        if rng.random() < 0.2:
            again.append((x, got))
        if again and rng.random() < 0.2:
            x2, g2 = rng.choice(again)
            fn = rng.randrange(len(mod.fitnesses))
            obs.require(mod.fitnesses[fn](list(x2)) == g2[fn], "deterministic", "%s: objective %d of the same point changes" % (name, fn + 1), x=x2)
    obs.require(keep == ([tuple(b) for b in mod.dims], [tuple(p) for p in mod.pareto_front]), "definition-changed", "%s: evaluating changed the definition" % name)
    obs.sample({"problem": name, "points": 2600})


def root6(target):
    """x1 with the given first objective of ZDT6, on the first rising flank"""
    g = lambda a: 1 - math.exp(-4 * a) * math.sin(6 * pi * a) ** 6
    best = min((abs(g(i / 20000.0) - target), i / 20000.0) for i in range(20001))[1]
    step = 1 / 20000.0
    while step > 1e-13:
        best = min((abs(g(min(1, max(0, v))) - target), min(1, max(0, v))) for v in (best - step, best - step / 3, best, best + step / 3, best + step))[1]
        step /= 2
    return best


def front(case, obs, rng, mod, name):
    f, box, opt, tf = spec(name)
    pts = [[float(v) for v in p] for p in mod.pareto_front]
    m = len(mod.fitnesses)
    reach = REACH.get(name, 1e-6)
    obs.require(len(pts) > 0 and all(len(p) == m for p in pts), "front-shape", "%s: reference front of %d points" % (name, len(pts)))
    for p in pts:
        obs.event("front_points")
        x = opt(p)
        if x is None:
            x = [root6(p[0])] + [0.0] * (len(box) - 1)
        x = [min(hi, max(lo, v)) for v, (lo, hi) in zip(x, box)]
        got = [float(fn(list(x))) for fn in mod.fitnesses]
        if name == "UF6":       # step back into the segment
            cand = [x[0]] + [i / 60.0 for i in range(61) if abs(i / 60.0 - x[0]) <= reach]
            best = min((max(abs(a - b) for a, b in zip([float(fn(opt([c, 0]))) for fn in mod.fitnesses], p)), c) for c in cand)
            d = best[0]
        else:
            d = max(abs(a - b) for a, b in zip(got, p))
        obs.require(d <= reach + 1e-9, "unattainable", "%s: reference point %r is not attained; the nearest optimum gives %r" % (name, p, got), x=x)
        for q in pts:
            obs.require(not (all(a <= b + 1e-12 for a, b in zip(q, p)) and any(a < b - 1e-6 for a, b in zip(q, p))), "front-dominated",
                        "%s: reference point %r is dominated by reference point %r" % (name, p, q))
        obs.nontrivial(name, tuple(p))
    # no point of the domain dominates a reference point
    near = nearby(opt, tf, box)
    grid = GRID.get(name, 1e-6)
    for kind, x in points(rng, box, near, 1200):
        if near and rng.random() < 0.7:
            x = near(rng)
            obs.event("near_optimal")
        got = [float(fn(list(x))) for fn in mod.fitnesses]
        for p in pts:
            obs.require(not (all(a <= b for a, b in zip(got, p)) and max(b - a for a, b in zip(got, p)) > grid + 1e-6), "front-beaten",
                        "%s: a point of the domain with objectives %r dominates the reference point %r" % (name, got, p), x=x)
    # the reference front covers the front
    worst = (0, None)
    for _ in range(1500):
        q = tf(rng)
        worst = max(worst, (min(max(abs(a - b) for a, b in zip(p, q)) for p in pts), q), key=lambda v: v[0])
        if m == 2 and name != "ackley":
            d = min(abs(p[0] - q[0]) for p in pts)
            obs.require(d <= STEP.get(name, 0.0055), "front-gap", "%s: no reference point lies within %.4f of the first objective of the front's point %r" % (name, d, q))
    obs.notes["gap x1e6 " + name] = int(1e6 * worst[0])
    obs.require(worst[0] <= GAP[name] + 1e-9, "front-gap", "%s: the front at %r is %.4f away from any reference point" % (name, worst[1], worst[0]))


def kfront(case, obs, rng, mod, name):
    pts = [[float(v) for v in p] for p in mod.pareto_front]
    F = mod.fitnesses
    for p in pts:
        obs.event("front_points")
    part = rng.sample(pts, 8)
    for p in pts:
        obs.require(not any(all(a <= b for a, b in zip(q, p)) and any(a < b - 1e-6 for a, b in zip(q, p)) for q in pts), "front-dominated", "kursawe: reference point %r is dominated" % (p,))
    grid = [[rng.uniform(-1.6, 1.6) for _ in range(3)] for _ in range(12000)] + [[rng.uniform(-5, 5) for _ in range(3)] for _ in range(4000)]
    grid = [(x, [float(fn(x)) for fn in F]) for x in grid]
    for x, v in grid:
        obs.event("near_optimal", 1)
        for p in pts:
            if v[0] < p[0] - 0.02 and v[1] < p[1] - 0.02:
                obs.violate("front-beaten", "kursawe: a point with objectives %r dominates the reference point %r" % (v, p), x=x)
    for p in part:
        dist = lambda v: max(abs(v[0] - p[0]) / 2.0, abs(v[1] - p[1]))
        best = []
        for x0, v0 in sorted(grid, key=lambda c: dist(c[1]))[:12]:
            x, v, s = list(x0), v0, 0.2
            while s > 1e-7:
                better = False
                for _ in range(12):
                    y = [min(5, max(-5, c + rng.gauss(0, s))) for c in x]
                    w = [float(fn(y)) for fn in F]
                    if dist(w) < dist(v):
                        x, v, better = y, w, True
                s = s * 1.3 if better else s / 2
            best.append((dist(v), v))
        obs.event("kursawe_searches")
        d, v = min(best)
        obs.notes["kursawe worst x1e6"] = max(obs.notes.get("kursawe worst x1e6", 0), int(1e6 * d))
        obs.require(d <= 0.02, "unattainable", "kursawe: reference point %r is not attained; the nearest found is %r" % (p, v))
