import math, random
import world

PID = "P04"
RULE = ("real operators called thousands of times per parameter point (gene at/near a bound or interior, domain kind, "
        "distribution index 1..300, rate 0..1): every result checked for domain, length, untouched parents; change counts "
        "against the binomial law (6.5 sigma) and displacements against the analytic distribution (Kolmogorov-Smirnov, "
        "p<1e-9); algorithms run one step from a collapsed population to see that their variation is applied at all; "
        "non-trivial = a parameter point with at least 500 changed genes")
NEED = {"mutations": 50000, "crossovers": 50000, "ks_tests": 100, "jumps": 1000, "steps_from_collapsed": 20, "own_operators": 4000, "near_parents": 20}
WAIVE = {"jumps": "jumping", "own_operators": "own_operators swarm_operators"}
CPU = 170


def cases(tier, seed):
    r = random.Random(seed)
    out = []
    k = 24 if tier == "quick" else 240
    for i in range(k):
        for kind in ("mutate", "crossover"):
            out.append({"what": kind, "seed": "%d/%s/%d" % (seed, kind, i)})
    for i in range(k // 3):
        for kind in ("own", "jump", "swarm"):
            out.append({"what": kind, "seed": "%d/%s/%d" % (seed, kind, i)})
    for a in world.BASE_DRIVERS:
        for i in range(3 if tier == "quick" else 12):
            out.append({"what": "alive", "algo": a, "seed": "%d/alive/%s/%d" % (seed, a, i)})
    return out


def inside(x, dims):
    return world.bad_point(x, dims, rel=1e-9)


def ks(sample, cdf):
    s = sorted(sample)
    n = len(s)
    d = 0.0
    for i, x in enumerate(s):
        f = cdf(x)
        d = max(d, abs(f - i / n), abs(f - (i + 1) / n))
    return d, math.sqrt(math.log(2e9) / (2 * n))


def pm_cdf(y, lb, ub, eta):
    """polynomial mutation of gene y: distribution of the new value"""
    w = ub - lb
    d1, d2 = (y - lb) / w, (ub - y) / w
    e = eta + 1.0
    a, b = (1 - d1) ** e, (1 - d2) ** e

    def cdf(v):
        q = (v - y) / w
        if q <= 0:
            return max(0.0, ((1 + q) ** e - a) / (2 * (1 - a))) if a < 1 else 0.5
        return min(1.0, 1 - ((1 - q) ** e - b) / (2 * (1 - b))) if b < 1 else 1.0
    return cdf


def sbx_cdf(p, q, lb, ub, eta):
    y1, y2 = min(p, q), max(p, q)
    e = eta + 1.0

    def beta_cdf(t, beta):
        alpha = 2 - beta ** -e
        if t <= 0:
            return 0.0
        if t <= 1:
            return t ** e / alpha
        return min(1.0, (2 - t ** -e) / alpha)

    b_lo, b_hi = 1 + 2 * (y1 - lb) / (y2 - y1), 1 + 2 * (ub - y2) / (y2 - y1)
    mid = 0.5 * (y1 + y2)

    def cdf(v):
        t = 2 * (v - mid) / (y2 - y1)
        low = 1 - beta_cdf(-t, b_lo) if t < 0 else 1.0
        high = beta_cdf(t, b_hi)
        return 0.5 * low + 0.5 * high
    return cdf


def gene(rng, lo, hi):
    w = hi - lo
    return rng.choice([lo, hi, lo + 1e-3 * w, hi - 1e-3 * w, lo + w / 2, rng.uniform(lo, hi), rng.uniform(lo, hi)])


def sigma_ok(k, n, p, z=6.5):
    return abs(k - n * p) <= z * math.sqrt(n * p * (1 - p)) + 1e-9 * n + (0 if p in (0, 1) else 4)


def mutate_case(obs, rng, f, own=False):
    """f(x, dims, rate, eta) -> new vector"""
    kind = rng.choice(["unit", "mixed", "sym", "shifted", "narrow"])
    n = rng.choice([1, 3, 8])
    dims = world.make_dims(kind, n, rng)
    eta = rng.choice([1.0, 5.0, 10.0, 20.0, 60.0, 300.0])
    rate = rng.choice([0.0, 0.1, 1.0 / n, 0.5, 1.0])
    par = [gene(rng, lo, hi) for lo, hi in dims]
    reps = 5000 // n
    vals = [[] for _ in dims]
    changed = 0
    for _ in range(reps):
        src = list(par)
        y = f(src, dims, rate, eta)
        obs.event("own_operators" if own else "mutations")
        w = inside(y, dims)
        if w:
            obs.violate("out-of-domain", "mutation left the domain: " + w, par=par, dims=dims, eta=eta, rate=rate, got=y)
            return
        if src != par:
            obs.violate("parent-changed", "mutation altered its parent", par=par, now=src)
            return
        for i in range(n):
            if y[i] != par[i]:
                changed += 1
                vals[i].append(y[i])
    obs.check(reps)
    interior = [i for i, (lo, hi) in enumerate(dims)]
    # every selected gene changes almost surely, except half of the moves at a bound stay put
    for i in interior:
        lo, hi = dims[i]
        d1, d2 = (par[i] - lo) / (hi - lo), (hi - par[i]) / (hi - lo)
        p = rate * (0.5 if min(d1, d2) <= 1e-12 else 1.0)
        obs.require(sigma_ok(len(vals[i]), reps, p), "mutation-rate", "gene changes do not follow the mutation rate",
                    got=len(vals[i]), of=reps, p=p, par=par[i], dim=dims[i], eta=eta)
        if len(vals[i]) >= 300:
            base = pm_cdf(par[i], lo, hi, eta)
            if min(d1, d2) <= 1e-12:      # point mass at the bound excluded: rescale
                if d1 <= 1e-12:
                    cdf = lambda v: max(0.0, (base(v) - 0.5) * 2)
                else:
                    cdf = lambda v: min(1.0, base(v) * 2)
            else:
                cdf = base
            d, crit = ks(vals[i], cdf)
            obs.event("ks_tests")
            obs.require(d <= crit, "mutation-distribution", "displacements do not follow polynomial mutation", d=d, crit=crit,
                        n=len(vals[i]), par=par[i], dim=dims[i], eta=eta)
    if changed >= 500:
        obs.nontrivial("mut", kind, n, eta, rate, tuple(par))
        obs.sample({"dims": dims, "eta": eta, "rate": rate, "parent": par, "changed": changed})


def crossover_case(obs, rng, f, own=False):
    """f(x, y, dims, rate, eta) -> list of children"""
    kind = rng.choice(["unit", "mixed", "sym", "shifted"])
    n = rng.choice([1, 2, 6])
    dims = world.make_dims(kind, n, rng)
    eta = rng.choice([1.0, 5.0, 15.0, 30.0, 100.0])
    rate = rng.choice([0.0, 0.5, 0.9, 1.0])
    a = [gene(rng, lo, hi) for lo, hi in dims]
    b = [gene(rng, lo, hi) for lo, hi in dims]
    if rng.random() < 0.15:
        b = list(a)
    elif rng.random() < 0.4:
        # parents that nearly agree, as in a search that has almost converged
        b = [min(hi, max(lo, x + rng.choice([-1, 1]) * (hi - lo) * 10 ** -rng.uniform(2, 6))) for x, (lo, hi) in zip(a, dims)]
        obs.event("near_parents")
    reps = 6000 // n
    moved = [[] for _ in dims]
    froma = [0] * n
    total = 0
    for _ in range(reps):
        sa, sb = list(a), list(b)
        kids = f(sa, sb, dims, rate, eta)
        obs.event("own_operators" if own else "crossovers")
        if sa != a or sb != b:
            obs.violate("parent-changed", "crossover altered a parent", a=a, b=b, now=(sa, sb))
            return
        for y in kids:
            total += 1
            w = inside(y, dims)
            if w:
                obs.violate("out-of-domain", "crossover left the domain: " + w, a=a, b=b, dims=dims, eta=eta, got=y)
                return
            for i in range(n):
                if y[i] == a[i]:
                    froma[i] += 1
                elif y[i] != b[i]:
                    moved[i].append(y[i])
    obs.check(reps)
    z = 6.5 if len(kids) == 1 else 9.5
    for i in range(n):
        lo, hi = dims[i]
        diff = abs(a[i] - b[i]) / (hi - lo)
        if diff == 0:
            obs.require(not moved[i], "crossover-identical", "equal genes recombine to something else", gene=a[i], got=moved[i][:3])
            continue
        if diff < 5e-7:
            continue
        atb = [v for v in (a[i], b[i]) if v in (lo, hi)]
        p = 0.5 * rate
        # a parent on the bound has a degenerate outer half; its child may coincide with the parent or not by rounding only
        obs.require(sigma_ok(len(moved[i]), total, p, z) , "crossover-rate",
                    "recombined genes do not follow the crossover rate", got=len(moved[i]), of=total, p=p, a=a[i], b=b[i], dim=dims[i])
        obs.require(sigma_ok(froma[i], total, (1 - p) / 2, z), "crossover-balance", "genes are not inherited evenly from both parents",
                    got=froma[i], of=total, p=(1 - p) / 2, a=a[i], b=b[i], dim=dims[i])
        if len(moved[i]) >= 300:
            d, crit = ks(moved[i], sbx_cdf(a[i], b[i], lo, hi, eta))
            if len(kids) > 1:
                crit *= 1.5
            obs.event("ks_tests")
            obs.require(d <= crit, "crossover-distribution", "recombined genes do not follow simulated binary crossover", d=d, crit=crit,
                        n=len(moved[i]), a=a[i], b=b[i], dim=dims[i], eta=eta)
    if sum(map(len, moved)) >= 500:
        obs.nontrivial("sbx", kind, n, eta, rate, tuple(a), tuple(b))
        obs.sample({"dims": dims, "eta": eta, "rate": rate, "a": a, "b": b})


def run_case(case, obs):
    rng = random.Random(case["seed"])
    if case["what"] == "mutate":
        from algorithms.base import drivertools
        for _ in range(6):
            mutate_case(obs, rng, lambda x, d, r, e: drivertools.mutate(x, d, r, e))
    elif case["what"] == "crossover":
        from algorithms.base import drivertools
        for _ in range(6):
            crossover_case(obs, rng, lambda x, y, d, r, e: [drivertools.crossover(x, y, d, r, e)])
    elif case["what"] == "own":
        N = __import__("algorithms.NSGAIII.NSGAIII", fromlist=["x"])

        def mut(x, d, r, e):
            ind = N.Individual(list(x))
            ind.objectives = [1.0]
            N.polynomial_mutation(ind, d, mutation_rate=r, eta=e)
            if ind.v != list(x) and ind.objectives is not None:
                obs.violate("stale-objectives", "a mutated individual keeps its old objective values", x=x, now=ind.v)
            return ind.v

        def cross(x, y, d, r, e):
            p, q = N.Individual(list(x)), N.Individual(list(y))
            p.objectives, q.objectives = [1.0], [2.0]
            c, k = N.simulated_binary_crossover(p, q, d, crossover_rate=r, eta=e)
            if p.v != list(x) or q.v != list(y) or p.objectives != [1.0] or q.objectives != [2.0]:
                obs.violate("parent-changed", "crossover altered a parent", x=x, y=y)
            for kid in (c, k):
                if kid.objectives is not None and not ((kid.v == list(x) and kid.objectives == [1.0]) or (kid.v == list(y) and kid.objectives == [2.0])):
                    obs.violate("stale-objectives", "a recombined individual carries objectives of another", x=x, y=y, kid=kid.v)
            if any(u is v for u in (c.v, k.v) for v in (p.v, q.v)):
                obs.violate("parent-changed", "a child shares its vector with a parent", x=x)
            return [c.v, k.v]
        if usable(obs, "own_operators", lambda: (mut([0.5, 0.5], [(0.0, 1.0)] * 2, 0.5, 20.0), cross([0.5, 0.5], [0.2, 0.1], [(0.0, 1.0)] * 2, 0.9, 20.0))):
            for _ in range(2):
                mutate_case(obs, rng, mut, own=True)
                crossover_case(obs, rng, cross, own=True)
    elif case["what"] == "jump":
        jump_case(obs, rng)
    elif case["what"] == "swarm":
        swarm_case(obs, rng)
    elif case["what"] == "alive":
        alive_case(case, obs, rng)


def usable(obs, what, probe):
    """can the internal operators be called as they used to be?"""
    try:
        probe()
        return True
    except (AttributeError, TypeError):
        obs.event("absent:" + what)
        return False


def jump_case(obs, rng):
    for _ in range(4):
        kind = rng.choice(["unit", "mixed", "sym", "shifted"])
        n = rng.choice([2, 3, 5, 10])
        prob = world.make_problem("sphere", kind, n, 2, rng, "SYNJ")
        drv = world.prepare("JGBL", prob, pop=world.random_population(8, prob.dims, rng),
                            jumping_percentage=rng.choice([0.0, 0.3, 0.5, 0.9]))
        if not usable(obs, "jumping", lambda: [f([lo for lo, hi in prob.dims], [hi for lo, hi in prob.dims]) for f in (drv.cut_and_paste, drv.copy_and_paste)]):
            return
        dims = prob.dims
        for _ in range(80):
            x = [gene(rng, lo, hi) for lo, hi in dims]
            y = [gene(rng, lo, hi) for lo, hi in dims]
            kx, ky = list(x), list(y)
            u = lambda v: sorted(round((c - lo) / (hi - lo), 9) for c, (lo, hi) in zip(v, dims))
            for name in ("cut_and_paste", "copy_and_paste"):
                c, k = getattr(drv, name)(x, y)
                obs.event("jumps")
                obs.require(x == kx and y == ky, "parent-changed", "gene jumping altered its parents", before=(kx, ky), after=(x, y))
                for v in (c, k):
                    w = inside(v, dims)
                    obs.require(w is None, "out-of-domain", "gene jumping left the domain: %s" % w, x=x, y=y, got=v, dims=dims)
                if name == "cut_and_paste" and len(c) == len(k) == n:
                    obs.require(close_multi(sorted(u(c) + u(k)), sorted(u(x) + u(y))), "transposition-conservation",
                                "cut and paste does not conserve the two parents' genes", x=x, y=y, got=(c, k), dims=dims)
                elif len(c) == len(k) == n:
                    pool = u(x) + u(y)
                    obs.require(all(min(abs(g - p) for p in pool) < 1e-8 for g in u(c) + u(k)), "transposition-foreign-gene",
                                "copy and paste invents genes", x=x, y=y, got=(c, k), dims=dims)
        obs.nontrivial("jump", kind, n, tuple(map(tuple, dims)))


def close_multi(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-8 for x, y in zip(a, b))


def swarm_case(obs, rng):
    O = __import__("algorithms.OMOPSO.OMOPSO", fromlist=["x"])
    if not usable(obs, "swarm_operators", lambda: (O.UniformMutation(0.5, 0.5, [(0.0, 1.0)])(O.Individual([0.5])), O.NonUniformMutation(0.5, 0.5, 0.5, [(0.0, 1.0)])(O.Individual([0.5])), O.Individual([0.5]).value)):
        return
    for _ in range(4):
        kind = rng.choice(["unit", "mixed", "sym", "shifted"])
        n = rng.choice([1, 4])
        dims = world.make_dims(kind, n, rng)
        prob = rng.choice([0.0, 0.2, 1.0])
        ops = [O.UniformMutation(prob, 0.5, dims), O.NonUniformMutation(rng.choice([0.1, 0.5, 0.9, 1.0]), prob, 0.5, dims)]
        for op in ops:
            hit = 0
            for _ in range(400):
                x = [rng.uniform(lo, hi) for lo, hi in dims]
                ind = O.Individual(list(x))
                op(ind)
                obs.event("own_operators")
                w = inside(ind.value, dims)
                obs.require(w is None, "out-of-domain", "swarm mutation left the domain: %s" % w, x=x, got=ind.value, dims=dims)
                hit += sum(1 for p, q in zip(x, ind.value) if p != q)
                if op is ops[0]:
                    obs.require(all(abs(p - q) <= 0.25 + 1e-9 for p, q in zip(x, ind.value)), "mutation-distribution",
                                "uniform swarm mutation moves further than its perturbation", x=x, got=ind.value)
            if not (op is ops[1] and op.evolution_progress == 1.0 if hasattr(op, "evolution_progress") else False):
                obs.require(sigma_ok(hit, 400 * n, prob), "mutation-rate", "swarm mutation does not follow its probability", got=hit, of=400 * n, p=prob)


def alive_case(case, obs, rng):
    """from a collapsed population only mutation can create something new: the configured variation must show"""
    a = case["algo"]
    kind = rng.choice(["unit", "mixed", "sym"])
    prob = world.make_problem("sphere", kind, 6, 2, rng, "SYNA")
    x = [lo + (hi - lo) * rng.uniform(0.3, 0.7) for lo, hi in prob.dims]
    over = {"mutation_rate": 1.0}
    if a == "OMOPSO":
        over["mutation_probability"] = 1.0
    P = 12
    if a in ("NSLS",):
        return          # no mutation: purely differential moves
    drv = world.prepare(a, prob, pop=[list(x) for _ in range(P)], **over)
    drv.max_budget = 500
    for _ in range(3):
        drv.next_step()
    obs.event("steps_from_collapsed")
    new = [p for p in prob.log.points if list(p) != x]
    obs.require(len(new) >= P // 4, "variation-not-applied",
                "%s evaluated only %d new points in 3 steps from a collapsed population at mutation rate 1" % (a, len(new)), points=len(prob.log.points))
    spread = [len(set(p[i] for p in prob.log.points)) for i in range(6)]
    obs.require(all(s > 1 for s in spread), "variation-not-applied", "%s never varied some coordinate" % a, spread=spread)
    for p, w in prob.log.bad:
        obs.violate("out-of-domain", "%s evaluated %r: %s" % (a, p, w))
    obs.nontrivial("alive", a, kind, tuple(x))
