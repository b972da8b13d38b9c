import itertools, math, random, types, sys
import world, drive
from checks.p04 import pm_cdf, sbx_cdf, ks

PID = "P26"
RULE = ("(layers) random configuration tables, initialisers and adapters for invented algorithms, nested up to three deep, with decoys written for other "
        "algorithms, sub-algorithms, problems and nesting orders; every stand-in class records what it is built with, and that is compared with the "
        "documented precedence.  (effect) real algorithms, configured through run_config only, run on needle landscapes (the start points are equally "
        "good, everything else is worse) so that each new point shows the operator settings at work: how many genes change, how far, how often, how many "
        "offspring per step; settings of 0 must show nothing.  Non-trivial = a case with at least one value overridden by a more specific source, or at "
        "least 400 new points judged")
NEED = {"layered": 350, "overridden": 900, "decoys": 20000, "adapters": 350, "not_viable": 60, "initialisers": 900, "default_population": 100,
        "classes": 20, "mutants": 8000, "crossed": 4000, "rates": 12, "counts": 40, "silent": 12, "islands": 60, "moves": 1200, "failing": 40}
CPU = 300
ASSUMPTIONS = ["OMOPSO and NSLS have no crossover and use their own mutation / local search settings; the generic mutation and crossover settings are not judged for them"]

MUTATES = ["NSGAII", "JGBL", "SPEA2", "IBEA", "SMSEMOA", "NSGAIII"]


def cases(tier, seed):
    out = []
    for rep in range(1 if tier == "quick" else 8):
        for i in range(10):
            out.append({"what": "layers", "seed": "%d/%d/%d" % (seed, rep, i)})
        for a in MUTATES:
            for what in ("mutation", "crossover", "crossrate", "silent"):
                out.append({"what": what, "algo": a, "seed": "%d/%d" % (seed, rep)})
        for a in ["NSGAII", "JGBL", "IBEA", "SMSEMOA"]:
            out.append({"what": "offspring", "algo": a, "seed": "%d/%d" % (seed, rep)})
        for what in ("jumping", "swarm", "local", "classes", "islands"):
            out.append({"what": what, "seed": "%d/%d" % (seed, rep)})
    return out


# ---- part A: which configuration applies ---------------------------------------

class Built:
    """an instance of an invented algorithm"""
    def __init__(self, algo, kw):
        self.algo, self.kw = algo, kw


def layers(case, obs, rng):
    from simulation import factory, run_config
    names = ["RA", "RB", "RC", "RD"]
    mod = types.ModuleType("v_algorithms")
    sys.modules["v_algorithms"] = mod
    for a in names:
        setattr(mod, "Class" + a, type("Class" + a, (Built,), {"__init__": lambda self, _a=a, **kw: Built.__init__(self, _a, kw)}))
        run_config.custom_paths[a] = ("v_algorithms", "Class" + a)
    probs = []
    for k in range(3):
        p = world.make_problem(rng.choice(["sphere", "zdt"]), rng.choice(["unit", "mixed", "shifted"]), rng.randint(2, 5), 2, rng, "SYNV%d" % k)
        p.register()
        probs.append(p)
    keys = ["alpha", "beta", "gamma", "delta", "epsilon", "zeta"]
    fresh_init = [k for k in vars(run_config) if k.startswith("init_alg___")]
    for _ in range(70):
        # -- a random configuration
        run_config.algo_base.clear()
        run_config.cust_base.clear()
        for k in list(vars(run_config)):
            if k.startswith("init_alg___") and k not in fresh_init:
                delattr(run_config, k)
        called = []
        serial = itertools.count()
        algo_names = rng.sample(names, rng.choice([1, 2, 2, 3, 3]))
        algo = "+".join(algo_names)
        prob = rng.choice(probs)
        run_config.DEFAULT_POPULATION_SIZE = rng.choice([5, 8, 64])
        want_pop = rng.random() < 0.4

        def table(tag):
            t = {k: (k, tag, next(serial)) for k in keys if rng.random() < 0.45}
            if want_pop and rng.random() < 0.3:
                t["population"] = world.random_population(rng.randint(2, 6), prob.dims, rng)
            return t

        def init(tag, fail=None):
            up = table(tag)

            def f(config, problem_mod):
                called.append((tag, problem_mod))
                config.update(up)
                config["trail"] = config.get("trail", ()) + (tag,)
                if fail:
                    raise fail("v: configuration is wrong")
            return up, f

        alltables, allinits = {}, {}
        for a in names:
            subs = [()] + [s for n in (1, 2) for s in itertools.permutations([x for x in names if x != a], n)]
            for s in subs:
                applies = a in algo_names and tuple(algo_names[algo_names.index(a) + 1:]) == s
                dens = 0.75 if applies else 0.25
                if s == () and rng.random() < 0.7:
                    run_config.algo_base[a] = alltables[("algo", a)] = table("algo %s" % a)
                if rng.random() < dens:
                    run_config.algo_base[(a, s)] = alltables[("sub", a, s)] = table("sub %s %s" % (a, s))
                for p in probs:
                    if s == () and rng.random() < 0.5:
                        run_config.cust_base[(a, p.name)] = alltables[("prob", a, p.name)] = table("prob %s %s" % (a, p.name))
                    if s and rng.random() < dens:
                        run_config.cust_base[(a,) + s + (p.name,)] = alltables[("subprob", a, s, p.name)] = table("subprob %s %s %s" % (a, s, p.name))
                    if s == () and rng.random() < 0.5:
                        allinits[("prob", a, p.name)] = "init_alg___%s____%s" % (a, p.name)
                    if s and rng.random() < dens:
                        allinits[("subprob", a, s, p.name)] = "init_alg___%s__%s____%s" % (a, "_".join(s), p.name)
                if s == () and rng.random() < 0.7:
                    allinits[("algo", a)] = "init_alg___%s" % a
                if s and rng.random() < dens:
                    allinits[("sub", a, s)] = "init_alg___%s__%s" % (a, "_".join(s))
        failing = None
        mine = [k for i, a in enumerate(algo_names) for k in layers_of(a, tuple(algo_names[i + 1:]), prob.name) if k in allinits]
        if mine and rng.random() < 0.15:
            failing = rng.choice(mine)
        ups = {}
        for k, fn in allinits.items():
            ups[k], f = init(k, rng.choice([AttributeError, KeyError, ValueError]) if k == failing else None)
            setattr(run_config, fn, f)
        # -- adapters
        factories, missing = {}, None
        pairs = list(zip(algo_names[1:], algo_names))
        if pairs and rng.random() < 0.12:
            missing = rng.choice(pairs)
        for sub in names:
            m = types.ModuleType("algorithms.%s.message" % sub)
            for meta in names:
                if meta != sub and (sub, meta) != missing:
                    fac = types.SimpleNamespace(tag=(sub, meta))
                    factories[(sub, meta)] = fac
                    setattr(m, "%s%sMessageAdapter" % (sub, meta), fac)
            sys.modules["algorithms.%s" % sub] = types.ModuleType("algorithms.%s" % sub)
            sys.modules["algorithms.%s.message" % sub] = m
        # -- the real preparation
        try:
            part, got_mod = factory.prepare(algo, prob.name)
            top = part()
        except run_config.NotViableConfiguration:
            obs.event("not_viable")
            obs.require(missing is not None, "viable-refused", "%s on %s refused although every adapter exists" % (algo, prob.name))
            continue
        except (AttributeError, KeyError, ValueError) as e:
            if failing is not None and str(e).strip("'\"") == "v: configuration is wrong":
                obs.event("failing")
                continue
            raise
        if missing is not None:
            obs.violate("not-viable-accepted", "%s prepared although there is no adapter %s in %s" % (algo, missing[0], missing[1]))
            continue
        if failing is not None:
            obs.violate("failed-initialiser-hidden", "%s on %s was prepared although its initialiser %s failed half way" % (algo, prob.name, allinits[failing]))
            continue
        obs.require(got_mod is prob, "problem", "another problem than %s was prepared" % prob.name)
        obs.event("layered")
        # -- what each level was built with
        level = top
        over = 0
        used = set()
        for i, a in enumerate(algo_names):
            subs = tuple(algo_names[i + 1:])
            if not obs.require(type(level) is getattr(mod, "Class" + a), "class", "%s: level %d is %r instead of %s" % (algo, i, type(level).__name__, a)):
                break
            exp, src = {}, {}
            order = layers_of(a, subs, prob.name)
            for kind, store in (("t", alltables), ("i", ups)):
                for k in order:
                    if k in store:
                        for x, v in store[k].items():
                            over += x in exp
                            exp[x] = v
                        if kind == "i":
                            exp["trail"] = exp.get("trail", ()) + (k,)
                            used.add(k)
            exp["dims"], exp["fitnesses"] = prob.dims, prob.fitnesses
            kw = dict(level.kw)
            nxt = kw.pop("driver", None)
            ad = kw.pop("driver_message_adapter_factory", None)
            if subs:
                obs.event("adapters")
                obs.require(nxt is not None, "nesting", "%s: %s got no sub-algorithm" % (algo, a))
                obs.require(ad is factories[(subs[0], a)], "adapter", "%s: %s over %s got adapter %r" % (algo, a, subs[0], getattr(ad, "tag", ad)))
            else:
                obs.require(nxt is None and ad is None, "nesting", "%s: the innermost algorithm %s got a sub-algorithm" % (algo, a))
            if "population" not in exp:
                pop = kw.pop("population", None)
                obs.event("default_population")
                ok = pop is not None and len(pop) == run_config.DEFAULT_POPULATION_SIZE and not any(world.bad_point(x, prob.dims) for x in pop)
                obs.require(ok and len(set(map(tuple, pop))) == len(pop), "default-population",
                            "%s: no random starting population of %d points of the domain" % (algo, run_config.DEFAULT_POPULATION_SIZE), got=pop)
            diff = {k: (kw.get(k, "absent"), exp.get(k, "absent")) for k in set(kw) | set(exp) if kw.get(k, "absent") != exp.get(k, "absent")}
            obs.require(not diff, "configuration", "%s on %s: %s is built with another configuration than the one that applies: %s" % (
                algo, prob.name, a, ", ".join("%s=%r instead of %r" % ((k,) + v) for k, v in sorted(diff.items())[:3])))
            obs.event("decoys", len(alltables) - sum(k in alltables for k in order))
            level = nxt() if nxt is not None else None
        obs.event("overridden", over)
        obs.event("initialisers", len(used))
        obs.require(all(pm is prob for _, pm in called), "initialiser-problem", "%s: an initialiser was given another problem" % algo)
        if over:
            obs.nontrivial(case["seed"], algo, prob.name, over)


def layers_of(a, subs, prob):
    return [("algo", a), ("sub", a, subs), ("prob", a, prob)] + ([("subprob", a, subs, prob)] if subs else [])


# ---- part B: configured settings at work ----------------------------------------

def needle(S, dims, rng, name="SYN26"):
    good = set(map(tuple, S))
    v = [(rng.choice([0.0, 1.0, -2.0]), rng.choice([0.5, 3.0])) for _ in range(2)]
    fns = [lambda x, lo=lo, w=w: lo if tuple(x) in good else lo + w for lo, w in v]
    return world.Problem(name, dims, fns, [[0.0, 1.0], [1.0, 0.0]])


def start(algo, S, dims, pop, rng, budget=None, **settings):
    """the algorithm, configured through run_config's own initialiser for this problem"""
    from simulation import factory, run_config
    prob = needle(S, dims, rng)
    prob.register()

    def init(config, problem_mod):
        config.update(settings)
        config["population"] = [list(x) for x in pop]
    setattr(run_config, "init_alg___%s____%s" % (algo, prob.name), init)
    part, _ = factory.prepare(algo, prob.name)
    d = part()
    d.max_budget = budget
    return d, prob


def fresh(prob, pop):
    old = set(map(tuple, pop))
    return [p for p in prob.log.points if p not in old]


def domain(rng):
    return world.make_dims(rng.choice(["unit", "mixed", "sym", "shifted"]), rng.choice([4, 5, 6]), rng)


def inner(rng, dims, a=0.3, b=0.7):
    return [lo + (hi - lo) * rng.uniform(a, b) for lo, hi in dims]


def decoy(rng, algo, P):
    """settings that must not matter, next to the one that is watched"""
    d = {}
    if algo in ("NSGAII", "JGBL", "IBEA"):
        d["mating_population_size"] = rng.choice([0.5, 0.8])
    if algo == "JGBL":
        d.update(jumping_rate=0.0, jumping_percentage=0.5)
    if algo == "IBEA":
        d["kappa"] = rng.choice([0.05, 0.2])
    return d


def uniform_ks(obs, mech, msg, us, eff=1.0, **data):
    d, crit = ks(us, lambda u: min(1.0, max(0.0, u)))
    crit /= math.sqrt(eff)
    obs.require(d <= crit, mech, msg, d=d, crit=crit, n=len(us), **data)


def mutation(case, obs, rng):
    algo = case["algo"]
    n = 0
    for rate in (0.1, 0.35, 1.0):
        eta, dec = rng.choice([(2.0, 60.0), (60.0, 2.0), (12.0, 200.0), (200.0, 12.0)])
        dims = domain(rng)
        x0 = inner(rng, dims)
        P = rng.choice([20, 30])
        pop = [list(x0) for _ in range(P)]
        us, per, tries = [], [], 0
        crate = rng.choice([0.0, 0.3, 1.0])
        while len(us) < 1200 and tries < 80:
            tries += 1
            d, prob = start(algo, [x0], dims, pop, rng, mutation_rate=rate, mutation_eta=eta, crossover_rate=crate, crossover_eta=dec, **decoy(rng, algo, P))
            for _ in range(1 if algo == "NSGAIII" else 3):
                d.next_step()
            for p in fresh(prob, pop):
                ch = [i for i in range(len(dims)) if p[i] != x0[i]]
                per.append(len(ch))
                us += [pm_cdf(x0[i], dims[i][0], dims[i][1], eta)(p[i]) for i in ch]
        obs.event("mutants", len(per))
        if not obs.require(len(per) >= 40, "mutation-rate", "%s: %d new points from %d runs at mutation rate %s" % (algo, len(per), tries, rate)):
            continue
        N = len(dims)
        miss = (1 - rate) ** N
        mean = N * rate / (1 - miss)
        second = (N * rate * (1 - rate) + (N * rate) ** 2) / (1 - miss)
        sd = math.sqrt(max(0.0, second - mean * mean) / len(per))
        obs.require(abs(sum(per) / len(per) - mean) <= 6.5 * sd + 1e-3, "mutation-rate",
                    "%s: a changed point has %.3f changed genes of %d, the configured rate %s gives %.3f" % (algo, sum(per) / len(per), N, rate, mean), sd=sd)
        if len(us) >= 400:
            uniform_ks(obs, "mutation-eta", "%s: steps do not follow the configured mutation index %s" % (algo, eta), us, decoy=dec, rate=rate)
            n += len(us)
    if n >= 400:
        obs.nontrivial(algo, "mutation", case["seed"])


def crossover(case, obs, rng):
    algo = case["algo"]
    n = 0
    for _ in range(2):
        eta, dec = rng.choice([(2.0, 60.0), (60.0, 2.0), (12.0, 200.0), (200.0, 12.0)])
        dims = domain(rng)
        a, b = inner(rng, dims, 0.2, 0.4), inner(rng, dims, 0.6, 0.8)
        P = rng.choice([20, 30])
        pop = [list(a) for _ in range(P // 2)] + [list(b) for _ in range(P // 2)]
        us, new, tries = [], 0, 0
        while len(us) < 1200 and tries < 80:
            tries += 1
            rng.shuffle(pop)
            d, prob = start(algo, [a, b], dims, pop, rng, mutation_rate=0.0, mutation_eta=dec, crossover_rate=1.0, crossover_eta=eta, **decoy(rng, algo, P))
            for _ in range(1 if algo == "NSGAIII" else 2):
                d.next_step()
            for p in fresh(prob, pop):
                new += 1
                us += [sbx_cdf(a[i], b[i], dims[i][0], dims[i][1], eta)(p[i]) for i in range(len(dims)) if p[i] not in (a[i], b[i])]
        obs.event("crossed", new)
        if obs.require(len(us) >= 400, "crossover-applied", "%s: %d recombined genes from %d runs at crossover rate 1" % (algo, len(us), tries)):
            uniform_ks(obs, "crossover-eta", "%s: recombined genes do not follow the configured crossover index %s" % (algo, eta), us, eff=0.45, decoy=dec)
            n += len(us)
    if n >= 400:
        obs.nontrivial(algo, "crossover", case["seed"])


def crossrate(case, obs, rng):
    algo = case["algo"]
    dims = domain(rng)
    P = 40
    S = [inner(rng, dims) for _ in range(P)]

    def count(rate, reps):
        n = 0
        for _ in range(reps):
            d, prob = start(algo, S, dims, S, rng, mutation_rate=0.0, mutation_eta=20.0, crossover_rate=rate, crossover_eta=15.0, **dict(decoy(rng, algo, P), **fixed))
            for _ in range(1 if algo == "NSGAIII" else 2):
                d.next_step()
            n += len(fresh(prob, S))
        return n
    fixed = {"mating_population_size": 0.8} if algo in ("NSGAII", "JGBL", "IBEA") else {}
    reps = 24
    full = count(1.0, reps)
    if not obs.require(full >= 400, "crossover-applied", "%s: %d recombined points at crossover rate 1" % (algo, full)):
        return
    for rate in (0.25, 0.7):
        n = count(rate, reps)
        r = n / full
        pairs = 2 if algo == "NSGAIII" else 1        # two children share one decision
        sd = math.sqrt(pairs * (rate * (1 - rate) / full + rate * rate / full))
        obs.event("rates")
        obs.require(abs(r - rate) <= 6.5 * sd + 0.01, "crossover-rate", "%s: %.3f as many recombined points at crossover rate %s as at rate 1" % (algo, r, rate), sd=sd, n=n, full=full)
    obs.nontrivial(algo, "crossrate", case["seed"])


def silent(case, obs, rng):
    algo = case["algo"]
    for _ in range(3):
        dims = domain(rng)
        P = rng.choice([16, 30])
        S = [inner(rng, dims) for _ in range(P)]
        d, prob = start(algo, S, dims, S, rng, mutation_rate=0.0, mutation_eta=rng.choice([5.0, 20.0]), crossover_rate=0.0, crossover_eta=15.0, **decoy(rng, algo, P))
        for _ in range(3):
            d.next_step()
        new = fresh(prob, S)
        obs.event("silent")
        obs.require(not new, "variation-without-rate", "%s: %d new points with mutation and crossover rate 0" % (algo, len(new)), first=new[:1])


def offspring(case, obs, rng):
    """how many points a step creates"""
    algo = case["algo"]
    for _ in range(6):
        dims = domain(rng)
        P = rng.choice([16, 21, 30, 40])
        x0 = inner(rng, dims)
        pop = [list(x0) for _ in range(P)]
        frac = rng.choice([0.25, 0.5, 0.7, 1.0])
        key = "epoch_length_multiplier" if algo == "SMSEMOA" else "mating_population_size"
        s = dict(decoy(rng, algo, P), **{key: frac})
        d, prob = start(algo, [x0], dims, pop, rng, mutation_rate=1.0, mutation_eta=5.0, crossover_rate=0.9, crossover_eta=15.0, **s)
        for k in range(4):
            before = len(prob.log.points)
            d.next_step()
            got = len(prob.log.points) - before
            obs.event("counts")
            obs.require(abs(got - frac * P) < 1.0 + 1e-9, "offspring-number", "%s: a step created %d points of a population of %d, %s is %s" % (algo, got, P, key, frac))
    obs.nontrivial(algo, "offspring", case["seed"])


def jumping(case, obs, rng):
    """genes jump at the configured rate, and not at all at rate 0"""
    dims = domain(rng)
    P = 24
    S = [inner(rng, dims) for _ in range(P)]

    def count(**kw):
        n = 0
        for _ in range(14):
            d, prob = start("JGBL", S, dims, S, rng, mutation_rate=0.0, mutation_eta=20.0, crossover_rate=0.0, crossover_eta=15.0,
                            mating_population_size=0.5, **kw)
            d.next_step()
            n += len(fresh(prob, S))
        return n
    pct = rng.choice([0.3, 0.5])
    full = count(jumping_rate=1.0, jumping_percentage=pct)
    if full < 400:
        obs.require(full > 0, "jumping-applied", "JGBL: no new point by gene jumping at rate 1")
        return
    for rate in (0.0, 0.3, 0.75):
        n = count(jumping_rate=rate, jumping_percentage=pct)
        r = n / full
        sd = math.sqrt(6 * (rate * (1 - rate) + rate * rate) / full)
        obs.event("rates")
        obs.require(abs(r - rate) <= 6.5 * sd * (rate > 0) + (0.01 if rate else 0), "jumping-rate", "JGBL: %.3f as many jumps at rate %s as at rate 1" % (r, rate), sd=sd)
    n = count(jumping_rate=1.0, jumping_percentage=0.0)
    obs.event("silent")
    obs.require(n == 0, "jumping-percentage", "JGBL: %d new points although no gene may jump" % n)
    obs.nontrivial("jumping", case["seed"])


def swarm(case, obs, rng):
    """particles at rest move only by turbulence: probability and reach as configured"""
    for prob_m, pert in ((0.1, 0.5), (0.4, 0.2), (1.0, 0.05)):
        dims = world.make_dims("sym", 5, rng)
        x0 = inner(rng, dims)
        P = 60
        pop = [list(x0) for _ in range(P)]
        per, us, tries = [], [], 0
        while len(us) < 800 and tries < 60:
            tries += 1
            d, prob = start("OMOPSO", [x0], dims, pop, rng, mutation_probability=prob_m, mutation_perturbation=pert, mutation_rate=0.5, mutation_eta=5.0,
                            crossover_rate=0.5, crossover_eta=15.0)
            d.next_step()
            for p in fresh(prob, pop):
                ch = [i for i in range(5) if p[i] != x0[i]]
                per.append(len(ch))
                us += [(p[i] - x0[i]) / pert + 0.5 for i in ch]
        obs.event("mutants", len(per))
        if not obs.require(len(per) >= 100, "turbulence", "OMOPSO: %d moved particles in %d runs at mutation probability %s" % (len(per), tries, prob_m)):
            continue
        miss = (1 - prob_m) ** 5
        mean = 5 * prob_m / (1 - miss)
        sd = math.sqrt(max(0.0, (5 * prob_m * (1 - prob_m) + (5 * prob_m) ** 2) / (1 - miss) - mean * mean) / len(per))
        obs.require(abs(sum(per) / len(per) - mean) <= 6.5 * sd + 1e-3, "mutation-rate",
                    "OMOPSO: a moved particle has %.3f changed genes of 5, mutation probability %s gives %.3f" % (sum(per) / len(per), prob_m, mean), sd=sd)
        uniform_ks(obs, "turbulence", "OMOPSO: turbulence does not follow the configured perturbation %s" % pert, us)
    obs.nontrivial("swarm", case["seed"])


def phi(z):
    return 0.5 * (1 + math.erf(z / math.sqrt(2)))


def local(case, obs, rng):
    """every local move is rejected, so each trial point shows the step factor it was made with"""
    for mu, sigma in ((0.5, 0.5), (0.2, 0.1), (1.5, 0.3), (0.8, 0.02)):
        dims = [(-100.0, 100.0)] * 3
        a = [rng.uniform(-3, 3) for _ in dims]
        b = [x + rng.choice([-1, 1]) * rng.uniform(0.5, 2) for x in a]
        P = 16
        pop = [list(a) for _ in range(P // 2)] + [list(b) for _ in range(P // 2)]
        us = []
        for _ in range(20):
            d, prob = start("NSLS", [a, b], dims, pop, rng, local_search_mu=mu, local_search_sigma=sigma, mutation_rate=0.5, mutation_eta=5.0,
                            crossover_rate=0.5, crossover_eta=15.0)
            d.next_step()
            seen = set()
            for p in fresh(prob, pop):
                for x in (a, b):
                    ch = [i for i in range(3) if p[i] != x[i]]
                    if len(ch) == 1:
                        i = ch[0]
                        c = abs(p[i] - x[i]) / abs(a[i] - b[i])
                        if round(c, 9) not in seen:
                            seen.add(round(c, 9))
                            us.append(phi((c - mu) / sigma) - phi((-c - mu) / sigma))
        obs.event("moves", len(us))
        if obs.require(len(us) >= 300, "local-search", "NSLS: %d local moves in 20 steps" % len(us)):
            uniform_ks(obs, "local-search", "NSLS: steps do not follow the configured mean %s and deviation %s" % (mu, sigma), us)
    obs.nontrivial("local", case["seed"])


def classes(case, obs, rng):
    """every selectable name runs the algorithm it names"""
    from simulation import factory, run_config
    for algo in run_config.algorithms:
        parts = algo.split("+")
        if parts[0] == "DHGS":
            continue            # builds real actor processes: P14
        prob = world.make_problem("sphere", "unit", 4, 2, rng, "SYN26C")
        prob.register()
        part, _ = factory.prepare(algo, prob.name)
        made = []
        kw = {}
        if len(parts) > 1:
            inner_part = part.keywords["driver"]

            def make(*a, **k):
                d = inner_part(*a, **k)
                made.append((d, k))
                return d
            kw["driver"] = make
            if parts[0] == "HGS":
                kw.update(population_sizes=(16, 8, 6))
        d = part(**kw)
        obs.event("classes")
        obs.require(type(d).__name__ == parts[0], "class", "%s runs %s" % (algo, type(d).__name__))
        if len(parts) > 1:
            obs.require(made and all(type(x).__name__ == parts[1] for x, _ in made), "class",
                        "%s runs %r inside" % (algo, [type(x).__name__ for x, _ in made][:1]))
    for bad in ("HGS+IMGA+SPEA2", "SPEA2+IMGA", "NSGAII+SPEA2", "IMGA+HGS+SPEA2", "HGS+HGS+NSGAII", "IMGA+IMGA+IBEA"):
        prob = world.make_problem("sphere", "unit", 4, 2, rng, "SYN26C")
        prob.register()
        subs = bad.split("+")
        try:
            mods = [__import__("algorithms.%s.message" % s, fromlist=["x"]) for s in subs[1:]]
            exists = all(hasattr(m, "%s%sMessageAdapter" % (s, t)) for m, s, t in zip(mods, subs[1:], subs))
        except ImportError:
            exists = False
        if exists:
            continue
        try:
            factory.prepare(bad, prob.name)
        except run_config.NotViableConfiguration:
            obs.event("not_viable")
            continue
        obs.violate("not-viable-accepted", "%s prepared although no adapter exists for it" % bad)
    obs.nontrivial("classes", case["seed"])


def islands(case, obs, rng):
    """the settings of the archipelago, and the budget announced to it, reach the islands"""
    from simulation import factory, run_config
    for algo in MUTATES + ["OMOPSO", "NSLS"]:
        for _ in range(3):
            k = rng.choice([2, 3, 4])
            want = dict(mutation_rate=rng.uniform(0.1, 0.9), mutation_eta=rng.uniform(5, 50), crossover_rate=rng.uniform(0.1, 0.9), crossover_eta=rng.uniform(5, 50))
            prob = world.make_problem("sphere", "unit", 4, 2, rng, "SYN26I")
            prob.register()
            pop = world.random_population(rng.choice([24, 31]), prob.dims, rng)

            def init(config, problem_mod):
                config.update(want, islands_number=k, migrants_number=2, epoch_length=2, population=[list(x) for x in pop])
            setattr(run_config, "init_alg___IMGA__%s____SYN26I" % algo, init)
            part, _ = factory.prepare("IMGA+" + algo, prob.name)
            inner_part = part.keywords["driver"]
            made = []

            def make(*a, **kw):
                d = inner_part(*a, **kw)
                made.append((d, kw))
                return d
            d = part(driver=make)
            obs.require(len(made) == k, "islands", "IMGA+%s: %d islands instead of %d" % (algo, len(made), k))
            for x, kw in made:
                obs.event("islands")
                bad = {n: (kw.get(n), v) for n, v in want.items() if kw.get(n) != v}
                obs.require(not bad, "island-settings", "IMGA+%s: an island got other operator settings: %r" % (algo, bad))
                obs.require(kw.get("dims") == prob.dims and list(kw.get("fitnesses")) == list(prob.fitnesses), "island-settings", "IMGA+%s: an island got another problem" % algo)
            d.max_budget = b = rng.choice([500, 3000])
            d.next_step()
            got = [x.max_budget for x, _ in made]
            obs.require(all(g == b for g in got), "island-budget", "IMGA+%s: the islands know budget %r, the run has %r" % (algo, got, b))
            d.max_budget = None
    obs.nontrivial("islands", case["seed"])


def run_case(case, obs):
    rng = random.Random("%s/%s/%s" % (case["seed"], case["what"], case.get("algo")))
    globals()[case["what"]](case, obs, rng)
