import collections, logging, os, random, types
import world, script

PID = "P20"
RULE = ("real runs of every algorithm and combination on synthetic and shipped problems, alone and interleaved with each other; structural snapshots of "
        "the configuration tables, problem modules and prepared constructor arguments before and after; a second instance's full state before and "
        "after the first one ran; step-by-step replay of a seeded run with and without another run interleaved; non-trivial = pair of runs that both "
        "changed their own state")
NEED = {"runs": 40, "snapshots": 300, "prepared": 150, "pairs": 40, "replayed_steps": 150, "populations": 200, "batches": 4, "repeat_pairs": 30, "priority_runs": 12}
CPU = 300

ALGOS = world.BASE_DRIVERS + [m + "+" + a for m in ("HGS", "IMGA") for a in world.BASE_DRIVERS]


def cases(tier, seed):
    out = []
    for rep in range(1 if tier == "quick" else 6):
        for a in ALGOS:
            out.append({"kind": "pair", "algo": a, "seed": "%d/%d" % (seed, rep)})
        for i in range(4):
            out.append({"kind": "mix", "seed": "%d/%d/%d" % (seed, rep, i)})
        for i in range(4):
            out.append({"kind": "population", "seed": "%d/%d/%d" % (seed, rep, i)})
        for i in range(2):
            out.append({"kind": "worker", "seed": "%d/%d/%d" % (seed, rep, i)})
            out.append({"kind": "priority", "seed": "%d/%d/%d" % (seed, rep, i)})
            out.append({"kind": "priority", "seed": "%d/%d/%d/b" % (seed, rep, i)})
            out.append({"kind": "repeats", "seed": "%d/%d/%d" % (seed, rep, i)})
    return out


def freeze(x, memo=None, depth=0, skip=()):
    """a comparable picture of an object graph, blind to object identity"""
    memo = {} if memo is None else memo
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, float):
        return ("f", repr(x))
    if depth > 40:
        return "..."
    if id(x) in memo:
        return ("ref", memo[id(x)])
    if isinstance(x, (list, tuple, collections.deque)):
        memo[id(x)] = len(memo)
        return (type(x).__name__,) + tuple(freeze(y, memo, depth + 1, skip) for y in x)
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(freeze(y, {}, depth + 1, skip)) for y in x)))
    if isinstance(x, dict):
        memo[id(x)] = len(memo)
        return ("dict",) + tuple((repr(k) if not hasattr(k, "__dict__") else type(k).__name__, freeze(v, memo, depth + 1, skip)) for k, v in list(x.items()))
    if isinstance(x, types.ModuleType) or isinstance(x, world.Problem) or isinstance(x, world.Objective):
        return ("module", getattr(x, "__name__", type(x).__name__))
    if isinstance(x, (logging.Logger, logging.Handler)):
        return ("logger", getattr(x, "name", ""))
    if isinstance(x, type) or callable(x) and not hasattr(x, "keywords") and not hasattr(x, "next_step"):
        return ("callable", getattr(x, "__name__", type(x).__name__))
    if hasattr(x, "keywords") and hasattr(x, "func"):
        memo[id(x)] = len(memo)
        return ("partial", getattr(x.func, "__name__", "?"), freeze(list(x.args), memo, depth + 1, skip),
                tuple((k, freeze(v, memo, depth + 1, skip)) for k, v in sorted(x.keywords.items()) if k not in skip))
    if hasattr(x, "tolist"):
        return ("array", repr(x.tolist()))
    memo[id(x)] = len(memo)
    d = getattr(x, "__dict__", None)
    if d is None:
        names = [n for c in type(x).__mro__ for n in getattr(c, "__slots__", ())]
        d = {n: getattr(x, n) for n in names if hasattr(x, n)}
    return (type(x).__name__,) + tuple((k, freeze(v, memo, depth + 1, skip)) for k, v in sorted(d.items()))


def config_picture():
    from simulation import run_config
    return freeze({k: v for k, v in sorted(vars(run_config).items()) if not k.startswith("__") and not callable(v) and not isinstance(v, types.ModuleType)})


def problem_picture(p):
    return freeze({"dims": p.dims, "front": p.pareto_front, "set": getattr(p, "pareto_set", None), "fit": [id(f) for f in p.fitnesses]})


def shipped():
    from importlib import import_module
    out = []
    from simulation import run_config
    for n in run_config.problems:
        out.append(import_module("problems.%s.problem" % n))
    return out


def diff(a, b, path=""):
    """first difference between two pictures"""
    if type(a) is not type(b) or not isinstance(a, tuple) or len(a) != len(b):
        return "%s: %r -> %r" % (path, str(a)[:120], str(b)[:120])
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            nm = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
            return diff(x, y, "%s/%s" % (path, nm)) if isinstance(x, tuple) else "%s/%s: %r -> %r" % (path, i, str(x)[:120], str(y)[:120])
    return "equal"


class Guard:
    def __init__(self, obs, probs):
        self.obs, self.probs = obs, probs
        self.c, self.p = config_picture(), [problem_picture(x) for x in probs]

    def check(self, name):
        self.obs.event("snapshots", 1 + len(self.probs))
        c = config_picture()
        self.obs.require(c == self.c, "config-changed", "%s changed the configuration tables: %s" % (name, diff(self.c, c)))
        for pr, old in zip(self.probs, self.p):
            new = problem_picture(pr)
            self.obs.require(new == old, "problem-changed", "%s changed the problem %s: %s" % (name, getattr(pr, "name", None) or pr.__name__, diff(old, new)))


def small_config(rng):
    """a legitimate configuration in which hierarchic and island runs get through their whole life quickly"""
    from simulation import run_config
    for k in ("HGS", "DHGS"):
        run_config.algo_base[k].update(population_sizes=(12, 8, 6), max_sprouts_no=4, sproutiveness=2, metaepoch_len=[1, 1, 1],
                                       min_progress_ratio=rng.choice([[4.0, 8.0, 16.0], [50.0, 60.0, 70.0], [0.0, 0.00001, 0.0001]]))
    run_config.algo_base["IMGA"].update(islands_number=3, migrants_number=1, epoch_length=2)
    run_config.DEFAULT_POPULATION_SIZE = 24


def args_picture(algo, prob):
    from simulation import factory
    part, _ = factory.prepare(algo, prob.name)
    return part, freeze(part, skip=("population",))


def run_some(d, steps):
    for _ in range(steps):
        d.next_step()
    return [list(x) for x in d.finalized_population()]


def heavy(algo):
    return any(h in algo for h in ("IBEA", "NSLS"))


def pair(case, obs, rng):
    algo = case["algo"]
    shape = rng.choice(["zdt", "sphere", "negative"])
    prob = world.make_problem(shape, rng.choice(["unit", "mixed", "sym"]), 4, 2, rng, "SYN20")
    prob.register()
    small_config(rng)
    ships = shipped()
    g = Guard(obs, [prob] + ships)
    steps = 3 if heavy(algo) else 6
    if "HGS" in algo:
        steps = 6 if heavy(algo) else 14
    p1, a1 = args_picture(algo, prob)
    p2, a2 = args_picture(algo, prob)
    obs.event("prepared", 2)
    obs.require(a1 == a2, "not-reproducible", "%s: two preparations differ: %s" % (algo, diff(a1, a2)))
    g.check("preparing " + algo)
    d1, d2 = p1(), p2()
    d1.max_budget = d2.max_budget = 100000
    g.check("constructing " + algo)
    idle = freeze(d2)
    pop2 = freeze([list(x) for x in d2.population]) if hasattr(d2, "population") else None
    c2 = d2.cost
    before1 = freeze(d1)
    run_some(d1, steps)
    obs.event("runs")
    g.check("running " + algo)
    now = freeze(d2)
    obs.event("pairs")
    obs.require(now == idle, "shared-state", "%s: running one instance changed another idle one: %s" % (algo, diff(idle, now)))
    obs.require(d2.cost == c2, "shared-cost", "%s: cost of an idle instance went from %r to %r" % (algo, c2, d2.cost))
    p3, a3 = args_picture(algo, prob)
    obs.event("prepared")
    obs.require(a3 == a1, "later-differs", "%s: a run prepared after another one gets a different configuration: %s" % (algo, diff(a1, a3)))
    run_some(d2, 2)
    if freeze(d1) != before1 and freeze(d2) != idle:
        obs.nontrivial(algo, case["seed"], shape)
    # two instances of the same preparation
    d4, d5 = p3(), p3()
    d4.max_budget = d5.max_budget = 100000
    idle = freeze(d5)
    run_some(d4, steps)
    obs.event("pairs")
    now = freeze(d5)
    obs.require(now == idle, "shared-state", "%s: instances of one preparation share state: %s" % (algo, diff(idle, now)))
    g.check("running instances of one preparation of " + algo)
    # the same seeded run alone (twice) and interleaved with another one
    other = rng.choice([a for a in ALGOS if not heavy(a)] + [algo])

    def trajectory(mix):
        import numpy
        random.seed("t/" + case["seed"])
        numpy.random.seed(4)
        part, _ = args_picture(algo, prob)
        d = part()
        d.max_budget = 100000
        st, nst = random.getstate(), numpy.random.get_state()
        o = None
        if mix:
            random.seed("other")
            numpy.random.seed(9)
            o = args_picture(other, prob)[0]()
            o.max_budget = 100000
        out = []
        for _ in range(steps):
            random.setstate(st)
            numpy.random.set_state(nst)
            d.next_step()
            st, nst = random.getstate(), numpy.random.get_state()
            out.append((d.cost, freeze([list(x) for x in d.finalized_population()])))
            st2 = random.getstate()
            obs.event("replayed_steps")
            if o is not None:
                random.seed(len(out))
                o.next_step()
                o.finalized_population()
            del st2
        return out

    ref = trajectory(False)
    if ref == trajectory(False):
        obs.event("deterministic")
        got = trajectory(True)
        obs.require(got == ref, "interference", "%s: the same seeded run differs when a %s run is interleaved with it, from step %d" % (
            algo, other, [x == y for x, y in zip(got, ref)].index(False) + 1 if got != ref else -1))
    else:
        obs.notes["not reproducible: " + algo] += 1
    g.check("interleaving %s and %s" % (algo, other))


def mix(case, obs, rng):
    """random sequences of runs of different requests in one process: each still receives the first one's configuration"""
    probs = [world.make_problem("zdt", "unit", 3, 2, rng, "SYN20a"), world.make_problem("sphere", "shifted", 4, 3, rng, "SYN20b")]
    for p in probs:
        p.register()
    small_config(rng)
    algos = rng.sample([a for a in ALGOS if not heavy(a)], 6) + ["HGS+NSGAII", "DHGS+SPEA2"]
    algos = [a for a in algos if not ("SMSEMOA" in a)]
    first = {}
    for a in algos:
        for p in probs:
            first[a, p.name] = args_picture(a, p)[1]
            obs.event("prepared")
    g = Guard(obs, probs + shipped())
    live = []
    for k in range(24):
        a, p = rng.choice(algos), rng.choice(probs)
        part, pic = args_picture(a, p)
        obs.event("prepared")
        obs.require(pic == first[a, p.name], "later-differs", "%s on %s: configuration differs after %d other runs: %s" % (a, p.name, k, diff(first[a, p.name], pic)))
        if not a.startswith("DHGS"):
            d = part()
            d.max_budget = 100000
            live.append((a, d))
        for _ in range(3):
            a2, d = rng.choice(live) if live else (None, None)
            if d is not None:
                run_some(d, 3)
                obs.event("runs")
        g.check("a sequence of runs ending with " + a)
    obs.nontrivial("mix", case["seed"])


def population(case, obs, rng):
    """initial populations: own, random, complete, inside the domain, spread over it"""
    from simulation import factory, run_config
    size = run_config.DEFAULT_POPULATION_SIZE
    dims = world.make_dims(rng.choice(["mixed", "shifted", "sym", "narrow"]), 5, rng)
    prob = world.make_problem("sphere", "unit", 5, 2, rng, "SYN20")
    prob.dims = dims
    prob.register()
    allpts, objs, keep = [], {}, []
    for _ in range(60):
        a = rng.choice(world.BASE_DRIVERS + ["HGS+NSGAII", "IMGA+SPEA2"])
        part, _m = factory.prepare(a, prob.name)
        kw = part.keywords
        pops = [kw["population"]]
        if "driver" in kw:
            pops.append(kw["driver"].keywords["population"])
        keep.append(pops)
        for pop in pops:
            obs.event("populations")
            obs.require(len(pop) == size, "population-size", "%s: initial population of %d instead of %d" % (a, len(pop), size))
            for x in pop:
                w = world.bad_point(tuple(x), dims)
                obs.require(w is None, "population-domain", "%s: initial individual %s" % (a, w))
                obs.require(id(x) not in objs, "population-shared", "%s: an initial individual object is used twice" % a)
                objs[id(x)] = x
                allpts.append(tuple(x))
    obs.require(len(set(allpts)) == len(allpts), "population-repeated", "initial populations repeat individuals")
    n = len(allpts)
    for j, (lo, hi) in enumerate(dims):
        u = sorted((x[j] - lo) / float(hi - lo) for x in allpts)
        ks = max(max(abs((i + 1.0) / n - v), abs(v - i / float(n))) for i, v in enumerate(u))
        obs.require(ks * n ** 0.5 < 2.6, "population-distribution", "coordinate %d of the initial populations is not uniform over its domain (KS %.3f, n=%d)" % (j, ks, n))
    a, b = dims[0], dims[1]
    obs.nontrivial("pop", case["seed"])


def worker(case, obs, rng):
    """several complete simulations through the worker on a shipped problem"""
    from simulation.model import SimulationCase
    from simulation.worker import BudgetWorker
    from simulation import factory
    small_config(rng)
    ships = shipped()
    g = Guard(obs, ships)
    algos = ["NSGAII", "HGS+OMOPSO", "IMGA+NSGAII", "HGS+NSGAII", "SPEA2", "JGBL", "IMGA+SPEA2"]
    first = {a: freeze(factory.prepare(a, "ZDT4")[0], skip=("population",)) for a in algos}
    for i, a in enumerate(rng.sample(algos, 5)):
        sim = SimulationCase("ZDT4", a, i + 1, None, os.path.join(obs.scratch, "w"), budgets=[100, 500])
        out = BudgetWorker(sim, i).run()
        obs.require(out is not None, "run-failed", "%s on ZDT4 failed" % a)
        obs.event("runs")
        g.check("simulating " + a)
        for b in algos:
            pic = freeze(factory.prepare(b, "ZDT4")[0], skip=("population",))
            obs.event("prepared")
            obs.require(pic == first[b], "later-differs", "%s prepared after %s differs: %s" % (b, a, diff(first[b], pic)))
    obs.nontrivial("worker", case["seed"])


def repeats(case, obs, rng):
    """repetitions of a case, within a batch and in batches started from the same state, must be independent samples"""
    import batch
    batch.install()
    from simulation import serializer
    import evogil  # noqa
    runs = []
    algos = rng.sample(world.BASE_DRIVERS, 2) + [rng.choice(["IMGA+", "HGS+"]) + rng.choice(["NSGAII", "SPEA2", "SMSEMOA"])]
    for b in range(2):
        random.seed(12345)
        out = os.path.join(obs.scratch, "rep%d" % b)
        batch.command(["run", "budget", "70", "-a", ",".join(algos), "-p", "ZDT4", "-N", "3", "-d", out])
        for d, _, fs in sorted(os.walk(out)):
            for f in sorted(fs):
                from pathlib import Path
                try:
                    r = serializer.load_file(Path(d, f))
                    pop = set(tuple(float(v) for v in x) for x in r.population)
                except Exception:
                    continue
                algo = next((a for a in algos if a in Path(d).parts), "?")
                runs.append((b, algo, os.path.join(d, f), pop))
        obs.event("batches")
    obs.require(len(runs) == 18, "repeats-stored", "%d results of 18 found" % len(runs))
    for i, (b, a, f, p) in enumerate(runs):
        for b2, a2, f2, p2 in runs[:i]:
            if a == a2:
                obs.event("repeat_pairs")
                obs.require(not (p & p2), "not-independent", "%s: two repetitions %s share %d of %d points" % (a, "of one batch" if b == b2 else "of two batches", len(p & p2), len(p)))
    obs.nontrivial("repeats", case["seed"])


def priority(case, obs, rng):
    """every run of a batch works at the priority it was asked to, whatever ran before it"""
    import batch
    batch.install()
    import evogil  # noqa
    from simulation import run_config
    prob = world.make_problem("sphere", "unit", 3, 2, rng, "SYN20P")
    prob.register()
    run_config.problems[:] = [prob.name]
    inc = None if case["seed"].endswith("b") else rng.choice([2, 4])
    base = os.nice(0)
    seen = collections.Counter()
    prob.log.listeners.append(lambda k, x: seen.update([os.nice(0)]))
    n = rng.choice([2, 3])
    batch.command(["run", "budget", "40", "-a", "NSGAII,SPEA2", "-p", prob.name, "-N", str(n), "-d", os.path.join(obs.scratch, "prio")] + (["--renice", str(inc)] if inc else []))
    obs.event("priority_runs", 2 * n)
    want = min(19, base + (inc or 0))
    obs.require(set(seen) == {want}, "priority", "the %d runs of a batch %s worked at priorities %r, started from %d" % (2 * n, "with --renice %d" % inc if inc else "without --renice", sorted(seen), base))
    obs.nontrivial("priority", case["seed"])


def run_case(case, obs):
    rng = random.Random("p20/%s/%s/%s" % (case["kind"], case["seed"], case.get("algo")))
    {"pair": pair, "mix": mix, "population": population, "worker": worker, "repeats": repeats, "priority": priority}[case["kind"]](case, obs, rng)
