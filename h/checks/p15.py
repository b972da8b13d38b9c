import copy, json, os, random, subprocess, sys
import world, script

PID = "P15"
RULE = ("every algorithm and combination is run by the real workers with several budgets on synthetic and shipped problems, its files are read back here "
        "and by a fresh process and compared with what the algorithm reported when they were stored; random sequences of store and load over many "
        "cases, runs and checkpoints against a dictionary; non-trivial = worker run that stored at least two different populations")
NEED = {"worker_runs": 30, "stored": 80, "foreign_loads": 80, "operations": 4000, "loads": 1500}
CPU = 400

COMBOS = world.BASE_DRIVERS + [m + "+" + a for m in ("HGS", "IMGA") for a in world.BASE_DRIVERS]


def cases(tier, seed):
    out = []
    for rep in range(1 if tier == "quick" else 6):
        for a in sorted(COMBOS, key=lambda a: ("IBEA" not in a, "SMS" not in a, "+" not in a)):
            out.append({"kind": "worker", "algo": a, "seed": "%d/%d" % (seed, rep)})
        for a in ("NSGAII", "OMOPSO", "IMGA+NSGAII", "HGS+NSGAII", "NSGAIII", "IMGA+SPEA2", "HGS+SPEA2"):
            out.append({"kind": "worker", "algo": a, "seed": "%d/%d/s" % (seed, rep), "shipped": True})
        for i in range(8):
            out.append({"kind": "store", "seed": "%d/%d/%d" % (seed, rep, i)})
        for i in range(2):
            out.append({"kind": "batch", "seed": "%d/%d/%d" % (seed, rep, i)})
    return out


def nums(rows):
    return [[float(v) for v in x] for x in rows]


def same(a, b):
    # coordinates may be numpy floats, whose powers differ from Python's in the last place
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(u - v) <= 1e-9 * max(1.0, abs(u), abs(v)) for u, v in zip(x, y)) for x, y in zip(a, b))


def fresh_load(files):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    import core
    p = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "loader.py"), core.REPO],
                       input="\n".join(files) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, env=env, cwd=core.REPO, timeout=300)
    rows = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
    if len(rows) != len(files):
        e = RuntimeError("loader process: %d answers for %d files\n%s" % (len(rows), len(files), p.stderr[-1500:]))
        e.harness = True
        raise e
    return rows


def watch(made):
    from simulation import factory
    inner = factory.prepare

    def prepare(a, p):
        part, mod = inner(a, p)

        def make(*args, **kw):
            d = part(*args, **kw)
            d.v_costs = [d.cost]
            d.v_finals = []
            made.append(d)
            ns, fp = d.next_step, d.finalized_population

            def next_step():
                m = ns()
                d.v_costs.append(d.cost)
                return m

            def finalized_population():
                r = fp()
                if isinstance(r, (list, tuple)):
                    d.v_finals.append((d.cost, nums(r)))
                return r
            d.next_step, d.finalized_population = next_step, finalized_population
            return d
        return make, mod
    factory.prepare = prepare


def worker(case, obs, rng):
    from simulation import run_config
    from simulation.model import SimulationCase
    from simulation.worker import BudgetWorker
    from simulation.serializer import Serializer
    algo = case["algo"]
    if case.get("shipped"):
        from importlib import import_module
        pname = rng.choice(["ZDT1", "ZDT4", "UF1", "UF8"] if "NSGAIII" not in algo else ["ZDT1", "ZDT2"])
        mod = import_module("problems.%s.problem" % pname)
        objectives = lambda x: [f(x) for f in mod.fitnesses]
    else:
        prob = world.make_problem(rng.choice(["zdt", "sphere", "negative"]), rng.choice(["unit", "mixed"]), 4, 2, rng, "SYN15")
        pname = prob.register()
        objectives = prob.objectives
    run_config.DEFAULT_POPULATION_SIZE = 30
    for k in ("HGS",):
        run_config.algo_base[k].update(population_sizes=(16, 8, 6), max_sprouts_no=4, sproutiveness=2, metaepoch_len=[2, 2, 2])
    run_config.algo_base["IMGA"].update(islands_number=3, migrants_number=1, epoch_length=2)
    made = []
    watch(made)
    budgets = [30, 90, 150] if "IBEA" in algo or "NSLS" in algo else [30, 120, 300] if "SMSEMOA" in algo else [30, 120, 300, 301, 600]
    root = os.path.join(obs.scratch, "w")
    files = []
    for run in range(2):
        del made[:]
        sim = SimulationCase(pname, algo, run + 1, None, root, budgets=budgets)
        out = BudgetWorker(sim, run).run()
        obs.event("worker_runs")
        name = "%s on %s" % (algo, pname)
        obs.require(out is not None, "run-failed", "%s: the simulation failed" % name)
        ser = Serializer(sim)
        have = sorted(os.listdir(str(ser.path))) if os.path.isdir(str(ser.path)) else []
        obs.require(sorted(have) == sorted("%d.pickle" % b for b in budgets), "files", "%s: stored %r for the budgets %r" % (name, have, budgets))
        pops = set()
        for b in budgets:
            if "%d.pickle" % b not in have:
                continue
            obs.event("stored")
            r = ser.load(str(b))
            pop, fit, cost = nums(r.population), nums(r.fitnesses), r.additional_data["cost"]
            obs.require(pop, "empty", "%s: the result of budget %d has an empty population" % (name, b))
            obs.require(len(fit) == len(pop), "fitness-count", "%s: %d fitness vectors for %d individuals" % (name, len(fit), len(pop)))
            want = [[float(v) for v in objectives(x)] for x in pop]
            obs.require(same(fit, want), "fitness-wrong", "%s: a stored fitness vector is not its individual's" % name,
                        bad=[(x, f, w) for x, f, w in zip(pop, fit, want) if not same([f], [w])][:1])
            if made:
                d = made[-1]
                first = [c for c in d.v_costs if c >= b]
                obs.require(first and cost == first[0], "cost", "%s: the result of budget %d has cost %r, costs after each step: %r" % (name, b, cost, d.v_costs[:30]))
                if any(c == cost for c, _ in d.v_finals):
                    obs.require((cost, pop) in d.v_finals, "population-wrong", "%s: the stored result of budget %d is not what the algorithm reported at cost %r" % (name, b, cost))
            pops.add(repr(pop))
            files.append((str(ser.path / ("%d.pickle" % b)), pop, fit, float(cost)))
        if len(pops) > 1:
            obs.nontrivial(algo, pname, run, case["seed"])
    for (f, pop, fit, cost), row in zip(files, fresh_load([f for f, _, _, _ in files])):
        obs.event("foreign_loads")
        if obs.require("error" not in row, "not-self-contained", "%s: another process cannot load %s: %s" % (algo, os.path.basename(f), row.get("error"))):
            obs.require((row["pop"], row["fit"], row["cost"]) == (pop, fit, cost), "other-process", "%s: another process reads other values from %s" % (algo, os.path.basename(f)))


def value(rng):
    return rng.choice([rng.random(), rng.uniform(-1e9, 1e9), 0.0, -0.0, 5e-324, 1.7e308, float(rng.randint(-3, 3)), rng.randint(-9, 9)])


def store(case, obs, rng):
    """random histories of store/load over many cases against a dictionary"""
    from simulation.model import SimulationCase, get_simulation_id
    from simulation.serializer import Serializer, Result
    truth, sims = {}, {}
    roots = [os.path.join(obs.scratch, "r%d" % i) for i in range(2)]
    for root in roots:
        for p in ("ZDT1", "UF1", "UF11"):
            for a in ("NSGAII", "HGS+NSGAII", "NSGAIII", "IMGA+HGS+NSGAII"):
                for run in range(3):
                    s = SimulationCase(p, a, run, None, root, budgets=[1])
                    sims[root, p, a, run] = s
    paths = {str(Serializer(s).path) for s in sims.values()}
    obs.require(len(paths) == len(sims), "shared-path", "%d cases share %d directories" % (len(sims), len(paths)))
    keys = sorted(sims)
    for step in range(600):
        obs.event("operations")
        k = rng.choice(keys)
        nm = str(rng.choice([1, 10, 100, 500, 1000, 5000]))
        ser = Serializer(sims[k]) if rng.random() < 0.7 else Serializer(copy.copy(sims[k]))
        if rng.random() < 0.55 or (k, nm) not in truth:
            n, m = rng.randint(1, 5), rng.randint(1, 3)
            pop = [[value(rng) for _ in range(4)] for _ in range(n)]
            if rng.random() < 0.3:
                pop = [tuple(x) for x in pop]
            fit = [[value(rng) for _ in range(m)] for _ in range(n)]
            extra = {"cost": rng.randint(0, 9999)}
            if rng.random() < 0.2:
                extra["note"] = {"a": [1, 2.5, "x"]}
            truth[k, nm] = copy.deepcopy((pop, fit, extra))
            where = ser.store(Result(pop, fit, **extra), nm)
            obs.require(os.path.dirname(str(where)) == str(ser.path), "stored-elsewhere", "stored at %s" % where)
            for x in pop:               # later changes must not reach the store
                if isinstance(x, list):
                    x[0] = 123.456
            extra["cost"] = -1
        if (k, nm) in truth:
            obs.event("loads")
            r = ser.load(nm)
            p, f, e = truth[k, nm]
            obs.require(repr((r.population, r.fitnesses)) == repr((p, f)) and r.additional_data == e, "round-trip", "%r checkpoint %s: not loaded back as stored" % (k, nm),
                        got=(r.population, r.fitnesses, r.additional_data), want=(p, f, e))
    for (k, nm), (p, f, e) in truth.items():
        obs.event("loads")
        r = Serializer(sims[k]).load(nm)
        obs.require(repr((r.population, r.fitnesses)) == repr((p, f)) and r.additional_data == e, "overwritten", "%r checkpoint %s changed although nothing was stored there" % (k, nm))
    n = len(script.stored_files(obs.scratch))
    obs.require(n == len(truth), "file-count", "%d files for %d stored results" % (n, len(truth)))
    ids = {get_simulation_id(0) for _ in range(50)} | {get_simulation_id(i) for i in range(1, 50)}
    obs.require(len(ids) == 99, "ids-repeat", "simulation identifiers repeat: %d different of 99" % len(ids))
    obs.nontrivial("store", case["seed"])


def run_batch(case, obs, rng):
    """whole batches into one directory, repeated: nothing is overwritten"""
    import batch
    batch.install()
    import evogil  # noqa
    from simulation import run_config, worker as w
    script.register()
    probs = [world.make_problem("sphere", "unit", 3, 2, rng, "SYN15" + c) for c in "ab"]
    for p in probs:
        p.register()
    run_config.algorithms[:] = ["SCRIPT", "NSGAII"]
    run_config.problems[:] = [p.name for p in probs]
    script.plan(inc=[7])
    root = os.path.join(obs.scratch, "b")
    total, keep = 0, {}
    for k in range(4):
        n = rng.randint(1, 4)
        budgets = rng.choice(["10", "10,20,30", "64,65"])
        batch.command(["run", "budget", budgets, "-N", str(n), "-d", root])
        total += n * 4 * len(budgets.split(","))
        now = {}
        for rel, f in script.stored_files(root).items():
            with open(f, "rb") as fh:
                now[rel] = fh.read()
        obs.event("operations", len(now))
        obs.require(all(now.get(x) == keep[x] for x in keep), "overwritten", "a later batch changed or removed earlier results")
        obs.require(len(now) == total, "file-count", "%d results after batches that stored %d" % (len(now), total))
        keep = now
    obs.nontrivial("batch", case["seed"])


def run_case(case, obs):
    rng = random.Random("p15/%s/%s/%s" % (case["kind"], case["seed"], case.get("algo")))
    {"worker": worker, "store": store, "batch": run_batch}[case["kind"]](case, obs, rng)
