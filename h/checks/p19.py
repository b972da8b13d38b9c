import collections, logging, os, random, re, time
import world, batch, script

PID = "P19"
RULE = ("batches started through evogil's entry point on scripted and real algorithms, with failures injected into random subsets of the cases "
        "(while preparing, at construction, at a random step, while computing or storing the n-th result, repeatedly); stored files, the summary "
        "and shut-downs are compared with what each case does alone; non-trivial = batch with both failing and succeeding cases, at least one "
        "success after a failure")
NEED = {"batches": 60, "cases": 500, "failed_cases": 120, "good_cases": 250, "stored": 700, "real_batches": 6, "reports": 30}
CPU = 300


class Planned(Exception):
    pass


def cases(tier, seed):
    out = []
    for rep in range(1 if tier == "quick" else 8):
        for i in range(10):
            out.append({"kind": "budget", "seed": "%d/%d/%d" % (seed, rep, i)})
        for i in range(6):
            out.append({"kind": "time", "seed": "%d/%d/%d" % (seed, rep, i)})
        out.append({"kind": "estimates", "seed": "%d/%d" % (seed, rep)})
        for i in range(8):
            out.append({"kind": "real", "seed": "%d/%d/%d" % (seed, rep, i)})
    return out


def same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(u - v) <= 1e-9 * max(1.0, abs(u), abs(v)) for u, v in zip(x, y)) for x, y in zip(a, b))


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.got = []

    def emit(self, rec):
        self.got.append((rec.levelno, rec.getMessage()))


def capture():
    logging.disable(logging.NOTSET)
    lg = logging.getLogger("simulation.run_parallel")
    h = Capture()
    lg.handlers[:] = [h]
    lg.propagate = False
    lg.setLevel(logging.DEBUG)
    logging.getLogger().setLevel(logging.INFO)
    for n in ("simulation.worker", "simulation.factory", ""):
        logging.getLogger(n).handlers[:] = [logging.NullHandler()]
        logging.getLogger(n).propagate = False
    logging.getLogger().handlers[:] = [h]      # progress is told to the root logger
    return h


def report_ok(obs, name, cap, log, n):
    """progress, times and totals told by the batch are those of its cases"""
    told = [m for _, m in cap.got]
    steps = [float(x.group(1)) for x in (re.search(r"progress: *([\d.]+)%", m) for m in told) if x]
    if not log:
        return
    obs.event("reports")
    obs.require(len(steps) == len(log) and all(abs(p - 100.0 * (i + 1) / len(log)) < 0.01 for i, p in enumerate(steps)), "progress",
                "%s: progress after each of %d cases was told as %r" % (name, len(log), steps[:8]))
    times = [e["out"][1] if e["out"] is not None else None for e in log]
    cpu = [float(x.group(1)) for x in (re.search(r"CPU\+user time: *([\d.]+)", m) for m in told) if x]
    obs.require(len(cpu) == 1 and abs(cpu[0] - sum(t for t in times if t is not None)) < 0.002, "cpu-time", "%s: CPU time told %r, the cases took %r" % (name, cpu, times))
    want = collections.defaultdict(float)
    for e, t in zip(log, times):
        if t is not None:
            want[(e["sim"].problem_name, e["sim"].algorithm_name)] += t / n
    rows = [x.groups() for x in (re.search(r"prob:'([^']*)' *algo:'([^']*)' *\) time: *([\d.]+)s", m) for m in told) if x]
    got = {(a, b): float(t) for a, b, t in rows}
    obs.require(len(rows) == len(got) and set(got) == set(want) and all(abs(got[k] - want[k]) < 0.002 for k in got), "running-times",
                "%s: running times told %r, the cases took %r" % (name, got, dict(want)))


def estimates(case, obs, rng):
    """the estimated finish told while a batch of long cases runs"""
    import datetime
    import simulation.run_parallel as rp
    cap = capture()
    if not hasattr(rp, "log_simulation_stats"):
        return
    for _ in range(60):
        total = rng.randint(2, 400)
        done = rng.randint(1, total)
        spent = rng.choice([5, 200, 3000, 8000, 90000, 400000]) * rng.uniform(0.3, 1.5)
        del cap.got[:]
        t0 = time.time()
        rp.log_simulation_stats(datetime.datetime.now() - datetime.timedelta(seconds=spent), done, total)
        slack = 2 + (time.time() - t0) * total / done
        line = " ".join(m for _, m in cap.got)
        x = re.search(r"progress: *([\d.]+)%.*?(\d+):(\d+):(\d+) \(at ([-\d]+ [\d:.]+)\)", line)
        if x is None:
            return
        obs.event("estimates")
        h, m, s = map(int, x.groups()[1:4])
        left = spent / done * (total - done)
        obs.require(m < 60 and s < 60 and abs(h * 3600 + m * 60 + s - left) <= slack, "estimate",
                    "%d of %d cases took %.0f s: the rest is told to take %s:%s:%s, it would take %.0f s" % (done, total, spent, h, m, s, left), line=line)
        at = datetime.datetime.strptime(x.group(5), "%Y-%m-%d %H:%M:%S.%f")
        obs.require(abs((at - datetime.datetime.now()).total_seconds() - left) <= slack, "estimate", "%d of %d cases took %.0f s: the end is told for %s" % (done, total, spent, at))
    obs.nontrivial("estimates", case["seed"])


def watch(before):
    """record every case's start and end around the real worker"""
    from simulation import worker
    log = []
    orig = worker.SimulationWorker.run

    def run(self):
        ent = {"sim": self.simulation, "out": None, "raised": None}
        log.append(ent)
        before(self.simulation)
        try:
            ent["out"] = orig(self)
            return ent["out"]
        except BaseException as e:
            ent["raised"] = e
            raise
    worker.SimulationWorker.run = run
    return log


def errors_of():
    return [ValueError("boom"), KeyError("boom"), IndexError(3), ZeroDivisionError(), AttributeError("x"), RuntimeError("r"), StopIteration(),
            OSError(28, "No space left on device"), AssertionError(), TypeError("t"), MemoryError(), Planned("p")]


def summary_ok(obs, name, cap, failed, good):
    """every failed case is named once among the errors, no good one is"""
    errs = [m for lv, m in cap.got if lv >= logging.ERROR]
    joined = [m for lv, m in cap.got]
    obs.require(any("SUMMARY" in m for m in joined), "no-summary", "%s: the batch ended without a summary" % name)

    def named(sim):
        return [m for m in errs if re.search(r"(?<![\w+])%s(?![\w+])" % re.escape(sim.problem_name), m)
                and re.search(r"(?<![\w+])%s(?![\w+])" % re.escape(sim.algorithm_name), m) and re.search(r"(?<!\d)%d(?!\d)" % sim.run_id, m.split(sim.algorithm_name)[-1])]
    for s in failed:
        obs.require(len(named(s)) == 1, "summary-failed", "%s: failed case %s/%s/%s appears %d times among the summary's errors" % (
            name, s.problem_name, s.algorithm_name, s.run_id, len(named(s))), errors=errs[:6])
    for s in good:
        obs.require(len(named(s)) == 0, "summary-good", "%s: case %s/%s/%s succeeded but is listed among the errors" % (
            name, s.problem_name, s.algorithm_name, s.run_id), errors=errs[:6])


def steps_for_budgets(inc, budgets):
    done = cost = 0
    out = []
    for b in budgets:
        while cost < b:
            cost += inc[done % len(inc)]
            done += 1
        out.append((b, done, cost))
    return out


def slots(dur, step, timeout):
    e, ends = 0.0, []
    while e < timeout:
        e += dur[len(ends) % len(dur)]
        ends.append(e)
    return len(ends), [j for j in range(step, timeout + 1, step)] if len(ends) > 1 else []


def scripted(case, obs, rng):
    from simulation import run_config, serializer
    timed = case["kind"] == "time"
    probs = [world.make_problem("sphere", "mixed", 3, 2, rng, "SYN19" + c) for c in "ab"]
    for p in probs:
        p.register()
    script.register()
    run_config.algorithms.append("SCRIPT")
    run_config.problems[:] = [p.name for p in probs]
    cap = capture()
    state = {}
    clock = script.Clock()

    def before(sim):
        key = (sim.problem_name, sim.run_id)
        plan = state["plans"][key]
        script.PLAN.clear()
        script.PLAN.update(plan)
        state["order"].append(key)
        state["made"][key] = len(script.MADE)
        clock.advance(1.0)

    log = watch(before)
    for b in range(8 if not timed else 6):
        root = os.path.join(obs.scratch, "b%d" % b)
        n = rng.choice([2, 3, 5, 8])
        budgets = sorted(rng.sample(range(5, 90), rng.choice([1, 2, 4])))
        step = rng.choice([1, 2, 3])
        timeout = step * rng.randint(2, 6)
        frac = rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
        plans, kinds, expect = {}, {}, {}
        for p in probs:
            for r in range(n):
                inc = [rng.randint(1, 9) for _ in range(rng.randint(1, 4))]
                dur = [rng.choice([0.5, 1.25, 1.75]) for _ in range(3)]
                plan = {"inc": inc, "dur": dur}
                if timed:
                    plan["clock"] = clock
                    total, names = slots(dur, step, timeout)
                else:
                    at = steps_for_budgets(inc, budgets)
                    total, names = at[-1][1], [x[0] for x in at]
                kind = "good"
                if rng.random() < frac:
                    kind = rng.choice(["init", "step", "final"] if names else ["init", "step"])
                    exc = rng.choice(errors_of())
                    if kind == "init":
                        plan["fail_init"] = exc
                    elif kind == "step":
                        plan["fail_step"], plan["fail_with"] = rng.randrange(total), exc
                    else:
                        plan["fail_final"], plan["fail_with"] = rng.randrange(len(names)), exc
                plans[p.name, r] = plan
                kinds[p.name, r] = kind
                expect[p.name, r] = [str(x) for x in names]
        state.update(plans=plans, order=[], made={})
        del cap.got[:], log[:], script.MADE[:], batch.SYSTEMS[:]
        name = "batch of %d cases, %s" % (len(plans), {k: list(kinds.values()).count(k) for k in sorted(set(kinds.values()))})
        words = (["run", "time", "-t", str(timeout), "-s", str(step)] if timed else ["run", "budget", ",".join(map(str, budgets))]) + [
            "-a", "SCRIPT", "-N", str(n), "-d", root]
        if timed:
            clock.install()
        ended = None
        try:
            batch.command(words)
        except Exception as e:
            ended = e
        finally:
            if timed:
                clock.remove()
        obs.event("batches")
        obs.event("cases", len(plans))
        obs.require(ended is None, "batch-died", "%s: the batch ended with %s: %s after %d of %d cases" % (name, type(ended).__name__, ended, len(log), len(plans)),
                    failing=[k for k in state["order"]][-1:])
        obs.require(sorted(state["order"]) == sorted(plans), "not-every-case", "%s: %d of %d cases were run" % (name, len(state["order"]), len(plans)))
        for s in batch.SYSTEMS:
            obs.require(s.stopped == 1, "actors-left", "%s: the actor system was shut down %d times" % (name, s.stopped))
        good, failed = [], []
        for ent in log:
            sim = ent["sim"]
            key = (sim.problem_name, sim.run_id)
            kind = kinds[key]
            (good if kind == "good" else failed).append(sim)
            obs.event("good_cases" if kind == "good" else "failed_cases")
            ser = serializer.Serializer(sim)
            have = sorted((os.path.splitext(f)[0] for f in os.listdir(str(ser.path))), key=int) if os.path.isdir(str(ser.path)) else []
            inst = script.MADE[state["made"][key]] if state["made"][key] < len(script.MADE) else None
            prob = [p for p in probs if p.name == sim.problem_name][0]
            costs = {}
            c = 0
            if inst is not None:
                costs = dict(inst.trace)
            if kind == "good":
                obs.require(have == expect[key], "missing-results", "%s: case %r stored %r, alone it stores %r" % (name, key, have, expect[key]))
                obs.require(ent["raised"] is None and ent["out"] is not None, "good-failed", "%s: case %r was not injected with a failure but ended with %r" % (name, key, ent["raised"]))
            else:
                obs.require(set(have) <= set(expect[key]), "extra-results", "%s: failing case %r stored %r" % (name, key, have))
                obs.require(ent["raised"] is None, "escaped", "%s: the failure of case %r (%s) escaped the worker: %r" % (name, key, kind, ent["raised"]))
            for f in have:
                obs.event("stored")
                r = ser.load(f)
                ks = [k for k, v in costs.items() if v == r.additional_data["cost"]]
                ok = [k for k in ks if inst.state_population(k) == [list(x) for x in r.population]]
                if not timed:
                    want = [x for x in steps_for_budgets(plans[key]["inc"], budgets) if str(x[0]) == f]
                    ok = [k for k in ok if want and want[0][1] == k]
                obs.require(ok, "wrong-result", "%s: result %s of case %r is not what the case stores alone" % (name, f, key))
                fit = [prob.objectives(x) for x in r.population]
                obs.require(same(r.fitnesses, fit), "wrong-fitness", "%s: result %s of case %r has wrong fitness vectors" % (name, f, key))
            if kind != "init":
                obs.require(inst is not None and inst.shutdowns == 1, "shutdown", "%s: algorithm of case %r (%s) was shut down %s times" % (
                    name, key, kind, inst.shutdowns if inst else None))
        if ended is None:
            summary_ok(obs, name, cap, failed, good)
            report_ok(obs, name, cap, log, n)
        seq = [kinds[k] == "good" for k in state["order"]]
        if True in seq and False in seq and True in seq[seq.index(False):]:
            obs.nontrivial(case["seed"], b, tuple(seq))
            obs.sample({"cases": len(seq), "failed": seq.count(False), "budgets": budgets})


def real(case, obs, rng):
    """real algorithms: the problem itself fails, or storing fails, for some of the cases"""
    from simulation import run_config, serializer
    good = world.make_problem("zdt", "unit", 4, 2, rng, "SYN19g")
    bad = world.make_problem("zdt", "unit", 4, 2, rng, "SYN19x")
    cond = world.make_problem("zdt", "unit", 4, 2, rng, "SYN19c")
    kind = rng.choice(["evaluations", "front", "dims", "storing"])
    if kind == "evaluations":
        limit = rng.choice([0, 10, 150, 250])

        def count(k, x):
            if bad.log.calls > limit:
                raise Planned("evaluation failed")
        bad.log.listeners.append(count)
    elif kind == "front":
        del bad.__dict__["pareto_front"]
    elif kind == "dims":
        bad.dims = None
    for p in (good, bad, cond):
        p.register()
    root = os.path.join(obs.scratch, "r")
    if kind == "storing":
        os.makedirs(os.path.join(root, bad.name))
        for a in ("NSGAII", "SPEA2", "OMOPSO", "JGBL", "IMGA+NSGAII", "HGS+NSGAII"):
            open(os.path.join(root, bad.name, a), "w").close()      # a file where a directory is needed
    run_config.problems[:] = [good.name, bad.name, cond.name]
    algos = rng.sample(["NSGAII", "SPEA2", "OMOPSO", "JGBL", "IMGA+NSGAII", "HGS+NSGAII"], 3)
    cap = capture()
    made = []
    log = watch(lambda sim: None)
    from simulation import factory
    inner = factory.prepare

    def prepare(a, p):
        part, mod = inner(a, p)

        def make(*args, **kw):
            d = part(*args, **kw)
            d.v_shut = 0
            made.append((a, p, d))
            orig = d.shutdown

            def shutdown():
                d.v_shut += 1
                return orig()
            d.shutdown = shutdown
            return d
        return make, mod
    factory.prepare = prepare
    n = rng.choice([1, 2])
    words = ["run", "budget", "70,160,300", "-a", ",".join(algos), "-N", str(n), "-d", root]
    name = "real batch %s, failing problem: %s" % (",".join(algos), kind)
    ended = None
    try:
        batch.command(words)
    except Exception as e:
        ended = e
    obs.event("real_batches")
    obs.event("cases", len(log))
    obs.require(ended is None, "batch-died", "%s: the batch ended with %s: %s after %d cases" % (name, type(ended).__name__, ended, len(log)))
    obs.require(len(log) == 3 * n * len(algos), "not-every-case", "%s: %d of %d cases were run" % (name, len(log), 3 * n * len(algos)))
    ok, ko = [], []
    for ent in log:
        sim = ent["sim"]
        ser = serializer.Serializer(sim)
        have = sorted((os.path.splitext(f)[0] for f in os.listdir(str(ser.path))), key=int) if os.path.isdir(str(ser.path)) else []
        if sim.problem_name != bad.name:
            obs.event("good_cases")
            obs.require(have == ["70", "160", "300"], "missing-results", "%s: %s on an intact problem stored %r" % (name, sim.algorithm_name, have))
            obs.require(ent["out"] is not None, "good-failed", "%s: %s on an intact problem failed" % (name, sim.algorithm_name))
        else:
            obs.event("failed_cases")
            obs.require(ent["raised"] is None, "escaped", "%s: failure escaped the worker: %r" % (name, ent["raised"]))
        (ok if ent["out"] is not None else ko).append(sim)
        prob = {p.name: p for p in (good, bad, cond)}[sim.problem_name]
        for f in have:
            obs.event("stored")
            r = ser.load(f)
            pop = [list(x) for x in r.population]
            obs.require(pop and same(r.fitnesses, [prob.objectives(x) for x in pop]), "wrong-result",
                        "%s: stored result of %s is inconsistent" % (name, sim.algorithm_name))
            obs.require(r.additional_data["cost"] >= int(f), "wrong-cost", "%s: result %s of %s has cost %r" % (name, f, sim.algorithm_name, r.additional_data["cost"]))
    for a, p, d in made:
        obs.require(d.v_shut == 1, "shutdown", "%s: %s on %s was shut down %d times" % (name, a, p, d.v_shut))
    if ended is None:
        summary_ok(obs, name, cap, ko, ok)
        report_ok(obs, name, cap, log, n)
    if ko and ok:
        obs.nontrivial("real", case["seed"], kind, tuple(algos))


def run_case(case, obs):
    rng = random.Random("p19/%s/%s" % (case["kind"], case["seed"]))
    batch.install()
    import evogil  # noqa
    if case["kind"] == "estimates":
        return estimates(case, obs, rng)
    (real if case["kind"] == "real" else scripted)(case, obs, rng)
