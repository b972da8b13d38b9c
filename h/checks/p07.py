import os, random
import world, drive, script

PID = "P07"
RULE = ("scripted algorithms with random cost schedules (free steps, huge steps, exact hits, budgets reached in advance) run under budget and step "
        "limits directly and through the real budget worker, plus real algorithms and combinations through the worker with stored files read back; "
        "non-trivial = run with at least two budgets separated by at least one step")
NEED = {"budget_runs": 300, "steps_runs": 60, "worker_runs": 60, "stored_results": 200, "real_stored": 20}
CPU = 150


def cases(tier, seed):
    out = []
    k = 1 if tier == "quick" else 8
    for rep in range(k):
        for i in range(8):
            out.append({"kind": "direct", "seed": "%d/%d/%d" % (seed, rep, i)})
        for i in range(8):
            out.append({"kind": "worker", "seed": "%d/%d/%d" % (seed, rep, i)})
        for a in world.BASE_DRIVERS:
            out.append({"kind": "real", "algo": a, "seed": "%d/%d" % (seed, rep)})
        for a in ("HGS+NSGAII", "HGS+SPEA2", "IMGA+NSGAII", "IMGA+OMOPSO", "HGS+OMOPSO", "IMGA+SPEA2"):
            out.append({"kind": "real", "algo": a, "seed": "%d/%d" % (seed, rep)})
    return out


def schedule(rng):
    k = rng.choice(["unit", "const", "mixed", "zeros", "huge", "float"])
    if k == "unit":
        return [1]
    if k == "const":
        return [rng.choice([3, 10, 64])]
    if k == "mixed":
        return [rng.randint(1, 40) for _ in range(7)]
    if k == "zeros":
        return [rng.choice([0, 0, 0, 5, 17]) for _ in range(6)] + [1]
    if k == "huge":
        return [1, 2, 500]
    return [rng.choice([0.5, 1.25, 3.75, 8.0]) for _ in range(5)]


def budgets_for(rng):
    b = set()
    for _ in range(rng.randint(1, 6)):
        b.add(rng.choice([rng.randint(1, 40), rng.randint(40, 400), 10 * rng.randint(1, 40), 64]))
    return sorted(b)


def expected(inc, cost0, budgets):
    """independent simulation: (steps done, cost) when each budget is reported"""
    done, cost, out = 0, cost0, []
    for b in budgets:
        while cost < b:
            cost += inc[done % len(inc)]
            done += 1
        out.append((done, cost))
    return out


def collect(job):
    got, end = [], []
    job.subscribe(got.append, lambda e: end.append(("error", e)), lambda: end.append("done"))
    return got, end


def direct(case, obs, rng, prob):
    from algorithms.base.driver import BudgetRun, StepsRun
    for _ in range(40):
        inc = schedule(rng)
        cost0 = rng.choice([0, 0, 0, 64, 7])
        budgets = budgets_for(rng)
        if rng.random() < 0.2:
            budgets = sorted(set(budgets + [cost0])) if cost0 else [0] + budgets
        script.plan(inc=inc, cost0=cost0)
        d = script.instance(prob)
        want = expected(inc, cost0, budgets)
        prev = 0
        for b, (wd, wc) in zip(budgets, want):
            got, end = collect(BudgetRun(b).create_job(d))
            obs.event("budget_runs")
            obs.require(end == ["done"], "not-completed", "budget run ended with %r" % (end,), b=b, inc=inc)
            obs.require(d.done == wd and d.cost == wc, "wrong-stop", "budget %r: %d steps and cost %r instead of %d and %r" % (b, d.done, d.cost, wd, wc),
                        inc=inc, cost0=cost0, budgets=budgets)
            obs.require([m.step_no for m in got] == list(range(prev, wd)), "messages", "budget %r: messages of steps %r, expected %d..%d" % (b, [m.step_no for m in got][:20], prev, wd - 1),
                        inc=inc, cost0=cost0)
            obs.require([m.cost for m in got] == [c for k, c in d.trace[prev:wd]], "message-cost", "budget %r: message costs differ from the costs after the steps" % b)
            prev = wd
        if len(set(w[0] for w in want)) > 1:
            obs.nontrivial("direct", inc, cost0, budgets)
        n = rng.choice([0, 1, 2, rng.randint(3, 30)])
        script.plan(inc=inc, cost0=cost0)
        d = script.instance(prob)
        if rng.random() < 0.5:
            # an algorithm that was told its budget; a run of steps is not limited by it
            d.max_budget = rng.choice([1, 10, 100])
        total = 0
        for n in (n, rng.randint(0, 5)):
            got, end = collect(StepsRun(n).create_job(d))
            obs.event("steps_runs")
            total += n
            obs.require(end == ["done"] and d.done == total and len(got) == n, "steps-run",
                        "run of %d steps: %d steps performed in total (expected %d), %d messages, end %r" % (n, d.done, total, len(got), end))
            obs.require([m.step_no for m in got] == list(range(total - n, total)), "steps-run-messages", "run of %d steps: messages %r" % (n, [m.step_no for m in got][:20]))


def check_files(obs, prob, root, sim, budgets, states, name):
    """states: {budget: (cost, population)} expected; None where unknown"""
    from simulation.serializer import Serializer
    ser = Serializer(sim)
    files = script.stored_files(root)
    want = {"%d" % b for b in budgets}
    have = [os.path.splitext(os.path.basename(f))[0] for f in files]
    obs.require(sorted(have) == sorted(want), "stored-set", "%s: stored %r for budgets %r" % (name, sorted(files)[:8], budgets))
    res = {}
    last = None
    for b in budgets:
        if str(b) not in have:
            continue
        obs.event("stored_results")
        r = ser.load(str(b))
        res[b] = r
        t = os.stat(str(ser.get_result_path(str(b)))).st_mtime_ns
        obs.require(last is None or t >= last, "stored-order", "%s: result of budget %d stored before a smaller budget" % (name, b))
        last = t
        if states is not None:
            cost, pop = states[b]
            obs.require(r.additional_data["cost"] == cost, "stored-cost", "%s: budget %d stored with cost %r, the run had %r" % (name, b, r.additional_data["cost"], cost))
            obs.require([list(x) for x in r.population] == pop, "stored-population", "%s: budget %d stored with a population of another state" % (name, b))
    return res


def worker(case, obs, rng, prob):
    from simulation.model import SimulationCase
    from simulation.worker import BudgetWorker
    for j in range(10):
        inc = schedule(rng)
        cost0 = rng.choice([0, 0, 64])
        budgets = budgets_for(rng)
        script.plan(inc=inc, cost0=cost0)
        root = os.path.join(obs.scratch, "w%d" % j)
        sim = SimulationCase(prob.name, "SCRIPT", j + 1, None, root, budgets=list(budgets))
        BudgetWorker(sim, j).run()
        obs.event("worker_runs")
        obs.require(len(script.MADE) == 1, "instances", "%d algorithm instances created for one run" % len(script.MADE))
        d = script.MADE[-1]
        want = expected(inc, cost0, budgets)
        states = {b: (c, d.state_population(k)) for b, (k, c) in zip(budgets, want)}
        obs.require(d.done == want[-1][0], "worker-steps", "worker performed %d steps, expected %d" % (d.done, want[-1][0]), inc=inc, budgets=budgets)
        obs.require(d.max_budget == budgets[-1], "max-budget", "algorithm was told %r as its largest budget instead of %r" % (d.max_budget, budgets[-1]))
        check_files(obs, prob, root, sim, budgets, states, "scripted run")
        if len(set(w[0] for w in want)) > 1:
            obs.nontrivial("worker", inc, cost0, budgets)
            obs.sample({"inc": inc[:6], "budgets": budgets, "stops": want})


def real(case, obs, rng, prob):
    from simulation import factory
    from simulation.model import SimulationCase
    from simulation.worker import BudgetWorker
    algo = case["algo"]
    trace = []
    made = []
    inner = factory.prepare

    def prepare(a, p):
        part, mod = inner(a, p)

        def make(*args, **kw):
            d = part(*args, **kw)
            made.append(d)
            trace.append(d.cost)
            orig = d.next_step

            def next_step():
                m = orig()
                trace.append(d.cost)
                return m
            d.next_step = next_step
            return d
        return make, mod

    factory.prepare = prepare
    hi = 150 if algo == "IBEA" else (900 if "NSLS" in algo else 420)
    base = 64 if "+" not in algo else 1
    budgets = sorted(set(rng.sample(range(base, hi), 3) + rng.choice([[], [1], [64]])))
    root = os.path.join(obs.scratch, "r")
    sim = SimulationCase(prob.name, algo, 3, None, root, budgets=list(budgets))
    BudgetWorker(sim, 0).run()
    factory.prepare = inner
    res = check_files(obs, prob, root, sim, budgets, None, algo)
    obs.event("real_stored", len(res))
    last = -1
    for b in budgets:
        if b not in res:
            continue
        c = res[b].additional_data["cost"]
        obs.require(c >= b, "stopped-early", "%s: budget %d reported at cost %r" % (algo, b, c))
        obs.require(c >= last, "cost-order", "%s: budget %d reported with cost %r after %r" % (algo, b, c, last))
        last = c
        if trace:
            first = next((t for t in trace if t >= b), None)
            obs.event("real_traced")
            obs.require(c == first, "wrong-stop", "%s: budget %d stored at cost %r, the first cost reaching it was %r" % (algo, b, c, first), trace=trace[:40])
    if trace and res:
        obs.require(trace[-1] == last, "extra-steps", "%s: the search went on to cost %r after the last report at %r" % (algo, trace[-1], last))
        obs.require(len(made) == 1, "instances", "%s: %d instances for one run" % (algo, len(made)))
    if len(set(r.additional_data["cost"] for r in res.values())) > 1:
        obs.nontrivial("real", algo, budgets, case["seed"])


def run_case(case, obs):
    rng = random.Random("%s/%s/%s" % (case["seed"], case["kind"], case.get("algo")))
    prob = world.make_problem("zdt" if case["kind"] == "real" else "sphere", "unit", 4, 2, rng, "SYN7")
    prob.register()
    script.register()
    {"direct": direct, "worker": worker, "real": real}[case["kind"]](case, obs, rng, prob)
