import os, random
import world, script

PID = "P08"
RULE = ("scripted algorithms with random step durations (shorter and much longer than the sampling interval, exact hits, free steps) under a virtual "
        "clock, with consumers that take time themselves; run directly and through the real time worker; plus real algorithms whose clock "
        "advances per objective call; non-trivial = run with several slots filled by different steps or one step covering several slots")
NEED = {"runs": 250, "samples": 1200, "worker_runs": 40, "stored": 150, "real_runs": 4}
CPU = 120


def cases(tier, seed):
    out = []
    for rep in range(1 if tier == "quick" else 8):
        for i in range(8):
            out.append({"kind": "direct", "seed": "%d/%d/%d" % (seed, rep, i)})
            out.append({"kind": "worker", "seed": "%d/%d/%d" % (seed, rep, i)})
        for a in ("NSGAII", "SPEA2", "OMOPSO", "NSGAIII", "JGBL", "IBEA", "HGS+NSGAII", "IMGA+SPEA2"):
            out.append({"kind": "real", "algo": a, "seed": "%d/%d" % (seed, rep)})
    return out


def durations(rng, step):
    k = rng.choice(["short", "exact", "long", "mixed", "zeros"])
    q = 0.125
    if k == "short":
        return [q * rng.randint(1, 4) for _ in range(5)]
    if k == "exact":
        return [rng.choice([step, step / 2.0, 2.0 * step])]
    if k == "long":
        return [step * rng.choice([1.5, 2.25, 3.5]), step * 2.75, 0.5]
    if k == "zeros":
        return [0, 0, 0.25, step * 1.25]
    return [q * rng.randint(1, 60) for _ in range(6)]


def expected(dur, step, timeout):
    """-> steps performed, [(slot, {allowed numbers of completed steps shown})]"""
    e, ends = 0.0, []
    while e < timeout:
        e += dur[len(ends) % len(dur)]
        ends.append(e)
    return expected_from_ends(ends, step, timeout)


def expected_from_ends(ends, step, timeout):
    slots = []
    if len(ends) < 2:
        return len(ends), slots
    j = 1
    while j * step <= timeout:
        s = j * step
        k = next(i for i, t in enumerate(ends) if t >= s) + 1      # first step ending at or after the slot
        ok = {max(1, k - 1)}
        if ends[k - 1] == s:
            ok.add(k)
        slots.append((s, ok))
        j += 1
    return len(ends), slots


def check_samples(obs, name, got, want, d, cost_of):
    obs.event("samples", len(got))
    times = [m.elapsed_time for m in got]
    obs.require(times == [s for s, _ in want], "slots", "%s: samples at %r, expected %r" % (name, times[:20], [s for s, _ in want][:20]))
    for m, (s, ok) in zip(got, want):
        shown = m.step_no + 1
        obs.require(shown in ok, "wrong-step", "%s: the sample of slot %r shows step %d, completed steps then: %r" % (name, s, shown, sorted(ok)))
        if shown in ok:
            obs.require(m.cost == cost_of(shown), "sample-cost", "%s: the sample of slot %r has cost %r instead of %r" % (name, s, m.cost, cost_of(shown)))


def direct(case, obs, rng, prob):
    from algorithms.base.driver import TimeRun
    for _ in range(40):
        step = rng.choice([1, 1, 2, 3, 5])
        timeout = rng.choice([step, step * rng.randint(1, 12), rng.randint(1, 25)])
        dur = durations(rng, step)
        clock = script.Clock()
        script.plan(inc=[rng.randint(1, 9) for _ in range(4)], dur=dur, clock=clock, cost0=rng.choice([0, 5]))
        d = script.instance(prob)
        consume = rng.choice([0, 0, 0.5, 7.0])
        got, end, early = [], [], []

        def on_next(m):
            got.append(m)
            if sum(dur[i % len(dur)] for i in range(d.done)) < m.elapsed_time:
                early.append(m.elapsed_time)
            clock.advance(consume)

        clock.install()
        try:
            TimeRun(step, timeout).create_job(d).subscribe(on_next, lambda e: end.append(e), lambda: end.append("done"))
        finally:
            clock.remove()
        obs.event("runs")
        n, want = expected(dur, step, timeout)
        name = "step=%r timeout=%r durations=%r consumer=%r" % (step, timeout, dur, consume)
        obs.require(end == ["done"], "not-completed", "%s: ended with %r" % (name, end))
        obs.require(d.done == n, "steps", "%s: %d steps performed, expected %d" % (name, d.done, n))
        obs.require(not early, "early-sample", "%s: samples %r emitted before that much search time had passed" % (name, early))
        costs = dict(d.trace)
        check_samples(obs, name, got, want, d, lambda k: costs.get(k))
        if len(want) > 1:
            obs.nontrivial(step, timeout, dur)
            obs.sample({"step": step, "timeout": timeout, "dur": dur, "slots": len(want), "steps": n})


def worker(case, obs, rng, prob):
    from simulation.model import SimulationCase
    from simulation.worker import TimeWorker
    from simulation.serializer import Serializer
    for j in range(8):
        step = rng.choice([1, 2, 3])
        timeout = step * rng.randint(1, 8) + rng.choice([0, 0, 1])
        dur = durations(rng, step)
        clock = script.Clock()
        script.plan(inc=[rng.randint(1, 9) for _ in range(4)], dur=dur, clock=clock, final_dur=rng.choice([0, 0.5, 4.0]))
        root = os.path.join(obs.scratch, "t%d" % j)
        sim = SimulationCase(prob.name, "SCRIPT", j + 1, None, root, timeout=timeout, sampling_interval=step)
        clock.install()
        try:
            TimeWorker(sim, j).run()
        finally:
            clock.remove()
        obs.event("worker_runs")
        d = script.MADE[-1]
        n, want = expected(dur, step, timeout)
        name = "step=%r timeout=%r durations=%r" % (step, timeout, dur)
        obs.require(d.done == n, "worker-steps", "%s: %d steps performed, expected %d" % (name, d.done, n))
        have = sorted(int(os.path.splitext(os.path.basename(f))[0]) for f in script.stored_files(root))
        obs.require(have == [s for s, _ in want], "stored-set", "%s: results stored for %r, expected %r" % (name, have, [s for s, _ in want]))
        costs = dict(d.trace)
        ends, e = [], 0.0
        for i in range(d.done):
            e += dur[i % len(dur)]
            ends.append(e)
        ser = Serializer(sim)
        for s, ok in want:
            if s not in have:
                continue
            obs.event("stored")
            r = ser.load(str(s))
            c = r.additional_data["cost"]
            pop = [list(x) for x in r.population]
            good = [k for k in ok if costs[k] == c and d.state_population(k) == pop]
            if not good:
                running = max(2, next(i for i, t in enumerate(ends) if t >= s) + 1)
                if costs[running] == c and d.state_population(running) == pop:
                    obs.violate("stored-running-step", "%s: the result stored for slot %r is the state after step %d, which ended later" % (name, s, running))
                else:
                    obs.violate("stored-wrong-state", "%s: the result stored for slot %r (cost %r) belongs to no allowed state" % (name, s, c), ok=ok, costs=d.trace[:20])
            obs.check()
        if len(want) > 1:
            obs.nontrivial("w", step, timeout, dur)


def real(case, obs, rng, prob):
    from simulation import factory
    from simulation.model import SimulationCase
    from simulation.worker import TimeWorker
    clock = script.Clock()
    prob.log.listeners.append(lambda k, x: clock.advance(1 / 128.0))
    ends, costs, made = [], [], []
    inner = factory.prepare

    def prepare(a, p):
        part, mod = inner(a, p)

        def make(*args, **kw):
            d = part(*args, **kw)
            made.append(d)
            orig = d.next_step

            def next_step():
                t = clock.now
                m = orig()
                ends.append((ends[-1] if ends else 0.0) + clock.now - t)
                costs.append(d.cost)
                return m
            d.next_step = next_step
            return d
        return make, mod

    factory.prepare = prepare
    step, timeout = rng.choice([(1, 4), (2, 7), (1, 6)])
    if case["algo"] == "IBEA":
        step, timeout = 60, 400
    root = os.path.join(obs.scratch, "r")
    sim = SimulationCase(prob.name, case["algo"], 3, None, root, timeout=timeout, sampling_interval=step)
    clock.install()
    try:
        TimeWorker(sim, 0).run()
    finally:
        clock.remove()
    have = sorted(int(os.path.splitext(os.path.basename(f))[0]) for f in script.stored_files(root))
    slots = [s for s in range(step, timeout + 1, step)]
    name = case["algo"]
    if made:
        obs.event("real_runs")
        n, want = expected_from_ends(ends, step, timeout)
        obs.require(have == [s for s, _ in want], "stored-set", "%s: results stored for %r, expected %r" % (name, have, [s for s, _ in want]), ends=ends)
        obs.require(ends[-1] >= timeout and (len(ends) < 2 or ends[-2] < timeout), "steps", "%s: stopped after %r of %r" % (name, ends[-2:], timeout))
    else:
        obs.require(set(have) <= set(slots), "stored-set", "%s: results stored for %r" % (name, have))
    if len(have) > 1:
        obs.nontrivial("real", name, step, timeout, case["seed"])


def run_case(case, obs):
    rng = random.Random("%s/%s/%s" % (case["seed"], case["kind"], case.get("algo")))
    prob = world.make_problem("zdt", "unit", 4, 2, rng, "SYN8")
    prob.register()
    script.register()
    {"direct": direct, "worker": worker, "real": real}[case["kind"]](case, obs, rng, prob)
