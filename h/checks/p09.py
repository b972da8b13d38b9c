import copy, random
import world, drive

PID = "P09"
RULE = ("every algorithm alone (plain messages) and nested in both meta-algorithms (population messages observed at the injected driver boundary), "
        "for 5..30 steps; each message checked when emitted and again after later steps; a run in which messages are built twice is compared with "
        "the state before; non-trivial = at least 3 consecutive messages of one driver checked, with changing populations")
NEED = {"messages": 150, "nested_messages": 300, "late_checks": 250, "extra_emissions": 150}
CPU = 120


def cases(tier, seed):
    out = []
    for rep in range(2 if tier == "quick" else 12):
        for a in world.BASE_DRIVERS:
            for meta in ("", "HGS+", "IMGA+"):
                out.append({"algo": meta + a, "seed": "%d/%d" % (seed, rep)})
    return out


class Watch:
    def __init__(self, obs, name):
        self.obs, self.name = obs, name
        self.last = {}
        self.kept = []
        self.pops = {}

    def see(self, key, d, msg, nested):
        obs, name = self.obs, self.name
        obs.event("nested_messages" if nested else "messages")
        want = self.last.get(key, -1) + 1
        obs.require(msg.step_no == want, "message-step", "%s: message number %r after %r" % (name, msg.step_no, want - 1), want=want)
        obs.require(d.step_no == want + 1, "step-counter", "%s: step counter is %r after %d steps" % (name, d.step_no, want + 1))
        self.last[key] = want
        obs.require(msg.cost == d.cost, "message-cost", "%s: message cost %r, algorithm cost %r" % (name, msg.cost, d.cost))
        pop = None
        if nested:
            pop = [tuple(x) for x in msg.population]
            holds = [tuple(x) for x in d.population]
            obs.require(pop == holds, "message-population", "%s: message population is not the algorithm's population" % name,
                        n_msg=len(pop), n_pop=len(holds))
        self.kept.append((msg, msg.step_no, msg.cost, pop))
        if len(self.kept) > 60:
            self.late(self.kept.pop(0))
        self.pops.setdefault(key, set()).add(tuple(pop) if pop else msg.cost)

    def late(self, k):
        msg, s, c, pop = k
        self.obs.event("late_checks")
        self.obs.require(msg.step_no == s and msg.cost == c, "message-changed", "%s: a message changed after later steps" % self.name, was=(s, c))
        if pop is not None:
            now = [tuple(x) for x in msg.population]
            self.obs.require(now == pop, "message-population-changed", "%s: the population in a message changed after later steps" % self.name,
                             changed=sum(1 for a, b in zip(now, pop) if a != b), sizes=(len(now), len(pop)))


def extra(obs, d, name):
    """building a message must not change the search"""
    before = ([tuple(x) for x in d.population] if hasattr(type(d), "population") else None, d.cost, d.step_no)
    m1 = d.message_adapter.emit_result()
    m2 = d.message_adapter.emit_result()
    obs.event("extra_emissions")
    after = ([tuple(x) for x in d.population] if before[0] is not None else None, d.cost, d.step_no)
    obs.require(before == after, "emission-side-effect", "%s: building a message changed the algorithm" % name, before=before[1:], after=after[1:])
    obs.require(m1.step_no == m2.step_no == d.step_no and m1.cost == m2.cost == d.cost, "emission-differs", "%s: two messages of one state differ" % name)
    if getattr(m1, "population", None) is not None:
        obs.require([tuple(x) for x in m1.population] == before[0] == [tuple(x) for x in m2.population],
                    "message-population", "%s: message population is not the algorithm's population" % name)


def run_case(case, obs):
    rng = random.Random("%s/%s" % (case["seed"], case["algo"]))
    algo = case["algo"]
    prob = world.make_problem(rng.choice(["sphere", "zdt"]), "unit", 4, 2, rng, "SYN9")
    w = Watch(obs, algo)
    P = 33 if "+" in algo else 12
    drv, rec = drive.build(algo, prob, pop=world.random_population(P, prob.dims, rng))
    drv.max_budget = 3000
    if rec:
        def on_step(n, d, m):
            w.see(("node", n), d, m, True)
            if rng.random() < 0.3:
                extra(obs, d, algo)
        rec.on_step = on_step
    steps = rng.choice([5, 12, 30]) if "+" not in algo else (6 if algo.startswith("HGS") else 4)
    if "NSLS" in algo:
        steps = min(steps, 8)
    for s in range(steps):
        if rng.random() < 0.4 and "+" not in algo:
            extra(obs, drv, algo)
        m = drv.next_step()
        obs.require(m is not None, "no-message", "%s: a step returned no message" % algo)
        if m is None:
            return
        w.see("top", drv, m, False)
        if rng.random() < 0.3:
            drive.final(drv)
    for k in w.kept:
        w.late(k)
    for key, p in w.pops.items():
        if len(p) >= 3:
            obs.nontrivial(algo, case["seed"], key)
    obs.sample({"algo": algo, "steps": steps, "drivers": len(w.last)})
