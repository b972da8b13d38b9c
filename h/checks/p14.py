import collections, contextlib, io, math, random
import world, drive, actors_fake
from checks.p13 import o_volume, fits
from treerules import mean, dist, decide, judge_sprouts, walker
actors_fake.install()

PID = "P14"
RULE = ("distributed hierarchic search (real supervisor, node and driver code) on an in-process actor system whose scheduler picks, message by message, which "
        "(sender, receiver) queue delivers next: uniformly, newest first, oldest first, one actor starved, one actor served until idle, and mixtures; real "
        "algorithms and scripted drivers, random level settings; non-trivial = distinct order of deliveries of one round with more than one choice")
NEED = {"rounds": 250, "deliveries": 20000, "nodes": 300, "sprouted": 150, "stops": 100, "revivals": 3, "deep_nodes": 30, "shutdowns": 20, "crowded": 1, "close_pairs": 10, "sibling_rounds": 8}
CPU = 240
POLICIES = ["random", "newest", "oldest", "starve", "stay", "mixed"]


def cases(tier, seed):
    out = []
    for rep in range(2 if tier == "quick" else 16):
        for i, p in enumerate(POLICIES):
            for a in ("NSGAII", "SPEA2", "OMOPSO", "NSGAIII", "JGBL", "SMSEMOA", "IBEA"):
                if a in ("SMSEMOA", "IBEA") and (i + rep) % 3:
                    continue
                out.append({"algo": a, "policy": p, "seed": "%d/%d" % (seed, rep)})
            for k in range(6):
                out.append({"algo": "walker", "policy": p, "seed": "%d/%d/%d" % (seed, rep, k)})
        for k in range(3):
            out.append({"algo": "walker", "policy": POLICIES[(rep * 3 + k) % 6], "seed": "%d/%d/%d/many" % (seed, rep, k), "many": 1})
            out.append({"algo": "walker", "policy": POLICIES[(rep * 3 + k + 2) % 6], "seed": "%d/%d/%d/wide" % (seed, rep, k), "wide": 1})
    return out


class Recorder(drive.Recorder):
    v_shared = "recorder"


def run_case(case, obs):
    rng = random.Random("%s/%s/%s" % (case["seed"], case["algo"], case["policy"]))
    algo = case["algo"]
    many = case.get("many")
    m = 2 if algo != "walker" else rng.choice([2, 2, 3])
    prob = world.make_problem("sphere" if many else rng.choice(["sphere", "negative", "zdt", "rugged"]), rng.choice(["unit", "sym", "mixed", "shifted"]), 3, m, rng, "SYN14")
    for k, f in enumerate(prob.fitnesses):
        f.v_shared = "fitness%d" % k
    nd = len(prob.dims)
    sizes = rng.choice([(16, 10, 8), (12, 9, 8), (14, 12, 10)])
    etas = rng.choice([(10.0, 12.0, 15.0), (5.0, 20.0, 40.0)])
    cetas = rng.choice([(15.0, 20.0, 25.0), (30.0, 10.0, 5.0)])
    mrates = rng.choice([[1.0 / nd] * 3, [0.5, 0.3, 0.2]])
    crates = rng.choice([[0.9] * 3, [1.0, 0.8, 0.6]])
    bits = (64, 64, 64) if algo == "walker" else rng.choice([(8, 16, 64), (8, 20, 40)])
    lens = rng.choice([[2, 2, 2], [3, 2, 1], [1, 2, 3], [1, 1, 1]])
    ratio = rng.choice([[4.0, 8.0, 16.0], [0.5, 1.0, 2.0], [0.05, 0.05, 0.05]])
    mods = rng.choice([(1.0, 1.0, 1.0), (1.0, 0.5, 0.25), (0.2, 1.0, 3.0)])
    mult = rng.choice([(1.0, 0.08, 0.02), (1.0, 0.2, 0.1), (1.0, 0.02, 0.005)])
    spr = rng.choice([1, 2, 3])
    maxspr = rng.choice([1, 2, 4])
    maxlev = rng.choice([2, 2, 2, 1])
    if many:
        spr, maxspr, mult, ratio, lens, maxlev, sizes = 8, 40, (1.0, 0.001, 0.0001), [9.0, 9.0, 9.0], [1, 1, 1], 2, (16, 8, 4)
    if case.get("wide"):    # siblings stop together and their children would search the same place
        spr, maxspr, mult, ratio, lens, maxlev = rng.choice([2, 3]), 6, (1.0, 0.0005, rng.choice([0.2, 0.4])), [9.0, 9.0, 9.0], [1, 1, 1], 2
    ref = [50.0] * m
    cfg = dict(population_sizes=sizes, mutation_etas=etas, crossover_etas=cetas, mutation_rates=mrates, crossover_rates=crates, mantissa_bits=bits,
               metaepoch_len=list(lens), min_progress_ratio=list(ratio), comparison_multipliers=mult, sproutiveness=spr, max_sprouts_no=maxspr,
               fitness_errors=(0.0, 0.0, 0.0), max_level=maxlev, reference_point=tuple(ref), cost_modifiers=mods)
    name = "DHGS+%s under %r, seed %s" % (algo, case["policy"], case["seed"])
    pop = world.random_population(20, prob.dims, rng)
    own = {tuple(x) for x in pop}
    diag = math.sqrt(sum((b - a) ** 2 for a, b in prob.dims))
    gap = [x * diag for x in mult]

    from simulation import factory
    prob.register()
    part, _ = factory.prepare("DHGS+" + ("NSGAII" if algo == "walker" else algo), prob.name)
    rec = Recorder(walker(rng, prob, many) if algo == "walker" else part.keywords["driver"])
    system = actors_fake.use(actors_fake.FakeSystem(random.Random(rng.random()), case["policy"]))
    info = {}
    state = {"round": -1}

    def on_create(n, d, kw):
        lv = etas.index(kw["mutation_eta"]) if kw["mutation_eta"] in etas else None
        if not obs.require(lv is not None, "operator-settings", "%s: node created with mutation eta %r" % (name, kw["mutation_eta"])):
            raise Stop()
        start = [tuple(x) for x in kw["population"]]
        info[n] = {"lv": lv, "start": start, "vols": [], "held": set(), "tried": set(), "cost": 0, "actor": system.current, "delegates": [], "run": -1, "ripe": False}
        obs.event("nodes")
        if lv == 2:
            obs.event("deep_nodes")
        obs.require(len(start) == sizes[lv], "population-size", "%s: level %d node starts with %d individuals, configured %d" % (name, lv, len(start), sizes[lv]))
        for k, want in (("mutation_rate", mrates[lv]), ("crossover_eta", cetas[lv]), ("crossover_rate", crates[lv])):
            obs.require(kw[k] == want, "operator-settings", "%s: level %d node created with %s=%r, configured %r" % (name, lv, k, kw[k], want))
        obs.require(lv <= maxlev, "depth", "%s: node created on level %d" % (name, lv))
        obs.require((lv == 0) == (n == 0), "root", "%s: node %d is on level %d" % (name, n, lv))
        bad = [w for w in (world.bad_point(x, prob.dims) for x in start) if w]
        obs.require(not bad, "start-domain", "%s: a level %d node starts outside the domain: %s" % (name, lv, bad[:1]))
        x = rng.choice(start)
        b = bits[lv] + 1
        y = kw["trim_function"](list(x))
        obs.require(all(fits(v, b, dim) for v, dim in zip(y, prob.dims)), "precision", "%s: a level %d node may hold %r, more than %d binary digits" % (name, lv, y, b))
        if n == 0:
            obs.require(set(start) <= own and len(set(start)) == len(start), "root-population", "%s: the root population is not drawn from the initial one" % name)
        ad = d.message_adapter
        if hasattr(ad, "nominate_delegates"):
            orig = ad.nominate_delegates

            def nominate():
                r = orig()
                info[n]["delegates"] = [tuple(x) for x in r]
                return r

            ad.nominate_delegates = nominate

    def on_step(n, d, msg):
        info[n]["held"] = {tuple(x) for x in d.population}

    rec.on_create, rec.on_step = on_create, on_step
    prob.log.listeners.append(lambda k, x: rec.running in info and info[rec.running]["tried"].add(x))

    class Stop(Exception):
        pass

    try:
        drv = part(driver=rec, population=pop, **cfg)
        drv.max_budget = 10 ** 6
        spend(case, obs, rng, system, drv, rec, info, name, prob, many, lens, mods, ratio, maxlev, spr, maxspr, gap, ref, algo, sizes)
    except actors_fake.Hang as e:
        obs.violate("no-answer", "%s: %s" % (name, e), round=state["round"], tail=system.trace[-12:])
    except Stop:
        pass


def spend(case, obs, rng, system, drv, rec, info, name, prob, many, lens, mods, ratio, maxlev, spr, maxspr, gap, ref, algo, sizes):
    drain = rng.random() < 0.5
    total = 13 if algo not in ("SMSEMOA", "IBEA") else 7
    if many:
        total = 30
    alive = {0: True}             # node -> True / False / None (cannot be told)
    floor = list(ratio)
    todo = None
    cost = 0.0
    for r in range(total + 1):
        if many and len(info) > 72:
            total = min(total, r + 1)
        mark = len(system.trace)
        before = {n: d.v_steps for n, d in enumerate(rec.drivers())}
        known = set(info)
        if r < total:
            drv.next_step()
            obs.event("rounds")
        if drain or r == total:
            system.drain()
            obs.require(not system.inbox, "answered-twice", "%s: %d answers that nobody waits for after round %d" % (name, len(system.inbox), r))
        elif system.inbox:
            obs.violate("answered-twice", "%s: %d answers that nobody waits for after round %d" % (name, len(system.inbox), r))
        drivers = rec.drivers()
        obs.event("deliveries", len(system.trace) - mark)
        if system.max_pending > 1:
            obs.nontrivial(case["algo"], hash(tuple(system.trace[mark:])))
        ran = {n for n in info if drivers[n].v_steps > before.get(n, 0)}
        # a node asked for in one round is created, at the latest, while it takes part in the next one
        if todo is not None:
            late = [n for n in sorted(info) if n not in alive and (n in ran or r == total)]
            judge_sprouts(obs, name, todo, late, info, gap, spr, maxspr, maxlev)
            for a, b in todo["pairs"]:
                obs.event("close_pairs")
                obs.require(r == total or not (a in ran and b in ran), "redundant-kept", "%s: two active level %d nodes searching within %.6g of each other both advanced in round %d" % (
                    name, info[a]["lv"], gap[info[a]["lv"]], r))
            revived = todo["none_left"] is True and not late
            if todo["none_left"] is None and not late and r < total:      # a revival cannot be told: the next runners show it
                revived = any(alive[n] is False and n in ran for n in alive)
            if revived:
                obs.event("revivals")
                for n in list(alive):
                    if info[n]["ripe"] is True:
                        alive[n], info[n]["ripe"] = True, False
                    elif info[n]["ripe"] is None:
                        alive[n] = None
                floor = [f / 2 for f in floor]
            for n in late:
                alive[n] = True
                obs.event("sprouted")
        if r == total:
            break
        for n in ran:
            adv = drivers[n].v_steps - before.get(n, 0)
            L = lens[info[n]["lv"]]
            obs.require(adv == L, "epoch-steps", "%s: a level %d node advanced %d steps in a round, configured %d" % (name, info[n]["lv"], adv, L))
        for n, a in alive.items():
            if a is not None:
                obs.require((n in ran) == a, "wrong-nodes", "%s: a level %d node that %s in round %d" % (
                    name, info[n]["lv"], "is active did not advance" if a else "was stopped advanced", r), runners=sorted(ran), active=sorted(k for k, v in alive.items() if v))
            elif info[n]["ripe"] is None and n in ran:
                info[n]["ripe"] = False
        obs.require(ran, "stalled", "%s: no node advanced in round %d" % (name, r))
        if len(info) > 66:
            obs.event("crowded")
        # cost
        per = {}
        for n in ran:
            c = drivers[n].cost
            per[n] = mods[info[n]["lv"]] * (c - info[n]["cost"])
            info[n]["cost"] = c
            info[n]["run"] = r
        cost += max(per.values()) if per else 0
        obs.require(abs(drv.cost - cost) <= 1e-9 * max(1, cost), "cost", "%s: cost %r after round %d, the slowest nodes add up to %r" % (name, drv.cost, r, cost))
        # results
        for n in ran:
            res = [tuple(x) for x in drivers[n].finalized_population()]
            info[n]["result"] = res
            info[n]["center"] = mean(res)
            info[n]["vols"].append(o_volume([prob.objectives(x) for x in res], ref))
        want = sorted(x for n in info if "result" in info[n] for x in info[n]["result"])
        for again in range(1 + (rng.random() < 0.3)):
            got = sorted(tuple(x) for x in drv.finalized_population())
            obs.require(got == want, "result-union", "%s: the result after round %d is not the union of the nodes' populations" % (name, r), sizes=(len(got), len(want)))
        if system.inbox:
            obs.violate("answered-twice", "%s: answers that nobody waits for" % name)
        alive, todo = decide(obs, alive, ran, info, floor, gap, r, algo == "walker")
    # shutting down
    drv.shutdown()
    system.drain()
    obs.event("shutdowns")
    left = system.alive()
    obs.require(not left, "left-running", "%s: %d of %d actors still run after shutdown" % (name, len(left), len(system.actors)))
    obs.require(system.asks == system.answers, "answered-once", "%s: %d requests, %d answers" % (name, system.asks, system.answers))
    obs.sample({"policy": case["policy"], "deliveries": system.delivered, "nodes": len(info), "levels": dict(collections.Counter(i["lv"] for i in info.values())), "at_once": system.max_pending})
