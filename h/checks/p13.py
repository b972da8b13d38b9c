import collections, math, random
import world, drive
from treerules import mean, dist, decide, judge_sprouts, walker

PID = "P13"
RULE = ("hierarchic search over every base algorithm with random level settings (sizes, operators, precision, epoch lengths, sprout limits, distances, "
        "error levels, depth) run and over scripted drivers for many rounds on landscapes of both signs; nodes are seen at the injected driver boundary; non-trivial = round in "
        "which a node stopped or sprouted")
NEED = {"rounds": 400, "nodes": 400, "sprouted": 200, "stops": 100, "revivals": 4, "deep_nodes": 60, "run_checks": 1500, "close_pairs": 15, "precision_checks": 3000, "fitness_checks": 500}
CPU = 240


def cases(tier, seed):
    out = []
    for rep in range(3 if tier == "quick" else 24):
        for a in world.BASE_DRIVERS:
            for v in range(4 if a in ("NSGAII", "SPEA2", "OMOPSO", "NSGAIII", "JGBL") else 2):
                out.append({"algo": a, "v": v, "seed": "%d/%d" % (seed, rep)})
        for k in range(8):
            out.append({"algo": "walker", "v": k % 4, "seed": "%d/%d/%d" % (seed, rep, k)})
        for k in range(2):
            out.append({"algo": "walker", "v": 0, "seed": "%d/%d/%d/many" % (seed, rep, k), "many": 1})
            out.append({"algo": "walker", "v": k, "seed": "%d/%d/%d/wide" % (seed, rep, k), "wide": 1})
    return out


def o_volume(objs, ref):
    """volume dominated by objs within ref, 2 or 3 objectives, sweep"""
    pts = [o for o in objs if all(a < r for a, r in zip(o, ref))]
    if not pts:
        return 0.0
    if len(ref) == 2:
        v, best = 0.0, ref[1]
        for a, b in sorted(map(tuple, pts)):
            if b < best:
                v += (ref[0] - a) * (best - b)
                best = b
        return v
    v = 0.0
    zs = sorted(set(p[-1] for p in pts)) + [ref[-1]]
    for z, nz in zip(zs, zs[1:]):
        v += o_volume([p[:-1] for p in pts if p[-1] <= z], ref[:-1]) * (nz - z)
    return v


def fits(x, bits, dim):
    """x needs at most `bits` significant binary digits, or was stopped at a bound"""
    if x == dim[0] or x == dim[1] or x == 0:
        return True
    m, e = math.frexp(abs(x))
    y = m * 2.0 ** bits if bits < 60 else 0.0
    return y == int(y)


def run_case(case, obs):
    rng = random.Random("%s/%s/%s" % (case["seed"], case["algo"], case["v"]))
    algo = case["algo"]
    m = rng.choice([2, 2, 3])
    shape = ["sphere", "negative", "zdt", "rugged"][case["v"]]
    prob = world.make_problem(shape, rng.choice(["unit", "sym", "mixed", "shifted"]), rng.choice([3, 4]), m, rng, "SYN13")
    n_dim = len(prob.dims)
    slow = algo in ("IBEA", "NSLS", "SMSEMOA")
    sizes = rng.choice([(16, 10, 8), (14, 9, 8), (12, 12, 10)])
    etas = rng.choice([(10.0, 12.0, 15.0), (5.0, 20.0, 40.0)])
    cetas = rng.choice([(15.0, 20.0, 25.0), (30.0, 10.0, 5.0)])
    mrates = rng.choice([[1.0 / n_dim] * 3, [0.5, 0.3, 0.2]])
    crates = rng.choice([[0.9] * 3, [1.0, 0.8, 0.6]])
    bits = rng.choice([(4, 16, 64), (8, 20, 40), (6, 10, 53)])
    lens = rng.choice([[2, 2, 2], [3, 2, 1], [1, 2, 3]]) if not slow else rng.choice([[2, 1, 1], [1, 2, 1]])
    ratio = rng.choice([[4.0, 8.0, 16.0], [0.5, 1.0, 2.0], [0.05, 0.05, 0.05]])
    mult = rng.choice([(1.0, 0.08, 0.02), (1.0, 0.2, 0.1), (1.0, 0.02, 0.005)])
    spr = rng.choice([1, 2, 3])
    maxspr = rng.choice([1, 2, 4])
    errs = rng.choice([(0.0, 0.0, 0.0), (0.0, 0.0, 0.0), (0.05, 0.01, 0.0)])
    maxlev = rng.choice([2, 2, 2, 1])
    many = case.get("many")
    if many:
        spr, maxspr, mult, ratio, lens, maxlev, sizes = 8, 40, (1.0, 0.001, 0.0001), [9.0, 9.0, 9.0], [1, 1, 1], 2, (16, 8, 4)
    if case.get("wide"):
        spr, maxspr, mult, ratio, lens, maxlev = rng.choice([2, 3]), 6, (1.0, 0.0005, rng.choice([0.2, 0.4])), [9.0, 9.0, 9.0], [1, 1, 1], 2
    if algo == "walker":
        bits = (64, 64, 64)
    ref = [50.0] * m
    cfg = dict(population_sizes=sizes, mutation_etas=etas, crossover_etas=cetas, mutation_rates=mrates, crossover_rates=crates, mantissa_bits=bits,
               metaepoch_len=list(lens), min_progress_ratio=list(ratio), comparison_multipliers=mult, sproutiveness=spr, max_sprouts_no=maxspr,
               fitness_errors=errs, max_level=maxlev, reference_point=tuple(ref))
    pop = world.random_population(24, prob.dims, rng)
    own = {tuple(x) for x in pop}
    name = "HGS+%s %s" % (algo, {k: v for k, v in cfg.items() if k != "reference_point"})
    if algo == "walker":
        prob.register()
        from simulation import factory
        rec = drive.Recorder(walker(rng, prob, many))
        drv = factory.prepare("HGS+NSGAII", prob.name)[0](driver=rec, population=pop, **cfg)
    else:
        drv, rec = drive.build("HGS+" + algo, prob, pop=pop, **cfg)
    drv.max_budget = 10 ** 6
    diag = math.sqrt(sum((b - a) ** 2 for a, b in prob.dims))
    gap = [x * diag for x in mult]
    info = {}          # node number -> dict

    def level_of(kw):
        return etas.index(kw["mutation_eta"])

    def on_create(n, d, kw):
        lv = level_of(kw) if kw["mutation_eta"] in etas else None
        obs.require(lv is not None, "operator-settings", "%s: node created with mutation eta %r" % (name, kw["mutation_eta"]))
        if lv is None:
            return
        start = [tuple(x) for x in kw["population"]]
        info[n] = {"lv": lv, "start": start, "held": set(start), "tried": set(), "vols": [], "delegates": [], "ripe": False, "slow": False}
        obs.event("nodes")
        if lv == 2:
            obs.event("deep_nodes")
        obs.require(len(start) == sizes[lv], "population-size", "%s: level %d node starts with %d individuals, configured %d" % (name, lv, len(start), sizes[lv]))
        for k, want in (("mutation_rate", mrates[lv]), ("crossover_eta", cetas[lv]), ("crossover_rate", crates[lv])):
            obs.require(kw[k] == want, "operator-settings", "%s: level %d node created with %s=%r, configured %r" % (name, lv, k, kw[k], want))
        obs.require(lv <= maxlev, "depth", "%s: node created on level %d" % (name, lv))
        obs.require((lv == 0) == (n == 0), "root", "%s: node %d is on level %d" % (name, n, lv))
        if n == 0:
            obs.require(set(start) <= own and len(set(start)) == len(start), "root-population", "%s: the root population is not drawn from the initial one" % name)
        # with no configured error, nodes see the true objectives
        for x in start[:2] + rng.sample(start, 2):
            for k, f in enumerate(kw["fitnesses"]):
                c = prob.log.calls
                got, true = f(list(x)), prob.raw[k](list(x))
                obs.event("fitness_checks")
                tol = errs[lv] * abs(true) / 3.0 * 7 if errs[lv] else 0.0
                obs.require(abs(got - true) <= tol + 1e-12 * abs(true), "node-objective", "%s: a level %d node (error %r) sees objective value %r where the problem gives %r" % (name, lv, errs[lv], got, true))
        ad = d.message_adapter
        if hasattr(ad, "nominate_delegates"):
            orig = ad.nominate_delegates

            def nominate():
                r = orig()
                info[n]["delegates"] = [tuple(x) for x in r]
                return r

            ad.nominate_delegates = nominate

    rounds = []

    def on_eval(k, x):
        if rec.running is not None and rec.running in info:
            info[rec.running]["tried"].add(x)
    prob.log.listeners.append(on_eval)

    def on_step(n, d, msg):
        lv = info[n]["lv"]
        info[n]["held"] = {tuple(x) for x in d.population}
        b = bits[lv] + 1        # the leading digit is implicit
        bad = [x for p in info[n]["held"] for x, dim in zip(p, prob.dims) if not fits(x, b, dim)]
        obs.event("precision_checks", len(info[n]["held"]))
        obs.require(not bad, "precision", "%s: a level %d node holds coordinate %r, more than %d binary digits" % (name, lv, bad[:1], b))

    rec.on_create = on_create
    rec.on_step = on_step
    # nodes created during construction
    for n, (d, kw) in enumerate(rec.created):
        on_create(n, d, kw)
    ds = rec.drivers
    alive = {0: True}          # node -> True / False / None (cannot be told)
    floor = list(ratio)
    total = 9 if slow else 30 if algo == "walker" else 14
    kept = [0, 0]
    todo = None
    for r in range(total):
        if len(info) > 80:
            break
        known = set(info)
        before = {n: d.v_steps for n, d in enumerate(ds())}
        drv.next_step()
        rounds.append(r)
        obs.event("rounds")
        ran = set()
        for n, s in before.items():
            adv = ds()[n].v_steps - s
            L = lens[info[n]["lv"]]
            obs.require(adv in (0, L), "epoch-steps", "%s: a level %d node advanced %d steps in a round, configured %d" % (name, info[n]["lv"], adv, L))
            if adv:
                ran.add(n)
        fresh = sorted(set(info) - known)
        for n in fresh:
            obs.require(ds()[n].v_steps == 0, "epoch-steps", "%s: a node ran in the round that created it" % name)
        obs.require(ran, "stalled", "%s: no node advanced in round %d" % (name, r))
        # who was to run
        if todo is not None:
            for a, b in todo["pairs"]:
                obs.event("close_pairs")
                obs.require(not (a in ran and b in ran), "redundant-active", "%s: two active level %d nodes searching within %.6g of each other both advanced in round %d" % (
                    name, info[a]["lv"], gap[info[a]["lv"]], r))
            if todo["none_left"] is None and not todo["late"]:
                if any(alive[n] is False and n in ran for n in alive):      # a revival that could not be told: the runners show it
                    revive(info, alive)
                    floor = [f / 2 for f in floor]
                    obs.event("revivals")
        for n, a in alive.items():
            if a is not None:
                obs.event("run_checks")
                obs.require((n in ran) == a, "wrong-nodes", "%s: a level %d node that %s in round %d" % (
                    name, info[n]["lv"], "is active did not advance" if a else "was stopped advanced", r), runners=sorted(ran), active=sorted(k for k, v in alive.items() if v))
            elif info[n]["ripe"] is None and n in ran:
                info[n]["ripe"] = False
        # results and volumes of nodes that ran
        for n in ran:
            res = [tuple(x) for x in ds()[n].finalized_population()]
            info[n]["result"] = res
            info[n]["center"] = mean(res)
            info[n]["vols"].append(o_volume([prob.objectives(x) for x in res], ref))
        want = sorted(x for n in info if "result" in info[n] for x in info[n]["result"])
        got = [tuple(x) for x in drv.finalized_population()]
        obs.require(sorted(got) == want, "result-union", "%s: the result is not the union of the nodes' populations" % name, sizes=(len(got), len(want)))
        obs.require(sorted(tuple(x) for x in drv.finalized_population()) == want, "result-union", "%s: a second request for the result differs" % name)
        cost = sum(d.cost for n, d in enumerate(ds()) if d.v_steps)
        obs.require(abs(drv.cost - cost) <= 1e-6 * max(1, cost), "cost-sum", "%s: cost %r, nodes report %r" % (name, drv.cost, cost))
        # who stops, and who sprouts
        alive, todo = decide(obs, alive, ran, info, floor, gap, r, algo == "walker")
        todo["late"] = fresh
        judge_sprouts(obs, name, todo, fresh, info, gap, spr, maxspr, maxlev, among_new=False, idle_line=True)
        obs.event("sprouted", len(fresh))
        for n in fresh:
            alive[n] = True
            head = info[n]["start"][0]
            for x in info[n]["start"][1:]:
                kept[0] += sum(1 for a, b in zip(x, head) if a == b)
                kept[1] += n_dim
        if todo["none_left"] is True and not fresh:
            revive(info, alive)
            floor = [f / 2 for f in floor]
            obs.event("revivals")
        if fresh or any(info[n]["slow"] for n in ran):
            obs.nontrivial(algo, case["v"], case["seed"], r)
    if kept[1] > 400:
        want = 1 - max(mrates[1:])
        obs.require(kept[0] / float(kept[1]) > want - 0.25, "sprout-spread", "%s: only %.0f%% of the coordinates of sprouted populations are those of the individual they start from" % (name, 100.0 * kept[0] / kept[1]))
    obs.sample({"cfg": {k: v for k, v in cfg.items() if k in ("sproutiveness", "max_sprouts_no", "metaepoch_len")}, "nodes": len(info), "levels": dict(collections.Counter(i["lv"] for i in info.values()))})


def revive(info, alive):
    """every node that stopped for lack of progress searches again"""
    for n in list(alive):
        if info[n]["ripe"] is True:
            alive[n], info[n]["ripe"] = True, False
        elif info[n]["ripe"] is None:
            alive[n] = None
