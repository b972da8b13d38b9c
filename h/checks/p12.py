import collections, random
import world, drive

PID = "P12"
RULE = ("island runs over every base algorithm, island counts 1..9, torus widths 1..5, uneven initial populations; each island's population is "
        "snapshotted at its last step of the epoch and again after migration, and the moves between the snapshots are judged; topologies for "
        "all widths 1..8 and sizes 1..60; non-trivial = epoch in which individuals moved between at least two different islands")
NEED = {"epochs": 60, "moves": 500, "island_epochs": 200, "topologies": 480, "results": 100, "ranked_emigrants": 250}
CPU = 400


def cases(tier, seed):
    out = []
    for rep in range(1 if tier == "quick" else 8):
        for a in world.BASE_DRIVERS:
            for v in range(3):
                out.append({"kind": "run", "algo": a, "v": v, "seed": "%d/%d" % (seed, rep)})
        for i in range(3):
            out.append({"kind": "rank", "seed": "%d/%d/%d" % (seed, rep, i)})
    for w in range(1, 9):
        out.append({"kind": "topology", "width": w, "seed": seed})
    return out


def graph_ok(obs, t, size, name):
    nb = [set(x) for x in t]
    obs.event("topologies")
    obs.require(len(t) == size, "topology-size", "%s: %d entries" % (name, len(t)))
    obs.require(all(0 <= j < size for s in nb for j in s), "topology-range", "%s: neighbour out of range" % name, t=nb)
    obs.require(all(i not in s for i, s in enumerate(nb)), "topology-self", "%s: an island is its own neighbour" % name, t=nb)
    obs.require(all(i in nb[j] for i, s in enumerate(nb) for j in s if j < size), "topology-asymmetric", "%s: neighbourhood is not mutual" % name, t=nb)
    seen, todo = {0}, [0]
    while todo:
        for j in nb[todo.pop()]:
            if j not in seen and j < size:
                seen.add(j)
                todo.append(j)
    obs.require(len(seen) == size, "topology-disconnected", "%s: only %d of %d islands can be reached" % (name, len(seen), size), t=nb)


def topology(case, obs):
    from algorithms.IMGA.topology import TorusTopology
    for size in range(1, 61):
        graph_ok(obs, TorusTopology(case["width"]).create(size), size, "torus of width %d, %d islands" % (case["width"], size))
        obs.nontrivial(case["width"], size)


def island_run(obs, rng, algo, prob, islands, width, migrants, epoch, P, epochs, on_epoch=None, final_p=0.3):
    from algorithms.IMGA.topology import TorusTopology
    pop = world.random_population(P, prob.dims, rng)
    own = [list(x) for x in pop]
    over = dict(islands_number=islands, migrants_number=migrants, epoch_length=epoch)
    if width != 4:
        over["topology"] = TorusTopology(width)
    drv, rec = drive.build("IMGA+" + algo, prob, pop=pop, **over)
    drv.max_budget = 5000
    name = "IMGA+%s islands=%d width=%d migrants=%d epoch=%d P=%d" % (algo, islands, width, migrants, epoch, P)
    # the neighbourhood the configuration asks for, from a topology object of our own
    t = [set(x) for x in TorusTopology(width).create(islands)]
    ds = rec.drivers()
    obs.require(len(ds) == islands, "island-count", "%s: %d islands created" % (name, len(ds)))
    start = [[tuple(x) for x in kw["population"]] for _, kw in rec.created]
    obs.require(sorted(x for s in start for x in s) == sorted(map(tuple, own)), "initial-split", "%s: the initial population is not split without loss" % name)
    obs.require(max(map(len, start)) - min(map(len, start)) <= 1, "uneven-split", "%s: island sizes %r" % (name, list(map(len, start))))
    before = {}

    def on_step(n, d, m):
        if d.v_steps % epoch == 0:
            before[n] = [tuple(x) for x in d.population]
    rec.on_step = on_step
    for e in range(1, epochs + 1):
        before.clear()
        drv.next_step()
        obs.event("epochs")
        obs.event("island_epochs", islands)
        obs.require([d.v_steps for d in ds] == [epoch * e] * islands, "epoch-steps", "%s: islands performed %r steps after %d epochs" % (name, [d.v_steps for d in ds], e))
        obs.require(len(rec.created) == islands, "islands-replaced", "%s: new islands appeared" % name)
        if len(before) < islands:
            return
        after = [[tuple(x) for x in d.population] for d in ds]
        bc = [collections.Counter(before[i]) for i in range(islands)]
        ac = [collections.Counter(a) for a in after]
        obs.require([len(before[i]) for i in range(islands)] == [len(a) for a in after], "island-size", "%s: island sizes %r became %r in migration" % (
            name, [len(before[i]) for i in range(islands)], [len(a) for a in after]))
        obs.require(sum(bc, collections.Counter()) == sum(ac, collections.Counter()), "not-conserved", "%s: migration created, lost or duplicated individuals" % name,
                    lost=list((sum(bc, collections.Counter()) - sum(ac, collections.Counter())).items())[:2])
        home = collections.defaultdict(set)
        for i in range(islands):
            for x in bc[i]:
                home[x].add(i)
        total = sum(bc, collections.Counter())
        flow = collections.Counter()
        unclear = collections.Counter()
        lost = [bc[i] - ac[i] for i in range(islands)]
        gain = [ac[i] - bc[i] for i in range(islands)]
        for j in range(islands):
            for x, c in gain[j].items():
                if len(home[x]) == 1 and total[x] == 1:      # the value names the individual
                    flow[min(home[x]), j] += c
                else:
                    unclear[j] += c
        obs.event("moves", sum(flow.values()))
        for (i, j), c in flow.items():
            obs.require(j in t[i], "not-a-neighbour", "%s: %d individuals moved from island %d to %d which is not its neighbour" % (name, c, i, j), neighbours=sorted(t[i]))
        dup = any(len(h) > 1 for h in home.values()) or any(c > 1 for b in bc for c in b.values())
        for i in range(islands):
            out = sum(lost[i].values())
            obs.require(out <= migrants * len(t[i]), "too-many-emigrants", "%s: island %d lost %d individuals, allowed %d" % (name, i, out, migrants * len(t[i])))
            if not dup:
                obs.require(out == migrants * len(t[i]), "emigrant-count", "%s: island %d lost %d individuals, configured %d" % (name, i, out, migrants * len(t[i])))
                for j in t[i]:
                    obs.require(flow[i, j] == migrants, "delivery", "%s: %d of %d migrants arrived from island %d at %d" % (name, flow[i, j], migrants, i, j))
        if len([1 for c in flow.values() if c]) > 1:
            obs.nontrivial(algo, islands, width, migrants, epoch, P, e)
        if on_epoch:
            on_epoch(before, lost)
        if rng.random() < final_p:
            r1 = sorted(tuple(x) for x in drv.finalized_population())
            got = drv.finalized_population()
            r2 = sorted(tuple(x) for x in got)
            r3 = sorted(tuple(x) for x in got)
            want = sorted(tuple(x) for d in ds for x in d.finalized_population())
            obs.event("results", 3)
            obs.require(r1 == want and r1, "result-union", "%s: the result is not the union of the islands' results" % name, n=(len(r1), len(want)))
            obs.require(r2 == r1 and r3 == r2, "result-once", "%s: the result cannot be used again" % name, sizes=(len(r1), len(r2), len(r3)))


def layers(objs):
    left = list(range(len(objs)))
    out = {}
    k = 0
    while left:
        front = [i for i in left if not any(world.o_dominates(objs[j], objs[i]) for j in left)]
        for i in front:
            out[i] = k
        left = [i for i in left if i not in set(front)]
        k += 1
    return out, k


def run_case(case, obs):
    if case["kind"] == "topology":
        return topology(case, obs)
    rng = random.Random("%s/%s/%s/%s" % (case["seed"], case["kind"], case.get("algo"), case.get("v")))
    if case["kind"] == "run":
        algo = case["algo"]
        prob = world.make_problem(rng.choice(["sphere", "zdt", "plateau", "negative"]), rng.choice(["unit", "mixed"]), 4, 2 if algo == "SMSEMOA" else rng.choice([2, 2, 3]), rng, "SYN12")
        islands, width = [(rng.choice([2, 3]), 4), (rng.choice([4, 5, 6]), 4), (rng.choice([1, 4, 7, 9]), rng.choice([1, 2, 3, 5]))][case["v"]]
        migrants = rng.choice([1, 2, 3])
        epoch = rng.choice([1, 2, 3, 5]) if algo not in ("IBEA", "NSLS") else rng.choice([1, 2])
        per = migrants * 4 + rng.choice([4, 6, 9])
        P = islands * per + rng.randint(0, max(0, islands - 1))
        epochs = 5 if algo not in ("IBEA", "NSLS") else 3
        island_run(obs, rng, algo, prob, islands, width, migrants, epoch, P, epochs, final_p=0.5)
        obs.sample({"islands": islands, "width": width, "migrants": migrants, "epoch": epoch, "P": P})
        return
    # emigrants are drawn with preference for better layers
    prob = world.make_problem("rugged", "unit", 3, 2, rng, "SYN12")
    tot = [0.0, 0]

    def on_epoch(before, lost):
        for i, b in before.items():
            uniq = sorted(set(b))
            lay, k = layers([prob.objectives(x) for x in uniq])
            if k < 3:
                continue
            at = {x: lay[q] / (k - 1.0) for q, x in enumerate(uniq)}
            for x, c in lost[i].items():
                tot[0] += at[x]
                tot[1] += 1
    for _ in range(14):
        island_run(obs, rng, rng.choice(["NSGAII", "SPEA2", "NSGAIII"]), prob, 3, 4, 2, 1, 72, 3, on_epoch, final_p=0.0)
    obs.event("ranked_emigrants", tot[1])
    if tot[1] >= 200:
        obs.require(tot[0] / tot[1] < 0.43, "emigrant-preference", "emigrants show no preference for better layers: mean relative layer %.3f over %d emigrants (0.5 = indifferent between layers)" % (tot[0] / tot[1], tot[1]))
        obs.notes["mean relative layer x1000, seed %s" % case["seed"]] = int(1000 * tot[0] / tot[1])
