import math, random, signal
from collections import Counter
import world, drive
from world import o_dominates

PID = "P25"
RULE = ("single-population algorithms for 6..30 generations on landscapes with ties, plateaus, both signs and 2..4 objectives; the candidates each "
        "selection had to choose from are reconstructed from what the driver holds and from the instrumented objectives, the published rule is "
        "recomputed independently, and the survivors must be one of the outcomes it allows (ties and values within rounding are left open); "
        "non-trivial = selection with at least one candidate discarded and fully judged")
NEED = {"selections": 700, "judged": 600, "rank_pairs": 15000, "crowding_pairs": 400, "truncations": 60, "filled": 40, "removals": 120, "contributions": 400, "directions": 400, "leaders": 300, "isolated": 30, "farthest": 60}
WAIVE = {"directions": "reference_points", "leaders": "leader_archive", "farthest": "nd_sort"}
CPU = 200
ALGOS = ["NSGAII", "JGBL", "SPEA2", "IBEA", "SMSEMOA", "NSGAIII", "OMOPSO", "NSLS"]
ASSUMPTIONS = ["the part of NSGA-II's crowding measure that concerns boundary members of a layer, and layers with tied objective values, are not judged",
               "the reference directions and the leaders archive and the local search's candidates are read from the drivers' attributes; if they are not there, those parts are not judged"]


def cases(tier, seed):
    out = []
    for rep in range(1 if tier == "quick" else 10):
        for a in ALGOS:
            for shape in ("sphere", "zdt", "plateau", "negative", "rugged", "flat"):
                out.append({"algo": a, "shape": shape, "seed": "%d/%d" % (seed, rep)})
        for a in ALGOS:
            out.append({"algo": a, "shape": "isolated", "seed": "%d/%d" % (seed, rep)})
    return out


# ---- the published rules --------------------------------------------------------

def layers(fs):
    """index -> layer number (1 is best)"""
    n = len(fs)
    dom = [[j for j in range(n) if o_dominates(fs[j], fs[i])] for i in range(n)]
    rank = [0] * n
    left, k = set(range(n)), 1
    while left:
        now = [i for i in left if not any(j in left for j in dom[i])]
        for i in now:
            rank[i] = k
        left -= set(now)
        k += 1
    return rank


def crowding(fs):
    """index -> crowding distance of the members that are nobody's boundary; None when the layer has tied values"""
    n, m = len(fs), len(fs[0])
    out, edge = [0.0] * n, set()
    for i in range(m):
        if len(set(f[i] for f in fs)) < n:
            return None
        o = sorted(range(n), key=lambda k: fs[k][i])
        w = fs[o[-1]][i] - fs[o[0]][i]
        edge |= {o[0], o[-1]}
        for a, b, c in zip(o, o[1:], o[2:]):
            out[b] += (fs[c][i] - fs[a][i]) / w
    return {k: v for k, v in enumerate(out) if k not in edge}


class Ambiguous(Exception):
    pass


class Wrong(Exception):
    pass


def remove_by(items, survivors, allowed):
    """replays one-at-a-time removal.  items: {key: value tuple}; survivors: Counter of values; allowed(alive keys) -> keys the rule may remove now.
    Returns the number of removals judged.  Raises Wrong, or Ambiguous when ties left the order open and the replay cannot continue."""
    alive = dict(items)
    have = Counter(alive.values())
    target = sum(survivors.values())
    loose, n = False, 0
    while len(alive) > target:
        can = allowed(alive)
        drop = [k for k in can if have[alive[k]] > survivors[alive[k]]]
        if not drop:
            if loose:
                raise Ambiguous()
            raise Wrong("removal %d: the rule removes one of %r, all of which survived" % (n, [alive[k] for k in can][:2]))
        if len(set(alive[k] for k in can)) > 1:
            loose = True
        k = drop[0]
        have[alive[k]] -= 1
        del alive[k]
        n += 1
    return n


def spea2(pool, fs, size, survivors, obs):
    n = len(pool)
    m = len(fs[0])
    strength = [sum(1 for j in range(n) if o_dominates(fs[i], fs[j])) for i in range(n)]
    dist = [[math.sqrt(sum((a - b) ** 2 for a, b in zip(fs[i], fs[j]))) for j in range(n)] for i in range(n)]
    raw = [sum(strength[j] for j in range(n) if o_dominates(fs[j], fs[i])) for i in range(n)]
    k = int(math.sqrt(n))
    fit = [raw[i] + 1.0 / (sorted(dist[i])[k] + 2.0) for i in range(n)]
    nd = [i for i in range(n) if raw[i] == 0]
    if len(nd) <= size:
        have = Counter(pool)
        worst_kept = max(fit[i] for i in range(n) if survivors[pool[i]])
        dropped = [fit[i] for i in range(n) if have[pool[i]] > survivors[pool[i]]]
        obs.event("filled")
        if dropped and min(dropped) < worst_kept * (1 - 1e-9):
            raise Wrong("a candidate of fitness %r is dropped, one of fitness %r is kept" % (min(dropped), worst_kept))
        return 1
    if any(survivors[pool[i]] for i in range(n) if raw[i]) and not all(survivors[v] <= sum(1 for i in nd if pool[i] == v) for v in survivors):
        raise Wrong("a dominated candidate is kept although the non-dominated ones fill the archive")

    def allowed(alive):
        vec = {i: sorted(dist[i][j] for j in alive) for i in alive}
        can = list(alive)
        for level in range(len(can)):
            lo = min(vec[i][level] for i in can)
            can = [i for i in can if vec[i][level] <= lo + 1e-9 * (abs(lo) + 1e-3)]
            if len(can) == 1:
                break
        return can

    got = remove_by({i: pool[i] for i in nd}, survivors, allowed)
    obs.event("truncations", got)
    return got


def ibea(pool, fs, kappa, survivors, obs):
    n, m = len(pool), len(fs[0])
    lo = [min(f[i] for f in fs) for i in range(m)]
    hi = [max(f[i] for f in fs) for i in range(m)]
    sc = [[(f[i] - lo[i]) / (hi[i] - lo[i]) if hi[i] > lo[i] else 0.0 for i in range(m)] for f in fs]
    ind = [[max(a - b for a, b in zip(sc[i], sc[j])) for j in range(n)] for i in range(n)]
    c = max(abs(v) for r in ind for v in r)
    if not c:
        return 0

    e = [[math.exp(-ind[i][j] / (c * kappa)) for j in range(n)] for i in range(n)]
    worst = max(sum(e[j][i] for j in range(n) if j != i) for i in range(n))

    def allowed(alive):
        loss = {i: sum(e[j][i] for j in alive if j != i) for i in alive}
        top = max(loss.values())
        # what is left after subtracting large terms again carries their rounding
        return [i for i in alive if loss[i] >= top - 1e-7 * top - 1e-12 * worst]

    got = remove_by({i: pool[i] for i in range(n)}, survivors, allowed)
    obs.event("removals", got)
    return got


def o_hv(fs, ref):
    pts = sorted(set(tuple(p) for p in fs if all(a < b for a, b in zip(p, ref))))
    if not pts:
        return 0.0
    if len(ref) == 1:
        return ref[0] - pts[0][0]
    if len(ref) == 2:
        tot, y = 0.0, ref[1]
        for a, b in pts:
            if b < y:
                tot += (ref[0] - a) * (y - b)
                y = b
        return tot
    zs = sorted(set(p[-1] for p in pts)) + [ref[-1]]
    return sum((z1 - z0) * o_hv([p[:-1] for p in pts if p[-1] <= z0], ref[:-1]) for z0, z1 in zip(zs, zs[1:]))


def smsemoa(pool, fs, ref, survivors, obs):
    have = Counter(pool)
    gone = list((have - survivors).elements())
    if len(gone) != 1:
        return 0
    rank = layers(fs)
    worst = max(rank)
    g = pool.index(gone[0])
    if rank[g] != worst:
        raise Wrong("the removed candidate is in layer %d of %d" % (rank[g], worst))
    front = [i for i in range(len(pool)) if rank[i] == worst]
    tot = o_hv([fs[i] for i in front], ref)
    con = {i: tot - o_hv([fs[j] for j in front if j != i], ref) for i in front}
    obs.event("contributions", len(front))
    if con[g] > min(con.values()) + 1e-9 * (abs(tot) + 1):
        raise Wrong("the removed candidate contributes %r of hypervolume, another one of the layer %r" % (con[g], min(con.values())))
    return 1


def theta(pool, fs, refs, th, ideal, survivors, obs):
    """layer = position among the candidates of the same reference direction"""
    n, m = len(pool), len(fs[0])
    nadir = [max(f[i] for f in fs) for i in range(m)]
    cl, val = [], []
    for f in fs:
        u = [(f[i] - ideal[i]) / (nadir[i] - ideal[i]) if nadir[i] > ideal[i] else 0.0 for i in range(m)]
        d = []
        for r in refs:
            ln = math.sqrt(sum(x * x for x in r))
            d1 = sum(a * b for a, b in zip(u, r)) / ln
            d2 = math.sqrt(sum((a - d1 * b / ln) ** 2 for a, b in zip(u, r)))
            d.append((d2, d1))
        k = min(range(len(refs)), key=lambda i: d[i][0])
        if sum(1 for x in d if x[0] < d[k][0] + 1e-9) > 1:
            raise Ambiguous()
        cl.append(k)
        val.append(d[k][1] + th * d[k][0])
    rank = []
    for i in range(n):
        same = sorted(set(val[j] for j in range(n) if cl[j] == cl[i]))
        vs = [same[0]]
        for v in same[1:]:
            if v - vs[-1] > 1e-9 * (1 + abs(v)):
                vs.append(v)
            elif v != vs[-1] and v - vs[-1] > 1e-13:
                raise Ambiguous()
        rank.append(sum(1 for v in vs if v < val[i] - 1e-10) + 1)
    have = Counter(pool)
    obs.event("directions", len(set(cl)))
    kept = max(rank[i] for i in range(n) if survivors[pool[i]])
    lost = [rank[i] for i in range(n) if not survivors[pool[i]]]
    if lost and min(lost) < kept:
        raise Wrong("a candidate ranked %d along its reference direction is dropped, one ranked %d is kept" % (min(lost), kept))
    return 1


def by_layers(pool, fs, survivors, obs, crowd=True):
    rank = layers(fs)
    have = Counter(pool)
    n = len(pool)
    kept = [i for i in range(n) if survivors[pool[i]]]
    lost = [i for i in range(n) if have[pool[i]] > survivors[pool[i]]]
    if not lost:
        return 0
    obs.event("rank_pairs", len(kept) * len(lost))
    if min(rank[i] for i in lost) < max(rank[i] for i in kept):
        raise Wrong("a candidate of layer %d is dropped, one of layer %d is kept" % (min(rank[i] for i in lost), max(rank[i] for i in kept)))
    last = min(rank[i] for i in lost)
    layer = [i for i in range(n) if rank[i] == last]
    cr = crowding([fs[i] for i in layer]) if crowd and len(layer) > 2 else None
    if cr:
        cd = {layer[k]: v for k, v in cr.items()}
        k2 = [i for i in kept if i in cd]
        l2 = [i for i in lost if i in cd]
        obs.event("crowding_pairs", len(k2) * len(l2))
        if k2 and l2:
            a, b = min(cd[i] for i in k2), max(cd[i] for i in l2)
            if b > a * (1 + 1e-9) + 1e-12:
                raise Wrong("of the last layer a candidate with crowding distance %r is dropped, one with %r is kept" % (b, a))
    return 1


def nsls(pool, fs, xs, size, survivors, obs):
    """whole layers, then the boundary members of the layer that does not fit, then always the member farthest (in the search space) from those taken"""
    by_layers(pool, fs, survivors, obs, crowd=False)
    rank = layers(fs)
    r, room = 1, size
    while room >= rank.count(r):
        room -= rank.count(r)
        r += 1
        if not rank.count(r):
            return 1
    layer = [i for i in range(len(pool)) if rank[i] == r]
    if not room or room == len(layer):
        return 1
    m = len(fs[0])
    edge = set()
    for k in range(m):
        col = [fs[i][k] for i in layer]
        if col.count(min(col)) > 1 or col.count(max(col)) > 1:
            raise Ambiguous()
        edge |= {layer[col.index(min(col))], layer[col.index(max(col))]}
    have = Counter(pool)
    taken = Counter(survivors)
    taken -= Counter(pool[i] for i in range(len(pool)) if rank[i] < r)
    if room < len(edge):
        if any(taken[pool[i]] for i in layer if i not in edge):
            raise Wrong("an inner member of the last layer is kept although the boundary members already exceed the room")
        return 1
    lost = [i for i in edge if not taken[pool[i]]]
    obs.event("boundaries", len(edge))
    if lost:
        raise Wrong("room for %d of the last layer, and its member with the objectives %r, extreme in one of them, is dropped" % (room, fs[lost[0]]))
    got = set(edge)
    while len(got) < room:
        rest = [i for i in layer if i not in got]
        d = {i: min(math.sqrt(sum((a - b) ** 2 for a, b in zip(xs[i], xs[j]))) for j in got) for i in rest}
        top = max(d.values())
        can = [i for i in rest if d[i] >= top * (1 - 1e-9) - 1e-12]
        if len(set(pool[i] for i in can)) > 1:
            raise Ambiguous()
        if have[pool[can[0]]] > 1:
            raise Ambiguous()
        if not taken[pool[can[0]]]:
            raise Wrong("the member of the last layer farthest (%r) from those taken is dropped" % top)
        got.add(can[0])
        obs.event("farthest")
    return 1


class Endless(Exception):
    pass


def isolated(case, rng, obs):
    """every starting point is better than all its surroundings: no move improves anything, and the step still has to end"""
    def stop(*a):
        raise Endless()

    for rep in range(6):
        algo, m, n, P = case["algo"], 2, rng.choice([2, 3]), rng.choice([4, 5, 8])
        dims = [(0.0, 1.0)] * n
        pop = [[0.5 + 0.1 * rng.random() for _ in range(n)] for _ in range(P)]
        good = {tuple(x): (float(i), float(P - i)) for i, x in enumerate(pop)}
        prob = world.Problem("SYN25", dims, [lambda x, k=k: good.get(tuple(x), (100.0, 100.0))[k] for k in range(m)], [[0.0, P], [P, 0.0]])
        drv, _ = drive.build(algo, prob, pop=[list(x) for x in pop])
        drv.max_budget = 1000
        old = signal.signal(signal.SIGVTALRM, stop)
        signal.setitimer(signal.ITIMER_VIRTUAL, 6.0)
        try:
            for _ in range(2):
                drv.next_step()
            got = drive.final(drv)
            obs.require(all(len(x) == n for x in got), "broken-result", "%s: malformed result after a step in which nothing improves" % algo)
            obs.event("isolated")
        except Endless:
            obs.violate("endless-step", "%s: a step in which no move improves anything does not end" % algo, P=P, n=n, pop=pop)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)


def run_case(case, obs):
    rng = random.Random("p25/%s/%s/%s" % (case["seed"], case["algo"], case["shape"]))
    if case["shape"] == "isolated":
        return isolated(case, rng, obs)
    for rep in range({"NSGAII": 6, "IBEA": 1, "SPEA2": 3, "NSGAIII": 3}.get(case["algo"], 2)):
        one(case, rng, obs, rep)


def one(case, rng, obs, rep):
    algo = case["algo"]
    m = rng.choice([2, 2, 3, 4]) if algo != "SMSEMOA" else rng.choice([2, 3])
    n = rng.choice([3, 4, 6]) if m < 4 else 6
    prob = world.make_problem(case["shape"], rng.choice(["unit", "sym", "mixed"]), n, m, rng, "SYN25")
    P = rng.choice([8, 10, 14, 20])
    pop = world.random_population(P, prob.dims, rng)
    if rng.random() < 0.2:
        for i in range(P // 4):
            pop[i] = list(pop[-1])
    over = {}
    ref = kappa = None
    if algo == "SMSEMOA":
        ref = [rng.choice([50.0, 200.0])] * m
        over = {"epoch_length_multiplier": 1.01 / P, "reference_point": ref}
    if algo == "IBEA":
        kappa = rng.choice([0.05, 0.05, 0.1, 0.3])
        over = {"kappa": kappa}
    th = None
    if algo == "NSGAIII":
        th = rng.choice([0.0, 1.0, 5.0, 20.0])
        over = {"theta": th}
    drv, _ = drive.build(algo, prob, pop=pop, **over)
    drv.max_budget = 3000
    val, step_pts, ideal = {}, [], [float("inf")] * m

    def objs(x):
        if x not in val:
            val[x] = tuple(float(v) for v in prob.objectives(x))
        return val[x]

    prob.log.listeners.append(lambda k, x: step_pts.append(tuple(x)) if k == 0 else None)
    prev = [tuple(x) for x in pop]
    if algo in ("NSGAIII", "SMSEMOA"):
        prev = [tuple(x) for x in drive.final(drv)]
    if algo == "SPEA2":
        prev = []
    for f in map(objs, [tuple(x) for x in pop]):
        ideal = [min(a, b) for a, b in zip(ideal, f)]
    steps = {"SMSEMOA": 30, "IBEA": 8, "SPEA2": 10, "NSGAIII": 8, "OMOPSO": 14, "NSLS": 6}.get(algo, 12)
    seen = []
    if algo == "NSLS" and not callable(getattr(drv, "nd_sort", None)):
        obs.event("absent:nd_sort")
    elif algo == "NSLS":
        # its candidates exist only inside the step: look at them when they are sorted
        orig = drv.nd_sort

        def nd_sort(*a, **kw):
            r = orig(*a, **kw)
            seen[:] = [tuple(x) for x in drv.population]
            return r

        drv.nd_sort = nd_sort
    refs = directions(drv, m) if algo == "NSGAIII" else []
    if algo == "NSGAIII" and not refs:
        obs.event("absent:reference_points")
    for s in range(steps):
        del step_pts[:]
        before = [tuple(x) for x in drv.population]
        la0 = leaders(drv)
        drv.next_step()
        if algo in ("NSGAII", "JGBL", "IBEA"):
            pool = [tuple(x) for x in drv.population]
        elif algo == "SPEA2":
            pool = prev + before
        elif algo in ("SMSEMOA", "NSGAIII"):
            pool = prev + list(step_pts)
        elif algo == "NSLS":
            pool = list(seen)
            if not pool:
                continue
        else:
            pool = []
        for x in step_pts:
            ideal = [min(a, b) for a, b in zip(ideal, objs(x))]
        if algo == "OMOPSO":
            la = leaders(drv)
            if la is None:
                obs.event("absent:leader_archive")
            if la is not None and la0 is not None:
                want = [min([objs(x)[i] for x in list(la0) + step_pts]) for i in range(m)]
                got = [min(objs(x)[i] for x in la) for i in range(m)]
                flat = any(max(objs(x)[i] for x in la) == got[i] for i in range(m))
                obs.event("leaders", len(la))
                if not flat:
                    obs.require(got == want, "leader-extremes", "OMOPSO: the leaders archive dropped the leader with the best value of an objective", got=got, best=want, size=len(la), P=P, step=s)
                    obs.event("selections")
                    obs.event("judged")
                    obs.nontrivial(algo, case["shape"], case["seed"], rep, s)
            continue
        surv = [tuple(x) for x in drive.final(drv)]
        obs.event("selections")
        sc = Counter(surv)
        fs = [objs(x) for x in pool]
        if sc - Counter(pool):
            if algo in ("SMSEMOA", "NSGAIII"):      # copies of parents that needed no evaluation
                extra = sc - Counter(pool)
                if all(x in set(pool) for x in extra):
                    pool += list(extra.elements())
                    fs = [objs(x) for x in pool]
            if sc - Counter(pool):
                obs.event("unreconstructed")
                prev = surv
                continue
        try:
            if algo in ("NSGAII", "JGBL"):
                k = by_layers(pool, fs, sc, obs)
            elif algo == "SPEA2":
                k = spea2(pool, fs, P, sc, obs) if len(pool) > P else 0
            elif algo == "IBEA":
                k = ibea(pool, fs, kappa, sc, obs)
            elif algo == "NSLS":
                k = nsls(pool, fs, pool, P, sc, obs) if len(pool) > P else 0
            elif algo == "SMSEMOA":
                k = smsemoa(pool, fs, ref, sc, obs)
            else:
                k = theta(pool, fs, refs, th, ideal, sc, obs) if refs else 0
            if k:
                obs.event("judged")
                obs.check(k)
                obs.nontrivial(algo, case["shape"], case["seed"], rep, s)
        except Ambiguous:
            obs.event("ambiguous")
        except Wrong as e:
            obs.violate("rule-" + algo, "%s: %s" % (algo, e), step=s, P=P, m=m, shape=case["shape"], pool=len(pool))
        prev = surv
    obs.sample({"P": P, "m": m, "n": n})


def directions(drv, m):
    """the reference directions, under whatever name"""
    for v in vars(drv).values():
        try:
            refs = [[float(c) for c in r] for r in v]
        except (TypeError, ValueError):
            continue
        if len(refs) >= m and all(len(r) == m and min(r) >= 0 and abs(sum(r) - 1) < 1e-6 for r in refs):
            return refs
    return []


def leaders(drv):
    la = getattr(getattr(drv, "leader_archive", None), "archive", None)
    if la is None or not all(hasattr(i, "value") for i in la):
        return None
    return [tuple(i.value) for i in la]
