import random
import world

PID = "P01"
RULE = ("random multisets of 0..40 objective vectors with 1..6 objectives: tied integer grids, chains, antichains, duplicated "
        "rows, mixed int/float, negative and extreme scales, each presented in several orders; non-trivial = the set has at "
        "least one dominated pair and one incomparable pair (or is a pairwise comparison of related vectors)")
NEED = {"layerings": 300, "filters": 300, "pairs": 20000, "layers>=3": 100, "duplicates": 100}
CPU = 120


def cases(tier, seed):
    n = 48 if tier == "quick" else 400
    return [{"seed": "%d/%d" % (seed, i), "reps": 60} for i in range(n)]


def gen_points(rng):
    m = rng.randint(1, 6)
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
    style = rng.choice(["grid", "float", "chain", "anti", "dup", "extreme", "mixed", "neg"])
    pts = []
    for i in range(n):
        if style == "grid":
            v = [rng.randint(0, 3) for _ in range(m)]
        elif style == "float":
            v = [rng.random() for _ in range(m)]
        elif style == "chain":
            b = rng.randint(0, 6)
            v = [b + (rng.random() < 0.2) for _ in range(m)]
        elif style == "anti":
            v = [rng.random() for _ in range(m)]
            v[-1] = -sum(v[:-1]) + rng.choice([0, 0, 1e-9])
        elif style == "dup":
            v = list(rng.choice(pts)) if pts and rng.random() < 0.5 else [rng.randint(-2, 2) for _ in range(m)]
        elif style == "extreme":
            v = [rng.choice([0.0, -0.0, 1e-300, -1e-300, 1e300, -1e300, 1.0, 1 + 2 ** -52]) for _ in range(m)]
        elif style == "mixed":
            v = [rng.choice([0, 0.0, 1, 1.0, 0.5, True, False]) for _ in range(m)]
        else:
            v = [-float(rng.randint(0, 4)) / 3 for _ in range(m)]
        pts.append(v)
    return m, style, pts


def o_layers(pts):
    """layer index = length of the longest dominator chain"""
    n = len(pts)
    dom = [[j for j in range(n) if world.o_dominates(pts[j], pts[i])] for i in range(n)]
    depth = [None] * n

    def d(i):
        if depth[i] is None:
            depth[i] = 1 + max([d(j) for j in dom[i]] or [-1])
        return depth[i]

    return [d(i) for i in range(n)]


class Holder:
    """what the algorithms' comparisons are handed"""

    def __init__(self, i, objectives):
        self.i, self.objectives = i, objectives


def attempt(obs, fn):
    """internal helpers may be renamed or take other arguments: then there is nothing to watch here"""
    try:
        return fn()
    except (AttributeError, TypeError, ImportError, KeyError) as e:
        obs.notes["not reachable: " + str(e)[:60]] += 1
        return None


def layers_as_ids(front, ident):
    return [sorted(ident(x) for x in front[k]) for k in sorted(front) if len(front[k])]


def inside(obs, rng, pts, m):
    """the comparisons and layerings the algorithms bring along"""
    import importlib
    mod = lambda a: importlib.import_module("algorithms.%s.%s" % (a, a))
    keys = [object() for _ in range(m)]
    ids = list(range(len(pts)))
    as_dict = [Holder(i, dict(zip(keys, p))) for i, p in zip(ids, pts)]
    as_list = [Holder(i, list(p)) for i, p in zip(ids, pts)]
    pairs = [(rng.randrange(len(pts)), rng.randrange(len(pts))) for _ in range(12)]

    def oms(p):
        x = mod("OMOPSO").Individual([0.0])
        x.objectives = list(p)
        return x

    ways = [("NSGAII", lambda a, b: mod("NSGAII").dominates(as_dict[a], as_dict[b])),
            ("SPEA2", lambda a, b: mod("SPEA2").SPEA2.dominates({"objectives": list(pts[a])}, {"objectives": list(pts[b])})),
            ("OMOPSO", lambda a, b: oms(pts[a]).dominates(oms(pts[b])))]
    for name, f in ways:
        for a, b in pairs:
            g = attempt(obs, lambda: f(a, b))
            if g is None:
                break
            obs.event("algorithm_pairs")
            e = world.o_dominates(pts[a], pts[b])
            obs.require(bool(g) == e, "dominance:" + name, "%s's comparison disagrees with the definition" % name, x=pts[a], y=pts[b], got=bool(g), want=e)
    depth = o_layers(pts)
    want = [[i for i in ids if depth[i] == k] for k in range(max(depth) + 1)]
    order = as_list[:]
    rng.shuffle(order)
    fr = attempt(obs, lambda: layers_as_ids(mod("SMSEMOA").nd_sort(order), lambda x: x.i))
    if fr is not None:
        obs.event("algorithm_layerings")
        obs.require(fr == want, "layering:SMSEMOA", "SMSEMOA's layers differ from longest-dominator-chain layers", pts=pts, got=fr, want=want)
    if not 4 <= len(pts) <= 20:
        return
    import drive
    n = len(pts)
    ix = lambda x: int(round(x[0] * 64))
    prob = world.Problem("SYN1", [(0, 1), (0, 1)], [lambda x, k=k: pts[ix(x)][k] for k in range(m)], [[0.0] * m])
    perm = ids[:]
    rng.shuffle(perm)
    pop = [[i / 64.0, 0.5] for i in perm]
    for a in ("NSGAII", "NSLS"):
        d, _ = drive.build(a, prob, [list(x) for x in pop])

        def fronts():
            if a == "NSGAII":
                drive.final(d)
                if sorted(ix(x.v) for x in d.individuals) != ids:
                    return None
            else:
                d.calculate_objectives(d.individuals)
                d.nd_sort()
            return layers_as_ids(d.front, lambda x: ix(x.v))
        fr = attempt(obs, fronts)
        if fr is not None:
            obs.event("algorithm_layerings")
            obs.require(fr == want, "layering:" + a, "%s's layers differ from longest-dominator-chain layers" % a, pts=pts, got=fr, want=want)
    # the delegates a hierarchic search takes from a population are its first layer
    for a in ("NSGAII", "SMSEMOA"):
        if rng.random() < 0.6:
            continue

        def nominated():
            from simulation import factory
            ad = factory.prepare_message_adapter_class("HGS", ["HGS", a], 0)
            d, _ = drive.build(a, prob, [list(x) for x in pop], message_adapter_factory=ad)
            drive.final(d)
            if sorted(ix(x) for x in d.population) != ids:
                return None
            return sorted(ix(x) for x in d.message_adapter.nominate_delegates())
        got = attempt(obs, nominated)
        if got is not None:
            obs.event("delegates")
            obs.require(got == want[0], "delegates:" + a, "%s nominates other delegates than its non-dominated individuals" % a, pts=pts, got=got, want=want[0])


def run_case(case, obs):
    from evotools import ea_utils
    from metrics import metrics, metrics_utils
    from algorithms.base import drivertools
    rng = random.Random(case["seed"])
    for _ in range(case["reps"]):
        m, style, pts = gen_points(rng)
        wrap = rng.choice([list, tuple])
        pts = [wrap(p) for p in pts]
        # --- pairwise
        idx = [(rng.randrange(len(pts)), rng.randrange(len(pts))) for _ in range(min(20, len(pts) ** 2))] if pts else []
        for a, b in idx:
            x, y = pts[a], pts[b]
            xc, yc = list(x), list(y)
            e, r = world.o_dominates(x, y), world.o_dominates(y, x)
            obs.event("pairs")
            g, h = bool(ea_utils.dominates(x, y)), bool(ea_utils.dominates(y, x))
            obs.require(g == e and h == r, "dominance", "dominates() disagrees with the definition", x=x, y=y, got=(g, h), want=(e, r))
            c = ea_utils.domination_cmp(x, y)
            obs.require((c > 0) - (c < 0) == int(e) - int(r), "dominance-cmp", "three-way comparison disagrees", x=x, y=y, got=c)
            obs.require(list(x) == xc and list(y) == yc, "argument-changed", "comparison altered its argument", x=xc, y=yc)
            if e or r:
                obs.nontrivial("pair", style, m, tuple(x), tuple(y))
        # --- layering: individuals carry unique identities
        ids = list(range(len(pts)))
        layers = o_layers(pts)
        order = ids[:]
        rng.shuffle(order)
        ndup = len(pts) - len(set(map(tuple, pts)))
        if ndup:
            obs.event("duplicates")
        if layers and max(layers) >= 2:
            obs.event("layers>=3")
        got = [list(l) for l in ea_utils.paretofront_layers(order, lambda i: pts[i])]
        obs.event("layerings")
        want = [[i for i in ids if layers[i] == k] for k in range(max(layers) + 1)] if layers else []
        obs.require([sorted(l) for l in got] == want, "layering", "layers differ from longest-dominator-chain layers",
                    pts=pts, order=order, got=got, want=want)
        # a list of objective functions is accepted too (one_fitness composes them)
        of = ea_utils.one_fitness([lambda i, k=k: pts[i][k] for k in range(m)])
        if pts:
            obs.require(all(list(of(i)) == list(pts[i]) for i in ids), "compose", "objective composition reorders or drops objectives", pts=pts)
        # equal individuals (same coordinates) must keep multiplicity as well
        inds = [list(p) for p in pts]
        got2 = [list(map(tuple, l)) for l in ea_utils.paretofront_layers(inds, lambda x: x)]
        obs.require([sorted(l) for l in got2] == [sorted(tuple(pts[i]) for i in l) for l in want], "layering",
                    "layers of value-equal individuals lose or move some", pts=pts, got=got2)
        ranked = list(drivertools.rank(order, lambda i: pts[i]))
        obs.require(sorted(ranked) == ids and [layers[i] for i in ranked] == sorted(layers), "ranking",
                    "rank() is not a permutation ordered by layer", pts=pts, got=ranked)
        # --- filters
        nd = sorted(tuple(p) for p in world.o_nondominated(pts))
        shuffled = [list(pts[i]) for i in order]
        for f, name in ((metrics.filter_not_dominated, "metrics"), (metrics_utils.filter_not_dominated, "utils")):
            src = [list(p) for p in shuffled]
            res = [tuple(p) for p in f(src)]
            obs.event("filters")
            obs.require(sorted(res) == nd, "filter", "%s filter returns a wrong non-dominated set" % name, pts=shuffled, got=res, want=nd)
            obs.require(src == shuffled, "argument-changed", "filter altered its argument", pts=shuffled)
        if pts and style not in ("extreme", "mixed"):
            inside(obs, rng, pts, m)
        if len(set(layers)) > 1 and len(nd) > 1:
            obs.nontrivial("set", tuple(map(tuple, pts)))
            obs.sample({"style": style, "m": m, "n": len(pts), "layers": max(layers) + 1})
