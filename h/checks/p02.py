import random
from fractions import Fraction

PID = "P02"
RULE = ("random vector sets (0..14 points, fewer in 5-6 objectives) on tied grids, simplex fronts, random clouds, duplicated and dominated rows, points "
        "on and beyond the reference, reference points of every sign; each computed in several orders and after reuse of one "
        "calculator, against an exact rational slicing oracle; non-trivial = at least 3 points inside the reference box of "
        "which at least 2 are mutually non-dominated")
NEED = {"computations": 2000, "dims3+": 600, "reuse": 300, "beyond_reference": 200, "dominated_rows": 200}
CPU = 150


def cases(tier, seed):
    n = 48 if tier == "quick" else 400
    return [{"seed": "%d/%d" % (seed, i), "reps": 150} for i in range(n)]


def o_volume(points, ref):
    """exact: slice along the last coordinate"""
    pts = [p for p in points if all(a < b for a, b in zip(p, ref))]
    if not pts:
        return Fraction(0)
    if len(ref) == 1:
        return ref[0] - min(p[0] for p in pts)
    # keep only the minimal ones, distinct
    pts = sorted(set(pts))
    pts = [p for p in pts if not any(q != p and all(a <= b for a, b in zip(q, p)) for q in pts)]
    if len(ref) == 2:
        pts.sort()
        tot, y = Fraction(0), ref[1]
        for a, b in pts:
            if b < y:
                tot += (ref[0] - a) * (y - b)
                y = b
        return tot
    zs = sorted(set(p[-1] for p in pts)) + [ref[-1]]
    tot = Fraction(0)
    for z0, z1 in zip(zs, zs[1:]):
        tot += (z1 - z0) * o_volume([p[:-1] for p in pts if p[-1] <= z0], ref[:-1])
    return tot


def gen(rng):
    m = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    nmax = {1: 10, 2: 14, 3: 14, 4: 10, 5: 8, 6: 6}[m]
    n = rng.randint(0, nmax)
    style = rng.choice(["grid", "cloud", "simplex", "dup", "neg", "tie"])
    ref = {"grid": [4] * m, "cloud": [1.0] * m, "simplex": [50.0] * m, "dup": [3] * m,
           "neg": [rng.choice([0, -1.0, 0.5]) for _ in range(m)], "tie": [2.0 + i for i in range(m)]}[style]
    pts = []
    for _ in range(n):
        if style == "grid":
            v = [rng.randint(0, 5) for _ in range(m)]
        elif style == "cloud":
            v = [rng.random() * 1.2 for _ in range(m)]
        elif style == "simplex":
            v = [rng.random() + 1e-9 for _ in range(m)]
            s = sum(v)
            v = [x / s for x in v]
        elif style == "dup":
            v = list(rng.choice(pts)) if pts and rng.random() < 0.4 else [rng.randint(0, 3) for _ in range(m)]
        elif style == "neg":
            v = [r - rng.choice([0, 1, 2, 3.5, -0.5]) for r in ref]
        else:
            v = [rng.choice([0.5, 1.0, 1.5]) if rng.random() < 0.7 else rng.random() * 2 for _ in range(m)]
        pts.append(v)
    return m, style, ref, pts


def run_case(case, obs):
    from algorithms.base import hv
    from metrics import metrics
    rng = random.Random(case["seed"])
    for _ in range(case["reps"]):
        m, style, ref, pts = gen(rng)
        F = [tuple(map(Fraction, p)) for p in pts]
        R = tuple(map(Fraction, ref))
        want = o_volume(F, R)
        box = Fraction(1)
        inside = [p for p in F if all(a < b for a, b in zip(p, R))]
        for k in range(m):
            box *= max([R[k] - p[k] for p in inside] or [Fraction(0)]) + abs(R[k]) * Fraction(1, 10 ** 3) + Fraction(1, 10 ** 6)
        tol = float(box) * 1e-9 + 1e-15
        want = float(want)
        if m >= 3:
            obs.event("dims3+")
        if len(inside) < len(F):
            obs.event("beyond_reference")
        mini = [p for p in set(inside) if not any(q != p and all(a <= b for a, b in zip(q, p)) for q in inside)]
        if len(mini) < len(inside):
            obs.event("dominated_rows")
        shared = hv.HyperVolume(list(ref))
        for k in range(3):
            order = [list(p) for p in pts]
            rng.shuffle(order)
            if k == 2 and mini:             # only the minimal ones
                order = [[float(c) for c in p] for p in mini]
            keep = [list(p) for p in order]
            calc = shared if k else hv.HyperVolume(tuple(ref))
            got = calc.compute(order)
            obs.event("computations")
            if k:
                obs.event("reuse")
            obs.require(abs(got - want) <= tol, "hypervolume", "hypervolume differs from the exact dominated volume",
                        ref=ref, pts=order, got=got, want=want, call=k)
            obs.require(order == keep, "argument-changed", "computing the hypervolume altered the caller's data", before=keep, after=order)
        # monotone and translation behaviour through another entry: add a point
        if pts:
            extra = [x - rng.choice([0, 0.25, 1]) for x in rng.choice(pts)]
            got2 = shared.compute([list(p) for p in pts] + [extra])
            want2 = float(o_volume(F + [tuple(map(Fraction, extra))], R))
            obs.require(abs(got2 - want2) <= tol * 50 + abs(want2) * 1e-9, "hypervolume", "hypervolume wrong after adding a point to a reused calculator",
                        ref=ref, pts=pts, extra=extra, got=got2, want=want2)
        # tuples instead of lists
            got3 = hv.HyperVolume(list(ref)).compute([tuple(p) for p in pts])
            obs.require(abs(got3 - want) <= tol, "hypervolume", "tuple rows give another hypervolume", ref=ref, pts=pts, got=got3, want=want)
            # indicator entry point: fixed reference 50
            nd = metrics.filter_not_dominated([list(p) for p in pts])
            front = [[0.0] * m]
            g4 = metrics.hypervolume([list(p) for p in pts], nd, front)
            w4 = float(o_volume(F, (Fraction(50),) * m))
            obs.require(abs(g4 - w4) <= 1e-9 * abs(w4) + 1e-9, "hypervolume-metric", "indicator differs from volume up to the fixed reference",
                        pts=pts, got=g4, want=w4)
        if len(inside) >= 3 and len(mini) >= 2:
            obs.nontrivial(style, tuple(map(tuple, pts)))
            obs.sample({"m": m, "style": style, "ref": ref, "n": len(pts), "volume": want})
