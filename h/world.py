"""Access to the real evogil code plus the instrumented problems it is run on."""
import collections, importlib, logging, math, os, random, sys, types

BASE_DRIVERS = ["NSGAII", "SPEA2", "IBEA", "OMOPSO", "NSGAIII", "JGBL", "SMSEMOA", "NSLS"]


def setup():
    """make /repo importable offline: scipy is absent from this sandbox, NSLS only needs euclidean()"""
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    try:
        import scipy.spatial.distance  # noqa
    except Exception:
        sc = types.ModuleType("scipy")
        sp = types.ModuleType("scipy.spatial")
        di = types.ModuleType("scipy.spatial.distance")

        def euclidean(u, v):
            return math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))

        di.euclidean = euclidean
        sc.spatial = sp
        sp.distance = di
        sys.modules.update({"scipy": sc, "scipy.spatial": sp, "scipy.spatial.distance": di})


class EvalLog:
    """records every call the code under test makes to an objective function"""

    def __init__(self):
        self.calls = 0
        self.points = collections.OrderedDict()   # distinct points in first-evaluation order -> count
        self.bad = []
        self.dims = None
        self.fuel = None
        self.listeners = []

    def record(self, k, x):
        self.calls += 1
        if self.fuel is not None and self.calls > self.fuel:
            raise OutOfFuel("more than %d objective calls" % self.fuel)
        key = tuple(x)
        self.points[key] = self.points.get(key, 0) + 1
        if self.dims is not None and len(self.bad) < 20:
            w = bad_point(key, self.dims)
            if w:
                self.bad.append((key, w))
        for l in self.listeners:
            l(k, key)


class OutOfFuel(Exception):
    pass


def bad_point(x, dims, slack=0.0, rel=1e-9):
    # rel: rounding allowance as a fraction of the range (affine re-scaling may overshoot a bound by an ulp)
    if len(x) != len(dims):
        return "length %d instead of %d" % (len(x), len(dims))
    for i, (v, (lo, hi)) in enumerate(zip(x, dims)):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            try:
                v = float(v)
            except Exception:
                return "coordinate %d is %r" % (i, v)
        if not math.isfinite(v):
            return "coordinate %d is %r" % (i, v)
        sl = slack + rel * (hi - lo)
        if v < lo - sl or v > hi + sl:
            return "coordinate %d = %r outside [%r, %r]" % (i, v, lo, hi)
    return None


class Objective:
    """a hashable, instrumented objective function"""

    def __init__(self, problem, k, fn):
        self.problem, self.k, self.fn = problem, k, fn

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __call__(self, x):
        self.problem.log.record(self.k, x)
        return self.fn(x)


class Problem:
    """quacks like a problems.<X>.problem module"""

    def __init__(self, name, dims, fns, front):
        self.name = name
        self.dims = dims
        self.raw = fns
        self.log = EvalLog()
        self.log.dims = dims
        self.fitnesses = [Objective(self, k, f) for k, f in enumerate(fns)]
        self.pareto_front = front
        self.pareto_set = []

    def objectives(self, x):
        """the oracle's own evaluation: never logged"""
        return [f(x) for f in self.raw]

    def register(self):
        pk = types.ModuleType("problems." + self.name)
        pk.problem = self
        sys.modules["problems." + self.name] = pk
        sys.modules["problems." + self.name + ".problem"] = self
        self.__name__ = "problems." + self.name + ".problem"
        return self.name


def unit(x, dims):
    return [(v - lo) / (hi - lo) for v, (lo, hi) in zip(x, dims)]


def make_dims(kind, n, rng):
    if kind == "unit":
        return [(0, 1) for _ in range(n)]
    if kind == "sym":
        return [(-5, 5) for _ in range(n)]
    if kind == "mixed":
        return [(0, 1)] + [rng.choice([(-1, 1), (-2, 2), (0, 3), (-7.5, 0.25)]) for _ in range(n - 1)]
    if kind == "shifted":       # zero is not inside the domain
        return [rng.choice([(2, 7), (0.3, 0.9), (-9, -4), (100.5, 101.25), (-0.7, -0.1)]) for _ in range(n)]
    if kind == "narrow":
        return [(-1e-3, 1e-3) if i % 2 else (0, 1e4) for i in range(n)]
    raise ValueError(kind)


def make_problem(shape, dim_kind, n, m, rng, name=None):
    dims = make_dims(dim_kind, n, rng)
    targets = [[0.15 + 0.7 * rng.random() for _ in range(n)] for _ in range(m)]

    def sq(x, t):
        return sum((a - b) ** 2 for a, b in zip(unit(x, dims), t))

    if shape == "sphere":
        fns = [lambda x, t=t: sq(x, t) for t in targets]
    elif shape == "zdt":
        def g(x):
            u = unit(x, dims)
            return 1 + 9.0 * sum(u[m - 1:]) / max(1, n - m + 1)

        def mk(k):
            if k < m - 1:
                return lambda x: float(unit(x, dims)[k])
            return lambda x: g(x) * (m - sum(math.sqrt(max(0.0, unit(x, dims)[i]) / g(x)) for i in range(m - 1)))
        fns = [mk(k) for k in range(m)]
    elif shape == "plateau":      # many exactly tied objective values
        fns = [lambda x, t=t: math.floor(6 * math.sqrt(sq(x, t))) / 2.0 for t in targets]
    elif shape == "negative":     # values of both signs, very different scales
        fns = [lambda x, t=t, s=s: s * (sq(x, t) - 0.9 * n * 0.1) for t, s in zip(targets, [1.0, 30.0, 0.01, 5.0])]
    elif shape == "rugged":
        fns = [lambda x, t=t: sq(x, t) + 0.1 * sum(1 - math.cos(12 * (a - b)) for a, b in zip(unit(x, dims), t)) for t in targets]
    elif shape == "flat":         # one objective carries no information
        fns = [lambda x, t=t: sq(x, t) for t in targets[:-1]] + [lambda x: 3.0]
    else:
        raise ValueError(shape)
    front = [[i / 9.0] * (m - 1) + [1.0 - i / 9.0] for i in range(10)]
    p = Problem(name or "SYN", dims, fns, front)
    p.shape = shape
    return p


def prepare(algo, problem, pop=None, **over):
    """real factory path -> driver instance.  over: kwargs for the outermost constructor"""
    from simulation import factory
    problem.register()
    part, mod = factory.prepare(algo, problem.name)
    assert mod is problem
    kw = dict(over)
    if pop is not None:
        kw["population"] = pop
    return part(**kw)


def random_population(n, dims, rng):
    return [[rng.uniform(lo, hi) for lo, hi in dims] for _ in range(n)]


# ---- oracles shared by checks (independent of the code under test) -----------

def o_dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def o_nondominated(points):
    pts = list(points)
    return [p for p in pts if not any(o_dominates(q, p) for q in pts)]
