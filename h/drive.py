"""Run real drivers (prepared by the real factory) and watch every step."""
import random
import world

META_SMALL = {
    "HGS": dict(population_sizes=(16, 10, 8), max_sprouts_no=4, sproutiveness=2),
    "IMGA": dict(islands_number=3, migrants_number=2, epoch_length=3),
}


class Recorder:
    """stands between a meta-algorithm and the driver factory it was given: an injected dependency, not a patch"""

    def __init__(self, inner):
        self.inner = inner
        self.created = []           # (driver, kwargs)
        self.on_step = None
        self.on_create = None
        self.running = None         # number of the driver that is stepping

    def __call__(self, *a, **kw):
        d = self.inner(*a, **kw)
        n = len(self.created)
        self.created.append((d, kw))
        d.v_steps = 0
        orig = d.next_step

        def next_step():
            self.running = n
            m = orig()
            self.running = None
            d.v_steps += 1
            if self.on_step:
                self.on_step(n, d, m)
            return m

        d.next_step = next_step
        if self.on_create:
            self.on_create(n, d, kw)
        return d

    def drivers(self):
        return [d for d, _ in self.created]


def build(algo, problem, pop=None, rec=True, **over):
    """returns (driver, recorder or None)"""
    from simulation import factory
    problem.register()
    part, mod = factory.prepare(algo, problem.name)
    r = None
    kw = dict(over)
    if "+" in algo:
        kw2 = {k: (list(v) if isinstance(v, list) else v) for k, v in META_SMALL.get(algo.split("+")[0], {}).items()}
        kw2.update(kw)
        kw = kw2
        if algo.startswith("HGS"):
            kw.setdefault("metaepoch_len", [2, 2, 2])
            kw.setdefault("min_progress_ratio", [4.0, 8.0, 16.0])     # nodes ripen after three rounds: deep trees fast
        r = Recorder(part.keywords["driver"])
        kw["driver"] = r
    if pop is not None:
        kw["population"] = pop
    return part(**kw), r


def live_points(driver):
    """the points a driver currently holds, through its public population property"""
    return [tuple(x) for x in driver.population]


def final(driver):
    return [list(x) for x in driver.finalized_population()]


def pop_for(algo, problem, rng, P):
    return world.random_population(P, problem.dims, rng)
