SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


S("p01-tolerance", "P01",
  [("evotools/ea_utils.py", "        ndir = (-1, 0, 1)[(i <= j) + (i < j)]  # hacky!",
    "        tol = 1e-9 * max(1.0, abs(i))\n        ndir = 0 if abs(i - j) <= tol else (-1, 1)[i < j]")],
  "objective vectors that differ by less than 1e-9 in some objective (converged populations, tiny-scale objectives)",
  "dominance ignores differences below a tolerance, so it is neither exact nor transitive",
  """
from evotools.ea_utils import dominates
assert dominates([1e-10, 5.0], [2e-10, 5.0])
assert not dominates([1.0, 2.0 + 5e-10], [2.0, 2.0])
""")

S("p02-ignore-skip", "P02",
  [("algorithms/base/hv.py", "                if q.ignore < dimIndex:\n                    q.ignore = 0", "                if q.ignore <= dimIndex:\n                    pass")],
  "four or more objectives and fronts where the slicing marks a point as ignorable in a low dimension and meets it again after a reinsertion",
  "stale ignore marks survive between slices, so volumes of many-objective fronts come out wrong",
  """
import itertools
from algorithms.base.hv import HyperVolume
def grid(front, ref):
    d = len(ref)
    axes = [sorted(set(p[i] for p in front) | {ref[i]}) for i in range(d)]
    v = 0.0
    for cell in itertools.product(*[range(len(a) - 1) for a in axes]):
        lo = [axes[i][c] for i, c in enumerate(cell)]
        if any(all(p[i] <= lo[i] for i in range(d)) for p in front):
            w = 1.0
            for i, c in enumerate(cell):
                w *= axes[i][c + 1] - axes[i][c]
            v += w
    return v
random.seed(5)
for _ in range(150):
    d = random.choice([4, 5])
    f = [[random.randint(0, 9) for _ in range(d)] for _ in range(random.randint(3, 6))]
    ref = [10] * d
    a, b = HyperVolume(ref).compute([list(map(float, p)) for p in f]), grid(f, ref)
    assert abs(a - b) < 1e-6 * max(1, b), (f, a, b)
""")

S("p03-spacing-twins", "P03",
  [("metrics/metrics_utils.py", "            if not i == j:\n                dist = sum", "            if ind_a is not ind_b and ind_a != ind_b:\n                dist = sum")],
  "a front that contains the same objective vector twice",
  "spacing no longer counts a coinciding neighbour as a neighbour at distance zero",
  """
from metrics import metrics_utils
v = metrics_utils.spacing([[0.0, 1.0], [0.0, 1.0], [1.0, 0.0]])
assert abs(v - (sum((d - 2 / 3.0) ** 2 for d in (0, 0, 2)) / 2) ** 0.5) < 1e-9, v
""")

S("p04-mutation-tail", "P04",
  [("algorithms/base/drivertools.py", "                val = 2.0 * (1.0 - rnd) + 2.0 * (rnd - 0.5) * (pow(xy, (eta + 1.0)))",
    "                val = 2.0 * (1.0 - rnd) + (1.0 - 2.0 * rnd) * (pow(xy, (eta + 1.0)))")],
  "upward mutation of a gene close to its upper bound, where the bounded form of the distribution matters",
  "the upward half of polynomial mutation follows a wrong distribution near the bound",
  """
from algorithms.base.drivertools import mutate
random.seed(3)
eta, y = 5.0, 0.98
def expect(r):
    if r <= 0.5:
        return (2 * r + (1 - 2 * r) * (1 - y) ** (eta + 1)) ** (1 / (eta + 1)) - 1
    return 1 - (2 * (1 - r) + 2 * (r - 0.5) * y ** (eta + 1)) ** (1 / (eta + 1))
class R:
    def __init__(self, r): self.q = [0.0, r]
    def __call__(self): return self.q.pop(0)
import algorithms.base.drivertools as dt
n = 6000
got = [mutate([y], [(0.0, 1.0)], 1.0, eta)[0] for _ in range(n)]
up = [g for g in got if g > y]
m = sum(up) / len(up)
# textbook: mean of the upward half
import statistics
ref = []
for i in range(20000):
    r = 0.5 + 0.5 * (i + 0.5) / 20000
    d = (1 - y)
    ref.append(y + 1 - (2 * (1 - r) + 2 * (r - 0.5) * (1 - d) ** (eta + 1)) ** (1 / (eta + 1)))
rm = sum(ref) / len(ref)
assert abs(m - rm) < 0.0008, (m, rm)
""")

S("p05-speed-before-bound", "P05",
  [("algorithms/base/drivertools.py", "        new_ys[i] = min(ub, max(lb, new_ys[i]))\n", "        new_ys[i] = min(ub, new_ys[i])\n"),
   ("algorithms/base/drivertools.py", "        y1 = min(xs[i], ys[i])\n        y2 = max(xs[i], ys[i])\n", "        y1, y2 = xs[i], ys[i]\n")],
  "crossover of parents whose first gene is the larger one, with a spread that leaves the domain below",
  "recombination may leave the domain at the lower bound",
  """
from algorithms.base.drivertools import crossover
random.seed(1)
for _ in range(20000):
    c = crossover([0.9, 0.7, 1.0], [0.1, 0.02, 0.0], [(0, 1)] * 3, 1.0, 3.0)
    assert all(0 <= v <= 1 for v in c), c
""")

S("p06-epoch-cost", "P06",
  [("algorithms/HGS/classic/ClassicHGS.py", "                    ops.map(lambda message: self.fill_node_info(message)),\n                    ops.do_action(lambda message: self.update_current_cost(message)),\n",
    "                    ops.map(lambda message: self.fill_node_info(message)),\n                    ops.take_last(self.metaepoch_len),\n                    ops.do_action(on_next=self.update_current_cost),\n")],
  "a hierarchic search whose nodes advance more than one step per round",
  "the cost of a round counts earlier steps of the round again",
  """
import io, contextlib
from simulation.factory import prepare
with contextlib.redirect_stdout(io.StringIO()):
    d = prepare("HGS+NSGAII", "ZDT1")[0]()
    for _ in range(3):
        d.next_step()
total = sum(n.driver.cost for n in d.hgs.nodes if n.population)
assert d.cost == total, (d.cost, total)
""")

S("p07-exact-budget", "P07",
  [("algorithms/base/driver.py", "        while driver.cost < self.budget:\n            observer.on_next(driver.next_step())\n        observer.on_completed()",
    "        spent = -1\n        while spent < self.budget:\n            spent = driver.cost\n            observer.on_next(driver.next_step())\n        observer.on_completed()")],
  "any run in which the result after a step reaches the budget: one more step is made",
  "a budget run goes on after the budget is reached",
  """
from algorithms.base.driver import Driver, BudgetRun
class D(Driver):
    def step(self): self.cost += 10
    def finalized_population(self): return [[0.0]]
d = D()
BudgetRun(35).create_job(d).subscribe(lambda m: None)
assert d.cost == 40, d.cost
BudgetRun(40).create_job(d).subscribe(lambda m: None)
assert d.cost == 40, d.cost
""")

S("p08-late-slots", "P08",
  [("algorithms/base/driver.py", "                for _ in range(0, int(time_elapsed_since_last_emission // self.step)):\n                    self.step_no += 1",
    "                for late in range(0, int(time_elapsed_since_last_emission // self.step)):\n                    if late:\n                        previous_result = result\n                    self.step_no += 1")],
  "a step that takes longer than two sampling intervals",
  "samples for intervals that ended while a step was running show the state after that step",
  """
import time
from algorithms.base import driver as dr
now = [0.0]
class T:
    @staticmethod
    def time(): return now[0]
dr.time = T
class D(dr.Driver):
    q = [0.5, 0.4, 3.4, 1.0]
    def step(self):
        self.cost += 1
        now[0] += self.q.pop(0) if self.q else 1.0
    def finalized_population(self): return [[0.0]]
d = D()
got = []
dr.TimeRun(1, 5).create_job(d).subscribe(lambda m: got.append((m.elapsed_time, m.cost)))
assert [g for g in got if g[0] <= 4] == [(1, 2), (2, 2), (3, 2), (4, 2)], got
""")

S("p09-reused-snapshot", "P09",
  [("algorithms/base/model.py", "    def emit_result(self) -> PopulationMessage:\n        return PopulationMessage(self.get_population(), super().emit_result())",
    "    snapshot = None\n\n    def emit_result(self) -> PopulationMessage:\n        population = self.get_population()\n        if self.snapshot is not None and len(self.snapshot) == len(population):\n            self.snapshot[:] = population\n        else:\n            self.snapshot = list(population)\n        return PopulationMessage(self.snapshot, super().emit_result())")],
  "two steps of a nested algorithm whose population keeps its size, with the first message still held",
  "an earlier message's population turns into the later one",
  """
from algorithms.base.model import PopulationMessageAdapter
class Ad(PopulationMessageAdapter):
    def get_population(self):
        return [x.v for x in self.driver.individuals]
random.seed(3)
from algorithms.base.driver import Driver
class D(Driver):
    def step(self):
        self.individuals = [V([random.random()]) for _ in range(5)]
class V:
    def __init__(self, v): self.v = v
d = D(message_adapter_factory=Ad)
ms = [d.next_step() for _ in range(3)]
kept = [[x[0] for x in m.population] for m in ms]
assert len(set(map(tuple, kept))) == 3, kept
""")

S("p10-stale-strength", "P10",
  [("algorithms/SPEA2/SPEA2.py", "        self.calculate_dominated(union)\n", "        self.calculate_dominated(population)\n        for p in archive:\n            p.setdefault(\"dominates\", 0)\n")],
  "two generations: an archive member that dominated nothing when it entered dominates a newcomer later",
  "a dominated newcomer can pass as non-dominated and push its dominator's peers out of the archive",
  """
from algorithms.SPEA2.SPEA2 import SPEA2
fs = [lambda x: x[0], lambda x: x[1]]
dom = lambda a, b: all(x <= y for x, y in zip(a, b)) and a != b
random.seed(4)
for _ in range(60):
    s = SPEA2([[random.random(), random.random()] for _ in range(6)], fs, [(0, 1)] * 2, 10.0, 0.5, 10.0, 0.9)
    for _ in range(4):
        before = [list(x) for x in s.finalized_population()] + [list(x) for x in s.population]
        s.step()
        arch = s.finalized_population()
        for a in arch:
            for c in before:
                assert not (dom(c, a) and c not in arch), (a, c)
""")

S("p12-split-remainder", "P12",
  [("algorithms/IMGA/IMGA.py", "                init_population[self.islands_number * subpop_size + i]", "                init_population[self.islands_number * subpop_size]")],
  "a starting population whose size leaves a remainder of at least two when divided by the number of islands",
  "one starting individual is given to several islands and others are lost",
  """
from algorithms.IMGA.IMGA import IMGA
from algorithms.base.driver import Driver
got = []
class D(Driver):
    def __init__(self, population, **kw):
        super().__init__()
        got.append([list(x) for x in population])
pop = [[float(i)] for i in range(11)]
kw = dict(population=pop, dims=[(0, 20)], fitnesses=[lambda x: x[0]], driver=D, islands_number=4, migrants_number=1, epoch_length=2, mutation_rate=0.1, mutation_eta=1.0, crossover_rate=0.9, crossover_eta=1.0, driver_message_adapter_factory=None)
IMGA(**kw)
flat = sorted(x[0] for g in got for x in g)
assert flat == sorted(x[0] for x in pop), flat
""")

S("p13-sprout-limit", "P13",
  [("algorithms/HGS/classic/ClassicHGS.py", "                            released_sprouts >= self.owner.sproutiveness\n                            or len([x for x in self.sprouts if x.alive])\n                            >= self.owner.max_sprouts_no",
    "                            released_sprouts >= self.owner.sproutiveness")],
  "a stopped node one child short of the limit whose delegates allow several sprouts in one round",
  "a node may end up with more living children than allowed",
  """
import io, contextlib
from simulation.factory import prepare
random.seed(7)
with contextlib.redirect_stdout(io.StringIO()):
    for k in range(4):
        d = prepare("HGS+NSGAII", "ZDT1")[0](max_sprouts_no=2, sproutiveness=3, min_progress_ratio=[9.0, 9.0, 9.0], metaepoch_len=[1, 1, 1],
                                             comparison_multipliers=(1.0, 0.01, 0.001))
        for _ in range(7):
            d.next_step()
            worst = max(len([s for s in n.sprouts if s.alive]) for n in d.hgs.nodes)
            assert worst <= 2, worst
""")

S("p15-id-seconds", "P15",
  [("simulation/model.py", '"%Y-%m-%d.%H%M%S.%f"', '"%Y-%m-%d.%H%M%S.000000"')],
  "two batches with -N of at least 2 into one results directory, started within a second of each other",
  "executions of the two batches get one directory and overwrite each other's results",
  """
from simulation.model import SimulationCase
from simulation.serializer import Serializer
import time
ids = set()
for _ in range(12):
    ids.add(str(Serializer(SimulationCase("P", "A", 1, None, "d")).path))
    time.sleep(0.01)
assert len(ids) == 12, len(ids)
""")

S("p16-run-number", "P16",
  [("simulation/serialization.py", "                yield (simulation_case, run_no)\n                run_no += 1\n", "                if any(Serializer(simulation_case).path.iterdir()):\n                    yield (simulation_case, run_no)\n                    run_no += 1\n"),
   ("simulation/serialization.py", "                by_number[int(runbudget.name)].append(runbudget)", "                if len(by_number[int(runbudget.name)]) <= run_no:\n                    by_number[int(runbudget.name)].append(runbudget)")],
  "a checkpoint missing from an early run: the later runs' results of that checkpoint",
  "does not show on complete trees; numbering skips empty runs",
  """
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result
from simulation.serialization import BudgetResultsExtractor
t = tempfile.mkdtemp()
try:
    for i, cps in enumerate([[], [500], [500, 1000]]):
        name = "2020-01-0%d.101010.000001__000000%d" % (i + 1, i)
        os.makedirs(os.path.join(t, "P", "A", name))
        for c in cps:
            Serializer(SimulationCase("P", "A", i, None, t, name)).store(Result([[0.0]], [[float(i)]], cost=c), str(c))
    got = [(c["budget"], [(r.run_no, r.fitnesses) for r in rs]) for rs, c in BudgetResultsExtractor().load("A", "P", t)]
    assert got == [(500, [(1, [[1.0]]), (2, [[2.0]])]), (1000, [(2, [[2.0]])])], got
finally:
    shutil.rmtree(t)
""")

S("p17-stale-union", "P17",
  [("simulation/metrics_processor.py", "    if solutions and solutions == problem_solutions:", "    if solutions and [len(s) for s in solutions] == [len(s) for s in problem_solutions]:")],
  "an execution that is deleted and done again, with as many points, after indicators were computed once",
  "the cached joint front of a previous state of the results is used for the dominance indicator",
  """
import io, contextlib, types
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result
from simulation.serialization import BudgetResultsExtractor, each_result
m = types.ModuleType("problems.PX.problem"); m.pareto_front = [[0.0, 0.0]]; m.fitnesses = []; m.dims = [(0, 1)]
pk = types.ModuleType("problems.PX"); pk.problem = m
sys.modules["problems.PX"] = pk; sys.modules["problems.PX.problem"] = m
t = tempfile.mkdtemp()
def put(a, fit, name="2020-01-01.101010.000001__0000001"):
    Serializer(SimulationCase("PX", a, 1, None, t, name)).store(Result([[0.0]] * len(fit), fit, cost=5), "500")
def read():
    out = {}
    with contextlib.redirect_stdout(io.StringIO()):
        for p, mod, algos in each_result(BudgetResultsExtractor(), t):
            for a, rs in algos:
                for r in rs:
                    for n, _, vals in r["analysis"]:
                        if n == "pdi":
                            out[a] = [v() for v in vals]
    return out
try:
    put("A", [[1.0, 2.0], [2.0, 1.0]]); put("B", [[1.5, 1.5]])
    r = read()
    assert abs(r["B"][0] - 1 / 3.0) < 1e-9, r
    shutil.rmtree(t + "/PX/B")
    put("B", [[0.1, 0.1]], "2020-01-02.101010.000001__0000001")
    r = read()
    assert r == {"A": [0.0], "B": [1.0]}, r
finally:
    shutil.rmtree(t)
""")

S("p18-prefix", "P18",
  [("simulation/factory.py", "            algo for algo in run_config.algorithms if algo.lower() in algorithms_filter\n", "            algo\n            for algo in run_config.algorithms\n            if any(chosen.startswith(algo.lower()) for chosen in algorithms_filter)\n")],
  "selecting an algorithm whose name continues another one's (NSGAIII, NSGAII; a combination never starts with a plain name)",
  "an extra algorithm that was not asked for is run",
  """
from simulation import factory
assert factory.parse_algorithms({"--algo": "NSGAIII"}) == ["NSGAIII"]
assert factory.parse_algorithms({"--algo": "imga+nsgaiii,SPEA2"}) == ["IMGA+NSGAIII", "SPEA2"]
""")

S("p20-shared-archive", "P20",
  [("algorithms/HGS/classic/ClassicHGS.py", "class ClassicHGS(ComplexDriver):\n    def __init__(", "class ClassicHGS(ComplexDriver):\n    archives = {}\n\n    def __init__("),
   ("algorithms/HGS/classic/ClassicHGS.py", "        self.global_fitness_archive = [ResultArchive() for _ in range(3)]", "        self.global_fitness_archive = [\n            self.archives.setdefault(level, ResultArchive()) for level in range(3)\n        ]")],
  "two hierarchic searches in one process that meet the same (precision-trimmed) point, on different problems or in repetitions",
  "objective values of one run are reused in the next one: wrong values on another problem, too low costs on the same",
  """
import io, contextlib
from simulation.factory import prepare
with contextlib.redirect_stdout(io.StringIO()):
    pop = [[random.random() for _ in range(30)] for _ in range(64)]
    costs = []
    for k in range(2):
        d = prepare("HGS+NSGAII", "ZDT1")[0](population=[list(x) for x in pop])
        costs.append(d.hgs.root.driver.cost)
assert costs[0] == costs[1] == 64, costs
""")

S("p21-first-only", "P21",
  [("statistic/stats_bootstrap.py", "    n = len(population) - 1\n    return [population[int(random.randint(0, n))] for i in range(k)]",
    "    n = len(population)\n    return [population[int(random.random() * (n - 1) + 0.5)] for i in range(k)]")],
  "shows only in the resampling frequencies: the first and the last observation are drawn half as often as the others",
  "resampling is not uniform, intervals lean to the middle of the data's order",
  """
from statistic.stats_bootstrap import sample_wr
import collections
random.seed(2)
c = collections.Counter(sample_wr(list(range(5)), 50000))
assert all(abs(c[i] - 10000) < 600 for i in range(5)), c
""")

S("p22-fallback-delta", "P22",
  [("statistic/stats_bootstrap.py", "        if validate_cost(result, boot_size, delta):\n            return result\n        prev_budget = budget\n", "        if validate_cost(result, boot_size, delta):\n            return result\n")],
  "three or more checkpoints of which the two highest overran their budgets",
  "the tolerance grows too fast on the way down, so a checkpoint that overran is ranked",
  """
from statistic.stats_bootstrap import find_acceptable_result_for_budget as f
def r(b, c): return {"budget": b, "analysis": [("cost", "cost", [lambda: c])]}
rs = [r(500, 600), r(1000, 4000), r(2000, 4500), r(3000, 5000)]
assert f(rs, 20)["budget"] == 500, f(rs, 20)["budget"]
""")

S("p23-uf5-term", "P23",
  [("problems/UF5/problem.py", "    return 2 * t ** 2 - math.cos(4 * math.pi * t) + 1", "    return 2 * t ** 2 - (math.cos(2 * math.pi * t) ** 2 * 2 - 1 if abs(t) < 1 else math.cos(4 * t)) + 1")],
  "points far from the front, where some distance term is larger than one",
  "the second family of terms of UF5 is wrong there",
  """
import importlib, math
p = importlib.import_module("problems.UF5.problem")
assert abs(p.h(1.3) - (2 * 1.69 - math.cos(4 * math.pi * 1.3) + 1)) < 1e-9
""")


# ---- second batch ------------------------------------------------------------------------------------------

S("p01-smsemoa-layers", "P01",
  [("algorithms/SMSEMOA/SMSEMOA.py", "                how_many_dominates[x] += 1\n", "                how_many_dominates[x] = 1\n")],
  "three individuals in a chain of dominance, the last one dominated by members of two different layers",
  "SMS-EMOA's layering puts an individual right behind its first dominator instead of behind its last one",
  """
from algorithms.SMSEMOA.SMSEMOA import nd_sort
class I:
    def __init__(self, *o): self.objectives = list(o)
a, b, c = I(0.0, 0.0), I(1.0, 1.0), I(2.0, 2.0)
layers = {n: [x.objectives for x in l] for n, l in nd_sort([a, b, c]).items() if l}
assert layers == {1: [[0, 0]], 2: [[1, 1]], 3: [[2, 2]]}, layers
""")

S("p02-sorted-cargo", "P02",
  [("algorithms/base/hv.py", "            while length > 1 and (\n                q.cargo[dimIndex] > bounds[dimIndex]\n                or q.prev[dimIndex].cargo[dimIndex] >= bounds[dimIndex]",
    "            while length > 1 and (\n                q.cargo[dimIndex] > bounds[dimIndex]\n                or q.prev[dimIndex].cargo[dimIndex] > bounds[dimIndex]")],
  "four or more objectives and points that share a coordinate, so that two of them lie exactly on a slice boundary",
  "slices that coincide with a bound are kept and their cached areas are used for the wrong set",
  """
import itertools
from algorithms.base.hv import HyperVolume
def grid(front, ref):
    d = len(ref)
    axes = [sorted(set(p[i] for p in front) | {ref[i]}) for i in range(d)]
    v = 0.0
    for cell in itertools.product(*[range(len(a) - 1) for a in axes]):
        lo = [axes[i][c] for i, c in enumerate(cell)]
        if any(all(p[i] <= lo[i] for i in range(d)) for p in front):
            w = 1.0
            for i, c in enumerate(cell):
                w *= axes[i][c + 1] - axes[i][c]
            v += w
    return v
random.seed(5)
for _ in range(600):
    d = random.choice([4, 5])
    f = [[random.randint(0, 4) for _ in range(d)] for _ in range(random.randint(3, 6))]
    ref = [10] * d
    a, b = HyperVolume(ref).compute([list(map(float, p)) for p in f]), grid(f, ref)
    assert abs(a - b) < 1e-6 * max(1, b), (f, a, b)
""")

S("p03-igd-part", "P03",
  [("metrics/metrics.py", "    return metrics_utils.inverse_generational_distance(solution, pareto)", "    return metrics_utils.inverse_generational_distance(\n        not_dominated_solution, pareto\n    )")],
  "a result in which a dominated member is the nearest one to some point of the front",
  "the distance from the front is measured to the non-dominated part instead of the whole set",
  """
from metrics import metrics
s = [[2.0, 0.0], [2.1, 0.2], [0.0, 3.0]]
p = [[2.1, 0.3]]
v = metrics.inverse_generational_distance(s, metrics.filter_not_dominated(s), p)
assert abs(v - 0.1) < 1e-9, v
""")

S("p03-epsilon-carry", "P03",
  [("metrics/epsilon.py", "                if j == 0:\n                    eps_j = eps_k\n                elif eps_j > eps_k:", "                if i == 0 and j == 0:\n                    eps_j = eps_k\n                elif eps_j > eps_k:")],
  "a set of at least two points whose first point is nearer to the front than a later one",
  "the additive epsilon of later points is limited by the smallest shift of the earlier ones",
  """
from metrics import metrics
s = [[0.0, 1.0], [3.0, 0.0]]
p = [[0.0, 1.0], [1.0, 0.0]]
def eps(s, p):
    return max(min(max(q[k] - x[k] for k in range(2)) for q in p) for x in s)
for t in (s, s[::-1], [[1.0, -1.0], [-2.0, 4.0]]):
    v = metrics.epsilon(t, metrics.filter_not_dominated(t), p)
    assert abs(v - eps(t, p)) < 1e-9, (t, v, eps(t, p))
""")

S("p04-near-parents", "P04",
  [("algorithms/base/drivertools.py", "        if math.fabs(xs[i] - ys[i]) <= EPSILON:", "        if math.fabs(xs[i] - ys[i]) <= 1e-2:")],
  "crossover of parents whose genes differ by less than a hundredth (late in a search, or small domains)",
  "genes of near parents are never recombined",
  """
from algorithms.base.drivertools import crossover
random.seed(2)
seen = set()
for _ in range(200):
    seen.update(crossover([0.500], [0.506], [(0.0, 1.0)], 1.0, 15.0))
assert len(seen) > 10, sorted(seen)
""")

S("p04-nsga3-upper", "P04",
  [("algorithms/NSGAIII/NSGAIII.py", "        beta = 1.0 + (2.0 * (ub - y2) / (y2 - y1 + EPSILON))\n        alpha = 2.0 - pow(beta, -(eta + 1.0))\n        beta_q = get_beta_q(rand, alpha, eta)\n\n        child_b",
    "        beta_q = get_beta_q(rand, alpha, eta)\n\n        child_b")],
  "theta-NSGA-III's crossover of parents lying near one bound, with a small distribution index",
  "the spread of the upper child is bounded by the distance to the lower bound",
  """
from algorithms.NSGAIII.NSGAIII import simulated_binary_crossover, Individual
random.seed(4)
low = high = 0
for _ in range(20000):
    a, b = simulated_binary_crossover(Individual([0.90]), Individual([0.98]), [(0.0, 1.0)], 1.0, 2.0)
    for v in (a.v[0], b.v[0]):
        high += v >= 1.0
assert high < 50, high
""")

S("p05-nsls-first-bounds", "P05",
  [("algorithms/NSLS/NSLS.py", "                if w_minus.v[k] < self.dims[k][0] or w_minus.v[k] > self.dims[k][1]:", "                lower, upper = self.dims[0]\n                if w_minus.v[k] < lower or w_minus.v[k] > upper:")],
  "a domain whose first range is wider than another one",
  "local search checks one of its two candidates against the first variable's range",
  """
import types, math
sp, ds = types.ModuleType("scipy.spatial"), types.ModuleType("scipy.spatial.distance")
ds.euclidean = lambda a, b: math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
sp.distance = ds
for n, m in (("scipy", types.ModuleType("scipy")), ("scipy.spatial", sp), ("scipy.spatial.distance", ds)):
    sys.modules.setdefault(n, m)
from algorithms.NSLS.NSLS import NSLS
dims = [(-100.0, 100.0), (0.0, 1.0), (-1.0, 0.0)]
bad = []
def watch(x):
    if not all(a <= v <= b for v, (a, b) in zip(x, dims)):
        bad.append(list(x))
    return sum(v * v for v in x)
random.seed(1)
pop = [[random.uniform(a, b) for a, b in dims] for _ in range(20)]
d = NSLS(population=pop, dims=dims, fitnesses=[watch, lambda x: -x[0] + x[1]], mutation_eta=20, mutation_rate=.1, crossover_eta=20, crossover_rate=.9)
for _ in range(5):
    d.next_step()
assert not bad, bad[0]
""")

S("p06-archive-charged", "P06",
  [("algorithms/NSGAII/NSGAII.py", "            if ind.objectives is None:\n                if (self.fitness_archive", "            if ind.objectives is None:\n                self.cost += 1\n                if (self.fitness_archive"),
   ("algorithms/NSGAII/NSGAII.py", "                else:\n                    self.cost += 1\n                    fitnesses", "                else:\n                    fitnesses")],
  "a search inside a hierarchic algorithm that meets a point it knows from the archive",
  "candidates whose values are known are charged although they are not evaluated",
  """
from algorithms.NSGAII.NSGAII import NSGAII
from algorithms.HGS.tools import ResultArchive
calls = [0]
def f(x):
    calls[0] += 1
    return x[0]
random.seed(1)
trim = lambda x: [round(v, 1) for v in x]
d = NSGAII([[random.random()] for _ in range(10)], [(0.0, 1.0)], [f, lambda x: 1 - x[0]], 0.5, 20, 20, .5, .9, trim_function=trim, fitness_archive=ResultArchive())
for _ in range(5):
    d.next_step()
assert d.cost == calls[0], (d.cost, calls[0])
""")

S("p07-steps-budget", "P07",
  [("algorithms/base/driver.py", "        return rx.range(0, self.steps).pipe(ops.map(lambda _: driver.next_step()))",
    "        return rx.range(0, self.steps).pipe(\n            ops.map(lambda _: driver.next_step()),\n            ops.take_while(\n                lambda message: not driver.max_budget\n                or message.cost < driver.max_budget,\n                inclusive=True,\n            ),\n        )")],
  "a run of a number of steps on an algorithm that was told its budget and reaches it on the way",
  "a run of a given number of steps ends early",
  """
from algorithms.base.driver import Driver, StepsRun
class D(Driver):
    done = 0
    def step(self):
        self.done += 1
        self.cost += 10
d = D()
d.max_budget = 25
StepsRun(6).create_job(d).run()
assert d.done == 6, d.done
""")

S("p08-consumer-time", "P08",
  [("algorithms/base/driver.py", "        previous_result = None\n        while self.time_elapsed < self.timeout:\n            step_start_time = time.time()\n            result = driver.next_step()\n            self.time_elapsed += time.time() - step_start_time\n",
    "        previous_result = None\n        step_start_time = time.time()\n        while self.time_elapsed < self.timeout:\n            result = driver.next_step()\n            now = time.time()\n            self.time_elapsed += now - step_start_time\n            step_start_time = now\n")],
  "a consumer of the samples that takes time itself (storing large results)",
  "time spent storing samples is counted as search time",
  """
import time
from algorithms.base.driver import Driver, TimeRun
clock = [1000.0]
time.time = lambda: clock[0]
class D(Driver):
    done = 0
    def step(self):
        self.done += 1
        clock[0] += 1.0
d = D()
def slow(m):
    clock[0] += 5.0
TimeRun(2, 10).create_job(d).subscribe(slow)
assert d.done == 10, d.done
""")

S("p09-lazy-cost", "P09",
  [("algorithms/base/model.py", "class TimeProgressMessage(ProgressMessage):\n    def __init__(self, elapsed_time: int, progress: ProgressMessage):\n        super().__init__(progress.step_no, progress.cost)\n",
    "class DriverProgressMessage(ProgressMessage):\n    def __init__(self, driver: \"Driver\"):\n        self.driver = driver\n        self.step_no = driver.step_no\n\n    @property\n    def cost(self):\n        return self.driver.cost\n\n\nclass TimeProgressMessage(ProgressMessage):\n    def __init__(self, elapsed_time: int, progress: ProgressMessage):\n        super().__init__(progress.step_no, progress.cost)\n"),
   ("algorithms/base/model.py", "        return ProgressMessage(self.driver.step_no, self.driver.cost)", "        return DriverProgressMessage(self.driver)")],
  "a message that is read after the algorithm has made another step",
  "the cost in a message follows the algorithm instead of recording the moment",
  """
from algorithms.base.driver import Driver
class D(Driver):
    def step(self):
        self.cost += 7
d = D()
a = d.next_step()
b = d.next_step()
assert (a.cost, b.cost) == (7, 14), (a.cost, b.cost)
""")

S("p10-lost-extreme", "P10",
  [("algorithms/NSGAII/NSGAII.py", "                    self.dist[inds[0]] = float(\"inf\")\n", "                    self.dist[inds[0]] += (\n                        2\n                        * (\n                            inds[1].objectives[objective]\n                            - inds[0].objectives[objective]\n                        )\n                        / (max_r - min_r + sys.float_info.epsilon)\n                    )\n")],
  "more non-dominated candidates than places, with the best point of an objective in a crowded spot",
  "the crowding distance no longer protects the best point of an objective",
  """
from algorithms.NSGAII.NSGAII import NSGAII
f = [lambda x: x[0], lambda x: 1.0 - x[0] if x[0] else 5.0]
xs = [[0.0], [0.0001], [0.0002], [0.0003], [0.3], [0.6], [0.9]]
f = [lambda x: x[0], lambda x: 1.0 - x[0]]
d = NSGAII(xs, [(0.0, 1.0)], f, 0.5, 20, 20, .5, .9)
d.population_size = 4
out = d.finish()
assert min(x[0] for x in out) == 0.0, out
assert len(out) == 4
""")

S("p12-uniform-emigrants", "P12",
  [("algorithms/IMGA/IMGA.py", "                weights = [1 / (i + 1) for i in range(len(pareto_layers))]", "                weights = [len(layer) for layer in pareto_layers]")],
  "shows only in the frequencies: better-ranked members emigrate as often as the others",
  "emigrants are drawn uniformly, without preference for better-ranked members",
  """
import io, contextlib
from algorithms.IMGA.IMGA import IMGA
class A:
    def emigrate(self, x): return list(x)
class D:
    pass
class O:
    fitnesses = [lambda x: x[0], lambda x: x[0]]
    migrants_number = 1
n = 0
random.seed(3)
for _ in range(2000):
    isl = IMGA.Island.__new__(IMGA.Island)
    isl.outer, isl.driver, isl.all_refugees = O, D(), []
    isl.driver.population = [[0.0]] + [[1.0] for _ in range(9)]
    isl.driver.message_adapter = A()
    isl.emigrate()
    n += isl.all_refugees[0] == [0.0]
assert n > 1000, n
""")

S("p13-cousins", "P13",
  [("algorithms/HGS/classic/ClassicHGS.py", "                                    x\n                                    for x in self.owner.level_nodes[self.level + 1]\n                                    if len(x.population) > 0", "                                    x for x in self.sprouts if len(x.population) > 0")],
  "two nodes of one level whose delegates lie close to each other (three-level trees)",
  "a child may start where a child of another node already searches",
  """
import io, contextlib, types
import numpy as np
from algorithms.HGS.classic.ClassicHGS import ClassicHGS
class Adapter:
    pass
class Drv:
    def __init__(self, population, **kw):
        self.population = population
        self.cost = 0
def mk():
    with contextlib.redirect_stdout(io.StringIO()):
        h = ClassicHGS(population=[[random.random()] for _ in range(4)], dims=[(0.0, 1.0)], fitnesses=[lambda x: x[0]], fitness_errors=[0, 0, 0],
            cost_modifiers=[1, 1, 1], driver=lambda **kw: Drv(kw["population"]), mutation_etas=[20] * 3, crossover_etas=[20] * 3,
            mutation_rates=[.1] * 3, crossover_rates=[.9] * 3, reference_point=[2.0], mantissa_bits=[52] * 3, min_progress_ratio=[0] * 3, metaepoch_len=[1] * 3,
            population_sizes=(4, 3, 2), comparison_multipliers=(1.0, 0.1, 0.05), driver_message_adapter_factory=None)
    return h
h = mk()
for c in (0.5, 0.9):
    n = ClassicHGS.Node(h, 1, [[c]] * 3)
    n.alive, n.ripe, n.delegates, n.population = False, True, [[0.5 if c == 0.5 else 0.501]], [[c]] * 3
    n.center = np.array([c])
    h.root.sprouts.append(n); h.nodes.append(n); h.level_nodes[1].append(n)
a, b = h.level_nodes[1]
a.release_new_sprouts()
assert len(h.level_nodes[2]) == 1
k = h.level_nodes[2][0]
k.population, k.center = [[0.5]] * 2, np.array([0.5])
b.release_new_sprouts()
assert len(h.level_nodes[2]) == 1, len(h.level_nodes[2])
""")

S("p14-unsorted-groups", "P14",
  [("algorithms/HGS/distributed/hgs_tasks.py", "            self.trim_infos.sort(reverse=True, key=lambda info: info.level)\n", "            self.trim_infos.reverse()\n")],
  "status answers of different levels that arrive interleaved",
  "nodes of a level are compared only with those whose answers arrived next to each other",
  """
import numpy as np
from algorithms.HGS.distributed.hgs_tasks import TrimRedundantHgsTask
from algorithms.HGS.distributed.message import HgsMessage, HgsOperation, NodeMessage, NodeOperation
from algorithms.HGS.distributed.node_tasks import create_node_state
class C:
    min_dists = [1.0, 0.1, 0.01]
class H:
    config = C
    nodes = ["root", "a", "b", "leaf"]
    sent = []
    def send(self, to, msg): self.sent.append((to, msg.operation))
    def log(self, *a, **k): pass
h = H()
t = TrimRedundantHgsTask(h)
t.execute(HgsMessage(HgsOperation.TRIM_REDUNDANT, 1, None), "sup")
answers = [("a", 1, 0.5), ("leaf", 2, 0.2), ("b", 1, 0.5), ("root", 0, 0.1)]
for n, lvl, c in answers:
    t.execute(NodeMessage(NodeOperation.CHECK_STATUS, t.id, create_node_state(n, lvl, True, False, [[c]])), n)
kills = [x for x, op in h.sent if op == NodeOperation.KILL]
assert len(kills) == 1 and kills[0] in "ab", h.sent
""")

S("p14-lost-siblings", "P14",
  [("algorithms/HGS/distributed/hgs_tasks.py", "        self.next_lvl_states.extend(msg.data[1])\n\n        self.hgs.node_states.append(msg.data[0])", "        self.hgs.node_states.append(msg.data[0])")],
  "two nodes of one level that sprout in the same round around neighbouring places",
  "a node is not told about the children created by its siblings in the same round",
  """
from algorithms.HGS.distributed.hgs_tasks import ReleaseSproutsHgsTask
from algorithms.HGS.distributed.message import HgsMessage, HgsOperation, NodeMessage, NodeOperation
from algorithms.HGS.distributed.node_tasks import create_node_state
class C:
    max_level = 2
class H:
    config = C
    level_nodes = {0: ["root"], 1: ["a", "b"], 2: []}
    node_states = []
    sent = []
    def send(self, to, msg): self.sent.append((to, msg.operation, list(msg.data) if isinstance(msg.data, list) else msg.data))
    def log(self, *a, **k): pass
h = H()
t = ReleaseSproutsHgsTask(h)
t.execute(HgsMessage(HgsOperation.RELEASE_SPROUTS, 1, None), "sup")
assert h.sent[-1][0] == "a"
kid = create_node_state("a", 2, True, False, [[0.5]])
t.execute(NodeMessage(NodeOperation.RELEASE_SPROUTS_END, t.id, (create_node_state("a", 1, False, True, [[0.5]]), [kid])), "a")
assert h.sent[-1][0] == "b" and len(h.sent[-1][2]) == 1, h.sent
""")

S("p14-early-revive", "P14",
  [("algorithms/HGS/distributed/hgs_tasks.py", "        self.nodes_finished += 1\n        if self.nodes_finished == self.ripe_nodes_count:\n            self.finish()", "        self.ripe_nodes_count -= 1\n        if self.ripe_nodes_count <= 1:\n            self.finish()")],
  "a revival of two or more stopped nodes",
  "the end of a revival is announced before every node has answered, and once more afterwards",
  """
from algorithms.HGS.distributed.hgs_tasks import ReviveHgsTask
from algorithms.HGS.distributed.message import HgsMessage, HgsOperation, NodeMessage, NodeOperation
from algorithms.HGS.distributed.node_tasks import create_node_state
class C:
    max_level = 2
    min_progress_ratio = [1.0, 1.0, 1.0]
class H:
    config = C
    node_states = [create_node_state(n, 1, False, True, [[0.5]]) for n in "abc"]
    sent = []
    def send(self, to, msg): self.sent.append((to, msg.operation))
    def log(self, *a, **k): pass
h = H()
t = ReviveHgsTask(h)
t.execute(HgsMessage(HgsOperation.REVIVE, 1, None), "sup")
for i, n in enumerate("abc"):
    assert ("sup", HgsOperation.REVIVE_END) not in h.sent, (i, h.sent)
    t.execute(NodeMessage(NodeOperation.REVIVE, t.id, None), n)
assert h.sent.count(("sup", HgsOperation.REVIVE_END)) == 1, h.sent
""")

S("p15-last-reported-cost", "P15",
  [("simulation/worker.py", "                Result(finalpop, finalpop_fit, cost=driver.cost), str(budget)\n            )\n            results.append((driver.cost, finalpop))", "                Result(finalpop, finalpop_fit, cost=reported[-1]), str(budget)\n            )\n            results.append((driver.cost, finalpop))"),
   ("simulation/worker.py", "        serializer = Serializer(self.simulation)\n        results = []\n\n        def process_results(budget: int):", "        serializer = Serializer(self.simulation)\n        results = []\n        reported = [0]\n\n        def process_results(budget: int):"),
   ("simulation/worker.py", "                lambda proxy: logger.debug(\n", "                lambda proxy: reported.append(proxy.cost)\n                or logger.debug(\n")],
  "a budget that is already reached when the run starts (the initial population costs as much)",
  "the stored cost is the last reported one, zero when no step was made",
  """
import glob, pickle, io, contextlib
from simulation import worker, factory
from simulation.model import SimulationCase
import logging
tmp = tempfile.mkdtemp()
try:
    w = worker.BudgetWorker(SimulationCase("kursawe", "NSGAII", 1, None, tmp, budgets=[20, 250]), 0)
    with contextlib.redirect_stdout(io.StringIO()):
        res = w.run()
    costs = {}
    for f in glob.glob(tmp + "/*/*/*/*.pickle"):
        costs[int(os.path.basename(f)[:-7])] = pickle.load(open(f, "rb")).additional_data["cost"]
    assert [costs[20], costs[250]] == [c for c, _ in res[0]], (costs, [c for c, _ in res[0]])
finally:
    shutil.rmtree(tmp)
""")

S("p16-text-order", "P16",
  [("simulation/serialization.py", "            for number in sorted(by_number)\n", "            for number in sorted(by_number, key=str)\n")],
  "checkpoints whose numbers have different lengths (500 and 1000)",
  "checkpoints are listed in the order of their names instead of their values",
  """
from simulation.serialization import BudgetResultsExtractor
from simulation.serializer import Serializer, Result
from simulation.model import SimulationCase
tmp = tempfile.mkdtemp()
try:
    c = SimulationCase("ZDT1", "SPEA2", 1, None, tmp)
    for b in (500, 1000, 70):
        Serializer(c).store(Result([[0.0]], [[1.0, 1.0]], cost=b), str(b))
    got = [d["budget"] for _, d in BudgetResultsExtractor().load("SPEA2", "ZDT1", tmp)]
    assert got == [70, 500, 1000], got
finally:
    shutil.rmtree(tmp)
""")

S("p17-kept-shares", "P17",
  [("simulation/metrics_processor.py", "        clear_old_pdi_metrics(problem_path)\n", "        if solutions is None:\n            clear_old_pdi_metrics(problem_path)\n")],
  "another run or algorithm stored after the shares were computed once",
  "shares of the joint front saved before are still reported after the competing results changed",
  """
import io, contextlib
from simulation import metrics_processor
from simulation.serialization import BudgetResultsExtractor
from simulation.serializer import Serializer, Result
from simulation.model import SimulationCase
tmp = tempfile.mkdtemp()
def share(algo):
    [(res, _)] = BudgetResultsExtractor().load(algo, "ZDT1", tmp)
    for r in res:
        r.non_dominated_fitnesses = metrics_processor.metrics.filter_not_dominated(r.fitnesses)
    import collections
    with contextlib.redirect_stdout(io.StringIO()):
        return metrics_processor.pareto_dominance_indicator(res[0], collections.defaultdict(list))
try:
    Serializer(SimulationCase("ZDT1", "SPEA2", 1, None, tmp)).store(Result([[0.0]], [(0.0, 1.0)], cost=9), "100")
    assert share("SPEA2") == 1.0
    Serializer(SimulationCase("ZDT1", "IBEA", 1, None, tmp)).store(Result([[0.0]], [(1.0, 0.0)], cost=9), "100")
    assert share("IBEA") == 0.5
    assert share("SPEA2") == 0.5, share("SPEA2")
finally:
    shutil.rmtree(tmp)
""")

S("p18-budget-text", "P18",
  [("simulation/factory.py", "    budgets = sorted([int(budget) for budget in args[\"<budget>\"].split(\",\")])", "    budgets = [int(budget) for budget in sorted(args[\"<budget>\"].split(\",\"))]")],
  "budgets whose numbers have different lengths (500,1000)",
  "budgets are sorted as text, so a larger one can come first",
  """
from simulation.factory import parse_budgets
assert parse_budgets({"<budget>": "1000,200,50"}) == [50, 200, 1000]
""")

S("p19-misaligned-summary", "P19",
  [("simulation/run_parallel.py", "        def process_result(subres):\n            results.append(subres)\n", "        def process_result(subres):\n            if subres is not None:\n                results.append(subres)\n")],
  "a batch in which a case fails",
  "failed cases are missing from the summary and the times of the others are attributed to wrong cases",
  """
import logging
from simulation import run_parallel, worker, factory
from simulation.model import SimulationCase
class L:
    errors = []
    def __getattr__(self, n):
        return lambda *a, **k: self.errors.append(a) if n == "error" else None
class W:
    def __init__(self, c, i): self.c, self.i = c, i
    def run(self): return None if self.c.run_id == 1 else ([], 1.0, self.i)
cases = [SimulationCase("ZDT1", "SPEA2", i, None, "x") for i in range(3)]
run_parallel.logger = L()
run_parallel.factory.resolve_configuration = lambda a: (W, cases)
class Sys:
    def __init__(self, *a, **k): pass
    def shutdown(self): pass
run_parallel.ActorSystem = Sys
run_parallel.run_parallel({"-j": "1", "-N": "3"})
assert len(L.errors) == 2 and L.errors[1][-1] == 1, L.errors
""")

S("p20-population-cache", "P20",
  [("simulation/factory.py", "                \"population\": gen_population(\n                    run_config.DEFAULT_POPULATION_SIZE, problem_mod.dims\n                )\n", "                \"population\": initial_populations.setdefault(\n                    problem_mod.name,\n                    gen_population(\n                        run_config.DEFAULT_POPULATION_SIZE, problem_mod.dims\n                    ),\n                )\n"),
   ("simulation/factory.py", "SAMPLING_INTERVAL_PARAM = \"sampling_interval\"\n", "SAMPLING_INTERVAL_PARAM = \"sampling_interval\"\n\ninitial_populations = {}\n")],
  "two runs on one problem in the same process",
  "every run on a problem starts from the initial population of the first one",
  """
from simulation.factory import prepare
a = prepare("SPEA2", "ZDT1")[0]().population
b = prepare("SPEA2", "ZDT1")[0]().population
assert a != b
""")

S("p21-outlier-deviation", "P21",
  [("statistic/stats_bootstrap.py", "            (x - mean_nooutliers) ** 2\n", "            (x - float(average(data_process))) ** 2\n")],
  "a sample that contains outliers",
  "the deviation without outliers is taken around the mean with outliers",
  """
from statistic.stats_bootstrap import yield_analysis
d = [1.0, 2.0, 3.0, 2.0, 1.0, 3.0, 2.0, 100.0]
a = yield_analysis(d, 200)
k = d[:-1]
m = sum(k) / len(k)
s = (sum((x - m) ** 2 for x in k) / len(k)) ** .5
assert abs(a["stdev_nooutliers"] - s) < 1e-9, (a["stdev_nooutliers"], s)
""")

S("p22-absolute-tolerance", "P22",
  [("statistic/ranking.py", "        and (min(score, winner[1]) + eps) / (max(score, winner[1]) + eps)\n        >= (1 - error_rate)\n", "        and max(score, winner[1]) - min(score, winner[1])\n        <= error_rate + eps\n")],
  "indicator values far from one (hypervolumes in the thousands, distances in the hundredths)",
  "an algorithm within the absolute instead of the relative tolerance shares the points",
  """
from statistic.ranking import get_weak_winners
assert get_weak_winners([("a", 2499.0), ("b", 2498.0)], ("a", 2499.0), 0.005) == [("b", 2498.0)]
assert get_weak_winners([("a", 0.01), ("b", 0.03)], ("a", 0.01), 0.05) == []
""")

S("p23-uf9-offset", "P23",
  [("problems/UF9/problem.py", "    return 0.5 * (max(0, (1 + eps) * (1 - 4 * (2 * x[0] - 1) ** 2)) - 2 * x[0] + 2) * x[", "    return 0.5 * ((1 + eps) * max(0, 1 - 4 * (2 * x[0] - 1) ** 2) - 2 * min(x[0], 1 - eps ** 3) + 2) * x[")],
  "points whose first variable is within a thousandth of the upper bound",
  "the second objective is wrong in a thin slice of the domain",
  """
import math
from problems.UF9 import problem as p
x = [0.9999, 0.5] + [2 * 0.5 * math.sin(2 * math.pi * 0.9999 + j * math.pi / 30) for j in range(3, 31)]
want = 0.5 * (max(0, 1.1 * (1 - 4 * (2 * x[0] - 1) ** 2)) - 2 * x[0] + 2) * x[1]
assert abs(p.fitnesses[1](x) - want) < 1e-9, (p.fitnesses[1](x), want)
""")

S("p23-zdt3-rise", "P23",
  [("problems/ZDT3/problem.py", "to_remove = [False] + [c_pre[1][i] >= c_pre[1][i - 1] for i in range(1, len(c_pre[1]))]", "to_remove = [False] + [\n    c_pre[1][i] >= min(c_pre[1][max(0, i - 2) : i]) or c_pre[1][i] < -0.75\n    for i in range(1, len(c_pre[1]))\n]")],
  "only the last piece of the reference front is affected",
  "the end of the known front of ZDT3 is missing, so distances from the front overlook it",
  """
from problems.ZDT3.problem import pareto_front
assert min(y for x, y in pareto_front) < -0.77, min(y for x, y in pareto_front)
""")

PLOT = """
import matplotlib
matplotlib.use("Agg")
import matplotlib.figure, matplotlib.axes
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result
FIGS, VIOLINS = {}, []
def save(self, name, *a, **k):
    FIGS[os.path.basename(str(name))] = ([(l.get_label(), list(map(float, l.get_xdata())), list(map(float, l.get_ydata()))) for ax in self.get_axes() for l in ax.lines],
        [(c.get_label(), [tuple(map(float, p)) for p in c.get_offsets()]) for ax in self.get_axes() for c in ax.collections if hasattr(c, "get_offsets") and not self.get_axes()[0].name.startswith("3")])
matplotlib.figure.Figure.savefig = save
def violins(self, sets, *a, **k):
    VIOLINS.append(len(sets))
    raise KeyError("seen")
def put(root, problem, algo, runs):
    for i, cps in enumerate(runs):
        sim = SimulationCase(problem, algo, i + 1, None, root, "2020-01-0%d.101010.000001__000000%d" % (i + 1, i + 1))
        for c, pts in cps.items():
            Serializer(sim).store(Result([[0.0]] * len(pts), pts, cost=c), str(c))
T = tempfile.mkdtemp()
ARGS = {"--bootstrap": "50", "--dir": os.path.join(T, "r"), "-o": os.path.join(T, "p"), "--selected": "NSGAII"}
import atexit
atexit.register(shutil.rmtree, T)
sys.stdout = open(os.devnull, "w")
"""

S("p24-plateau", "P24",
  [("plots/pictures.py", "                            value = (time, 0, score, score_err)\n                            for key in keys:\n                                plot_data[key].append(value)\n",
    "                            value = (time, 0, score, score_err)\n                            for key in keys:\n                                if [v[2] for v in plot_data[key][-1:]] != [score]:\n                                    plot_data[key].append(value)\n")],
  "an indicator that is exactly the same at two consecutive checkpoints, at the end of the curve or before a rise",
  "points of plateaus are dropped, so the curve of a converged algorithm ends early and rises are drawn as ramps",
  PLOT + """
import plots.pictures
put(ARGS["--dir"], "ZDT1", "NSGAII", [{1: [[0.5, 0.9]], 2: [[0.5, 0.9]], 3: [[0.4, 0.5]], 4: [[0.4, 0.5]]}])
plots.pictures.pictures_time(ARGS)
xs = FIGS["figures_metrics_ZDT1_gd.pdf"][0][0][1]
assert xs == [1.0, 2.0, 3.0, 4.0], xs
""")

S("p24-violin-perfect", "P24",
  [("plots/violin.py", "                and algo_data[algo_name] != [0.0] * len(algo_data[algo_name])\n", "                and all(algo_data[algo_name])\n")],
  "an algorithm one of whose runs (not all) has an indicator value of exactly zero",
  "that algorithm disappears from the violin plot",
  PLOT + """
import plots.violin
matplotlib.axes.Axes.violinplot = violins
put(ARGS["--dir"], "ZDT1", "NSGAII", [{5: [[0.0, 1.0]]}, {5: [[0.4, 0.5]]}])
put(ARGS["--dir"], "ZDT1", "IBEA", [{5: [[0.3, 1.0]]}, {5: [[0.4, 0.6]]}])
plots.violin.violin(ARGS)
assert VIOLINS.count(2) == 4, VIOLINS
""")

S("p24-joint-scale", "P24",
  [("plots/pictures.py", "            problem_score = collections.defaultdict(list)\n            algos = list(algorithms)\n", "            algos = list(algorithms)\n"),
   ("plots/pictures.py", "    problems = set()\n\n    with log_time(", "    problems = set()\n    problem_score = collections.defaultdict(list)\n\n    with log_time(")],
  "results of several problems, the later one with better values",
  "scores are relative to the highest score on any problem read so far",
  PLOT + """
import plots.pictures
for p, q in (("ZDT1", 5.0), ("ZDT2", 1.5), ("UF1", 20.0)):
    put(ARGS["--dir"], p, "NSGAII", [{5: [[q, q]]}])
    put(ARGS["--dir"], p, "IBEA", [{5: [[q / 2, q]]}])
plots.pictures.pictures_summary(ARGS)
for name, pts in FIGS["figures_summary_gd.pdf"][1]:
    if name == "NSGAII":
        assert len(pts) == 3 and all(abs(y - 1) < 0.01 for x, y in pts), pts
""")

S("p24-split-point", "P24",
  [("evotools/ea_utils.py", "            groups.append(group)\n            group = [(x, y)]\n        else:\n", "            groups.append(group)\n            group = []\n        else:\n")],
  "the front plot of a problem with a disconnected front",
  "the first point of every later piece of the reference front is not drawn",
  PLOT + """
import plots.best_fronts
from problems.ZDT3.problem import pareto_front
put(ARGS["--dir"], "ZDT3", "NSGAII", [{5: [[0.5, 0.5]]}])
plots.best_fronts.best_fronts(ARGS)
got = {(x, y) for l, xs, ys in FIGS["figures_metrics_ZDT3.pdf"][0] for x, y in zip(xs, ys)}
assert {tuple(p) for p in pareto_front} <= got, len(got)
""")

S("p25-ibea-direction", "P25",
  [("algorithms/IBEA/IBEA.py", "                        self.indicators[(removed, x)]\n", "                        self.indicators[(x, removed)]\n")],
  "a generation in which at least two candidates are removed and the first removal changes who is weakest next",
  "after a removal the remaining fitness values are corrected with the indicator taken in the wrong direction, so the second and later removals pick other candidates",
  """
import math
from algorithms.IBEA.IBEA import IBEA

def rule(vs, k, size):
    n = len(vs)
    lo = [min(v[i] for v in vs) for i in range(2)]; hi = [max(v[i] for v in vs) for i in range(2)]
    sc = [[(v[i] - lo[i]) / (hi[i] - lo[i]) for i in range(2)] for v in vs]
    I = [[max(a - b for a, b in zip(sc[i], sc[j])) for j in range(n)] for i in range(n)]
    c = max(abs(x) for r in I for x in r)
    alive = set(range(n))
    while len(alive) > size:
        loss = {i: sum(math.exp(-I[j][i] / (c * k)) for j in alive if j != i) for i in alive}
        alive.remove(max(alive, key=lambda i: loss[i]))
    return sorted(tuple(vs[i]) for i in alive)

f = [lambda x: x[0], lambda x: x[1]]
bad = 0
for s in range(30):
    random.seed(s)
    pts = [[random.random(), random.random()] for _ in range(16)]
    a = IBEA([list(p) for p in pts[:8]], [(0, 1)] * 2, f, 0.3, 0.5, 20, 30, 0.5, 0.9)
    a.individuals += [a.Individual(p) for p in pts[8:]]
    got = sorted(tuple(x) for x in a.finalized_population())
    bad += got != rule(pts, 0.3, 8)
assert bad == 0, bad
""")

S("p25-nsls-nearest", "P25",
  [("algorithms/NSLS/NSLS.py", "                        distances[ind], distance.euclidean(ind.v, max_ind.v)\n", "                        distances[ind], distance.euclidean(ind.v, additional[0].v)\n")],
  "a layer that does not fit and leaves room for at least two members beside its boundary members",
  "distances to members already taken are not updated, so the layer is filled with neighbours of each other",
  """
import types, collections
sp = types.ModuleType("scipy"); sps = types.ModuleType("scipy.spatial"); spd = types.ModuleType("scipy.spatial.distance")
spd.euclidean = lambda a, b: sum((x - y) ** 2 for x, y in zip(a, b)) ** 0.5
sps.distance = spd; sp.spatial = sps
sys.modules.update({"scipy": sp, "scipy.spatial": sps, "scipy.spatial.distance": spd})
from algorithms.NSLS.NSLS import NSLS, Individual
f = [lambda x: x[0], lambda x: 1 - x[0]]
a = NSLS([[0.0], [0.1], [0.2], [0.3]], [(0, 1)], f, 20, 30, 0.5, 0.9)
a.individuals = [Individual([x]) for x in (0.0, 0.49, 0.5, 0.51, 0.8, 1.0)]
a.calculate_objectives(a.individuals)
a.nd_sort()
a.next_generation()
got = sorted(x[0] for x in a.population)
assert 0.8 in got, got
""")

S("p25-strength-layer", "P25",
  [("algorithms/SPEA2/SPEA2.py", "        k = int(math.sqrt(len(pop)))\n", "        k = int(math.sqrt(len(self.individuals)))\n")],
  "an archive filled up with dominated members whose dominators tie in strength, from the second generation on",
  "the density that decides between equally dominated candidates looks at the wrong neighbour",
  """
import math
from algorithms.SPEA2.SPEA2 import SPEA2
f = [lambda x: x[0] + (x[1] > 0), lambda x: (1 - x[0] if x[1] > 0 else 0.0) + (x[1] > 0)]
dom = lambda a, b: all(x <= y for x, y in zip(a, b)) and a != b
bad = 0
for s in range(6):
    random.seed(s)
    P = 16
    a = SPEA2([[0.0, 0.0]] + [[random.random(), random.random()] for _ in range(P - 1)], f, [(0, 1)] * 2, 20, 0.5, 30, 0.9)
    for _ in range(4):
        pool = a.finalized_population() + a.population
        a.step()
        fs = [[g(x) for g in f] for x in pool]
        n = len(pool)
        S = [sum(dom(fs[i], fs[j]) for j in range(n)) for i in range(n)]
        R = [sum(S[j] for j in range(n) if dom(fs[j], fs[i])) for i in range(n)]
        D = [sorted(math.sqrt(sum((p - q) ** 2 for p, q in zip(u, v))) for v in fs)[int(math.sqrt(n))] for u in fs]
        F = [r + 1 / (d + 2) for r, d in zip(R, D)]
        if sum(r == 0 for r in R) > P or n <= P:
            continue
        kept = [tuple(x) for x in a.finalized_population()]
        inn = [F[i] for i in range(n) if tuple(pool[i]) in kept]
        out = [F[i] for i in range(n) if tuple(pool[i]) not in kept]
        bad += bool(out) and min(out) < max(inn) - 1e-9
assert bad == 0, bad
""")

S("p25-hv-front", "P25",
  [("algorithms/SMSEMOA/SMSEMOA.py", "        hv = HyperVolume(self.reference_point)\n        results = [x.objectives for x in pop]\n",
    "        # translating the reference to the layer keeps the numbers small\n        results = [x.objectives for x in pop]\n        hv = HyperVolume([min(r, 1 + max(v)) for r, v in zip(self.reference_point, zip(*results))])\n")],
  "a worst layer whose boundary members have the smallest exclusive hypervolume once the reference point is brought close",
  "the least contributor is measured against a reference point near the layer instead of the configured one, so extreme members can be dropped",
  """
from algorithms.SMSEMOA.SMSEMOA import SMSEMOA
f = [lambda x: x[0], lambda x: x[1]]
pts = [[0.0, 9.0], [1.0, 8.999], [5.0, 5.0], [9.0, 1.0]]
a = SMSEMOA(
    population=pts, fitnesses=f, dims=[(0, 10)] * 2, mutation_eta=20, mutation_rate=0.5, crossover_eta=30, crossover_rate=0.9, reference_point=[50.0, 50.0])
con = dict((tuple(i.value), c) for i, c in a.calculate_hypervolume_contribution(a.individuals))
assert abs(con[(9.0, 1.0)] - 41 * 4.0) < 1e-6, con
assert abs(con[(0.0, 9.0)] - 1 * 41.0) < 1e-6, con
""")

S("p25-theta-ideal", "P25",
  [("algorithms/NSGAIII/NSGAIII.py", "            for i, objective in enumerate(ind.objectives):\n                if self.ideal_point[i] > objective:\n                    self.ideal_point[i] = objective\n",
    "            if any(a > b for a, b in zip(self.ideal_point, ind.objectives)):\n                if all(a >= b for a, b in zip(self.ideal_point, ind.objectives)):\n                    self.ideal_point = list(ind.objectives)\n")],
  "offspring that improve one objective's best value but not all of them",
  "the ideal point only follows candidates that improve every objective, so candidates are ranked against a wrong origin",
  """
from algorithms.NSGAIII.NSGAIII import NSGAIII
f = [lambda x: x[0], lambda x: (1 - x[0]) ** 2 + x[1]]
random.seed(3)
a = NSGAIII(population=[[random.random(), random.random()] for _ in range(12)], dims=[(0, 1)] * 2, fitnesses=f,
            theta=5, mutation_eta=20, crossover_eta=30, mutation_rate=0.5, crossover_rate=0.9)
best = [min(g(x) for x in a.population) for g in f]
for _ in range(6):
    a.step()
    best = [min(b, min(g(x) for x in a.population)) for b, g in zip(best, f)]
    assert all(p <= b + 1e-12 for p, b in zip(a.ideal_point, best)), (a.ideal_point, best)
""")

FACT = """
import types
from simulation import run_config, factory
v = types.ModuleType("v_algos")
class Rec:
    def __init__(self, **kw):
        self.kw = kw
for n in ("RA", "RB", "RC"):
    setattr(v, n, type(n, (Rec,), {}))
    run_config.custom_paths[n] = ("v_algos", n)
sys.modules["v_algos"] = v
for s in ("RA", "RB", "RC"):
    m = types.ModuleType("algorithms.%s.message" % s)
    for t in ("RA", "RB", "RC"):
        setattr(m, "%s%sMessageAdapter" % (s, t), (s, t))
    sys.modules["algorithms." + s] = types.ModuleType("algorithms." + s)
    sys.modules["algorithms.%s.message" % s] = m
"""

S("p26-nested-key", "P26",
  [("simulation/factory.py", "        key = (algo, tuple(all_drivers[driver_pos + 1 :]))\n", "        key = (algo, tuple(all_drivers[1:]) if driver_pos == 0 else ())\n")],
  "three algorithms nested in each other, with a table for the middle one together with the innermost",
  "the settings of a middle algorithm with its sub-algorithm are not applied; those of that algorithm on its own are",
  FACT + """
run_config.algo_base[("RB", ("RC",))] = {"alpha": 1}
run_config.algo_base[("RB", ())] = {"alpha": 2}
part, _ = factory.prepare("RA+RB+RC", "ZDT1")
assert part().kw["driver"]().kw.get("alpha") == 1, part().kw["driver"]().kw.get("alpha")
""")

S("p26-precedence", "P26",
  [("simulation/factory.py", "        custom_init(algo, problem_mod, config, all_drivers, driver_pos)\n        custom_init(algo, problem_mod, config, problem=problem)\n",
    "        custom_init(algo, problem_mod, config, problem=problem)\n        custom_init(algo, problem_mod, config, all_drivers, driver_pos)\n")],
  "an algorithm with sub-algorithm that has both an initialiser for the pair and one for the problem, setting the same key",
  "the less specific of the two initialisers wins",
  FACT + """
run_config.init_alg___RA__RB = lambda c, p: c.update(alpha="pair")
run_config.init_alg___RA____ZDT1 = lambda c, p: c.update(alpha="problem")
part, _ = factory.prepare("RA+RB", "ZDT1")
assert part().kw["alpha"] == "problem", part().kw["alpha"]
""")

S("p26-inner-adapter", "P26",
  [("simulation/factory.py", "        adapter_class_name = \"{}{}MessageAdapter\".format(driver_algo, algo)\n",
    "        adapter_class_name = \"{}{}MessageAdapter\".format(driver_algo, all_drivers[0])\n")],
  "three algorithms nested in each other",
  "the middle algorithm talks to the innermost through the adapter made for the outermost one",
  FACT + """
part, _ = factory.prepare("RA+RB+RC", "ZDT1")
mid = part().kw["driver"]()
assert mid.kw["driver_message_adapter_factory"] == ("RC", "RB"), mid.kw["driver_message_adapter_factory"]
""")

S("p26-local-search-swap", "P26",
  [("algorithms/NSLS/NSLS.py", "                c = random.gauss(self.local_search_mu, self.local_search_sigma)\n",
    "                c = random.gauss(self.local_search_sigma, self.local_search_mu)\n")],
  "local search settings whose mean and deviation differ (the shipped ones are equal)",
  "the local search draws its steps with mean and deviation exchanged",
  """
import types, math
for n in ("scipy", "scipy.spatial"):
    sys.modules.setdefault(n, types.ModuleType(n))
d = types.ModuleType("scipy.spatial.distance")
d.euclidean = lambda u, v: math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
sys.modules["scipy.spatial.distance"] = d
sys.modules["scipy.spatial"].distance = d
from algorithms.NSLS.NSLS import NSLS
seen = []
A, B = [1.0], [2.0]
def f(x):
    seen.append(x[0])
    return 0.0 if list(x) in (A, B) else 1.0
random.seed(1)
a = NSLS(population=[list(A) if i % 2 else list(B) for i in range(40)], dims=[(-100, 100)], fitnesses=[f, lambda x: f(x) * 2],
         mutation_eta=20, crossover_eta=30, mutation_rate=0.5, crossover_rate=0.9, local_search_mu=3.0, local_search_sigma=0.01)
a.step()
steps = [min(abs(v - 1), abs(v - 2)) for v in seen if v not in (1.0, 2.0)]
assert steps and all(1.5 < s < 3.2 for s in steps), sorted(steps)[:5]
""")

S("p26-epoch-length", "P26",
  [("algorithms/SMSEMOA/SMSEMOA.py", "        self.epoch_length = int(len(self.individuals) * epoch_length_multiplier)\n",
    "        self.epoch_length = len(self.individuals) // max(2, round(1 / epoch_length_multiplier))\n")],
  "an epoch length multiplier above one half or not the inverse of a whole number",
  "a step creates another number of offspring than the configured part of the population",
  """
from algorithms.SMSEMOA.SMSEMOA import SMSEMOA
n = [0]
def f(x):
    n[0] += 1
    return x[0]
for mult, want in ((0.5, 10), (0.25, 5), (1.0, 20), (0.7, 14)):
    random.seed(2)
    a = SMSEMOA(population=[[random.random()] for _ in range(20)], fitnesses=[f, lambda x: 1 - x[0]], dims=[(0, 1)], mutation_eta=20, mutation_rate=1.0,
                crossover_eta=30, crossover_rate=0.9, reference_point=[50.0, 50.0], epoch_length_multiplier=mult)
    n[0] = 0
    a.step()
    assert n[0] == want, (mult, n[0])
""")

CLONES = """
from simulation import factory, run_config
import types, sys
def clones(algo, values, runs, **over):
    count = [0] * len(values)
    for r in range(runs):
        dims = [(0, 1)] * 4
        pop = [[random.random() for _ in dims] for _ in values]
        near = {}
        def root(x):
            x = tuple(x)
            if x not in near:
                near[x] = min(range(len(pop)), key=lambda i: sum((a - b) ** 2 for a, b in zip(x, pop[i])))
            return near[x]
        P = types.SimpleNamespace(name="DEMO", dims=dims, fitnesses=[lambda x, k=k: values[root(x)][k] for k in range(2)], pareto_front=[[0.0, 0.0]])
        pk = types.ModuleType("problems.DEMO"); pk.problem = P
        sys.modules["problems.DEMO"] = pk; sys.modules["problems.DEMO.problem"] = P
        def init(config, problem_mod):
            config.update(mutation_rate=1.0, mutation_eta=1e7, crossover_rate=0.0, crossover_eta=15.0, population=[list(x) for x in pop])
            config.update(over)
        setattr(run_config, "init_alg___%s____DEMO" % algo, init)
        d = factory.prepare(algo, "DEMO")[0]()
        old = set(map(tuple, pop))
        for _ in range(2 if algo == "SPEA2" else 1):
            d.next_step()
        for x in d.population:
            if tuple(x) not in old:
                count[root(x)] += 1
    return count
"""

S("p27-crowding-mates", "P27",
  [("algorithms/NSGAII/NSGAII.py", "        fitness = lambda ind: (\n            self.nsga_rank[ind],\n            1 / (self.dist[ind] + sys.float_info.epsilon),\n        )\n        self.fitness = {ind: fitness(ind) for ind in self.individuals}\n        self.individuals = sorted(self.individuals, key=lambda ind: self.fitness[ind])[\n            : self.population_size\n        ]\n",
    "        fitness = lambda ind: (\n            self.nsga_rank[ind],\n            1 / (self.dist[ind] + sys.float_info.epsilon),\n        )\n        self.fitness = self.nsga_rank\n        self.individuals = sorted(self.individuals, key=fitness)[: self.population_size]\n")],
  "a layer with a crowded region: survivors are still right, only the choice of parents within a layer is blind to crowding",
  "mating ignores crowding",
  CLONES + """
h = 14
t = [(k + 0.5 * random.random()) / h for k in range(h)]
t += [t[7] + 0.2 / h + 1e-5 * k for k in range(h)]
c = clones("NSGAII", [[x, 1 - x] for x in t], 40, mating_population_size=2.0)
share = sum(c[:h]) / sum(c)
assert share > 0.6, share
""")

S("p27-spea2-random-archive", "P27",
  [("algorithms/SPEA2/SPEA2.py", "            return min(sub_pool, key=lambda x: x[\"fitness\"])[\"value\"]", "            return min(sub_pool, key=lambda x: int(x[\"fitness\"]))[\"value\"]")],
  "archives of non-dominated members only: their fitness is all density, below one",
  "the tournament no longer tells crowded from isolated archive members",
  CLONES + """
h = 12
t = [(k + 0.3 * random.random()) / h for k in range(h)]
t += [t[6] + 0.2 / h + 1e-5 * k for k in range(h)]
c = clones("SPEA2", [[x, 1 - x] for x in t], 120)
share = sum(c[:h]) / sum(c)
assert share > 0.62, share
""")

S("p27-personal-best", "P27",
  [("algorithms/OMOPSO/OMOPSO.py", "            if p.dominates(p.best_val):\n", "            if p.objectives < p.best_val.objectives:\n")],
  "a particle that reached a position better in the first objective and worse in another",
  "objective lists are compared lexicographically, so personal bests are traded away",
  """
from simulation import factory, run_config
import types, sys
dims = [(-100.0, 100.0)] * 3
P = types.SimpleNamespace(name="DEMO", dims=dims, fitnesses=[lambda x: sum((a - 1) ** 2 for a in x), lambda x: sum((a + 1) ** 2 for a in x)], pareto_front=[[0.0, 0.0]])
pk = types.ModuleType("problems.DEMO"); pk.problem = P
sys.modules["problems.DEMO"] = pk; sys.modules["problems.DEMO.problem"] = P
pop = [[random.uniform(-3, 3) for _ in dims] for _ in range(12)]
def init(config, problem_mod):
    config.update(mutation_probability=0.0, mutation_rate=0.0, mutation_eta=20.0, crossover_rate=0.0, crossover_eta=20.0, population=[list(x) for x in pop])
run_config.init_alg___OMOPSO____DEMO = init
d = factory.prepare("OMOPSO", "DEMO")[0]()
def dom(a, b):
    return all(x <= y for x, y in zip(a, b)) and a != b
f = lambda x: [g(x) for g in P.fitnesses]
best = [list(x) for x in pop]
for _ in range(12):
    d.next_step()
    for i, x in enumerate(d.population):
        if dom(f(x), f(best[i])):
            best[i] = list(x)
        assert list(d.individuals[i].best_val.value) == best[i], (i, best[i], d.individuals[i].best_val.value)
""")

S("p20-pid-second", "P20",
  [("simulation/worker.py", "            random_seed = int.from_bytes(os.urandom(2500), \"big\")\n", "            # the process number tells workers apart, the time tells their cases apart\n            random_seed = int(time.time()) * 32768 + os.getpid()\n")],
  "two short cases run by one process within a second",
  "repetitions of a case that follow each other quickly start from the same random state",
  """
import logging, time
from simulation.worker import BudgetWorker
w = BudgetWorker(None, 0)
while time.time() % 1 > 0.5:
    time.sleep(0.05)
w._init_random_seed(logging.getLogger()); a = random.random()
w._init_random_seed(logging.getLogger()); b = random.random()
assert a != b
""")

S("p19-nothing-to-shut", "P19",
  [("simulation/worker.py", "            if driver:\n                driver.shutdown()\n", "            # an algorithm that has not made a step holds nothing\n            if driver and driver.step_no:\n                driver.shutdown()\n")],
  "a case that fails in its very first step",
  "an algorithm that fails in its first step is never shut down, and a distributed one leaves its actors behind",
  """
import types, sys
from simulation import factory
from simulation.worker import BudgetWorker
from simulation.model import SimulationCase
from algorithms.base.driver import Driver
down = []
class D(Driver):
    def step(self):
        raise ValueError("x")
    def shutdown(self):
        down.append(1)
factory.prepare = lambda a, p: (D, types.SimpleNamespace(fitnesses=[]))
sc = SimulationCase("ackley", "NSGAII", 0, None, "x", "y")
sc.params[factory.BUDGETS_PARAM] = [5]
assert BudgetWorker(sc, 0).run() is None
assert down == [1]
""")

S("p10-bogo-twins", "P10",
  [("algorithms/BOGO/BOGO.py", "        if not individual_dominated:\n", "        if not individual_dominated and all(x.fit != individual.fit for x in self.archive):\n")],
  "two different points with the same objective values",
  "the baseline's archive leaves out non-dominated points that tie with a member",
  """
from algorithms.BOGO.BOGO import BOGO
d = BOGO([[0.1], [0.9]], [(0, 1)], [lambda x: 1.0, lambda x: 2.0], 0.1, 0.1)
assert sorted(d.finalized_population()) == [[0.1], [0.9]], d.finalized_population()
""")

S("p22-untrusted-falls", "P22",
  [("statistic/stats.py", "                                if abs(analysis[\"mean_nooutliers_diff\"]) > 10.0:", "                                if analysis[\"mean_nooutliers_diff\"] > 10.0:")],
  "a suspicious group (11 to 19 runs, one far value) whose outlier lies above the others, so that its mean falls without it",
  "untrusted results are reported as fine and not named at the end",
  """
import io, contextlib
from statistic import stats
class Pool:
    def __init__(self, *a): pass
    map = staticmethod(lambda f, xs, chunksize=1: [f(x) for x in xs])
    close = join = terminate = lambda self: None
stats.multiprocessing = type("M", (), {"Pool": Pool})
vals = [100.0 + i for i in range(14)] + [5000.0]
class R: population = [[1.0]]
res = [{"budget": 40, "results": [R()] * 15, "analysis": [("cost", "cost", [lambda v=v: v for v in vals])]}]
stats.serialization.each_result = lambda *a: [("p", None, [("NSGAII", res)])]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    stats.statistics({"--bootstrap": "50", "-j": "1", "--dir": "."})
assert ">>> p :: NSGAII :: 40 :: cost" in out.getvalue(), out.getvalue()[-400:]
""")

S("p13-revived-ripe", "P13",
  [("algorithms/HGS/classic/ClassicHGS.py", "                ripe_node.alive = True\n                ripe_node.ripe = False\n", "                ripe_node.alive = True\n")],
  "a revival: every node has stopped and none of them can sprout (all places near them are taken or the depth is exhausted); the damage shows in the rounds after it",
  "a revived node goes on sprouting while it is searching, and other nodes are stopped for searching where it moves through",
  """
import io, contextlib
from simulation.factory import prepare
random.seed(5)
with contextlib.redirect_stdout(io.StringIO()):
    for k in range(6):
        # places so far apart that few children fit: every node stops and all are revived
        d = prepare("HGS+NSGAII", "ZDT1")[0](max_sprouts_no=3, sproutiveness=1, min_progress_ratio=[9.0, 9.0, 9.0], metaepoch_len=[1, 1, 1], max_level=1,
                                             comparison_multipliers=(1.0, 0.1 + 0.05 * k, 0.1), population_sizes=(16, 8, 8))
        for _ in range(14):
            n_before = len(d.hgs.nodes)
            d.next_step()
            for n in d.hgs.nodes[n_before:]:
                parent = [p for p in d.hgs.nodes if n in p.sprouts][0]
                assert not parent.alive, "an active node sprouted"
""")

S("p13-dead-count", "P13",
  [("algorithms/HGS/classic/ClassicHGS.py", "                    self.level < self.owner.max_level\n                    and len([x for x in self.sprouts if x.alive])\n                    < self.owner.max_sprouts_no", "                    self.level < self.owner.max_level\n                    and len([x for x in self.sprouts if x.alive or x.ripe])\n                    < self.owner.max_sprouts_no")],
  "a stopped node whose earlier children have stopped too, with its limit of living children reached only if those are counted",
  "children that have stopped count against the limit, so a node no longer replaces them and the tree stops growing",
  """
import io, contextlib
from simulation.factory import prepare
random.seed(5)
most = 0
with contextlib.redirect_stdout(io.StringIO()):
    for k in range(3):
        d = prepare("HGS+NSGAII", "ZDT1")[0](max_sprouts_no=1, sproutiveness=1, min_progress_ratio=[9.0, 9.0, 9.0], metaepoch_len=[1, 1, 1], max_level=1,
                                             comparison_multipliers=(1.0, 0.001, 0.001), population_sizes=(16, 8, 8))
        for _ in range(14):
            d.next_step()
        most = max(most, len(d.hgs.nodes) - 1)
assert most >= 2, most
""")

S("p13-stale-center", "P13",
  [("algorithms/HGS/classic/ClassicHGS.py", "                sprout.alive = False\n                sprout.center = np.mean(sprout.population, axis=0)\n                sprout.ripe = True\n", "                sprout.alive = False\n                if not hasattr(sprout, \"center\"):\n                    sprout.center = np.mean(sprout.population, axis=0)\n                sprout.ripe = True\n")],
  "a node that moved during the round in which it stops, and another one whose start or position lies between its last two places",
  "a stopped node guards the place it searched a round earlier: children start on top of it, or are refused where it is not",
  """
import io, contextlib
import numpy as np
from simulation.factory import prepare
random.seed(5)
with contextlib.redirect_stdout(io.StringIO()):
    for k in range(3):
        d = prepare("HGS+NSGAII", "ZDT1")[0](min_progress_ratio=[9.0, 9.0, 9.0], metaepoch_len=[3, 3, 3], max_level=1,
                                             comparison_multipliers=(1.0, 0.05, 0.005), population_sizes=(16, 8, 8))
        for _ in range(8):
            d.next_step()
            for n in d.hgs.nodes:
                if n.ripe and not n.alive:
                    assert np.linalg.norm(np.mean(n.population, axis=0) - n.center) < 1e-9
""")
