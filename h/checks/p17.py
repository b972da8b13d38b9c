import math, os, pickle, random, shutil, sys
import world, tree
from checks import p03

PID = "P17"
RULE = ("random results trees; several processes in turn read them and ask for random subsets of the quality values in random order, some twice, "
        "while the tree grows and executions are replaced between the processes; every value is compared with an independent computation from what was stored; "
        "non-trivial = value read back from a saved file by a later process, or a joint indicator over at least two algorithms")
NEED = {"trees": 40, "processes": 150, "values": 12000, "reread_values": 3000, "pdi_joint": 500, "replaced_runs": 20}
CPU = 300


def cases(tier, seed):
    return [{"seed": "%d/%d" % (seed, i), "n": 3 if tier == "quick" else 20} for i in range(16)]


def hv(pts, ref):
    """volume dominated inside the reference box, by slicing"""
    pts = [p for p in pts if all(x < r for x, r in zip(p, ref))]
    if not pts:
        return 0.0
    if len(ref) == 1:
        return ref[0] - min(p[0] for p in pts)
    cuts = sorted(set(p[-1] for p in pts)) + [ref[-1]]
    return math.fsum((b - a) * hv([p[:-1] for p in pts if p[-1] <= a], ref[:-1]) for a, b in zip(cuts, cuts[1:]))


def single(sol, front):
    nd = world.o_nondominated(sol)
    m = len(front[0])
    w = {
        "gd": p03.rms_near(nd, front), "igd": p03.rms_near(front, sol),
        "epsilon": max(min(max(p[k] - s[k] for k in range(m)) for p in front) for s in nd),
        "extent": math.sqrt(math.fsum(max(x[k] for x in sol) - min(x[k] for x in sol) for k in range(m))),
        "spacing": p03.o_spacing(nd), "ndr": len(nd) / float(len(sol)),
        "hypervolume": hv([tuple(x) for x in nd], [50.0] * m),
    }
    w["ahd"] = max(w["gd"], w["igd"])
    return w


class Truth:
    def __init__(self, t, fronts):
        self.t, self.fronts, self.memo = t, fronts, {}

    def value(self, p, a, run, c, metric):
        key = (p, a, run, c)
        pop, fit, cost = self.t.runs[p][a][run].results[c]
        if metric == "cost":
            return float(cost)
        if metric == "pdi":
            no = self.t.order(p, a).index(run)
            joint = []
            for a2 in self.t.runs[p]:
                o = self.t.order(p, a2)
                if no < len(o) and c in self.t.runs[p][a2][o[no]].results:
                    joint += [tuple(x) for x in self.t.runs[p][a2][o[no]].results[c][1]]
            nd = set(world.o_nondominated(joint))
            mine = [x for x in world.o_nondominated([tuple(x) for x in fit])]
            return sum(1 for x in mine if x in nd) / float(len(nd))
        if key not in self.memo:
            self.memo[key] = single(fit, self.fronts[p])
        return self.memo[key][metric]

    def competitors(self, p, a, run, c):
        no = self.t.order(p, a).index(run)
        return sum(1 for a2 in self.t.runs[p] if no < len(self.t.order(p, a2)) and c in self.t.runs[p][a2][self.t.order(p, a2)[no]].results)


def close(a, b):
    return abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-8


def reader(t, kind, rng, frac):
    """one process: returns [(problem, algo, run, checkpoint, metric, value or error)]"""
    from simulation import serialization
    ex = serialization.BudgetResultsExtractor() if kind == "budget" else serialization.TimeResultsExtractor()
    todo, out = [], []
    for pn, mod, algos in serialization.each_result(ex, t.root):
        for an, groups in algos:
            for g in groups:
                if rng.random() > frac:
                    continue
                results = g["results"]
                for item in g["analysis"]:
                    name, thunks = item[0], item[2]
                    for r, th in zip(results, thunks):
                        todo.append((pn, an, os.path.basename(os.path.dirname(str(r.path))), g[kind], name, th))
    mode = rng.choice(["order", "shuffle", "subset", "twice"])
    if mode != "order":
        rng.shuffle(todo)
    if mode == "subset":
        todo = todo[:max(1, len(todo) // 3)]
    if mode == "twice":
        todo += todo[::-1]
    for pn, an, run, c, name, th in todo:
        try:
            out.append((pn, an, run, c, name, float(th())))
        except Exception as e:
            import traceback
            out.append((pn, an, run, c, name, "%s: %s (%s)" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1][2])))
    return out


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException as e:
                import traceback
                data = pickle.dumps(("error", traceback.format_exc()[-2000:]))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def run_case(case, obs):
    import simulation.serialization  # noqa: imported before forking, nothing of it is used here
    from simulation.model import SimulationCase
    from simulation.serializer import Serializer, Result
    rng = random.Random("p17/" + case["seed"])
    for k in range(case["n"]):
        probs = [tree.problem(rng, "SYN17%s" % c, m=rng.choice([2, 2, 3])) for c in ("a", "b")]
        byname = {p.name: p for p in probs}
        root = os.path.join(obs.scratch, rng.choice(["t%d", "SYN17a_results%d", "x.igd.pickle%d"]) % k)
        even = rng.random() < 0.4
        t = tree.make(root, rng, probs, rng.sample(["NSGAII", "SPEA2", "HGS+SPEA2", "IMGA+NSGAII", "OMOPSO"], rng.choice([1, 2, 3, 4])), runs=(1, 4),
                      checkpoints=rng.choice([None, [40, 500], [9, 10, 100]]), foreign=rng.choice([0, 0, 0.4]), missing=rng.choice([0, 0.3]),
                      size=(1, 8), share=0.6, even=even)
        if not t.runs:
            continue
        # a result's points are all different, so that a share of the front is a share
        truth = Truth(t, {p.name: p.pareto_front for p in probs})
        obs.event("trees")
        stored = {}
        for step in range(rng.choice([3, 4, 5])):
            kind = rng.choice(["budget", "time"])
            keep = {f: v for f, v in tree.listing(root).items() if v is not None and os.path.basename(f)[:-len(".pickle")].isdigit()}
            seed2, frac = rng.random(), rng.choice([1.0, 0.5])
            st, got = forked(lambda: reader(t, kind, random.Random(seed2), frac))
            obs.event("processes")
            name = "tree %d (%d problems, %d algorithms), process %d" % (k, len(t.runs), max(map(len, t.runs.values())), step)
            if st == "error":
                obs.violate("reading-failed", "%s: %s" % (name, got[-400:]))
                break
            for pn, an, run, c, metric, v in got:
                obs.event("values")
                want = truth.value(pn, an, run, c, metric)
                if isinstance(v, str):
                    obs.violate("no-value:" + metric, "%s: %s of %s/%s/%s/%r cannot be computed: %s" % (name, metric, pn, an, run, c, v))
                    continue
                ok = obs.require(close(v, want), "wrong:" + metric, "%s: %s of %s/%s/%s/%r is %r instead of %r" % (name, metric, pn, an, run, c, v, want))
                if (pn, an, run, c, metric) in stored and step > stored[pn, an, run, c, metric]:
                    obs.event("reread_values")
                    obs.nontrivial(case["seed"], k, pn, an, run, c, metric)
                stored.setdefault((pn, an, run, c, metric), step)
                if metric == "pdi" and ok and truth.competitors(pn, an, run, c) > 1:
                    obs.event("pdi_joint")
            now = tree.listing(root)
            obs.require(all(now.get(f) == v for f, v in keep.items()), "results-changed", "%s: computing quality values changed stored results" % name)
            obs.sample({"tree": k, "values": len(got)})
            # an execution is deleted and done again, with as many points
            if rng.random() < 0.5:
                p = rng.choice(sorted(t.runs))
                a = rng.choice(sorted(t.runs[p]))
                old = rng.choice(sorted(t.runs[p][a]))
                shutil.rmtree(os.path.join(root, p, a, old), ignore_errors=True)
                o = t.runs[p][a].pop(old)
                new = tree.run_name(rng, set(t.runs[p][a]) | {old})
                r = t.runs[p][a][new] = tree.Run(new)
                for c in sorted(o.results):
                    n = len(o.results[c][0])
                    pop = tree.population(byname[p], rng, n, rng.random())
                    fit = [byname[p].objectives(x) for x in pop]
                    Serializer(SimulationCase(p, a, int(new.split("__")[1]), None, root, new)).store(Result(pop, fit, cost=c), str(c))
                    r.results[c] = (pop, fit, c)
                obs.event("replaced_runs")
                truth = Truth(t, {p.name: p.pareto_front for p in probs})
            # the tree grows
            if rng.random() < 0.6:
                for _ in range(rng.randint(1, 3)):
                    p = rng.choice(sorted(t.runs))
                    a = rng.choice(sorted(t.runs[p]) + ["JGBL"])
                    runs = t.runs[p].setdefault(a, {})
                    names = set(runs)
                    if rng.random() < 0.5 or not names:
                        n = tree.run_name(rng, names)
                        runs[n] = tree.Run(n)
                        n = n
                    else:
                        n = rng.choice(sorted(names))
                    c = rng.choice([7, 9, 10, 100, 500, 40])
                    if c in runs[n].results:
                        continue
                    pop = tree.population(byname[p], rng, rng.randint(1, 6), 0.5)
                    fit = [byname[p].objectives(x) for x in pop]
                    Serializer(SimulationCase(p, a, int(n.split("__")[1]), None, root, n)).store(Result(pop, fit, cost=c), str(c))
                    runs[n].results[c] = (pop, fit, c)
                for p in t.runs:
                    for a in list(t.runs[p]):
                        for n in list(t.runs[p][a]):
                            if not os.path.isdir(os.path.join(root, p, a, n)):
                                del t.runs[p][a][n]
                        if not t.runs[p][a]:
                            del t.runs[p][a]
                truth = Truth(t, {p.name: p.pareto_front for p in probs})
