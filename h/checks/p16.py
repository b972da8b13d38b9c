import os, pickle, random
import world, tree

PID = "P16"
RULE = ("random results trees written through the real store (1..4 problems, 1..6 algorithms, 1..6 runs in shuffled creation order, missing "
        "checkpoints, empty runs, foreign files and directories at every level, leftovers of other tools) are read back with both readers and compared "
        "with the truth kept when writing; some trees grow and are read again; non-trivial = group with at least two runs and a missing checkpoint")
NEED = {"trees": 100, "groups": 700, "results": 1500, "rereads": 40, "absent": 4}
CPU = 150


def cases(tier, seed):
    return [{"seed": "%d/%d" % (seed, i), "n": 10 if tier == "quick" else 60} for i in range(16)]


def eq(a, b):
    return [[float(v) for v in x] for x in a] == [[float(v) for v in x] for x in b]


def read(obs, t, kind, probs, name):
    from simulation import serialization
    ex = serialization.BudgetResultsExtractor() if kind == "budget" else serialization.TimeResultsExtractor()
    seen = []
    for pn, mod, algos in serialization.each_result(ex, t.root):
        obs.require(pn in t.runs, "extra-problem", "%s: reports the problem %r" % (name, pn))
        obs.require(mod is probs[pn], "problem-module", "%s: %s comes with another problem definition" % (name, pn))
        sa = []
        for an, groups in algos:
            obs.require(an in t.runs[pn], "extra-algorithm", "%s: reports the algorithm %r" % (name, an))
            sa.append(an)
            numbers = []
            for g in groups:
                obs.event("groups")
                numbers.append(g[kind])
                obs.require(g["problem"] == pn and g["algo"] == an, "mislabelled", "%s: group of %s/%s labelled %s/%s" % (name, pn, an, g["problem"], g["algo"]))
                have = []
                for r in g["results"]:
                    obs.event("results")
                    run = os.path.basename(os.path.dirname(str(r.path)))
                    have.append(run)
                    truth = t.runs[pn][an].get(run)
                    if not obs.require(truth is not None and g[kind] in truth.results, "extra-result", "%s: result %r of %s/%s was never stored" % (name, str(r.path), pn, an)):
                        continue
                    pop, fit, cost = truth.results[g[kind]]
                    obs.require(eq(r.population, pop) and eq(r.fitnesses, fit) and r.additional_data.get("cost") == cost, "wrong-content",
                                "%s: %s/%s run %s checkpoint %r does not hold what was stored there" % (name, pn, an, run, g[kind]))
                    obs.require(r.run_no == t.order(pn, an).index(run), "run-number", "%s: %s/%s run %s at %r is numbered %r, it is number %d" % (
                        name, pn, an, run, g[kind], r.run_no, t.order(pn, an).index(run)))
                    obs.require(r.simulation_case.problem_name == pn and r.simulation_case.algorithm_name == an and r.simulation_case.id == run, "run-label",
                                "%s: a result of %s/%s/%s is labelled %s" % (name, pn, an, run, r.simulation_case))
                    obs.require(str(r.name) == str(g[kind]), "checkpoint-label", "%s: a result of checkpoint %r is named %r" % (name, g[kind], r.name))
                want = [n for n in t.order(pn, an) if g[kind] in t.runs[pn][an][n].results]
                obs.require(sorted(have) == sorted(want), "group-content", "%s: %s/%s checkpoint %r has results of the runs %r, stored were %r" % (name, pn, an, g[kind], have, want))
                if len(want) > 1 and len(want) < len(t.runs[pn][an]):
                    obs.nontrivial(name, pn, an, g[kind])
            want = t.checkpoints(pn, an)
            obs.require(numbers == want, "checkpoints", "%s: %s/%s reported the checkpoints %r, stored were %r" % (name, pn, an, numbers, want))
        obs.require(sorted(sa) == sorted(t.runs[pn]), "algorithms", "%s: %s reported the algorithms %r, stored were %r" % (name, pn, sorted(sa), sorted(t.runs[pn])))
        seen.append(pn)
    obs.require(sorted(seen) == sorted(t.runs), "problems", "%s: reported the problems %r, stored were %r" % (name, sorted(seen), sorted(t.runs)))


def run_case(case, obs):
    from simulation import serialization
    from simulation.model import SimulationCase
    from simulation.serializer import Serializer, Result
    rng = random.Random("p16/" + case["seed"])
    probs = [tree.problem(rng, "SYN16" + c) for c in "abcd"]
    byname = {p.name: p for p in probs}
    for k in range(case["n"]):
        root = os.path.join(obs.scratch, "t%d" % k)
        ps = rng.sample(probs, rng.choice([1, 2, 4]))
        algos = rng.sample(["NSGAII", "SPEA2", "HGS+SPEA2", "IMGA+NSGAII", "DHGS+IBEA", "OMOPSO"], rng.choice([1, 2, 4, 6]))
        foreign = rng.choice([0, 0.3, 0.8])
        t = tree.make(root, rng, ps, algos, runs=(1, 6), foreign=foreign, missing=rng.choice([0, 0.2, 0.6]), size=(1, 3))
        if not t.runs:
            continue
        if foreign and rng.random() < 0.5:
            open(os.path.join(root, rng.choice([".DS_Store", "evogil.log", "readme.md"])), "w").close()
        if rng.random() < 0.5:       # what computing metrics leaves beside the results
            for p in t.runs:
                with open(os.path.join(root, p, p + "_nondominated"), "wb") as fh:
                    pickle.dump(([], {}), fh)
                for a in t.runs[p]:
                    for r in t.runs[p][a].values():
                        for c in r.results:
                            for m in ("inverse_generational_distance", "hypervolume"):
                                with open(os.path.join(root, p, a, r.name, "%d.%s.pickle" % (c, m)), "wb") as fh:
                                    pickle.dump({"value": 1.0}, fh)
        obs.event("trees")
        kind = rng.choice(["budget", "time"])
        keep = tree.listing(root)
        read(obs, t, kind, byname, "tree %d" % k)
        obs.require(tree.listing(root) == keep, "tree-changed", "tree %d: reading the results changed the directory" % k)
        read(obs, t, "time" if kind == "budget" else "budget", byname, "tree %d with the other reader" % k)
        # the tree grows: new runs and new checkpoints of old runs
        for _ in range(rng.randint(1, 4)):
            p = rng.choice(sorted(t.runs))
            a = rng.choice(sorted(t.runs[p]))
            names = set(t.runs[p][a])
            if rng.random() < 0.5:
                n = tree.run_name(rng, names)
                t.runs[p][a][n] = tree.Run(n)
            else:
                n = rng.choice(sorted(names))
            c = rng.choice([7, 9, 10, 100, 500, 99999])
            pop = tree.population(byname[p], rng, 2, 0.5)
            fit = [byname[p].objectives(x) for x in pop]
            Serializer(SimulationCase(p, a, int(n.split("__")[1]), None, root, n)).store(Result(pop, fit, cost=c), str(c))
            t.runs[p][a][n].results[c] = (pop, fit, c)
        obs.event("rereads")
        read(obs, t, kind, byname, "tree %d after it grew" % k)
        obs.sample({"problems": len(t.runs), "algorithms": len(algos), "files": len(keep)})
    obs.require(list(serialization.each_result(serialization.BudgetResultsExtractor(), os.path.join(obs.scratch, "absent"))) == [], "absent-directory",
                "a missing results directory yields something")
    obs.event("absent")
