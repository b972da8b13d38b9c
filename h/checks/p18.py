import contextlib, io, os, random
import world, batch

PID = "P18"
RULE = ("random command lines over every run option (selections in mixed case, repeated, unknown and absent; long and short options; budgets in "
        "any order; repetitions) are executed through evogil's entry point and its real batch code, with the workers' run replaced by a recorder; "
        "the recorded cases are compared with an independent expansion; non-trivial = request expanding to at least two cases")
NEED = {"requests": 300, "cases": 5000, "budget_requests": 100, "time_requests": 80, "defaulted": 60, "empty": 8, "listed": 400}
CPU = 200


def cases(tier, seed):
    return [{"seed": "%d/%d" % (seed, i), "n": 40 if tier == "quick" else 250} for i in range(16)]


def mixed(rng, s):
    k = rng.randrange(3)
    return s if k == 0 else s.lower() if k == 1 else "".join(rng.choice([c.lower(), c.upper()]) for c in s)


def pick(rng, names, unknown):
    """-> (option value or None, set of names it selects)"""
    k = rng.random()
    if k < 0.15:
        return None, list(names)
    n = rng.choice([1, 1, 2, 3, 6, len(names)])
    sel = rng.sample(list(names), min(n, len(names)))
    words = [mixed(rng, x) for x in sel]
    if rng.random() < 0.3:
        words.insert(rng.randint(0, len(words)), rng.choice(unknown))
    if rng.random() < 0.15 and len(sel) < 4:
        words.append(mixed(rng, rng.choice(sel)))
    if k > 0.95:
        words, sel = [rng.choice(unknown)], []
    return ",".join(words), sel


def run_case(case, obs):
    rng = random.Random("p18/" + case["seed"])
    batch.install()
    import evogil  # noqa
    from simulation import run_config, worker, serialization, serializer, factory
    seen = []

    def recorder(self):
        seen.append(self)
        return [], 0.001, self.simulation_no

    worker.SimulationWorker.run = recorder
    for c in (worker.BudgetWorker, worker.TimeWorker):
        if "run" in c.__dict__:
            c.run = recorder
    algos, probs = list(run_config.algorithms), list(run_config.problems)
    obs.require(len(set(algos)) == len(algos) and len(set(probs)) == len(probs), "duplicate-names", "an algorithm or problem is listed twice")
    metas, drv = ["IMGA", "HGS", "DHGS"], world.BASE_DRIVERS
    obs.require(set(algos) == set(drv) | {m + "+" + d for m in metas for d in drv}, "available", "the available algorithms are not the drivers and their meta-algorithm combinations")
    keep = (list(algos), list(probs))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        batch.command(["list"])
    listed = sorted(l.strip() for l in out.getvalue().splitlines() if l.strip() and not l.strip().endswith(":"))
    obs.event("listed", len(listed))
    obs.require(listed == sorted(algos + probs), "list", "evogil list names too much: %r, leaves out: %r" % (
        sorted(set(listed) - set(algos + probs))[:4], sorted(set(algos + probs) - set(listed))[:4]), listed=listed)
    for _ in range(case["n"]):
        del seen[:]
        av, asel = pick(rng, algos, ["NSGA", "SPEA", "HGS", "IMGA+", "+NSGAII", "nsgaiv", "HGS+IMGA"])
        pv, psel = pick(rng, probs, ["ZDT", "UF", "ZDT11", "uf13", "zdt5"])
        n = rng.choice([None, 1, 1, 2, 3, 5])
        if len(asel) * len(psel) * (n or 1) > 400:
            n = 1
        opts = []
        if av is not None:
            opts += rng.choice([["--algo", av], ["-a", av], ["--algo=" + av]])
        if pv is not None:
            opts += rng.choice([["--problem", pv], ["-p", pv], ["--problem=" + pv]])
        if n is not None:
            opts += ["-N", str(n)]
        rdir = rng.choice([None, "/nowhere/r%d" % rng.randint(0, 9), "rel/dir"])
        if rdir:
            opts += rng.choice([["-d", rdir], ["--dir", rdir]])
        renice = rng.choice([None, None, "5", "19"])
        if renice:
            opts += ["--renice", renice]
        if rng.random() < 0.4:
            opts += ["-j", str(rng.randint(1, 3))]
        if rng.random() < 0.55:
            budgets = [rng.randint(1, 20000) for _ in range(rng.choice([1, 2, 3, 6]))]
            budgets = list(dict.fromkeys(budgets))
            if rng.random() < 0.3:
                budgets = list(dict.fromkeys(budgets + [9, 10, 100, 1000]))
            rng.shuffle(budgets)
            words = ["run", "budget", ",".join(map(str, budgets))] + opts
            want_params = ("budget", tuple(sorted(budgets)))
            obs.event("budget_requests")
        else:
            t, s = rng.randint(1, 500), rng.randint(1, 60)
            words = ["run", "time", rng.choice(["-t", "--timeout"]), str(t), rng.choice(["-s", "--step"]), str(s)] + opts
            want_params = ("time", (t, s))
            obs.event("time_requests")
        obs.event("requests")
        name = "evogil " + " ".join(words)
        if av is None or pv is None:
            obs.event("defaulted")
        want = {(p, a) for p in psel for a in asel}
        reps = n or 1
        if not want:
            obs.event("empty")
            try:
                batch.command(words)
            except Exception:        # nothing to do: how the batch ends is not judged here
                pass
            obs.require(not seen, "unknown-selects", "%s: %d cases run although nothing is selected" % (name, len(seen)))
            continue
        batch.command(words)
        got = {}
        ids = set()
        obs.event("cases", len(seen))
        numbers = []
        for w in seen:
            s = w.simulation
            key = (s.problem_name, s.algorithm_name)
            got.setdefault(key, []).append(int(s.run_id))
            ids.add(str(serializer.Serializer(s).path))
            numbers.append(w.simulation_no)
            if want_params[0] == "budget":
                have = ("budget", tuple(s.params.get(factory.BUDGETS_PARAM, ()))) if isinstance(w, worker.BudgetWorker) else ("?", type(w).__name__)
            else:
                have = ("time", (s.params.get(factory.TIMEOUT_PARAM), s.params.get(factory.SAMPLING_INTERVAL_PARAM))) if isinstance(w, worker.TimeWorker) else ("?", type(w).__name__)
            obs.require(have == want_params, "limits", "%s: a case got the limits %r, expected %r" % (name, have, want_params))
            obs.require(str(s.results_dir) == (rdir or serialization.RESULTS_DIR), "dir", "%s: a case stores under %r" % (name, s.results_dir))
            obs.require((int(s.renice) if s.renice else None) == (int(renice) if renice else None), "renice", "%s: renice %r" % (name, s.renice))
        obs.require(set(got) == want, "selection", "%s: missing %r, extra %r" % (name, sorted(want - set(got))[:4], sorted(set(got) - want)[:4]))
        for key, r in got.items():
            obs.require(len(r) == reps and len(set(r)) == reps, "repetitions", "%s: %r run with numbers %r, %d repetitions requested" % (name, key, sorted(r), reps))
        obs.require(len(ids) == len(seen), "shared-storage", "%s: only %d result directories for %d cases" % (name, len(ids), len(seen)))
        obs.require(len(set(numbers)) == len(numbers), "numbers", "%s: simulation numbers repeat" % name)
        if len(seen) > 1:
            obs.nontrivial(tuple(sorted(want)), reps, want_params)
            obs.sample({"words": words[:8], "cases": len(seen)})
    obs.require((list(run_config.algorithms), list(run_config.problems)) == keep, "tables-changed", "the available algorithms or problems were modified")
