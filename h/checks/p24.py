import importlib, math, os, random, re, sys
import world, tree
from checks import p17, p22

PID = "P24"
RULE = ("random results trees of synthetic and shipped problems; the four plotting commands run in a forked process in which every figure is read back, "
        "artist by artist, at the moment it is saved, and compared with aggregates computed independently from what was stored; non-trivial = "
        "a drawn series of at least two different points")
NEED = {"trees": 25, "figures": 700, "curves": 300, "curve_points": 700, "violins": 200, "fronts": 40, "front_sets": 50, "summary_points": 300}
CPU = 500
SHOWN = [b + a for b in ("", "IMGA+", "HGS+", "DHGS+") for a in ("NSGAII", "IBEA", "OMOPSO", "NSGAIII", "JGBL", "NSLS")]
OTHER = ["SPEA2", "SMSEMOA", "HGS+SPEA2", "IMGA+HGS+OMOPSO", "IMGA+SMSEMOA"]
REAL = ["ZDT1", "ZDT3", "UF8", "kursawe", "UF5"]


def cases(tier, seed):
    return [{"seed": "%d/%d" % (seed, i), "n": 2 if tier == "quick" else 24} for i in range(16)]


class Shipped:
    """a shipped problem, as far as results trees need one"""

    def __init__(self, name):
        m = importlib.import_module("problems.%s.problem" % name)
        self.name, self.mod = m.name, m
        self.dims = [tuple(map(float, d)) for d in m.dims]
        self.pareto_front = [[float(v) for v in p] for p in m.pareto_front]

    def objectives(self, x):
        return [float(f(x)) for f in self.mod.fitnesses]


def record(figs, path, fig, violins):
    import matplotlib.collections as mc
    r = {"lines": [], "sets": [], "violins": [], "ticks": [], "xlim": None}
    for ax in fig.get_axes():
        r["ticks"] = [t.get_text() for t in ax.get_xticklabels()]
        r["tickpos"] = [float(v) for v in ax.get_xticks()]
        r["xlim"] = tuple(float(v) for v in ax.get_xlim())
        for l in ax.lines:
            xs, ys = (l._verts3d[0], l._verts3d[1]) if hasattr(l, "_verts3d") else (l.get_xdata(orig=True), l.get_ydata(orig=True))
            r["lines"].append((str(l.get_label()), [float(v) for v in xs], [float(v) for v in ys], l.get_linestyle() == "--", l.get_visible()))
        for c in ax.collections:
            if isinstance(c, mc.PathCollection):
                if hasattr(c, "_offsets3d"):
                    pts = [tuple(float(v) for v in p) for p in zip(*[list(o) for o in c._offsets3d])]
                else:
                    pts = [tuple(float(v) for v in p) for p in c.get_offsets()]
                r["sets"].append((str(c.get_label()), pts))
        r["violins"] += [v for a, vs in violins if a is ax for v in vs]
    figs.setdefault(os.path.normpath(os.path.abspath(str(path))), []).append(r)


def drawn(words, cwd, real):
    """run one command in a child; what every saved figure showed"""
    import batch

    def go():
        import matplotlib.figure, matplotlib.axes
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        sys.stdout = os.fdopen(1, "w", encoding="utf-8", closefd=False)
        os.chdir(cwd)
        figs, violins = {}, []
        save = matplotlib.figure.Figure.savefig

        def savefig(self, fname, *a, **kw):
            record(figs, fname, self, violins)
            if real:
                return save(self, fname, *a, **kw)
            with open(str(fname), "wb") as fh:
                fh.write(b"figure")
        vp = matplotlib.axes.Axes.violinplot

        def violinplot(self, dataset, positions=None, *a, **kw):
            sets = [[float(v) for v in d] for d in dataset]
            violins.append((self, list(zip([float(v) for v in (positions if positions is not None else range(1, len(sets) + 1))], sets))))
            return vp(self, dataset, positions, *a, **kw)
        matplotlib.figure.Figure.savefig = savefig
        matplotlib.axes.Axes.violinplot = violinplot
        batch.command(words)
        return figs
    return p17.forked(go)


def near(a, b):
    return abs(a - b) <= 1e-7 * (abs(a) + abs(b)) + 1e-8


def pair(obs, lab, figs, out, sub, stems, maybe=()):
    """one figure per stem, in both formats, showing the same; {stem: record}"""
    base = os.path.join(out, sub)
    got = {}
    for path, rs in figs.items():
        obs.event("figures")
        d, f = os.path.split(path)
        stem, ext = os.path.splitext(f)
        if not obs.require(d == base and ext in (".pdf", ".eps") and (stem in stems or stem in maybe), "unexpected-figure", "%s: a figure was saved as %r" % (lab, path)):
            continue
        obs.require(len(rs) == 1, "saved-twice", "%s: %s was saved %d times" % (lab, f, len(rs)))
        obs.require(os.path.isfile(path) and os.path.getsize(path) > 0, "no-file", "%s: %s was not written" % (lab, f))
        got.setdefault(stem, {})[ext] = rs[-1]
    for stem in stems:
        obs.require(set(got.get(stem, {})) == {".pdf", ".eps"}, "missing-figure", "%s: figure %s exists as %r" % (lab, stem, sorted(got.get(stem, {}))))
    for stem, g in got.items():
        if len(g) == 2:
            a, b = (dict(r, ticks=0, tickpos=0) for r in g.values())     # drawing replaces the texts of ticks
            obs.require(repr(a) == repr(b), "formats-differ", "%s: the two formats of %s show different things" % (lab, stem), differ=[(k, str(a[k])[:300], str(b[k])[:300]) for k in a if repr(a[k]) != repr(b[k])])
    return {s: sorted(g.items())[-1][1] for s, g in got.items() if s in stems}


def named(algo):
    return algo in SHOWN


def pictures(obs, lab, agg, out, figs, words):
    t = agg.t
    want = {}
    last = 0
    for p in t.runs:
        for a in t.runs[p]:
            cs = t.checkpoints(p, a)
            if cs:
                for m in p22.BETTER:
                    want.setdefault("figures_metrics_%s_%s" % (p, m), {})[a] = [(c, agg.score(p, a, c, m)) for c in cs]
    stems = [s for s, v in want.items() if any(map(named, v))]
    shown = pair(obs, lab, figs, out, "metrics", stems, maybe=[s for s in want if s not in stems] + ["figures_metrics_legend"])
    if stems:
        obs.require(any("legend" in f for f in figs), "missing-figure", "%s: no legend" % lab)
    for s in stems:
        if s not in shown:
            continue
        r = shown[s]
        lines = {}
        for name, xs, ys, dashed, vis in r["lines"]:
            if name in want[s]:
                obs.require(name not in lines, "curve-twice", "%s: %s in %s has two curves" % (lab, name, s))
                lines[name] = list(zip(xs, ys))
            else:
                obs.violate("unknown-curve", "%s: %s shows a curve %r" % (lab, s, name))
        for a, pts in want[s].items():
            if a not in lines:
                obs.require(not named(a), "missing-curve", "%s: %s has no curve of %s" % (lab, s, a), shown=sorted(lines))
                continue
            obs.event("curves")
            obs.event("curve_points", len(pts))
            obs.require(len(lines[a]) == len(pts) and all(x == c and near(y, v) for (x, y), (c, v) in zip(lines[a], pts)), "curve",
                        "%s: %s shows for %s %r; the means over the runs are %r" % (lab, s, a, lines[a], pts))
            lo, hi = r["xlim"]
            obs.require(all(min(lo, hi) <= c <= max(lo, hi) for c, _ in pts), "curve-cut", "%s: %s shows the range %r, the checkpoints of %s are %r" % (lab, s, r["xlim"], a, [c for c, _ in pts]))
            if len(set(pts)) > 1:
                obs.nontrivial(lab, s, a, tuple(pts))


def acceptable(agg):
    """{problem: {algorithm: last checkpoint within the allowance}}"""
    out = {}
    for p in agg.t.runs:
        for a in agg.t.runs[p]:
            cs = agg.t.checkpoints(p, a)
            ok = [c for c in cs if agg.score(p, a, c, "cost") <= cs[-1] + 500]
            if ok:
                out.setdefault(p, {})[a] = ok[-1]
    return out


def violin(obs, lab, agg, out, figs, words):
    want = {}
    for p, al in acceptable(agg).items():
        for a, c in al.items():
            for m in p22.BETTER:
                v = agg.values(p, a, c, m)
                if any(x != 0 for x in v):
                    want.setdefault("figures_violin_%s_%s" % (p, m), {})[a] = v
    stems = [s for s, v in want.items() if any(named(a) and max(map(abs, v[a])) > 1e-9 for a in v)]
    shown = pair(obs, lab, figs, out, "plots_violin", stems, maybe=[s for s in want if s not in stems])
    for s in stems:
        if s not in shown:
            continue
        r = shown[s]
        at = dict(zip(r["tickpos"], r["ticks"]))
        seen = {}
        for pos, vals in r["violins"]:
            a = at.get(pos)
            obs.event("violins")
            if obs.require(a in want[s] and a not in seen, "violin-label", "%s: %s labels a violin %r" % (lab, s, a), ticks=at):
                seen[a] = vals
        for a, v in want[s].items():
            if a not in seen:
                obs.require(not named(a) or max(map(abs, v)) <= 1e-9, "missing-violin", "%s: %s does not show %s" % (lab, s, a), shown=sorted(seen))
                continue
            obs.require(len(v) == len(seen[a]) and all(near(x, y) for x, y in zip(sorted(v), sorted(seen[a]))), "violin",
                        "%s: %s shows for %s %r; the runs have %r" % (lab, s, a, sorted(seen[a]), sorted(v)))
            if len(set(v)) > 1:
                obs.nontrivial(lab, s, a, tuple(v))


def fronts(obs, lab, agg, out, figs, words):
    acc = acceptable(agg)
    probs = {p: agg.fronts[p] for p in agg.t.runs}
    shown = pair(obs, lab, figs, out, "fronts", ["figures_metrics_" + p for p in probs])
    for p in probs:
        r = shown.get("figures_metrics_" + p)
        if not r:
            continue
        obs.event("fronts")
        ref = set(tuple(map(float, q)) for q in probs[p])
        m = len(probs[p][0])
        algos = set(agg.t.runs[p])
        if m == 2:
            pts = [q for name, xs, ys, dashed, vis in r["lines"] if not dashed for q in zip(xs, ys)]
        else:
            pts = [q for name, ps in r["sets"] if name not in algos for q in ps]
        obs.require(set(pts) == ref, "reference-front", "%s: %s draws a reference front without %r and with %r" % (lab, p, sorted(ref - set(pts))[:3], sorted(set(pts) - ref)[:3]))
        sets = {}
        for name, ps in r["sets"]:
            if m == 2 or name in algos:
                if obs.require(name in algos, "unknown-points", "%s: %s shows points of %r" % (lab, p, name)):
                    sets.setdefault(name, []).extend(ps)
        for a in algos:
            if a not in acc.get(p, {}):
                obs.require(a not in sets, "not-acceptable", "%s: %s shows %s, no checkpoint of which is within the allowance" % (lab, p, a))
                continue
            if a not in sets:
                obs.require(not named(a), "missing-points", "%s: %s does not show %s" % (lab, p, a), shown=sorted(sets))
                continue
            obs.event("front_sets")
            c = acc[p][a]
            could = [sorted(tuple(map(float, f)) for f in agg.t.runs[p][a][n].results[c][1]) for n in agg.runs(p, a, c)]
            obs.require(sorted(sets[a]) in could, "points", "%s: %s shows for %s %d points that no execution has at checkpoint %d" % (lab, p, a, len(sets[a]), c), drawn=sorted(sets[a])[:5], could=could[0][:5])
            if len(sets[a]) > 1:
                obs.nontrivial(lab, p, a, tuple(sets[a]))


def summary(obs, lab, agg, out, figs, words):
    acc = acceptable(agg)
    selected = [w.upper() for w in words[words.index("--selected") + 1].split(",")] if "--selected" in words else []
    shown = pair(obs, lab, figs, out, "plots_summary", ["figures_summary_" + m for m in p22.BETTER] if acc else [], maybe=["figures_summary_" + m for m in p22.BETTER])
    for m in p22.BETTER:
        r = shown.get("figures_summary_" + m)
        if not r:
            continue
        at = dict(zip(r["tickpos"], r["ticks"]))
        want = {}
        for p, al in acc.items():
            logs = {a: math.log(abs(agg.score(p, a, c, m)) + 1) for a, c in al.items()}
            for a, v in logs.items():
                want.setdefault(a, {})[p] = (v, max(logs.values()))
        seen = {}
        for name, ps in r["sets"]:
            if not ps:
                continue
            if not obs.require(name in want and name not in seen, "unknown-points", "%s: %s shows points of %r" % (lab, m, name)):
                continue
            seen[name] = {at.get(x): y for x, y in ps}
            obs.require(len(seen[name]) == len(ps), "summary-twice", "%s: %s: points %r of %s at %r" % (lab, m, ps, name, at))
        for a in want:
            if a not in seen:
                obs.require(not named(a), "missing-points", "%s: %s does not show %s" % (lab, m, a))
                continue
            obs.require(set(seen[a]) == set(want[a]), "summary-problems", "%s: %s shows %s for %r instead of %r" % (lab, m, a, sorted(map(str, seen[a])), sorted(want[a])))
            for p, (v, top) in want[a].items():
                y = seen[a].get(p)
                if y is None:
                    continue
                obs.event("summary_points")
                lo, hi = (v, v) if m == "pdi" else (v / (top + 1e-3), v / top if top > 0 else 1.0)
                obs.require(lo - 1e-7 <= y <= hi + 1e-7, "summary", "%s: %s shows %r for %s on %s; its score is %r, the highest is %r" % (lab, m, y, a, p, v, top))
                if v != top:
                    obs.nontrivial(lab, m, a, p, v)
        curves = {}
        for name, xs, ys, dashed, vis in r["lines"]:
            curves[name] = list(zip(xs, ys))
        for a in want:
            if named(a) and a in seen:
                pts = next(sorted(ps) for name, ps in r["sets"] if name == a and ps)
                if a in selected:
                    obs.require(curves.get(a) == pts, "selected", "%s: %s joins the selected %s by %r instead of %r" % (lab, m, a, curves.get(a), pts))
                elif selected:
                    obs.require(a not in curves, "selected", "%s: %s joins the points of %s, which was not selected" % (lab, m, a))


class Agg(p22.Agg):
    def __init__(self, t, probs):
        p22.Agg.__init__(self, t, probs)
        self.fronts = {p.name: p.pareto_front for p in probs}


def run_case(case, obs):
    import batch
    batch.install()
    import evogil, plots.pictures, plots.best_fronts, plots.violin  # noqa: before chdir
    rng = random.Random("p24/" + case["seed"])
    for k in range(case["n"]):
        top = os.path.join(obs.scratch, "w%d" % k)
        cwd = os.path.join(top, "x")
        os.makedirs(cwd)
        probs = [tree.problem(rng, "SYN24%s" % c, m=rng.choice([2, 2, 3])) if rng.random() < 0.6 else None for c in ("a", "b", "c")[:rng.choice([1, 2, 3])]]
        ship = rng.sample(REAL, probs.count(None))
        probs = [p or Shipped(ship.pop()) for p in probs]
        root = os.path.join(top, rng.choice(["results", "r.pickle", "x y"]))
        cps = rng.choice([None, None, [40], [40, 500, 900], [9, 10, 40, 100], [5, 900, 1000, 12000]])
        algos = rng.sample(SHOWN, rng.choice([1, 2, 3])) + rng.sample(OTHER, rng.choice([0, 0, 1, 2]))
        t = tree.make(root, rng, probs, algos, runs=(1, rng.choice([1, 3, 5])), checkpoints=cps, foreign=rng.choice([0, 0, 0.3]), missing=rng.choice([0, 0.3]),
                      size=(1, rng.choice([3, 8])), share=rng.choice([0, 0.6]), even=rng.random() < 0.4, over=rng.choice([0, 60, 450, 700, 1500]), same=rng.choice([0, 0.3]))
        if not t.runs:
            continue
        obs.event("trees")
        agg = Agg(t, probs)
        jobs = [("pictures", pictures), ("violin", violin), ("best_fronts", fronts), ("pictures_summary", summary)]
        rng.shuffle(jobs)
        for j, (cmd, fn) in enumerate(jobs):
            out = os.path.join(top, "plots%d" % j, *rng.choice([[], ["deep", "er"]]))
            words = [cmd, rng.choice(["-d", "--dir"]), rng.choice([root, os.path.relpath(root, cwd)]), "-o", out, "-b", rng.choice(["50", "200"])]
            if cmd == "pictures_summary" and rng.random() < 0.7:
                words += ["--selected", ",".join(rng.choice([a, a.lower()]) for a in rng.sample(algos, rng.randint(1, len(algos))))]
            before = tree.listing(root)
            lab = "tree %d: evogil %s" % (k, " ".join(words[:1] + words[7:]))
            st, figs = drawn(words, cwd, real=case["seed"].endswith("/0") and k == 0)
            if st == "error":
                obs.violate("failed:" + cmd, "%s failed: %s" % (lab, figs[-700:]), problems=[p.name for p in probs], algos=algos)
            else:
                fn(obs, lab, agg, os.path.normpath(out), figs, words)
            now = tree.listing(root)
            bad = [f for f in set(before) | set(now) if before.get(f, 0) != now.get(f, 0) and os.path.basename(f)[:-len(".pickle")].isdigit()]
            obs.require(not bad, "results-changed", "%s changed %r" % (lab, bad[:3]))
        obs.sample({"tree": k, "problems": [p.name for p in probs], "algorithms": algos})
