import os, random, re, sys
import world, tree
from checks import p17

PID = "P22"
RULE = ("random results trees; the summary, stats, rank, rank_details and table commands run in a forked process with their output captured, parsed and "
        "compared with aggregates computed independently from what was stored; non-trivial = a decision between at least two algorithms")
NEED = {"trees": 60, "summary_lines": 200, "stats_lines": 900, "winners": 700, "points": 250, "detail_lines": 150, "table_cells": 60, "suspicious": 6, "outliers": 60}
CPU = 300
ALGOS = ["NSGAII", "SPEA2", "HGS+SPEA2", "IMGA+NSGAII", "OMOPSO", "IMGA+HGS+OMOPSO"]
BETTER = {"hypervolume": 1, "pdi": 1, "igd": -1, "ahd": -1, "gd": -1, "spacing": -1}
TOL = {"hypervolume": 0.005, "pdi": 0.005, "igd": 0.05, "ahd": 0.05, "gd": 0.05, "spacing": 0.05}
METRICS = ["cost", "gd", "igd", "ahd", "epsilon", "extent", "spacing", "ndr", "hypervolume", "pdi"]
LONG = {"gd": "generational distance", "igd": "inverse generational distance", "ahd": "average hausdorff distance", "ndr": "non domination ratio", "pdi": "pareto dominance indicator"}
SETS = ["./results_k0", "./results_k1", "../results_omopso_lpr/results_k2"]


def cases(tier, seed):
    return [{"seed": "%d/%d" % (seed, i), "n": 4 if tier == "quick" else 30} for i in range(16)]


def mean(xs):
    xs = list(xs)
    return sum(xs) / float(len(xs))


class Agg:
    """the truth about one tree"""

    def __init__(self, t, probs):
        self.t = t
        self.truth = p17.Truth(t, {p.name: p.pareto_front for p in probs})
        self.memo = {}

    def runs(self, p, a, c):
        return [r for r in self.t.order(p, a) if c in self.t.runs[p][a][r].results]

    def values(self, p, a, c, metric):
        k = (p, a, c, metric)
        if k not in self.memo:
            self.memo[k] = [self.truth.value(p, a, r, c, metric) for r in self.runs(p, a, c)]
        return self.memo[k]

    def score(self, p, a, c, metric):
        return mean(self.values(p, a, c, metric))


def capture(fn, cwd, out):
    """fork, chdir, run with stdout into a file; (status, text)"""
    def go():
        fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        sys.stdout = os.fdopen(1, "w", encoding="utf-8", closefd=False)
        os.chdir(cwd)
        fn()
        sys.stdout.flush()
    st, v = p17.forked(go)
    with open(out, encoding="utf-8") as fh:
        return st, v, fh.read()


def near(a, b):
    return abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-9


def judge(obs, label, metric, scores, winner):
    """scores {algo: aggregate}; the printed winner must be best; returns points (lowest, highest) per algorithm"""
    if not obs.require(winner in scores, "unknown-winner", "%s: %r wins, competing are %r" % (label, winner, sorted(scores))):
        return {}
    best = max(scores.values(), key=lambda v: BETTER[metric] * v)
    obs.event("winners")
    obs.require(near(scores[winner], best), "not-best", "%s: %s wins with %r, the scores are %r" % (label, winner, scores[winner], scores), scores=scores)
    if len(scores) > 1:
        obs.nontrivial(label, tuple(sorted(scores.items())))
    eps = sys.float_info.epsilon
    sure, maybe = [], []
    for a, s in scores.items():
        if a == winner:
            continue
        r = (min(s, scores[winner]) + eps) / (max(s, scores[winner]) + eps)
        if r >= 1 - TOL[metric] + 1e-6:
            sure.append(a)
        elif r >= 1 - TOL[metric] - 1e-6:
            maybe.append(a)
        if max(s, scores[winner]) < 1e-6 and a not in sure:
            maybe.append(a)     # rounding decides
    pts = {a: (0, 0) for a in scores}
    for a in sure:
        pts[a] = (1, 1) if max(scores[a], scores[winner]) >= 1e-6 or scores[a] == scores[winner] else (0, 1)
    for a in maybe:
        pts[a] = (0, 1)
    certain = any(v == (1, 1) for a, v in pts.items() if a != winner)
    pts[winner] = (1, 1) if certain else (1, 2) if any(v[1] for a, v in pts.items() if a != winner) else (2, 2)
    return pts, sure, maybe


def add(total, pts):
    for a, (lo, hi) in pts.items():
        o = total.get(a, (0, 0))
        total[a] = (o[0] + lo, o[1] + hi)


def counters(txt):
    """'A (3), B (1)' -> [(A, 3), (B, 1)]"""
    return [(m.group(1), int(m.group(2))) for m in re.finditer(r"([A-Za-z0-9+]+) \((\d+)\)", txt)]


def check_counter(obs, label, printed, total):
    obs.event("points")
    d = dict(printed)
    obs.require(len(d) == len(printed), "listed-twice", "%s: %r" % (label, printed))
    for a, (lo, hi) in total.items():
        obs.require(lo <= d.get(a, 0) <= hi, "points", "%s: %s has %r points instead of %s" % (label, a, d.get(a, 0), lo if lo == hi else (lo, hi)), printed=printed)
    obs.require(not set(d) - set(total), "points", "%s: points for %r" % (label, sorted(set(d) - set(total))))
    ns = [n for a, n in printed]
    obs.require(ns == sorted(ns, reverse=True), "ranking-order", "%s: %r is not in order of points" % (label, printed))


def summary(obs, name, agg, text):
    got = sorted(tuple(l.split()) for l in text.splitlines() if l.strip())
    want = sorted((p, a, str(c), str(len(agg.runs(p, a, c)))) for p in agg.t.runs for a in agg.t.runs[p] for c in agg.t.checkpoints(p, a))
    obs.event("summary_lines", len(got))
    obs.require(got == want, "summary", "%s: summary lists %r, stored are %r" % (name, sorted(set(got) - set(want))[:4] or "too much", sorted(set(want) - set(got))[:4]), got=got, want=want)


def num(x):
    return float(x)


LINE = re.compile(r" (\S+) +:: \S+ +:: +\d+ :: +\S+ :: +\w+ +:: .*$")
NUM = r"[-+]?(?:[0-9.]+(?:e[-+]?[0-9]+)?|inf|nan)"


class Spread:
    """the fences and limits of a group of values; side(): sure and possible members of a class, since the values are only known up to rounding"""

    def __init__(self, vals):
        self.vals = vals
        s = sorted(vals)

        def quartile(f):
            k = f * (len(s) - 1)
            i = int(k)
            return s[i] + (k - i) * (s[min(i + 1, len(s) - 1)] - s[i])
        q1, q3 = quartile(0.25), quartile(0.75)
        self.tol = 1e-9 * (max(abs(v) for v in s) + (s[-1] - s[0])) + 1e-12
        self.inner = (q1 - 1.5 * (q3 - q1), q3 + 1.5 * (q3 - q1))
        self.outer = (q1 - 3 * (q3 - q1), q3 + 3 * (q3 - q1))
        self.mean = mean(s)
        self.sd = (sum((v - self.mean) ** 2 for v in s) / len(s)) ** 0.5
        self.sigma = (self.mean - 3 * self.sd, self.mean + 3 * self.sd)

    def out(self, lim, v):
        """True, False or None (rounding decides)"""
        d = max(lim[0] - v, v - lim[1])
        return True if d > self.tol else False if d < -self.tol else None

    def count(self, lim):
        o = [self.out(lim, v) for v in self.vals]
        return o.count(True), o.count(True) + o.count(None)


def percent(cell, n):
    """the number of values behind '--' or '12.50%'"""
    if cell == "--":
        return 0
    return int(round(float(cell.rstrip("%")) * n / 100.0)) if re.match(r"^[0-9.]+%$", cell) else None


def outliers(obs, lab, cols, sp):
    n = len(sp.vals)
    obs.event("outliers")
    mt = re.match(r"^(\S+) mild +(\S+) extr\.$", cols[8])
    if not obs.require(bool(mt), "stats-line", "%s: unreadable %r" % (lab, cols[8])):
        return
    mild, extreme = percent(mt.group(1), n), percent(mt.group(2), n)
    (ilo, ihi), (olo, ohi) = sp.count(sp.inner), sp.count(sp.outer)
    obs.require(extreme is not None and olo <= extreme <= ohi, "stats-outliers", "%s: %r, but %d..%d of %d values are beyond the outer fences" % (lab, cols[8], olo, ohi, n), values=sp.vals)
    obs.require(mild is not None and extreme is not None and ilo <= mild + extreme <= ihi, "stats-outliers", "%s: %r, but %d..%d of %d values are beyond the inner fences" % (lab, cols[8], ilo, ihi, n), values=sp.vals)
    if ihi and extreme:
        obs.event("groups_with_outliers")
    if ilo == ihi:
        keep = [v for v in sp.vals if not sp.out(sp.inner, v)]
        mu = mean(keep)
        sd = (sum((v - mu) ** 2 for v in keep) / len(keep)) ** 0.5
        for cell, true, base, what in ((cols[9], mu, sp.mean, "mean"), (cols[10], sd, sp.sd, "deviation")):
            mt = re.match(r"^(%s) \( *(%s)%%\)$" % (NUM, NUM), cell)
            if not obs.require(bool(mt), "stats-line", "%s: unreadable %r" % (lab, cell)):
                continue
            obs.require(abs(float(mt.group(1)) - true) <= 0.00051 + 1e-6 * abs(true) + 3e-8 * abs(sp.mean), "stats-without-outliers",
                        "%s: %s without outliers %r instead of %r" % (lab, what, cell, true), values=sp.vals)
            if abs(base) > 1e-6 * (1e-9 + max(abs(v) for v in sp.vals)):
                d = 100 * (true - base) / base
                obs.require(abs(float(mt.group(2)) - d) <= 0.0011 + 1e-4 * abs(d) + (1e-2 if what == "deviation" else 0), "stats-without-outliers",
                            "%s: the %s changes by %r instead of %r%%" % (lab, what, cell, d), values=sp.vals)
    lo, mid, hi = (float(x) for x in re.findall(NUM, cols[6]))
    mt = re.match(r"^(%s)%%( +HIGH)?$" % NUM, cols[11])
    if obs.require(bool(mt), "stats-line", "%s: unreadable %r" % (lab, cols[11])) and abs(mid) > 0.5:
        d, slack = 100 * (hi - lo) / mid, 0.2 / abs(mid) * (1 + abs(hi - lo) / abs(mid)) + 0.002
        obs.require(abs(float(mt.group(1)) - d) <= slack, "stats-dispersion", "%s: interval %r, width %r of the mean" % (lab, cols[6], cols[11]))
        if abs(abs(d) - 30) > slack:
            obs.require(bool(mt.group(2)) == (abs(d) > 30), "stats-dispersion", "%s: interval %r flagged %r" % (lab, cols[6], cols[11]))


def suspicious(obs, lab, cols, block, sp):
    """the mark and, where results look suspicious, the listing of the values below; True/None/False: untrusted, rounding decides, trusted"""
    n = len(sp.vals)
    lo, hi = sp.count(sp.sigma)
    if n - lo < 0.95 * n:
        want = True
    elif n - hi >= 0.95 * n:
        want = False
    else:
        want = None
    listed = any("Suspicious" in l for l in block)
    if want is not None:
        obs.require((cols[5] != "✓") == want and listed == want, "stats-suspicious",
                    "%s: marked %r and %slisted, but %d of %d values are outside mean±3σ" % (lab, cols[5], "" if listed else "not ", lo, n), values=sp.vals)
    if not listed:
        return False
    obs.event("suspicious")
    head = [m for m in (re.search(r":: +(\d+) / (\d+) +\( *(%s)%%\) out of \[ *(%s) ; (%s) *\]" % (NUM, NUM, NUM), l) for l in block) if m]
    rows = [m for m in (re.search(r":: +(%s)  = avg (%s) *= avg *(%s)%% ⨉ σ \|(.*)$" % (NUM, NUM, NUM), l) for l in block) if m]
    if not obs.require(len(head) == 1 and len(rows) == n, "stats-listing", "%s: the listing has %d headings and %d of %d values" % (lab, len(head), len(rows), n), block=block):
        return want
    m = head[0]
    k = int(m.group(1))
    obs.require(lo <= k <= hi and m.group(2) == str(n) and abs(float(m.group(3)) - 100.0 * k / n) < 0.00051, "stats-listing",
                "%s: '%s / %s (%s%%) out of mean±3σ', true are %d of %d" % (lab, m.group(1), m.group(2), m.group(3), lo, n), values=sp.vals)
    for got, true in zip((float(m.group(4)), float(m.group(5))), sp.sigma):
        obs.require(abs(got - true) <= 1e-7 * (abs(true) + abs(sp.mean)) + 1e-9, "stats-listing", "%s: limit %r instead of %r" % (lab, got, true))
    got = sorted(float(r.group(1)) for r in rows)
    obs.require(all(abs(a - b) <= sp.tol + 1e-9 * abs(b) for a, b in zip(got, sorted(sp.vals))), "stats-listing", "%s: lists the values %r, stored are %r" % (lab, got, sorted(sp.vals)))
    for r in rows:
        v, tags = float(r.group(1)), r.group(4)
        obs.require(abs(float(r.group(2)) - (v - sp.mean)) <= sp.tol + 1e-9 * abs(sp.mean), "stats-listing", "%s: %r is %s from the average %r" % (lab, v, r.group(2), sp.mean))
        for tag, lim, inside in (("out of mean", sp.sigma, None), ("mild outlier", sp.inner, sp.outer), ("EXTREME outlier", sp.outer, None)):
            o = sp.out(lim, v)
            if inside is not None and o is not False:
                z = sp.out(inside, v)
                o = None if z is None or o is None else o and not z
            if o is not None:
                obs.require((tag in tags) == o, "stats-flag", "%s: %r is %sflagged %r" % (lab, v, "" if tag in tags else "not ", tag), values=sp.vals, line=r.group(0))
    keep = [v for v in sp.vals if not sp.out(sp.inner, v)]
    if sp.count(sp.inner)[0] == sp.count(sp.inner)[1] and abs(sp.mean) > 1e-9:
        d = abs(100 * (mean(keep) - sp.mean) / sp.mean)
        if abs(d - 10) > 1e-6:
            a_lot = any("changed a lot" in l for l in block)
            obs.require(a_lot == (d > 10), "stats-untrusted", "%s: the mean changes by %.3f%%, reported as %s" % (lab, d, "a lot" if a_lot else "little"), values=sp.vals)
            return d > 10
    return None


def stats(obs, name, agg, text):
    seen, blocks, cur = {}, {}, []
    for l in text.splitlines():     # the workers' own output may end up before the first column
        mt = LINE.search(l)
        if mt and "avg" not in l:
            cols = [c.strip() for c in mt.group(0).split("::")]
            key = (cols[0], cols[1], cols[3], cols[4])
            seen.setdefault(key, []).append(cols)
            cur = blocks[key] = []
        else:
            cur.append(l)
    want = {(p, a, str(c), m) for p in agg.t.runs for a in agg.t.runs[p] for c in agg.t.checkpoints(p, a) for m in METRICS}
    obs.require(set(seen) == want, "stats-groups", "%s: stats lists too much: %r, leaves out: %r" % (name, sorted(set(seen) - want)[:4], sorted(want - set(seen))[:4]))
    bad = {}
    for key in sorted(want & set(seen)):
        p, a, c, m = key
        lines = seen[key]
        lab = "%s: stats of %s/%s/%s/%s" % (name, p, a, c, m)
        obs.require(len(lines) == 1, "stats-twice", "%s appear %d times" % (lab, len(lines)))
        cols = lines[0]
        obs.event("stats_lines")
        vals = agg.values(p, a, int(c), m)
        sp = Spread(vals)
        mu, sd = sp.mean, sp.sd
        obs.require(cols[2] == str(len(vals)), "stats-runs", "%s: %s runs instead of %d" % (lab, cols[2], len(vals)))
        mt = re.match(r"^\s*(\S+) ≤\s+(\S+) ≤\s+(\S+)$", cols[6])
        if not obs.require(bool(mt), "stats-line", "%s: unreadable %r" % (lab, cols[6])):
            continue
        lo, mid, hi = (num(x) for x in mt.groups())
        obs.require(abs(mid - mu) <= 0.00051 + 1e-9 * abs(mu), "stats-mean", "%s: %r instead of %r" % (lab, mid, mu), values=vals)
        obs.require(min(vals) - 0.00051 - 1e-9 * abs(mu) <= lo <= hi <= max(vals) + 0.00051 + 1e-9 * abs(mu) and lo <= mu + 0.00051 + 1e-9 * abs(mu) and hi >= mu - 0.00051 - 1e-9 * abs(mu), "stats-interval",
                    "%s: interval %r..%r around %r" % (lab, lo, hi, mu), values=vals)
        obs.require(abs(num(cols[7]) - sd) <= 0.00051 + 1e-6 * sd + 3e-8 * abs(mu), "stats-deviation", "%s: deviation %s instead of %r" % (lab, cols[7], sd), values=vals)
        outliers(obs, lab, cols, sp)
        bad[key[:3] + (LONG.get(m, m),)] = suspicious(obs, lab, cols, blocks[key], sp)
    named = [tuple(x.strip() for x in l[4:].split("::")) for l in text.splitlines() if l.startswith(">>> ")]
    obs.require(len(set(named)) == len(named), "stats-untrusted", "%s: named twice as untrusted: %r" % (name, named))
    for k in named:
        obs.require(bad.get((k[0], k[1], k[2], k[3].lower()), False) is not False, "stats-untrusted", "%s: %r is named as untrusted" % (name, k))
    miss = [k for k, v in bad.items() if v is True and k not in {(x[0], x[1], x[2], x[3].lower()) for x in named}]
    obs.require(not miss, "stats-untrusted", "%s: %r are untrusted but not named" % (name, miss))


def rank(obs, name, agg, text):
    if "Problem ranking" not in text or "Global ranking" not in text:
        obs.violate("rank-output", "%s: no ranking printed" % name)
        return
    mid = text[text.rindex("Problem ranking"):]
    top, glob = mid.split("Global ranking")
    want, used = {}, {}
    for p in agg.t.runs:
        for a in agg.t.runs[p]:
            cs = agg.t.checkpoints(p, a)
            ok = [c for c in cs if agg.score(p, a, c, "cost") <= cs[-1] + 500]
            if ok:
                used[p, a] = ok[-1]
                for m in BETTER:
                    want.setdefault((p, m), {})[a] = agg.score(p, a, ok[-1], m)
    got = {}
    for l in top.splitlines():
        mt = re.match(r"^(\S+), (\S+) : (\S+)$", l)
        if mt:
            obs.require((mt.group(1), mt.group(2)) not in got, "listed-twice", "%s: %r" % (name, l))
            got[mt.group(1), mt.group(2)] = mt.group(3)
    obs.require(set(got) == set(want), "rank-groups", "%s: rank lists too much: %r, leaves out: %r" % (name, sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4]))
    total = {}
    for k in sorted(set(got) & set(want)):
        r = judge(obs, "%s: rank of %s/%s (checkpoints used %r)" % (name, k[0], k[1], {a: c for (p, a), c in used.items() if p == k[0]}), k[1], want[k], got[k])
        if not r:
            return
        add(total.setdefault(k[1], {}), r[0])
    lines = {}
    for l in glob.splitlines():
        mt = re.match(r"^(\S+) : (.*)$", l)
        if mt:
            obs.require(mt.group(1) not in lines, "listed-twice", "%s: %r" % (name, l))
            lines[mt.group(1)] = counters(mt.group(2))
    obs.require(set(lines) == set(total), "rank-groups", "%s: global ranking of %r instead of %r" % (name, sorted(lines), sorted(total)))
    for m in set(lines) & set(total):
        check_counter(obs, "%s: global ranking by %s" % (name, m), lines[m], total[m])


def sections(text, names):
    """text between the ***set*** headers"""
    out, pos = {}, []
    for n in names:
        i = text.find("***%s***" % n)
        pos.append(i)
    if min(pos) < 0 or pos != sorted(pos):
        return None
    for i, n in enumerate(names):
        out[n] = text[pos[i]:pos[i + 1] if i + 1 < len(names) else len(text)]
    return out


def details(obs, name, aggs, text):
    sec = sections(text, SETS)
    if not obs.require(sec is not None, "detail-output", "%s: result sets not listed in order" % name):
        return
    for s in SETS:
        agg = aggs.get(s)
        total = {}
        if agg:
            per = {}
            for p in agg.t.runs:
                for a in agg.t.runs[p]:
                    for c in agg.t.checkpoints(p, a):
                        if agg.score(p, a, c, "cost") <= c + 500:
                            for m in BETTER:
                                per.setdefault((p, c, m), {})[a] = agg.score(p, a, c, m)
            for (p, c, m), sc in per.items():
                best = max(sc.values(), key=lambda v: BETTER[m] * v)
                tied = [a for a in sc if near(sc[a], best)]
                if len(sc) > 1:
                    obs.nontrivial(name, s, p, c, m)
                d = total.setdefault((c, m), {})
                for a in tied:
                    lo, hi = d.get(a, (0, 0))
                    d[a] = (lo + (len(tied) == 1), hi + 1)
                d[None] = d.get(None, 0) + 1
        got = {}
        for l in sec[s].splitlines():
            mt = re.match(r"^(\d+) (\S+) : (.*)$", l)
            if mt:
                obs.require((int(mt.group(1)), mt.group(2)) not in got, "listed-twice", "%s: %r" % (name, l))
                got[int(mt.group(1)), mt.group(2)] = counters(mt.group(3))
        obs.require(set(got) == set(total), "detail-groups", "%s, %s: rank_details lists too much: %r, leaves out: %r" % (name, s, sorted(set(got) - set(total))[:4], sorted(set(total) - set(got))[:4]))
        obs.require(list(got) == sorted(got), "detail-order", "%s, %s: groups are not in order" % (name, s))
        for k in set(got) & set(total):
            obs.event("detail_lines")
            n = total[k].pop(None)
            obs.require(sum(x for a, x in got[k]) == n, "detail-sum", "%s, %s: %d problems for %r, winners are %r" % (name, s, n, k, got[k]))
            check_counter(obs, "%s, %s: rank_details of %r" % (name, s, k), got[k], total[k])


def table(obs, name, aggs, text):
    sec = sections(text, SETS)
    if not obs.require(sec is not None and "\\begin{tabular}" in text, "table-output", "%s: result sets or table missing" % name):
        return
    cells = {}
    for s in SETS:
        agg = aggs.get(s)
        if not agg:
            continue
        got, cur = {}, None
        for l in sec[s].splitlines():
            mt = re.match(r"^\*\*\*\*([^*]+)\*\*\*\*$", l)
            if mt:
                cur = mt.group(1)
            mt = re.match(r"^\*\*\*\*\*(\d+) (\S+)$", l)
            if mt:
                key = (cur, mt.group(2))
                obs.require(mt.group(1) == "40" and key not in got, "listed-twice", "%s: %r" % (name, l))
            mt = re.match(r"^\*\*\*\*\*(Strong winner|Winner): (\S+) :", l)
            if mt:
                got[key] = [mt.group(1), mt.group(2), None]
            mt = re.match(r"^\*\*\*\*\*Weak winners: (.*)$", l)
            if mt:
                got[key][2] = re.findall(r"\('([^']+)'", mt.group(1))
        want = {}
        for p in agg.t.runs:
            for a in agg.t.runs[p]:
                if 40 in agg.t.checkpoints(p, a):
                    for m in BETTER:
                        want.setdefault((p, m), {})[a] = agg.score(p, a, 40, m)
        obs.require(set(got) == set(want), "table-groups", "%s, %s: table ranks too much: %r, leaves out: %r" % (name, s, sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4]))
        for k in sorted(set(got) & set(want)):
            lab = "%s, %s: table, %s by %s" % (name, s, k[0], k[1])
            r = judge(obs, lab, k[1], want[k], got[k][1])
            if not r:
                return
            pts, sure, maybe = r
            if not maybe and all(v[0] == v[1] for v in pts.values()):
                obs.require((got[k][0] == "Strong winner") == (not sure) and sorted(got[k][2] or []) == sorted(sure), "weak-winners",
                            "%s: %s %s, with %r; the scores are %r" % (lab, got[k][0], got[k][1], got[k][2], want[k]))
            add(cells.setdefault(k[1], {}).setdefault(s, {}), pts)
    body = text[text.rindex("\\begin{tabular}"):]
    rows = {}
    for l in body.splitlines():
        mt = re.match(r"^(?:(\d+) )?& (\w+) (&.*)\\\\$", l)
        if mt:
            obs.require(mt.group(2) not in rows, "listed-twice", "%s: %r" % (name, l))
            rows[mt.group(2)] = [c.strip() for c in mt.group(3).split("&")[1:]]
    obs.require(set(rows) == set(cells), "table-rows", "%s: rows %r instead of %r" % (name, sorted(rows), sorted(cells)))
    for m in set(rows) & set(cells):
        if not obs.require(len(rows[m]) == len(SETS), "table-columns", "%s: %r" % (name, rows[m])):
            continue
        for s, cell in zip(SETS, rows[m]):
            tot = {a: v for a, v in cells[m].get(s, {}).items() if v[1]}
            obs.event("table_cells")
            got = counters(cell)
            lab = "%s, %s: table cell of %s" % (name, s, m)
            if any(lo != hi for lo, hi in tot.values()):
                continue
            tot = {a: lo for a, (lo, hi) in tot.items()}
            top = sorted(tot.values(), reverse=True)[:2]
            obs.require([n for a, n in got] == top and all(tot.get(a) == n for a, n in got) and len(set(a for a, n in got)) == len(got), "table-cell",
                        "%s is %r; points are %r" % (lab, cell, tot))
            # a star marks places shared with an algorithm that is not shown
            for a, n in got:
                shown = sum(1 for b, k in got if k == n)
                obs.require(("%s (%d)$^*$" % (a, n) in cell) == (sum(1 for v in tot.values() if v == n) > shown), "table-star", "%s is %r; points are %r" % (lab, cell, tot))


def make(root, rng, probs, force40):
    cps = rng.choice([None, [40], [40, 500, 900], [9, 10, 40, 100]]) if not force40 else rng.choice([[40], [40, 41], [9, 40, 700]])
    over = rng.choice([0, 0, 60, 450, 700, 1500])
    return tree.make(root, rng, probs, rng.sample(ALGOS, rng.choice([1, 2, 3, 4, 5])), runs=(1, rng.choice([1, 4, 6])), checkpoints=cps,
                     foreign=rng.choice([0, 0, 0.3]), missing=rng.choice([0, 0.3]), size=(1, rng.choice([3, 8])), share=rng.choice([0, 0.6, 1.0]),
                     even=rng.random() < 0.4, over=over, same=rng.choice([0, 0.3]))


def run_case(case, obs):
    import batch
    batch.install()
    import evogil, statistic.ranking, statistic.stats, statistic.summary  # noqa: before chdir
    rng = random.Random("p22/" + case["seed"])
    for k in range(case["n"]):
        top = os.path.join(obs.scratch, "w%d" % k)
        cwd = os.path.join(top, "x")
        os.makedirs(cwd)
        probs = [tree.problem(rng, "SYN22%s" % c, m=rng.choice([2, 2, 3])) for c in ("a", "b", "c")[:rng.choice([1, 2, 3])]]
        default = os.path.join(top, "results_temp", "results_k2")
        out = os.path.join(top, "out.txt")

        def go(name, words, fn):
            before = tree.listing(top)
            st, v, text = capture(lambda: batch.command(words), cwd, out)
            if st == "error":
                obs.violate("failed:" + words[0], "%s: evogil %s failed: %s" % (name, " ".join(words), v[-500:]))
                return
            fn(text)
            now = tree.listing(top)
            lost = [f for f, b in before.items() if b is not None and now.get(f) != b and os.path.basename(f)[:-len(".pickle")].isdigit()]
            obs.require(not lost, "results-changed", "%s: evogil %s changed %r" % (name, words[0], lost[:3]))
            new = [f for f in now if f not in before and os.path.basename(f)[:-len(".pickle")].isdigit()]
            obs.require(not new, "results-changed", "%s: evogil %s created %r" % (name, words[0], new[:3]))

        name = "tree %d" % k
        if k == 0:      # groups large enough for one run out of line to be noticed
            rng2 = random.Random("p22-odd/" + case["seed"])
            odd = os.path.join(top, "odd")
            t = tree.make(odd, rng2, probs[:1], rng2.sample(ALGOS, 2), runs=(8, 24), checkpoints=[rng2.choice([50, 400, 3000])], foreign=0, missing=0, size=(1, 4), even=True,
                          over=rng2.choice([6, 20]), odd=0.9)
            if t.runs:
                agg = Agg(t, probs)
                go(name + " (odd)", ["stats", "-b", "200", "-j", "2", "--dir", odd], lambda x: stats(obs, name + " (odd)", agg, x))
        if rng.random() < 0.5:
            t = make(default, rng, probs, False)
            if not t.runs:
                continue
            obs.event("trees")
            agg = Agg(t, probs)
            jobs = [(["summary"], lambda x: summary(obs, name, agg, x)),
                    (["stats", "-b", rng.choice(["200", "500"]), "-j", rng.choice(["1", "2", "3"])], lambda x: stats(obs, name, agg, x)),
                    (["rank"], lambda x: rank(obs, name, agg, x))]
            rng.shuffle(jobs)
            for words, fn in jobs:
                go(name, words, fn)
            if rng.random() < 0.5:
                other = os.path.join(top, "other")
                t2 = make(other, rng, probs, False)
                if t2.runs:
                    agg2 = Agg(t2, probs)
                    go(name, ["statistics", "-b", "200", "-j", "2", rng.choice(["-d", "--dir"]), rng.choice([other, "../other"])], lambda x: stats(obs, name + " (--dir)", agg2, x))
        else:
            aggs = {}
            for s in SETS:
                if rng.random() < 0.85:
                    t = make(os.path.normpath(os.path.join(cwd, s)), rng, probs, True)
                    if t.runs:
                        aggs[s] = Agg(t, probs)
                        obs.event("trees")
            jobs = [(["rank_details"], lambda x: details(obs, name, aggs, x)), (["table"], lambda x: table(obs, name, aggs, x))]
            rng.shuffle(jobs)
            for words, fn in jobs:
                go(name, words, fn)
        obs.sample({"tree": k, "problems": len(probs)})
