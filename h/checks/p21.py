import math, random
import numpy
import world

PID = "P21"
RULE = ("random samples of 1..60 observations (constant, tied, skewed, with outliers, negative, huge and tiny) analysed by the real statistics code and "
        "compared with definitions; paired resampling with equal random state for scaling, shifting and nesting; repeated normal and uniform "
        "samples for coverage and width; non-trivial = sample with at least two different values")
NEED = {"analyses": 500, "bootstraps": 400, "coverage_samples": 700, "resamples": 30000}
CPU = 300


def cases(tier, seed):
    k = 2 if tier == "quick" else 16
    out = [{"kind": "define", "seed": "%d/%d" % (seed, i)} for i in range(16 * k)]
    out += [{"kind": "boot", "seed": "%d/%d" % (seed, i)} for i in range(8 * k)]
    out += [{"kind": "cover", "dist": d, "n": n, "seed": "%d/%d" % (seed, r)} for r in range(k) for d in ("normal", "uniform", "shifted") for n in (25, 40)]
    out += [{"kind": "sample", "seed": "%d/%d" % (seed, i)} for i in range(4 * k)]
    return out


def gen(rng, n=None):
    n = n or rng.choice([1, 2, 3, 4, 5, 7, 10, 15, 20, 30, 60])
    k = rng.choice(["const", "ties", "normal", "skew", "outlier", "negative", "huge", "tiny", "ints"])
    if k == "const":
        v = rng.choice([0.0, 1.0, -3.5, 1e6, 0.1])
        return k, [v] * n
    if k == "ties":
        return k, [float(rng.choice([1, 2, 2, 5])) for _ in range(n)]
    if k == "skew":
        return k, [rng.expovariate(1.0) ** 2 for _ in range(n)]
    if k == "outlier":
        x = [rng.gauss(10, 1) for _ in range(n)]
        for _ in range(max(1, n // 10)):
            x[rng.randrange(n)] = rng.choice([14.0, 18.0, 60.0, -40.0, 1000.0])
        return k, x
    if k == "negative":
        return k, [rng.gauss(-5, 3) for _ in range(n)]
    if k == "huge":
        return k, [rng.uniform(1e8, 3e8) for _ in range(n)]
    if k == "tiny":
        return k, [rng.uniform(0, 1e-8) for _ in range(n)]
    if k == "ints":
        return k, [rng.randint(0, 50) for _ in range(n)]
    return k, [rng.gauss(3, 2) for _ in range(n)]


def quantile(xs, q):
    s = sorted(xs)
    h = (len(s) - 1) * q
    i = int(math.floor(h))
    j = min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * (h - i)


def mean(xs):
    return math.fsum(xs) / len(xs)


def sd(xs):
    m = mean(xs)
    return math.sqrt(math.fsum((x - m) ** 2 for x in xs) / len(xs))


def close(a, b, scale):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(scale, abs(a), abs(b)) + 1e-300


def share(txt):
    return 0.0 if "%" not in str(txt) else float(str(txt).strip().rstrip("%"))


def define(case, obs, rng):
    from statistic import stats_bootstrap as sb
    for _ in range(40):
        kind, xs = gen(rng)
        keep = list(xs)
        size = rng.choice([400, 600, 1000])
        a = sb.yield_analysis(xs, size)
        obs.event("analyses")
        name = "%s sample of %d" % (kind, len(xs))
        lo, hi, m, s = min(xs), max(xs), mean(xs), sd(xs)
        sc = max(abs(lo), abs(hi))
        obs.require(xs == keep, "argument-changed", "%s: the sample was modified" % name)
        obs.require(close(a["mean"], m, sc), "mean", "%s: mean %r instead of %r" % (name, a["mean"], m), xs=keep)
        obs.require(abs(a["stdev"] - s) <= 1e-6 * s + 3e-8 * sc, "stdev", "%s: deviation %r instead of %r" % (name, a["stdev"], s), xs=keep)
        obs.require(abs(a["lower"] - (m - 3 * s)) <= 3e-7 * (sc + s) and abs(a["upper"] - (m + 3 * s)) <= 3e-7 * (sc + s), "limits",
                    "%s: limits %r..%r instead of %r..%r" % (name, a["lower"], a["upper"], m - 3 * s, m + 3 * s), xs=keep)
        q1, q3 = quantile(xs, 0.25), quantile(xs, 0.75)
        iq = q3 - q1
        for key, want in (("low_inn_fence", q1 - 1.5 * iq), ("upp_inn_fence", q3 + 1.5 * iq), ("low_out_fence", q1 - 3 * iq), ("upp_out_fence", q3 + 3 * iq)):
            obs.require(close(float(a[key]), want, sc), "fence", "%s: %s %r instead of %r" % (name, key, float(a[key]), want), xs=keep)
        # with the reported fences (they agree with ours up to rounding)
        inner = [x for x in xs if a["low_inn_fence"] <= x <= a["upp_inn_fence"]]
        outer = [x for x in xs if x < a["low_out_fence"] or x > a["upp_out_fence"]]
        obs.require(2 * len(inner) >= len(xs), "majority-dropped", "%s: outlier filtering keeps %d of %d" % (name, len(inner), len(xs)), xs=keep)
        if inner:
            obs.require(close(a["metrics_nooutliers"], mean(inner), sc), "mean-without-outliers", "%s: %r instead of %r" % (name, a["metrics_nooutliers"], mean(inner)), xs=keep)
            obs.require(abs(a["stdev_nooutliers"] - sd(inner)) <= 1e-6 * s + 3e-8 * sc, "stdev-without-outliers", "%s: %r instead of %r" % (name, a["stdev_nooutliers"], sd(inner)), xs=keep)
            if s > 1e-6 * sc:
                w = 100.0 * (sd(inner) - s) / s
                obs.require(abs(a["stdev_nooutliers_diff"] - w) <= 1e-3 * (1 + abs(w)), "change-without-outliers", "%s: deviation changes by %r instead of %r" % (name, a["stdev_nooutliers_diff"], w), xs=keep)
            if abs(m) > 1e-6 * sc:
                w = 100.0 * (mean(inner) - m) / m
                obs.require(abs(a["mean_nooutliers_diff"] - w) <= 1e-5 * (1 + abs(w)), "change-without-outliers", "%s: %r instead of %r" % (name, a["mean_nooutliers_diff"], w), xs=keep)
        obs.require(abs(share(a["extr_outliers"]) - 100.0 * len(outer) / len(xs)) < 0.01, "extreme-share", "%s: %r, there are %d of %d" % (name, a["extr_outliers"], len(outer), len(xs)), xs=keep)
        obs.require(abs(share(a["mild_outliers"]) - 100.0 * (len(xs) - len(inner) - len(outer)) / len(xs)) < 0.01, "mild-share", "%s: %r, there are %d of %d" % (
            name, a["mild_outliers"], len(xs) - len(inner) - len(outer), len(xs)), xs=keep)
        within = [x for x in xs if a["lower"] <= x <= a["upper"]]
        obs.require((a["goodbench"] == "✓") == (len(within) >= 0.95 * len(xs)), "suspicious", "%s: flagged %r with %d of %d within three deviations" % (name, a["goodbench"], len(within), len(xs)), xs=keep)
        b = a["btstrpd"]
        e = 1e-9 * sc
        obs.event("bootstraps")
        obs.require(close(b["metrics"], m, sc), "estimate", "%s: bootstrap estimate %r instead of %r" % (name, b["metrics"], m), xs=keep)
        obs.require(b["from"] <= b["to"], "interval-order", "%s: interval %r..%r" % (name, b["from"], b["to"]), xs=keep)
        obs.require(lo - e <= b["from"] and b["to"] <= hi + e, "interval-range", "%s: interval %r..%r exceeds the observations %r..%r" % (name, b["from"], b["to"], lo, hi), xs=keep)
        obs.require(b["from"] <= m + e and m - e <= b["to"], "interval-mean", "%s: interval %r..%r does not enclose the mean %r" % (name, b["from"], b["to"], m), xs=keep)
        obs.require(abs(b["confidence"] - 95.0) < 1e-9, "confidence", "%s: confidence %r" % (name, b["confidence"]))
        if lo == hi:
            obs.require(abs(b["from"] - lo) <= e and abs(b["to"] - lo) <= e, "constant", "%s: interval %r..%r of a constant sample" % (name, b["from"], b["to"]))
        else:
            obs.nontrivial(tuple(keep))
        if abs(m) > 1e-6 * sc and sc:
            w = 100.0 * (b["to"] - b["from"]) / m
            obs.require(abs(a["pr_dispersion"] - w) <= 1e-6 * (1 + abs(w)), "dispersion", "%s: dispersion %r instead of %r" % (name, a["pr_dispersion"], w), xs=keep)
            if abs(abs(w) - 30) > 0.01:
                obs.require(bool(a["dispersion_warn"].strip()) == (abs(w) > 30), "dispersion-warning", "%s: warning %r at a dispersion of %.2f%%" % (name, a["dispersion_warn"], w))
        # other orders of the same observations
        ys = list(xs)
        rng.shuffle(ys)
        c = sb.yield_analysis(ys, size)
        for key in ("mean", "stdev", "metrics_nooutliers", "stdev_nooutliers", "low_inn_fence", "upp_out_fence"):
            obs.require(abs(float(a[key]) - float(c[key])) <= 3e-7 * (sc + s), "order", "%s: %s depends on the order: %r, %r" % (name, key, a[key], c[key]), xs=keep)
        obs.require((a["goodbench"], a["mild_outliers"], a["extr_outliers"]) == (c["goodbench"], c["mild_outliers"], c["extr_outliers"]) or len(xs) < 3, "order",
                    "%s: the outlier judgement depends on the order" % name, xs=keep)
        if len(xs) >= 15 and kind in ("normal", "negative", "huge", "tiny"):
            d = c["btstrpd"]
            w = b["to"] - b["from"]
            obs.require(abs(b["from"] - d["from"]) < 0.3 * w and abs(b["to"] - d["to"]) < 0.3 * w, "order", "%s: the interval depends on the order: %r..%r, %r..%r" % (
                name, b["from"], b["to"], d["from"], d["to"]), xs=keep)
        obs.sample({"n": len(xs), "kind": kind, "mean": m, "interval": [b["from"], b["to"]]})
        xs2 = [x for x in xs]
        obs.require(close(sb.average(xs2), m, sc), "average", "%s: average %r instead of %r" % (name, sb.average(xs2), m))


def boot(case, obs, rng):
    """paired resampling: with the same random state the resamples are the same"""
    from statistic import stats_bootstrap as sb
    for i in range(40):
        kind, xs = gen(rng, rng.choice([5, 10, 20, 33]))
        n = rng.choice([200, 500])
        k = rng.choice([len(xs), max(1, int(len(xs) * 0.66))])
        sc = max(map(abs, xs)) or 1.0

        def go(data, alpha, f=sb.average, nn=n):
            random.seed("b%d/%s" % (i, case["seed"]))
            numpy.random.seed(i)
            return sb.bootstrap(data, f, nn, k, alpha)
        obs.event("bootstraps")
        name = "%s sample of %d, %d resamples of %d" % (kind, len(xs), n, k)
        r = {al: go(xs, al) for al in (0.25, 0.1, 0.05, 0.025, 0.005)}
        prev = None
        for al in (0.25, 0.1, 0.05, 0.025, 0.005):
            b = r[al]
            obs.require(abs(b["confidence"] - 100 * (1 - 2 * al)) < 1e-9, "confidence", "%s: confidence %r at alpha %r" % (name, b["confidence"], al))
            if prev:
                obs.require(b["from"] <= prev["from"] and b["to"] >= prev["to"], "nesting", "%s: the interval narrows when the confidence grows: %r, %r" % (name, prev, b), xs=xs)
            prev = b
        for f, g, tol in ((lambda x: 3.5 * x, lambda v: 3.5 * v, 1e-9), (lambda x: x + sc, lambda v: v + sc, 1e-9)):
            b = go([f(x) for x in xs], 0.025)
            for key in ("from", "to", "metrics"):
                obs.require(abs(b[key] - g(r[0.025][key])) <= tol * 5 * sc, "equivariance", "%s: %s does not scale or shift with the data: %r, expected %r" % (name, key, b[key], g(r[0.025][key])), xs=xs)
        b = go([-x for x in xs], 0.025)
        obs.require(abs(b["metrics"] + r[0.025]["metrics"]) <= 1e-9 * sc, "equivariance", "%s: estimate of the negated sample" % name)
        # resample statistics other than the mean
        b = go(xs, 0.025, max)
        obs.require(b["metrics"] == max(xs) and b["to"] <= max(xs) and b["from"] >= min(xs), "statistic", "%s: bootstrap of the maximum gives %r" % (name, b), xs=xs)
        obs.nontrivial("boot", case["seed"], i)


def cover(case, obs, rng):
    from statistic import stats_bootstrap as sb
    n, hit, hit2, ratio = case["n"], 0, 0, []
    N = 130
    mu = {"normal": 2.0, "uniform": 0.5, "shifted": -40.0}[case["dist"]]
    for _ in range(N):
        xs = [rng.gauss(mu, 1.0) if case["dist"] != "uniform" else rng.random() for _ in range(n)]
        b = sb.bootstrap(xs, sb.average, 400, n, 0.025)
        hit += b["from"] <= mu <= b["to"]
        ratio.append((b["to"] - b["from"]) / (2 * 1.96 * sd(xs) / math.sqrt(n)))
        obs.event("coverage_samples")
        b = sb.yield_analysis(xs, 400)["btstrpd"]
        hit2 += b["from"] <= mu <= b["to"]
    w = mean(ratio)
    obs.notes["coverage x1000 %s/%d" % (case["dist"], n)] = int(1000.0 * hit / N)
    obs.notes["relative width x1000 %s/%d" % (case["dist"], n)] = int(1000 * w)
    obs.require(hit >= 0.83 * N, "coverage", "95%% interval of %d %s observations covers the true value in %d of %d repetitions" % (n, case["dist"], hit, N))
    obs.require(hit2 >= 0.83 * N, "coverage", "the analysis' interval of %d %s observations covers the true value in %d of %d repetitions" % (n, case["dist"], hit2, N))
    obs.require(0.9 <= w <= 1.08, "width", "the interval of %d %s observations is %.3f times as wide as theory says" % (n, case["dist"], w))
    obs.nontrivial("cover", case["dist"], n, case["seed"])


def sample(case, obs, rng):
    """resampling draws every observation equally often, independently, with replacement"""
    from statistic import stats_bootstrap as sb
    for n in (1, 2, 3, 7, 20):
        pop = ["e%d" % i for i in range(n)]
        keep = list(pop)
        k = rng.choice([1, 2, n, 3 * n])
        cnt = dict.fromkeys(pop, 0)
        T = 6000 // k
        same = 0
        for _ in range(T):
            s = sb.sample_wr(pop, k)
            obs.event("resamples")
            obs.require(len(s) == k and all(x in cnt for x in s), "resample", "a resample of %d from %d observations is %r" % (k, n, s[:6]))
            for x in s:
                cnt[x] = cnt.get(x, 0) + 1
            if k > 1 and s[0] == s[1]:
                same += 1
        obs.require(pop == keep, "argument-changed", "resampling changed the sample")
        e = T * k / float(n)
        chi = sum((c - e) ** 2 / e for c in cnt.values())
        obs.require(chi < n - 1 + 7 * math.sqrt(2.0 * n) + 12, "resample-uniform", "observations are not drawn equally often: %r" % cnt)
        if k > 1:
            p = 1.0 / n
            obs.require(abs(same - T * p) <= 6 * math.sqrt(T * p * (1 - p)) + 1, "resample-independent", "two draws agree in %d of %d resamples of %d observations" % (same, T, n))


def run_case(case, obs):
    rng = random.Random("p21/%s/%s/%s/%s" % (case["kind"], case["seed"], case.get("dist"), case.get("n")))
    {"define": define, "boot": boot, "cover": cover, "sample": sample}[case["kind"]](case, obs, rng)
