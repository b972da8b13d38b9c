"""measure what P11's limits are derived from: h/calibrate11.py <first seed> <seeds>"""
import sys, os, json, math, multiprocessing
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, "/repo"]
os.chdir("/repo")
import world
world.setup()
from checks import p11


def one(j):
    a, p, s = j
    return j, p11.search(a, p, "cal%d" % s)


if __name__ == "__main__":
    s0, n = int(sys.argv[1]), int(sys.argv[2])
    jobs = [(a, p, s) for s in range(s0, s0 + n) for a in p11.ALGOS for p in p11.PROBLEMS]
    res = {}
    with multiprocessing.Pool(8, maxtasksperchild=4) as pool:
        for (a, p, s), r in pool.imap_unordered(one, jobs, chunksize=1):
            for k in ("random", "initial", "earlier"):
                res.setdefault("%s/%s/%s" % (a, p, k), []).append(r[k])
    out = {}
    for k, v in sorted(res.items()):
        m = sum(v) / len(v)
        out[k] = {"mean": round(m, 4), "sd": round(math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - 1)), 4), "max": round(max(v), 4), "n": len(v)}
    with open(p11.TABLE, "w") as fh:
        json.dump(out, fh, indent=0)
