"""Monitor runtime shared by every check.

A check is a module exposing
    PID, TITLE, RULE          - identification, and how cases are made / what is non-trivial
    cases(tier, seed)         - list of JSON-able case descriptions (dicts)
    run_case(case, obs)       - drives the real code in /repo and reports to `obs`
    NEED                      - {event name: minimum count} below which the verdict is inconclusive
    CPU (optional)            - cpu-seconds one case may burn before it counts as non-terminating
Every case runs in a forked child.  The parent aggregates observations,
matches violations against known_findings.json, writes evidence, and decides.

Exit codes: 0 held, 1 violated, 3 inconclusive (monitor not reached / harness error).
"""
import collections, hashlib, importlib, json, os, pickle, random, re, resource, select, signal, sys, time, traceback
import tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EVOGIL_REPO", "/repo")
REPO_REAL = os.path.realpath(REPO)


class Violation(Exception):
    """raised by an oracle to stop a case at once"""


class NonTerminating(BaseException):
    pass


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


class Obs:
    """what one case observed"""

    def __init__(self):
        self.events = collections.Counter()
        self.distinct = set()
        self.violations = []
        self.samples = []
        self.evals = 0
        self.notes = collections.Counter()
        self.per_mech = collections.Counter()

    def event(self, name, n=1):
        self.events[name] += n

    def check(self, n=1):
        self.evals += n

    def nontrivial(self, *key):
        self.distinct.add(digest(key))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violate(self, mech, msg, **data):
        self.per_mech[mech] += 1
        if self.per_mech[mech] <= 8:
            self.violations.append({"mech": mech, "msg": msg[:600], "data": repr(data)[:1500]})

    def require(self, cond, mech, msg, **data):
        self.evals += 1
        if not cond:
            self.violate(mech, msg, **data)
        return cond


SHAPE = (TypeError, ValueError, KeyError, IndexError, ZeroDivisionError)


def innermost_in_repo(tb):
    frames = traceback.extract_tb(tb)
    # skip library frames: the deepest frame that is either repo or harness decides
    for fr in reversed(frames):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(REPO_REAL + os.sep):
            return True, fr
        if fn.startswith(VERIF + os.sep):
            return False, fr
    return False, frames[-1] if frames else None


def _child(mod, case, idx, wfd, scratch):
    obs = Obs()
    err = None
    cpu = getattr(mod, "CPU", 100)
    devnull = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, "w")
        sys.stderr = open(os.devnull, "w")
    os.dup2(devnull, 0)

    def on_prof(sig, frame):
        raise NonTerminating()

    import threading
    main = threading.main_thread()
    signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        random.seed("case/%s/%s" % (mod.PID, case.get("seed", idx)))
        import numpy
        numpy.random.seed(random.getrandbits(32))
        obs.scratch = scratch
        mod.run_case(case, obs)
    except Violation as e:
        obs.violate(getattr(e, "mech", "oracle"), str(e))
    except NonTerminating:
        obs.violate("no-termination", "case burned %s cpu-seconds without finishing" % cpu)
    except BaseException as e:
        inrepo, fr = innermost_in_repo(e.__traceback__)
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if inrepo and not getattr(e, "harness", False):
            obs.violate("exception:%s" % type(e).__name__,
                        "%s: %s at %s in %s" % (type(e).__name__, str(e)[:200], os.path.relpath(fr.filename, REPO_REAL), fr.name),
                        tb=txt[-1500:])
        elif not getattr(e, "harness", False) and (isinstance(e, SHAPE) or isinstance(e, AttributeError) and re.match("'(NoneType|Result)' object", str(e))):
            # what the code handed out is not of the shape its interface promises (None, too few values, a missing field)
            obs.violate("unreadable:%s" % type(e).__name__, "what the code returned cannot be read: %s: %s at line %d of %s" % (
                type(e).__name__, str(e)[:200], fr.lineno, os.path.basename(fr.filename)), tb=txt[-1500:])
        else:
            err = txt
    signal.setitimer(signal.ITIMER_PROF, 0)
    ru = resource.getrusage(resource.RUSAGE_SELF)
    obs.notes['__cpu'] = int(1000 * (ru.ru_utime + ru.ru_stime))
    data = pickle.dumps((idx, obs.events, obs.distinct, obs.violations, obs.samples, obs.evals, obs.notes, err))
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)
    os._exit(0)


def run_cases(mod, cases, jobs, wall_limit, is_fresh=None):
    """fork one child per case, `jobs` at a time"""
    res = []
    pend = list(enumerate(cases))[::-1]
    live = {}
    t0 = time.time()
    timed_out = []
    violating = 0
    base_scratch = tempfile.mkdtemp(prefix="verif-%s-" % mod.PID)
    try:
        while pend or live:
            while pend and len(live) < jobs:
                idx, case = pend.pop()
                r, w = os.pipe()
                sc = os.path.join(base_scratch, str(idx))
                os.mkdir(sc)
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        os.setpgid(0, 0)
                    except OSError:
                        pass
                    try:
                        _child(mod, case, idx, w, sc)
                    finally:
                        os._exit(9)
                os.close(w)
                live[r] = [pid, idx, bytearray(), sc, time.time()]
            rd, _, _ = select.select(list(live), [], [], 1.0)
            for fd in rd:
                b = os.read(fd, 1 << 16)
                if b:
                    live[fd][2].extend(b)
                else:
                    pid, idx, buf, sc, _t = live.pop(fd)
                    os.close(fd)
                    _, status = os.waitpid(pid, 0)
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    shutil.rmtree(sc, ignore_errors=True)
                    try:
                        res.append(pickle.loads(bytes(buf)))
                        if is_fresh is not None and any(is_fresh(idx, v) for v in res[-1][3]):
                            violating += 1
                            if violating >= 6:      # the verdict is settled: do not burn the rest
                                pend = []
                    except Exception:
                        res.append((idx, collections.Counter(), set(), [], [], 0, collections.Counter(),
                                    "child died with status %r" % status))
            if time.time() - t0 > wall_limit:
                for fd in list(live):
                    pid, idx, buf, sc, _t = live.pop(fd)
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                    os.close(fd)
                    timed_out.append(idx)
                timed_out += [i for i, _ in pend]
                pend = []
    finally:
        shutil.rmtree(base_scratch, ignore_errors=True)
    return res, timed_out


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    sys.path.insert(0, os.path.join(VERIF, "h"))
    sys.path.insert(0, REPO)
    os.chdir(REPO)
    import world
    world.setup()
    mod = importlib.import_module("checks." + pid.lower())
    t0 = time.time()
    replay_in = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    if replay_in:
        cases = [json.load(open(replay_in))["case"]]
    else:
        cases = mod.cases(tier, seed)
    if "--only" in argv:
        sub = argv[argv.index("--only") + 1]
        cases = [c for c in cases if sub in json.dumps(c)]
    wall_limit = 800 if tier == "quick" else 3000
    if hasattr(mod, "warm"):
        mod.warm()
    known = [k for k in load_known() if k["property"] == pid and k.get("status", "open") == "open"]

    def match(idx, v):
        for k in known:
            if k["mech"] == v["mech"] and all(cases[idx].get(a) in (b if isinstance(b, list) else [b])
                                              for a, b in k.get("where", {}).items()):
                return k
        return None

    res, timed_out = run_cases(mod, cases, jobs, wall_limit, lambda i, v: match(i, v) is None)
    events = collections.Counter()
    notes = collections.Counter()
    distinct = set()
    samples = []
    evals = 0
    slow = []
    errs = []
    viol = []
    for idx, ev, di, vi, sa, n, no, err in sorted(res, key=lambda r: r[0]):
        events.update(ev)
        slow.append((no.pop('__cpu', 0), idx))
        notes.update(no)
        distinct |= di
        samples += [{"case": cases[idx], "saw": s} for s in sa][:1]
        evals += n
        if err:
            errs.append((idx, err))
        for v in vi:
            viol.append((idx, v))
    hit = collections.OrderedDict()
    fresh = []
    for idx, v in viol:
        k = match(idx, v)
        if k:
            hit.setdefault(k["what"], (k, idx, v))
        else:
            fresh.append((idx, v))
    for what, (k, idx, v) in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    code = 0
    if fresh:
        code = 1
        idx, v = fresh[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, digest((cases[idx], v["mech"]))))
        with open(path, "w") as fh:
            json.dump({"property": pid, "case": cases[idx], "violation": v,
                       "how": "bash /verif/run.sh %s --replay %s" % (pid, path)}, fh, indent=1)
        groups = collections.Counter(v["mech"] for _, v in fresh)
        print("%s: %d violation reports, mechanisms: %s" % (pid, len(fresh), dict(groups)))
        seen = set()
        for i, w in fresh:
            if w["mech"] in seen or len(seen) > 8:
                continue
            seen.add(w["mech"])
            print("  case %s\n    [%s] %s\n    %s" % (json.dumps(cases[i])[:400], w["mech"], w["msg"], w["data"][:int(os.environ.get("VERIF_DETAIL", "500"))]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    need = {} if (replay_in or "--only" in argv) else getattr(mod, "NEED", {})
    need = need(tier) if callable(need) else need
    # an internal the monitor looks through (never the only eye on a property) may be gone after a rewrite: say so instead of giving no verdict
    waive = getattr(mod, "WAIVE", {})
    gone = sorted(k for k in need if k in waive and any(events["absent:" + w] for w in waive[k].split()))
    if gone:
        print("%s: not observed, because what they are observed through is not there: %s" % (pid, ", ".join("%s (%s)" % (k, waive[k]) for k in gone)))
    short = {k: (events[k], n) for k, n in need.items() if events[k] < n and k not in gone}
    if code == 0:
        if errs:
            code = 3
            print("%s INCONCLUSIVE: %d harness errors; first (case %s):\n%s" % (pid, len(errs), json.dumps(cases[errs[0][0]])[:300], errs[0][1]))
        elif timed_out:
            code = 3
            print("%s INCONCLUSIVE: watchdog ended %d cases" % (pid, len(timed_out)))
        elif short:
            code = 3
            print("%s INCONCLUSIVE: monitor events below minimum: %s" % (pid, short))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:6],
            "executions": len(res),
            "events_observed": dict(events),
            "notes": dict(notes),
            "minimum_events": need,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    if not replay_in and "--only" not in argv:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print("%s %s tier=%s seed=%d executions=%d oracle_evaluations=%d distinct=%d known=%d wall=%.1fs" % (
        pid, {0: "HELD", 1: "VIOLATED", 3: "INCONCLUSIVE"}[code], tier, seed, len(res), evals, len(distinct), len(hit), wall))
    if os.environ.get("VERIF_DEBUG") or os.environ.get("VERIF_EVENTS"):
        print("events:", dict(events), "notes:", dict(notes))
        for ms, i in sorted(slow)[::-1][:3]:
            print("slow: %.1f cpu-s %s" % (ms / 1000.0, json.dumps(cases[i])[:200]))
    sys.stdout.flush()
    os._exit(code)
