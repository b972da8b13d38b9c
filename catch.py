"""which seeded changes do the checks catch?  catch.py [id...]   (scratch clones; nothing is applied in /repo)"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="catch-")
    try:
        c = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", c])
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=c)
        t = time.time()
        r = subprocess.run(["./run.sh", pid], cwd=HERE, env=dict(os.environ, EVOGIL_REPO=c), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode(errors="replace").splitlines()
        v = [l for l in out if l.startswith("VIOLATION")]
        print("%-28s rc=%d %3.0fs  %d violations  %s" % (i, r.returncode, time.time() - t, len(v), (v or out[-1:] or [""])[0][:150]), flush=True)
        rec = os.path.join(HERE, "catch.json")
        table = json.load(open(rec)) if os.path.exists(rec) else {}
        table[i] = {"property": pid, "caught": r.returncode == 1 and bool(v), "violations": len(v)}
        json.dump({k: table[k] for k in sorted(table) if os.path.isdir(os.path.join(HERE, "seeded", k))}, open(rec, "w"), indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
