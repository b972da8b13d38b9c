"""write /verif/seeded/<id>/ from seeds_src.py and confirm each in scratch copies: mkseed.py [id...]

For each seed: apply the edits to a copy of /repo, make patch.diff, then confirm that the demonstration passes on the
unchanged copy and fails with the patch, and (with --tests) that the stable tests still pass with it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds_src import SEEDS

PRE = """import sys, os, logging, random, tempfile, shutil
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
"""


def sh(cmd, cwd, env=None, timeout=400):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)


def one(s, tests):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    c = os.path.join(tmp, "repo")
    try:
        sh("git clone -q %s %s" % (os.environ.get("EVOGIL_REPO", "/repo"), c), "/")
        for f, old, new in s["edits"]:
            p = os.path.join(c, f)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                return s["id"], "EDIT: %d occurrences in %s of %r" % (t.count(old), f, old[:60])
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        diff = sh("git diff", c).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].strip("\n") + "\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        bad = sh("bash %s/demo.sh" % d, c)
        if bad.returncode == 0:
            return s["id"], "DEMO does not fail with the patch: " + bad.stdout.decode()[-400:]
        res = "ok"
        if tests:
            r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider test/test_algorithms/test_driver.py test/test_algorithms/test_hgs.py test/test_algorithms/test_imga.py test/test_algorithms/test_platform.py -k 'not create_and_run'", c, timeout=900)
            out = r.stdout.decode()
            res = out.strip().splitlines()[-1] if out.strip() else "no output"
        sh("git checkout -q -- .", c)
        good = sh("bash %s/demo.sh" % d, c)
        if good.returncode != 0:
            return s["id"], "DEMO fails on the unchanged tree: " + good.stdout.decode()[-800:]
        return s["id"], res + "   [fails with: %s]" % (bad.stdout.decode().strip().splitlines() or [""])[-1][:110]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [s for s in SEEDS if not ids or s["id"] in ids]
    with ThreadPoolExecutor(1 if "--tests" in sys.argv else 6) as ex:
        for r in ex.map(lambda s: one(s, "--tests" in sys.argv), todo):
            print("%-28s %s" % r, flush=True)
