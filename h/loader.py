"""fresh process: load stored results knowing nothing but the repository, print them as JSON lines"""
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from pathlib import Path
from simulation import serializer

for line in sys.stdin:
    f = line.strip()
    if not f:
        continue
    try:
        r = serializer.load_file(Path(f))
        out = {"pop": [[float(v) for v in x] for x in r.population], "fit": [[float(v) for v in x] for x in r.fitnesses],
               "cost": r.additional_data.get("cost")}
        out["cost"] = float(out["cost"])
    except Exception as e:
        out = {"error": "%s: %s" % (type(e).__name__, e)}
    print(json.dumps(out))
