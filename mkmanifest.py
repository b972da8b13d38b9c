"""rewrites MANIFEST.json (and the fixed entries of known_findings.json) from the checks present"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
LEVEL = {
 "P01": ("differential monitor: real dominance/layering/filter code against brute-force oracles", "random and tie-heavy vectors and permutations, 1..6 objectives; not exhaustive"),
 "P02": ("differential and metamorphic monitor: hypervolume against inclusion-exclusion/grid oracle", "fronts of up to 9 points (oracle limit), 1..6 objectives"),
 "P03": ("differential and metamorphic monitor of the quality indicators against their definitions", "random, tied, degenerate and permuted sets"),
 "P04": ("domain/parent monitors and distribution tests on recorded operator outputs", "statistical parts at 1e-6-level thresholds with fixed sample sizes"),
 "P05": ("objective-call instrumentation: domain monitor on every evaluated, held and reported point", "all drivers and meta combinations, random box domains"),
 "P06": ("online accounting monitor: reported cost against instrumented objective calls after every step", "all drivers and combinations on synthetic problems"),
 "P07": ("trace monitor over steps, emissions and stored files of budget/steps runs", "scripted cost schedules plus real algorithms"),
 "P08": ("trace monitor under a virtual clock: sample schedule, content and accounting of time-limited runs", "scripted step durations, exact arithmetic"),
 "P09": ("online trace monitor on progress messages, re-checked after later steps", "every algorithm alone and nested"),
 "P10": ("online selection monitor: pool of instrumented evaluations against the survivors of each generation", "IBEA pairs within 1e-3 of the range not judged"),
 "P11": ("statistical outcome monitor: seeded runs against random-search and initial-population baselines", "thresholds with wide margins over repeated runs"),
 "P12": ("conservation/topology monitor on island runs observed at the injected driver boundary", "all base algorithms, topologies and island counts"),
 "P13": ("online tree-invariant monitor on recorded nodes of the sequential hierarchic search", "random landscapes, limits and configurations"),
 "P14": ("message-trace monitor under a controlled actor scheduler with randomised delivery orders", "in-process actor runtime, per-sender FIFO, random interleavings"),
 "P15": ("offline checker over stored result files, loaded back by the real loader and by another process", "synthetic and shipped problems"),
 "P16": ("offline checker: discovery output against the recorded ground truth of generated result trees", "random trees with foreign and incomplete entries"),
 "P17": ("differential monitor: metric values fresh, repeated, cached and re-ordered against an independent oracle", "generated result trees"),
 "P18": ("differential monitor: resolved simulation cases against an independent expansion of the request", "random requests over all options"),
 "P19": ("fault-injection monitor: batches with injected failures against the fault-free stored results", "failures at random stages"),
 "P20": ("state-leak monitor: snapshots of configuration and problem objects around interleaved real runs", "all algorithms and combinations"),
 "P21": ("differential and statistical monitor of the bootstrap code", "coverage judged with binomial margins"),
 "P22": ("differential monitor: parsed statistics/ranking outputs against an independent aggregation", "generated result trees"),
 "P24": ("differential monitor: artists read back from every saved figure against an independent aggregation of the stored results", "generated result trees; what is drawn, not how it looks"),
 "P25": ("online rule monitor: survivors of each generation against an independent replay of the published selection rule", "ties and values within rounding left open; NSGA-II boundary members and tied layers not judged for crowding"),
 "P26": ("stand-in recording algorithms against an independent model of the configuration layers; statistical monitors of operator settings on needle landscapes", "generic operator settings not judged for OMOPSO/NSLS, whose own settings are; nesting up to three levels"),
 "P27": ("statistical monitor: traced parents of clone offspring against the exact law of the tournament; decomposition of every particle's displacement", "fixed sample sizes at 6 sigma; crowding judged between crowded and well spread members"),
 "P23": ("differential monitor: shipped benchmark functions and fronts against independent definitions", "random and boundary points"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    if os.path.exists(os.path.join(here, "h/checks/%s.py" % i.lower())):
        t, n = LEVEL[i]
        checks.append({"property": i, "quick_cmd": "bash run.sh %s --tier quick" % i, "thorough_cmd": "bash run.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "EVOGIL_VERIF", "enable": "no hooks in /repo: instrumentation is injected through the factories, problem modules and stand-in actor runtime in /verif/h", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
