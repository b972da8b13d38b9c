"""rewrites known_findings.json: repaired defects (suppress nothing) and recorded ones"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
FIXED = [
 ("P02", "3baddba", "hypervolume of fronts with tied coordinates or points level with the reference was wrong for 4 and more objectives"),
 ("P04", "83f78e7", "OMOPSO built its mutations lazily and never applied them"),
 ("P06", "985e3f5", "SPEA2, SMSEMOA and OMOPSO charged one evaluation per objective instead of one per individual"),
 ("P06", "6e182f8", "IBEA charged surviving individuals again in every step and lost its archive"),
 ("P05", "87d9f28", "HGS precision trimming moved points out of domains that do not contain zero"),
 ("P05", "df2e197", "JGBL gene jumping left the domain by rounding"),
 ("P09", "8dafb8b", "OMOPSO moved the points inside lists it had already handed out in messages"),
 ("P10", "0647893", "OMOPSO archives kept dominated members because removal during iteration skipped elements"),
 ("P10", "3c6decb", "OMOPSO archive kept dominated members when objectives are negative"),
 ("P12", "8c39328", "the island algorithm's result was a one-shot iterator, so stored results had an empty population"),
 ("P12", "27a0606", "torus topologies with one full row linked islands to themselves and left an extra island without neighbours"),
 ("P13", "14ab3f3", "hierarchic search nodes saw the absolute value of negative objectives"),
 ("P14", "4076a9f", "distributed hierarchic search never stopped redundant nodes"),
 ("P14", "098458d", "a distributed node released sprouts beyond max_sprouts_no"),
 ("P18", "d097c1d", "a run without --algo selected no algorithm instead of all available ones"),
 ("P19", "1067659", "the first failing simulation ended the whole batch with a TypeError"),
 ("P20", "aa739df", "a hierarchic run halved the progress thresholds in the shared configuration, so later runs started with other thresholds"),
 ("P16", "fa62b12", "a stray file beside the problem directories ended the reading of results"),
 ("P17", "23daec7", "the dominance indicator compared runs numbered in directory order with runs numbered in name order, and counted foreign directories as runs"),
 ("P17", "66cd9a1", "the dominance indicator failed for results directories whose path contains the problem's name and an underscore"),
 ("P21", "beaaa3f", "the bootstrap interval of a single observation was -inf..-inf"),
 ("P22", "fb971d4", "ranking failed when an algorithm's directory holds no results"),
 ("P22", "1881432", "stats counted, and flagged as out of mean±3σ, the values inside that range"),
 ("P22", "150e822", "stats read the default directory whatever --dir said"),
 ("P23", "a72ac4d", "UF8, UF9 and UF10 grouped the variables by the complement of the published index sets"),
 ("P23", "203faaf", "the reference fronts of UF8 and UF10 did not lie on the unit sphere"),
 ("P23", "6f53f2b", "the reference front of UF9 held points with negative objectives"),
 ("P24", "121a095", "pictures failed when the results hold an algorithm without a plot group (SPEA2, SMSEMOA)"),
 ("P24", "4f290ba", "time plots ended at the last checkpoint of the first curve and hid the rest of longer ones"),
 ("P24", "3695725", "pictures_summary failed for problems outside its plotting order (kursawe, ackley)"),
 ("P24", "bfebed5", "pictures_summary failed when a problem has no acceptable results"),
 ("P10", "ab41c95", "the random-search baseline's archive dropped the member that dominates a new candidate"),
 ("P25", "cdfb1b4", "SPEA2's truncation compared only the nearest distances and dropped an arbitrary member when they tie"),
 ("P25", "190b18b", "OMOPSO pruned the least crowded leaders (the extreme ones first) and preferred the most crowded ones"),
 ("P25", "cd84fd0", "NSLS filled the layer that does not fit with passing extremes and could drop the real ones"),
 ("P25", "2c48db3", "an NSLS step in which no local move is accepted never ended"),
 ("P26", "9dae112", "an AttributeError inside an initialiser passed for a missing initialiser, and the case ran with half a configuration"),
 ("P27", "e593c36", "IBEA's mating tournament preferred the less fit of two members in nine cases of ten"),
 ("P19", "eacb1c4", "the estimated time to finish counted the minutes and seconds of full hours twice (3 h 13 min told as 03:193:00)"),
 ("P20", "3e33307", "--renice accumulated over the cases of a batch: the third of three cases with --renice 4 worked at niceness 12"),
 ("P26", "5868f08", "the archipelago announced its budget to the islands only while it had none, so islands never knew it"),
]
OPEN = []
try:
    from found_open import OPEN
except ImportError:
    pass
fs = [{"property": p, "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in FIXED]
fs += OPEN
json.dump({"findings": fs}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
