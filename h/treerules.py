"""What a hierarchic search may do next, told from what its nodes did: who stops, who is revived, who may and must sprout.
Three-valued: True / False / None where rounding or an order that cannot be seen leaves the outcome open."""
import collections, math


def mean(pop):
    n = float(len(pop))
    return [sum(c) / n for c in zip(*pop)]


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def decide(obs, alive, ran, info, floor, gap, r, exact=False):
    """after the nodes `ran` advanced (info[n]: lv, vols, center, ripe, delegates, held, result, tried): what holds of every known node"""
    # who stops
    after = {}
    for n in alive:
        if n not in ran:
            after[n] = False
            continue
        v, lv = info[n]["vols"], info[n]["lv"]
        slow = False
        if len(v) >= 3:
            old, new = v[-2] - v[0], v[-1] - v[0]
            lim = floor[lv] / 2 ** lv
            scale = 1e-6 * (1 + abs(v[0]))
            if abs(old) <= scale:
                slow = None if abs(old) > 0 else (False if old <= 0 else None)
                if old == 0:
                    slow = False if exact else None
            elif old > 0:
                q = new / old - 1.0
                slow = None if abs(q - lim) <= 1e-5 * (1 + abs(lim)) or abs(new - old * (1 + lim)) <= scale else q < lim
        after[n] = (not slow) if slow is not None else None
        info[n]["slow"] = slow
    for n in ran:
        if info[n]["slow"] is True:
            obs.event("stops")
    # redundancy: a node too close to one that stopped for good, or to an active one, is stopped
    lone = {}
    for n in ran:
        if after[n] is not True:
            info[n]["ripe"] = True if after[n] is False else None
    for n in ran:
        if after[n] is False:
            continue
        near_sure = near_maybe = False
        for q in info:
            if q == n or info[q]["lv"] != info[n]["lv"] or "center" not in info[q]:
                continue
            dd = dist(info[q]["center"], info[n]["center"])
            if dd >= gap[info[n]["lv"]] * (1 + 1e-9):
                continue
            near_maybe = True
            if after[q] is False and info[q]["ripe"] is True and dd < gap[info[n]["lv"]] * (1 - 1e-9):
                near_sure = True
        lone[n] = (near_sure, near_maybe)
    for n, (sure, maybe) in lone.items():
        if sure and after[n]:
            after[n] = False
            obs.event("redundant")
            info[n]["ripe"] = False
        elif maybe and after[n]:
            after[n] = None
            info[n]["ripe"] = False
    vals = list(after.values())
    none_left = True if all(v is False for v in vals) else (None if not any(v is True for v in vals) else False)
    todo = {"r": r, "ripe": {n: (info[n]["ripe"] if after[n] is False else (None if after[n] is None and info[n]["ripe"] is None else False)) for n in after}, "alive": dict(after),
            "centers": {n: info[n]["center"] for n in info if "center" in info[n]}, "delegates": {n: list(info[n]["delegates"]) for n in alive},
            "none_left": none_left, "unsure": [n for n in after if after[n] is None], "reach": {n: info[n]["held"] | set(info[n].get("result", ())) | info[n]["tried"] for n in after}}
    pairs = [(a, b) for a in ran for b in ran if a < b and info[a]["lv"] == info[b]["lv"] and info[a]["slow"] is False and info[b]["slow"] is False]
    todo["pairs"] = [(a, b) for a, b in pairs if dist(info[a]["center"], info[b]["center"]) < gap[info[a]["lv"]] * (1 - 1e-9)]
    return after, todo


def judge_sprouts(obs, name, todo, late, info, gap, spr, maxspr, maxlev, among_new=True, idle_line=False):
    """among_new: children born in one round also keep their distance; idle_line: a node sprouts only while all its ancestors have stopped too"""
    kids = collections.defaultdict(list)
    for n in late:
        lv = info[n]["lv"]
        head = info[n]["start"][0]
        src = [p for p in todo["reach"] if info[p]["lv"] == lv - 1 and head in todo["reach"][p]]
        obs.require(src, "sprout-origin", "%s: a level %d node does not start from an individual of a level %d node" % (name, lv, lv - 1))
        idle = [p for p in src if todo["ripe"].get(p) is not False]
        obs.require(idle or not src, "sprouted-while-active", "%s: a level %d node was sprouted by a node that had not stopped for lack of progress" % (name, lv))
        for q, c in todo["centers"].items():
            if info[q]["lv"] == lv:
                dd = dist(c, head)
                obs.require(dd >= gap[lv] * (1 - 1e-9), "sprout-redundant", "%s: a level %d node starts %.6g from where another one searches, minimum %.6g" % (name, lv, dd, gap[lv]))
        named = [p for p in idle if head in todo["delegates"][p]]
        if len(named or idle) == 1:
            idle = named or idle
            kids[idle[0]].append(n)
            info[n]["parent"] = idle[0]
    by = collections.defaultdict(list)
    for n in late:
        by[info[n]["lv"]].append(n)
    for lv, ns in by.items():
        for i, a in enumerate(ns if among_new else ()):
            for b in ns[:i]:
                ma, mb = mean(info[a]["start"]), mean(info[b]["start"])
                ok = dist(info[a]["start"][0], mb) >= gap[lv] * (1 - 1e-9) or dist(info[b]["start"][0], ma) >= gap[lv] * (1 - 1e-9)
                obs.require(ok, "sprout-redundant", "%s: two level %d nodes were started at the same place in one round" % (name, lv))
        parents = sum(1 for p in todo["ripe"] if info[p]["lv"] == lv - 1 and todo["ripe"][p] is not False)
        if lv > 1 and parents > 1:
            obs.event("sibling_rounds")
        obs.require(len(ns) <= spr * parents, "sproutiveness", "%s: %d new level %d nodes from %d stopped parents, %d each allowed" % (name, len(ns), lv, parents, spr))
    for p, ks in kids.items():
        obs.require(len(ks) <= spr, "sproutiveness", "%s: a node sprouted %d children in one round, at most %d allowed" % (name, len(ks), spr))
        living = sum(1 for n in todo["alive"] if info[n].get("parent") == p and todo["alive"][n] is True) + len(ks)
        obs.require(living <= maxspr, "too-many-sprouts", "%s: a node that just sprouted has %d living children, at most %d allowed" % (name, living, maxspr))
    # a stopped node with room for children uses it
    if not all("start" in info[n] for n in late):
        return
    for p, ripe in todo["ripe"].items():
        lv = info[p]["lv"]
        if ripe is not True or lv >= maxlev or len(kids.get(p, [])) >= spr or not todo["delegates"][p]:
            continue
        living = sum(1 for n in todo["alive"] if (info[n].get("parent", p) == p and info[n]["lv"] == lv + 1) and todo["alive"][n] is not False) + sum(1 for n in late if info[n].get("parent", p) == p and info[n]["lv"] == lv + 1)
        if living >= maxspr:
            continue
        line, up = True, p
        while idle_line and line and info[up]["lv"]:
            up = info[up].get("parent")
            line = up is not None and todo["ripe"].get(up) is True
        if not line:
            continue
        places = [c for q, c in todo["centers"].items() if info[q]["lv"] == lv + 1] + [mean(info[n]["start"]) for n in late if among_new and info[n]["lv"] == lv + 1]
        used = {info[n]["start"][0] for n in late}
        free = [x for x in todo["delegates"][p] if x not in used and all(dist(x, c) > gap[lv + 1] * (1 + 1e-9) for c in places)]
        obs.event("sprout_chances")
        obs.require(not free, "sprout-missed", "%s: a stopped level %d node with %d living children (of %d) sprouted %d (of %d) although %d of its delegates are far from every level %d node" % (
            name, lv, living, maxspr, len(kids.get(p, [])), spr, len(free), lv + 1))


class V:
    def __init__(self, v):
        self.v = v


def walker(rng, prob, many=None):
    """a driver whose population drifts: cheap, so that large trees and many rounds can be watched"""
    from algorithms.base.driver import Driver
    from algorithms.base.model import PopulationMessageAdapter

    class Adapter(PopulationMessageAdapter):
        def get_population(self):
            return [x.v for x in self.driver.individuals]

        def nominate_delegates(self):
            return [x.v for x in self.driver.front[1]]

    class Walker(Driver):
        def __init__(self, population, dims, fitnesses, message_adapter_factory=None, **kw):
            super().__init__(Adapter)
            self.individuals = [V(list(x)) for x in population]
            self.dims = dims
            self.front = {1: list(self.individuals)}
            self.pull = 0.1 if many else rng.choice([0.0, 0.05, 0.3, 0.6])
            self.goal = [a + 0.5 * (b - a) if many else rng.uniform(a, b) for a, b in dims]
            self.price = rng.choice([1, 3, 7])

        @property
        def population(self):
            return [x.v for x in self.individuals]

        def finalized_population(self):
            return [list(x.v) for x in self.individuals]

        def step(self):
            self.individuals = [V([min(b, max(a, v + self.pull * (g - v) + rng.gauss(0, 0.01 * (b - a)))) for v, g, (a, b) in zip(x.v, self.goal, self.dims)])
                                for x in self.individuals]
            self.front = {1: rng.sample(self.individuals, max(1, len(self.individuals) // 2))}
            self.cost += self.price

    return Walker
