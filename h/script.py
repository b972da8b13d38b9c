"""A scripted algorithm: a real Driver whose steps do exactly what a case says.  It is looked up by the real
factory under the name SCRIPT (module registered in sys.modules), so the whole worker path is the real one."""
import os, sys, types
import world

PLAN = {}          # consulted by every new instance
MADE = []          # instances in creation order


class Boom(Exception):
    harness = False


def register():
    import algorithms  # noqa
    from algorithms.base.driver import Driver

    class SCRIPT(Driver):
        def __init__(self, population, fitnesses, dims, *args, **kw):
            kw = {k: v for k, v in kw.items() if k == "message_adapter_factory"}
            super().__init__(**kw)
            self.start_population = [list(x) for x in population]
            self.fitnesses, self.dims = fitnesses, dims
            self.plan = PLAN
            self.done = 0
            self.shutdowns = 0
            self.finals = []
            self.trace = []        # (steps done, cost) after each step
            self.cost = PLAN.get("cost0", 0)
            MADE.append(self)
            if PLAN.get("fail_init"):
                raise PLAN["fail_init"]

        def step(self):
            k = self.done
            if PLAN.get("fail_step") == k:
                raise PLAN["fail_with"]
            inc = PLAN["inc"][k % len(PLAN["inc"])]
            clock = PLAN.get("clock")
            if clock is not None:
                clock.advance(PLAN["dur"][k % len(PLAN["dur"])])
            self.done += 1
            self.cost += inc
            self.trace.append((self.done, self.cost))

        def state_population(self, k=None):
            """a population unique to the state after k steps"""
            k = self.done if k is None else k
            n = 3 + k % 4
            return [[lo + (hi - lo) * (((k * 7 + i * 3 + j) % 97) / 97.0) for j, (lo, hi) in enumerate(self.dims)] for i in range(n)]

        @property
        def population(self):
            return self.state_population()

        def finalized_population(self):
            if PLAN.get("fail_final") == len(self.finals):
                raise PLAN["fail_with"]
            self.finals.append((self.done, self.cost))
            if PLAN.get("clock") is not None:
                PLAN["clock"].advance(PLAN.get("final_dur", 0))
            return self.state_population()

        def shutdown(self):
            self.shutdowns += 1

    pk = types.ModuleType("algorithms.SCRIPT")
    md = types.ModuleType("algorithms.SCRIPT.SCRIPT")
    md.SCRIPT = SCRIPT
    pk.SCRIPT = md
    sys.modules["algorithms.SCRIPT"] = pk
    sys.modules["algorithms.SCRIPT.SCRIPT"] = md
    return SCRIPT


def plan(**kw):
    PLAN.clear()
    PLAN.update(kw)
    del MADE[:]


def instance(problem, **over):
    """through the real factory"""
    problem.register()
    from simulation import factory
    part, mod = factory.prepare("SCRIPT", problem.name)
    return part(**over)


class Clock:
    """virtual time: every clock of the time module reads it"""

    def __init__(self, start=1000.0):
        self.now = start

    def advance(self, dt):
        self.now += dt

    def install(self):
        import time
        self.saved = {}
        for nm in ("time", "perf_counter", "monotonic", "process_time"):
            self.saved[nm] = getattr(time, nm)
            setattr(time, nm, lambda: self.now)
        for nm in ("time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns"):
            if hasattr(time, nm):
                self.saved[nm] = getattr(time, nm)
                setattr(time, nm, lambda: int(self.now * 1e9))

    def remove(self):
        import time
        for nm, f in self.saved.items():
            setattr(time, nm, f)


def stored_files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            out[os.path.relpath(os.path.join(d, f), root)] = os.path.join(d, f)
    return out
