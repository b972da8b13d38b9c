"""Run real batches through the command-line entry point, with the actor system (not needed by any sequential
worker, and a network daemon) replaced by a stand-in that only records that it was started and stopped."""
import sys

SYSTEMS = []


class FakeActorSystem:
    def __init__(self, *a, **kw):
        self.a, self.kw = a, kw
        self.stopped = 0
        SYSTEMS.append(self)

    def shutdown(self):
        self.stopped += 1

    def createActor(self, *a, **kw):
        raise RuntimeError("no actors in this batch")

    def tell(self, *a):
        pass

    def ask(self, *a):
        return None


def install():
    """before the batch module is imported: it takes ActorSystem from thespian by name"""
    import thespian.actors
    thespian.actors.ActorSystem = FakeActorSystem
    import simulation.run_parallel as rp
    if hasattr(rp, "ActorSystem"):
        rp.ActorSystem = FakeActorSystem
    from simulation import log_helper
    log_helper.init = lambda *a, **kw: None        # keep logging off: it is not observed and is slow
    return rp


def command(words):
    """what `evogil.py <words>` does"""
    import evogil
    old = sys.argv
    sys.argv = ["evogil.py"] + list(words)
    try:
        evogil.main_worker()
    finally:
        sys.argv = old
