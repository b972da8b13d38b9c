"""An in-process actor system under a seeded scheduler.

Stands in for thespian's ActorSystem (the real Actor classes of the code under test run on it): every message is
copied by pickling, as between real actor processes, and queued per (sender, receiver); which queue delivers next is
the scheduler's choice, so any order a real network could produce (first in, first out per sender and receiver) can occur.
"""
import io, pickle, collections
import thespian.actors as ta


class Hang(Exception):
    """a request is waiting and no message is under way"""


class Broken(Exception):
    """an actor failed while it handled a message"""


class Shared:
    """objects of the harness that messages may refer to but must not copy"""
    table = {}


class P(pickle.Pickler):
    def persistent_id(self, o):
        if getattr(o, "v_shared", None) is not None:
            Shared.table[o.v_shared] = o
            return o.v_shared
        return None


class U(pickle.Unpickler):
    def persistent_load(self, k):
        return Shared.table[k]


def transfer(m):
    b = io.BytesIO()
    P(b, 4).dump(m)
    return U(io.BytesIO(b.getvalue())).load()


class Ref:
    globalName = None

    def __init__(self, system, name, parent):
        self.system, self.name, self.parent = system, name, parent

    @property
    def address(self):
        return ta.ActorAddress(self.name)

    def createActor(self, cls, *a, **kw):
        return self.system.create(cls, self.name)

    def actor_send(self, to, msg):
        self.system.send(self.name, to.actorAddressString, msg)

    def wakeupAfter(self, period, payload=None):
        self.system.send(self.name, self.name, ta.WakeupMessage(period, payload))

    def handleDeadLetters(self, *a):
        pass

    def updateCapability(self, *a):
        pass


OUT = "outside"


class FakeSystem:
    def __init__(self, rng, policy="random", limit=200000):
        self.rng, self.policy, self.limit = rng, policy, limit
        self.actors = collections.OrderedDict()     # name -> (instance, parent); None instance: gone
        self.queues = collections.OrderedDict()     # (from, to) -> deque
        self.inbox = collections.deque()
        self.count = 0
        self.delivered = 0
        self.trace = []
        self.current = None
        self.asks = 0
        self.answers = 0
        self.max_pending = 0
        self.victim = None
        self.dropped = 0
        self.last = None

    # ---- what actors use
    def create(self, cls, parent):
        if isinstance(cls, str):
            import importlib
            mod, name = cls.rsplit(".", 1)
            cls = getattr(importlib.import_module(mod), name)
        self.count += 1
        name = "a%d" % self.count
        prev, self.current = self.current, name
        try:
            inst = cls()
        finally:
            self.current = prev
        inst._myRef = Ref(self, name, parent)
        self.actors[name] = [inst, parent]
        return ta.ActorAddress(name)

    def send(self, frm, to, msg):
        q = self.queues.setdefault((frm, to), collections.deque())
        q.append(transfer(msg))

    # ---- what the outside uses
    def createActor(self, cls, *a, **kw):
        return self.create(cls, OUT)

    def tell(self, to, msg):
        self.send(OUT, to.actorAddressString, msg)

    def ask(self, to, msg, timeout=None):
        self.asks += 1
        self.send(OUT, to.actorAddressString, msg)
        while not self.inbox:
            if not self.deliver():
                raise Hang("a request is waiting for ever: no message is under way after %d deliveries" % self.delivered)
        return self.inbox.popleft()

    def listen(self, timeout=None):
        while not self.inbox:
            if not self.deliver():
                return None
        return self.inbox.popleft()

    def shutdown(self):
        pass

    # ---- scheduling
    def pick(self):
        ready = [k for k, q in self.queues.items() if q]
        if not ready:
            return None
        self.max_pending = max(self.max_pending, len(ready))
        p = self.policy
        if p == "mixed":
            if self.delivered % 40 == 0:
                self.phase = self.rng.choice(["random", "newest", "oldest", "starve", "stay"])
            p = self.phase
        if p == "newest":
            return ready[-1]
        if p == "oldest":
            return ready[0]
        if p == "stay" and self.last is not None:       # one actor's messages for as long as there are any
            same = [k for k in ready if k[1] == self.last]
            if same:
                return self.rng.choice(same)
        if p == "starve":           # one actor's traffic waits as long as anything else can go
            if self.victim is None or self.rng.random() < 0.02:
                self.victim = (self.rng.choice(list(self.actors)), self.rng.choice(["in", "out", "both"]))
            n, way = self.victim
            rest = [k for k in ready if not ((k[1] == n and way != "out") or (k[0] == n and way != "in"))]
            if rest:
                return self.rng.choice(rest)
        return self.rng.choice(ready)

    def deliver(self):
        k = self.pick()
        if k is None:
            return False
        frm, to = k
        msg = self.queues[k].popleft()
        if not self.queues[k]:
            del self.queues[k]
        self.delivered += 1
        if self.delivered > self.limit:
            raise Hang("more than %d messages" % self.limit)
        self.trace.append((frm, to))
        self.last = to
        if to == OUT:
            self.answers += 1
            self.inbox.append(msg)
            return True
        rec = self.actors.get(to)
        if rec is None or rec[0] is None:
            self.dropped += 1
            return True
        self.current = to
        try:
            if isinstance(msg, ta.ActorExitRequest):
                try:
                    rec[0].receiveMessage(msg, ta.ActorAddress(frm))
                except Exception:
                    pass            # the system ends the actor whatever it makes of the message
                rec[0] = None
                for n, (inst, parent) in list(self.actors.items()):
                    if parent == to and inst is not None:
                        self.send(to, n, ta.ActorExitRequest())
            else:
                rec[0].receiveMessage(msg, ta.ActorAddress(frm))
        finally:
            self.current = None
        return True

    def drain(self):
        while self.deliver():
            pass

    def alive(self):
        return [n for n, (i, _) in self.actors.items() if i is not None]


_now = [None]


def install():
    """make `thespian.actors.ActorSystem` the current fake; must come before the code under test is imported"""
    import sys
    def ActorSystem(*a, **kw):
        return _now[0]
    ta.ActorSystem = ActorSystem
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith(("algorithms", "simulation")) and hasattr(m, "ActorSystem"):
            m.ActorSystem = ActorSystem


def use(system):
    _now[0] = system
    return system
