"""Seeded cooperative scheduler: real threads, exactly one runs at a time, switches only at gates."""
import threading

from dst.core import HarnessError


class Killed(BaseException):
  """Raised in a client thread when the world is torn down."""


class Client:
  def __init__(self, idx, fn):
    self.idx = idx
    self.fn = fn
    self.sem = threading.Semaphore(0)
    self.done = False
    self.result = None
    self.error = None
    self.gates = 0


class Scheduler:
  """Runs clients under a seeded scheduler. decide(client, alive) is the only source of interleaving."""

  def __init__(self, rng, sim, stick=0.0, timeout=100):
    self.rng = rng
    self.sim = sim
    self.stick = stick
    self.timeout = timeout
    self.clients = []
    self.main = threading.Semaphore(0)
    self.current = None
    self.switches = 0
    self.dead = False

  def spawn(self, fn):
    self.clients.append(Client(len(self.clients), fn))

  def gate(self, what="eval"):
    """Called from client code: parks the client until the scheduler picks it again."""
    c = self.current
    if c is None or self.dead:
      return 0
    c.gates += 1
    n = c.gates
    self.main.release()
    c.sem.acquire()
    if self.dead:
      raise Killed()
    return n

  def _body(self, c):
    c.sem.acquire()
    try:
      if not self.dead:
        c.result = c.fn(c)
    except Killed:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      c.error = e
    c.done = True
    self.main.release()

  def run(self):
    ts = [threading.Thread(target=self._body, args=(c,), daemon=True) for c in self.clients]
    for t in ts:
      t.start()
    last = None
    trace = []
    while True:
      alive = [c for c in self.clients if not c.done]
      if not alive:
        break
      if last is not None and not last.done and self.rng.chance(self.stick):
        c = last
      else:
        c = alive[self.rng.randrange(len(alive))]
      if c is not last:
        self.switches += 1
      last = c
      trace.append(c.idx)
      self.current = c
      c.sem.release()
      if not self.main.acquire(timeout=self.timeout):
        self.dead = True
        for k in self.clients:
          k.sem.release()
        raise HarnessError("a client neither parked nor finished")
    self.current = None
    for t in ts:
      t.join()
    self.sim.log("schedule", "".join(map(str, trace)))
    return trace
