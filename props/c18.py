"""C18: threads with Record objects of their own do not disturb one another.

A case is a program of calls for each of two or three threads and a seed for
the schedule.  The threads run one at a time; at the lines (or bytecodes) of
the code under test that the schedule picks, the baton goes to another thread,
so an interleaving is a function of the case and can be replayed.  Every call
must give what it gives when the programs run one after the other.
"""
import random
import sys
import threading
import time

_allocate = threading.Lock


class Yielding:
  """a lock of the code under test: a thread that would wait for it hands the
  baton on instead of stopping the others with it"""

  def __init__(self, make):
    self.lock = make()

  def acquire(self, blocking=True, timeout=-1):
    b = Baton.current
    if not blocking or timeout >= 0 or b is None or not b.mine():
      return self.lock.acquire(blocking, timeout)
    while not self.lock.acquire(False):
      if not b.hand_over():
        return self.lock.acquire()
    return True

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *exc):
    self.lock.release()

  def __getattr__(self, name):
    return getattr(self.lock, name)


def _wrapped(make):
  return lambda *a, **k: Yielding(make)


threading.Lock, threading.RLock = _wrapped(threading.Lock), _wrapped(threading.RLock)
import common  # noqa: E402  (after the locks are replaced)
import gen  # noqa: E402
import harness  # noqa: E402
import model  # noqa: E402
import sut  # noqa: E402

ID = 'C18'
RULE = ('a case is a schedule of two or three threads; non-trivial when the baton changed hands at least four times '
        'inside library calls and two threads processed different lines; distinct by programs and schedule')
ASSUMPTIONS = ['threads switch between lines or bytecodes of the library; switches inside C code and the standard library are not explored',
               'each thread uses Record objects of its own; what is printed is not judged']

OPS = ('read', 'read', 'json', 'jsonl', 'decode', 'decode', 'primary', 'hasCont', 'parse')
ROOT = sut.os.path.abspath(sut.REPO) + sut.os.sep


def tasks(ctx):
  out = [('lines', ctx.seed, i, ctx.n(40, 700)) for i in range(16)]
  out += [('opcodes', ctx.seed, i, ctx.n(12, 200)) for i in range(16)]
  out += [('pairs', ctx.seed, i, ctx.n(1, 12)) for i in range(16)]
  return out


def _o(fn):
  try:
    return ('value', fn())
  except Exception as e:
    return ('raises', type(e).__name__)


def perform(prog, lines, step=lambda: None):
  """results of one program"""
  r = sut.Record()
  out = []
  for op, i in prog:
    step()
    if op == 'read':
      got = _o(lambda: r.read(lines[i]))
    elif op == 'parse':
      got = _o(lambda: sut.arinc424.parse(lines[i], False))
    elif op == 'json':
      got = _o(lambda: r.json(False))
    elif op == 'jsonl':
      got = _o(lambda: r.json(False, False))
    elif op == 'decode':
      got = _o(lambda: r.decode(False))
    else:
      got = _o(getattr(r, op))
    out.append(got)
  return out


class Baton:
  """runs functions in threads of which one at a time goes on"""
  current = None

  def __init__(self, seed, rate, opcodes):
    self.r = random.Random(repr(seed))
    self.rate, self.opcodes = rate, opcodes
    self.locks, self.live = {}, []
    self.free = False              # given up: all threads run as they like
    self.steps = self.switches = 0
    self.local = threading.local()

  def trace(self, frame, event, arg):
    if not frame.f_code.co_filename.startswith(ROOT):
      return None
    if self.opcodes:
      frame.f_trace_opcodes = True
    return self.inside

  def inside(self, frame, event, arg):
    if event == 'opcode' or event == 'line' and not self.opcodes:
      self.point()
    return self.inside

  def point(self):
    self.steps += 1
    if self.free or len(self.live) < 2 or self.r.random() >= self.rate:
      return
    self.hand_over()

  def mine(self):
    return not self.free and hasattr(self.local, 'me')

  def hand_over(self):
    """let another thread go on; False if there is none"""
    me = self.local.me
    others = [x for x in self.live if x != me]
    if self.free or not others:
      return False
    other = self.r.choice(others)
    self.switches += 1
    self.locks[other].release()
    self.wait(me)
    return True

  def wait(self, me):
    while not self.locks[me].acquire(timeout=.2):
      if self.free:
        return

  def run(self, jobs):
    results = [None] * len(jobs)

    def body(me):
      self.local.me = me
      self.wait(me)
      sys.settrace(self.trace)
      try:
        results[me] = jobs[me]()
      finally:
        sys.settrace(None)
        del self.local.me
        self.live.remove(me)
        if self.live:
          self.locks[self.live[self.r.randrange(len(self.live))]].release()

    threads = []
    for me in range(len(jobs)):
      lock = _allocate()
      lock.acquire()
      self.locks[me] = lock
      self.live.append(me)
      threads.append(threading.Thread(target=body, args=(me,), daemon=True))
    for t in threads:
      t.start()
    self.locks[0].release()
    last, since = -1, time.time()
    while any(t.is_alive() for t in threads):
      for t in threads:
        t.join(.05)
      if self.steps != last:
        last, since = self.steps, time.time()
      elif time.time() - since > 2:     # a thread waits for a paused one
        self.free = True
      if time.time() - since > 60:
        return None
    return results


def trial(case):
  progs, lines = case['progs'], case['lines']
  with sut.contextlib.redirect_stdout(sut.io.StringIO()):
    want = [perform(p, lines) for p in progs]
    b = Baton.current = Baton(case['schedule'], case['rate'], case['opcodes'])
    jobs = [lambda p=p: perform(p, lines) for p in progs]
    got = b.run(jobs)
  return want, got, b.switches, b.free


def check(case):
  kind, res = harness.in_child(lambda: trial(case))
  if kind == 'hang':
    return ('hang', 'calls of %d threads do not return' % len(case['progs']))
  if kind != 'ok':
    return None
  want, got, check.switches, gave_up = res
  check.gave_up += gave_up
  if got is None:
    return ('hang', 'the calls of %d threads wait for each other for ever' % len(case['progs']))
  for t, (w, g) in enumerate(zip(want, got)):
    if g is None:
      return ('thread ended', 'thread %d ended early' % t)
    for k, (a, b) in enumerate(zip(w, g)):
      if a != b:
        op, i = case['progs'][t][k]
        return ('%s differs' % op, 'call %d of thread %d, %s (record %r), gives another result beside %d other thread(s) than alone: %s' % (
            k + 1, t, op, case['lines'][i], len(got) - 1, common.differ(dict(result=str(a[1])), dict(result=str(b[1])))))
  return None


check.switches = check.gave_up = 0


def shrink(case):
  progs = case['progs']
  if len(progs) > 2:
    for i in range(len(progs)):
      yield dict(case, progs=progs[:i] + progs[i + 1:])
  for i, p in enumerate(progs):
    for part in common.shrink_list(p):
      if part:
        yield dict(case, progs=progs[:i] + [part] + progs[i + 1:])


def program(r, n, lines, mine):
  prog = []
  for _ in range(n):
    prog.append([r.choice(OPS) if prog else 'read', r.choice(mine)])
  return prog


def go(rep, case, label):
  if check.gave_up >= 3:      # threads wait for each other in a way not foreseen here
    rep.classes['not scheduled'] += 1
    return
  check.switches = 0
  held = rep.m.check(case)
  key = None
  if check.switches >= 4 and len(set(case['lines'])) > 1:
    key = repr(case)
  rep.classes['switches'] += check.switches
  rep.note(key, (label,), dict(lines=case['lines'][:2], progs=[p[:4] for p in case['progs']], schedule=case['schedule'], switches=check.switches))
  if held is not None:
    rep.violation(case, *held)


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'pairs':
    # every variant against a relative that shares its definition or decoders
    for v in model.VARIANTS[part::16]:
      kin = [x for x in model.VARIANTS if x.kind.code[1] == v.kind.code[1] or x.kind.code[0] == v.kind.code[0]]
      for _ in range(n):
        lines = [gen.record(r, v), gen.record(r, v), gen.record(r, r.choice(kin))]
        full = lambda i: [['read', i], ['json', i], ['decode', i], ['primary', i], ['hasCont', i]]
        for others in (1, 2):
          go(rep, dict(lines=lines, progs=[full(0), full(others)], schedule=r.random(), rate=r.choice((.1, .3, .6)), opcodes=False), 'pairs')
    return
  for k in range(n):
    lines = []
    v = r.choice(model.VARIANTS)
    for _ in range(4):
      if r.random() < .4:
        v = r.choice(model.VARIANTS)
      lines.append(gen.record(r, v, legal_only=r.random() < .9))
    if r.random() < .3:
      lines.append(gen.junk(r))
    threads = r.choice((2, 2, 3))
    progs = [program(r, r.randint(2, 6) if what == 'opcodes' else r.randint(3, 12), lines,
                     r.sample(range(len(lines)), r.randint(1, 3))) for _ in range(threads)]
    rate = r.choice((.01, .05, .2)) if what == 'opcodes' else r.choice((.02, .1, .3, .6))
    go(rep, dict(lines=lines, progs=progs, schedule=r.random(), rate=rate, opcodes=what == 'opcodes'), what)
