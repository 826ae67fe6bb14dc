"""Runs one property: generate, judge, shrink, write evidence and replays.

A property module has
  ID, RULE (what makes a case non-trivial), ASSUMPTIONS
  tasks(ctx)        list of small picklable tasks, each run in a fresh child
  run(task, rep)    generates cases and hands them to rep.case(...)
  check(case)       the oracle: None, or (signature, message)
  shrink(case)      optional: simpler candidates of a failing case
A run is a function of the code and VERIF_SEED; work is bounded by case
counts, never by time; a case (most take milliseconds) that has not come to an
end after HANG seconds counts as a call that does not return, and a task whose
process is gone as a call that ended it: both are violations.
Exit 0: held; 1: VIOLATION; 2: harness error.
"""
import collections
import contextlib
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
TASK_LIMIT = 300                # quick tier; a task takes seconds
HANG = 90
MEMORY = 3500 << 20            # per process: a runaway call must not take the sandbox with it


class Ctx:
  def __init__(self, tier, seed):
    self.tier, self.seed = tier, seed
    self.thorough = tier == 'thorough'

  def n(self, quick, thorough):
    return thorough if self.thorough else quick


class Stop(Exception):
  pass


class Hang(BaseException):
  pass


@contextlib.contextmanager
def watchdog(limit=None):
  """raises Hang in the main thread after the limit; the code under test may
  swallow that, so what is yielded tells whether it was raised"""
  hung = []

  def ring(*_):
    hung.append(1)
    raise Hang()

  old = signal.signal(signal.SIGALRM, ring)
  signal.alarm(limit or HANG)
  try:
    yield hung
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)


def guarded(module, case):
  """check(case), or a violation if it does not come to an end"""
  if getattr(module, 'OWN_WATCHDOG', False):
    return module.check(case)
  with watchdog() as hung:
    try:
      bad = module.check(case)
    except Hang:
      bad = None
  return ('hang', 'a call did not return within %d s' % HANG) if hung else bad


class Report:
  """what one task produced"""

  def __init__(self, module, known=()):
    self.m = module
    self.known = known
    self.evals = 0
    self.keys = set()
    self.classes = collections.Counter()
    self.samples = []
    self.violations = []
    self.found = {}
    self.sigs = collections.Counter()

  def note(self, key=None, labels=(), sample=None):
    """count one evaluated case; key identifies a non-trivial one"""
    self.evals += 1
    for x in labels:
      self.classes[x] += 1
    if key is not None:
      h = hashlib.blake2b(repr(key).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
      if h not in self.keys:
        self.keys.add(h)
        if sample is not None and (len(self.samples) < 2):
          self.samples.append(sample)

  def case(self, case, key=None, labels=(), sample=None):
    """judge a case; returns True if it held"""
    self.note(key, labels, sample if sample is not None else case)
    bad = guarded(self.m, case)
    if bad is None:
      return True
    self.violation(case, *bad)
    return False

  def violation(self, case, sig, msg):
    if sig in self.known:
      self.found[sig] = msg
      return
    self.sigs[sig] += 1
    if self.sigs[sig] == 1:
      self.violations.append((sig, msg, case))
    if sig == 'hang' or len(self.violations) >= 3 or sum(self.sigs.values()) >= 20:
      raise Stop

  def pack(self):
    return dict(evals=self.evals, keys=self.keys, classes=self.classes, samples=self.samples,
                violations=self.violations, found=self.found)


def load_known(prop):
  """signatures of listed findings of a property"""
  out = {}
  path = os.path.join(ROOT, 'known_findings.txt')
  for line in open(path):
    if line.startswith('KNOWN-FINDING:'):
      # KNOWN-FINDING: property=C05 sig=<signature> <what fails>
      p, s, what = line.split(' ', 3)[1:]
      if p == 'property=' + prop:
        out[s[4:].replace('_', ' ')] = what.strip()
  return out


def _child(module, task, known, w):
  rep = Report(module, known)
  try:
    try:
      module.run(task, rep)
    except Stop:
      pass
    data = ('ok', rep.pack())
  except BaseException:
    data = ('error', traceback.format_exc())
  with os.fdopen(w, 'wb') as f:
    pickle.dump(data, f)
  sys.stdout.flush()
  os._exit(0)


def run_tasks(module, tasks, known, limit=None):
  """each task in its own forked child, WORKERS at a time; yields results in
  task order: ('ok', pack) | ('error', text) | ('died', status) | ('hang', None)"""
  results = [None] * len(tasks)
  running = {}
  nxt = 0
  while nxt < len(tasks) or running:
    while nxt < len(tasks) and len(running) < WORKERS:
      sys.stdout.flush()
      sys.stderr.flush()
      r, w = os.pipe()
      pid = os.fork()
      if pid == 0:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.RLIM_INFINITY))
        os.close(r)
        for fd in running:
          try:
            os.close(fd)
          except OSError:
            pass
        _child(module, tasks[nxt], known, w)
      try:
        os.setpgid(pid, pid)      # also here: whichever process comes first
      except OSError:
        pass
      os.close(w)
      running[r] = (pid, nxt, bytearray(), time.time())
      nxt += 1
    ready, _, _ = select.select(list(running), [], [], 5)
    for fd in ready:
      chunk = os.read(fd, 1 << 20)
      pid, i, buf, t0 = running[fd]
      if chunk:
        buf += chunk
        continue
      os.close(fd)
      _, status = os.waitpid(pid, 0)
      del running[fd]
      try:
        results[i] = pickle.loads(bytes(buf))
      except Exception:
        results[i] = ('died', status)
    for fd in list(running):
      pid, i, buf, t0 = running[fd]
      if limit and time.time() - t0 > limit:
        results[i] = ('hang', None)
    if any(x and (x[0] == 'hang' or x[0] == 'ok' and any(v[0] == 'hang' for v in x[1]['violations'])) for x in results):
      for fd, (pid, i, buf, t0) in running.items():
        os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(fd)
      return [x or ('skipped', None) for x in results]
  return results


def shrink(module, case, sig, budget=3000):
  """greedy: take any simpler candidate that still fails the same way"""
  fn = getattr(module, 'shrink', None)
  if fn is None:
    return case
  spent = 0
  improved = True
  t0 = time.time()
  while improved and spent < budget and time.time() - t0 < 60:
    improved = False
    for cand in fn(case):
      spent += 1
      if spent >= budget or time.time() - t0 > 60:
        break
      try:
        with watchdog(20) as hung:
          bad = module.check(cand)
      except (Exception, Hang):
        continue
      if hung:
        continue
      if bad is not None and bad[0] == sig:
        case = cand
        improved = True
        break
  return case


def in_child(fn, limit=None):
  """result of fn() computed in a forked child (pristine module state):
  ('ok', value) | ('error', text) | ('died', None) | ('hang', None)"""
  r, w = os.pipe()
  sys.stdout.flush()
  pid = os.fork()
  if pid == 0:
    os.close(r)
    try:
      data = pickle.dumps(('ok', fn()))
    except BaseException:
      data = pickle.dumps(('error', traceback.format_exc()))
    with os.fdopen(w, 'wb') as f:
      f.write(data)
    os._exit(0)
  os.close(w)
  data = bytearray()
  end = time.time() + (limit or HANG - 10)
  hung = False
  try:
    while True:
      if not select.select([r], [], [], max(0, end - time.time()))[0]:
        hung = True
        break
      chunk = os.read(r, 1 << 20)
      if not chunk:
        break
      data += chunk
  except BaseException:
    hung = True
    raise
  finally:
    os.close(r)
    if hung:
      os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
  if hung:
    return ('hang', None)
  if not data:
    return ('died', None)
  return pickle.loads(bytes(data))


def write_replay(module, sig, msg, case, task):
  d = os.path.join(ROOT, 'replays')
  os.makedirs(d, exist_ok=True)
  small, repro = case, sig == 'hang'
  if not repro:
    kind, small = in_child(lambda: shrink(module, case, sig), 300)
    if kind != 'ok':
      small = case
    kind, bad = in_child(lambda: module.check(small))
    repro = kind == 'ok' and bad is not None
    if repro:
      msg = bad[1]
  body = dict(property=module.ID, signature=sig, message=msg, case=small,
              reproduces_alone=repro, task=None if repro else task)
  name = '%s-%s.json' % (module.ID, hashlib.sha1(repr((sig, small)).encode('utf-8', 'backslashreplace')).hexdigest()[:10])
  path = os.path.join(d, name)
  with open(path, 'w') as f:
    json.dump(body, f, indent=1)
    f.write('\n')
  return path, msg


def replay(module, path):
  """re-judge a saved case; exit 1 if it still fails"""
  body = json.load(open(path))
  if body.get('task') is not None:
    res = run_tasks(module, [_untuple(body['task'])], {})[0]
    bad = res[0] in ('died', 'hang') or res[0] == 'ok' and res[1]['violations']
    if res[0] == 'ok' and bad:
      print(res[1]['violations'][0][1])
  else:
    bad = guarded(module, body['case'])
    if bad:
      print(bad[1])
  if bad:
    print('VIOLATION property=%s replay=%s' % (module.ID, path))
    return 1
  print('property=%s holds on %s' % (module.ID, path))
  return 0


def _untuple(x):
  return tuple(_untuple(y) for y in x) if isinstance(x, list) else x


def main(module, tier, seed):
  t0 = time.time()
  ctx = Ctx(tier, seed)
  known = load_known(module.ID)
  tasks = module.tasks(ctx)
  results = run_tasks(module, tasks, set(known), None if ctx.thorough else TASK_LIMIT)
  evals, keys, classes, samples = 0, set(), collections.Counter(), []
  violations, found, errors = [], {}, []
  for task, (kind, data) in zip(tasks, results):
    if kind == 'ok':
      evals += data['evals']
      keys |= data['keys']
      classes.update(data['classes'])
      samples += data['samples']
      violations += [(s, m, c, task) for s, m, c in data['violations']]
      found.update(data['found'])
    elif kind == 'hang':
      violations.append(('task hang', 'a call did not return within %d s while running %r' % (TASK_LIMIT, task), dict(type='task', task=task), task))
    elif kind == 'skipped':
      pass
    elif kind == 'died' and data != signal.SIGKILL:     # a kill is what running out of memory looks like
      violations.append(('process ended', 'the process was ended (status %r) while running %r' % (data, task),
                         dict(type='task', task=task), task))
    else:
      errors.append('task %r: %s %s' % (task, kind, data))
  for sig, what in sorted(known.items()):
    if sig in found:
      print('KNOWN-FINDING: property=%s %s' % (module.ID, what))
  seen = set()
  reported = []
  for sig, msg, case, task in violations:
    if case.get('type') == 'task' and reported:
      continue
    if sig in seen or len(reported) >= 5:
      continue
    seen.add(sig)
    path, msg = write_replay(module, sig, msg, case, task)
    print('  %s' % msg.replace('\n', '\n  '))
    print('VIOLATION property=%s replay=%s' % (module.ID, path))
    reported.append(dict(signature=sig, message=msg[:2000], replay=path))
  step = max(1, len(samples) // 12)
  ev = dict(property=module.ID, tier=tier, seed=seed, level='exploration',
            coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=module.RULE,
                          samples=samples[::step][:12], classes=dict(classes.most_common(60)), tasks=len(tasks)),
            wall_s=round(time.time() - t0, 2), assumptions=list(module.ASSUMPTIONS), violations=len(reported))
  if reported:
    ev['reported'] = reported
  if found:
    ev['known_findings'] = sorted(found)
  os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
  with open(os.path.join(ROOT, 'evidence', module.ID + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
    f.write('\n')
  print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1fs' % (
      module.ID, tier, seed, evals, len(keys), len(reported), time.time() - t0))
  if reported:
    return 1
  if errors:
    print('\n'.join(errors[:5]), file=sys.stderr)
    return 2
  if evals == 0 or not keys:
    print('nothing was checked', file=sys.stderr)
    return 2
  return 0
