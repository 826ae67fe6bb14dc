"""C22: memory and work do not grow with what was processed before.

A case is a kind of call, a set of records and a number n.  In a fresh child
the calls are made n times (always with other records) to fill bounded caches,
then twice n times more while the memory of the interpreter is watched.  For
the work, the steps of the library (lines of its Python code run, seen by
sys.settrace) for one call are counted before and after the history, and for a
file of 25 and of 400 lines.  Work inside built-in functions shows in the
processor time of large files, lines and folders of size n and 8n.
"""
import gc
import os
import sys
import time
import tracemalloc

import common
import files
import gen
import harness
import model
import sut

ID = 'C22'
RULE = 'non-trivial: the calls were made for at least 500 different lines, or steps of the library were counted; distinct by the case'
ASSUMPTIONS = ['growth below 6 bytes per call or 8 kB, or that ends after 6000 calls (a cache that is full), is not counted',
               'processor time is judged only where it grows more than 24-fold for eight times the size, in three measurements of which the best counts']
FILE = 25
PER_CALL, FLOOR = 6, 8000
SRC = os.path.join(os.path.abspath(sut.REPO), 'src', '')

KINDS = ('read', 'reuse', 'decode', 'json', 'parse', 'rejected', 'refused', 'read_file', 'search', 'held')


def tasks(ctx):
  out = [('memory', ctx.seed, i, ctx.n(2, 30)) for i in range(16)]
  out += [('work', ctx.seed, i, ctx.n(5, 60)) for i in range(8)]
  out += [('time', ctx.seed, k, ctx.n(1, 5)) for k in SIZES]
  return out


class Sink:
  def write(self, text):
    return len(text)

  def flush(self):
    pass


def stream(case):
  """endless different lines like the ones of the case"""
  r = gen.rng('stream', case['salt'])
  lines = case['lines']
  while True:
    s = r.choice(lines)
    s = s[:123] + '%05d' % r.randrange(100000) + s[128:]
    v = model.variant_of(s)
    if v is not None:
      free = [cols for n, cols, d in v.fields if model.klass(d) == 'pass' and d not in model.CHECKED_ALNUM | model.CHECKED_ALPHA and len(cols) > 3
              and not set(cols) & (model.selecting(v) | set(range(123, 132)))]
      if free:
        t = list(s)
        cols = r.choice(free)
        gen.put(t, cols, gen.text(r, len(cols), gen.UPPER))
        s = ''.join(t)
    else:
      # another rejected line of the same length
      t = list(s)
      for _ in range(4):
        t[r.randrange(6, len(t) - 10)] = r.choice(gen.ALNUM)
      if model.variant_of(''.join(t)) is None:
        s = ''.join(t)
    yield s


def once(kind, s, keep):
  """one call; what it raises is not judged here"""
  try:
    if kind in ('read', 'rejected'):
      sut.Record().read(s)
    elif kind == 'reuse':
      keep.read(s)
      keep.primary()
    elif kind == 'decode':
      keep.read(s)
      keep.decode(False)
    elif kind == 'json':
      r = sut.Record()
      r.read(s)
      r.json(False)
      r.json(False, False)
    elif kind == 'held':
      keep.decode(False)
      keep.json(False)
    else:
      sut.arinc424.parse(s)
  except Exception:
    pass


def quietly(fn, *a):
  try:
    fn(*a)
  except Exception:
    pass


def play(case, source, n, keep, d):
  """n calls"""
  kind = case['kind']
  if kind in ('read_file', 'search'):
    path = os.path.join(d, 'records')
    size = 25
    for _ in range(n // size):
      files.write(path, [next(source) for _ in range(size)])
      if kind == 'search':
        quietly(sut.arinc424.search, path, case['lines'][0][4:6])
      else:
        quietly(sut.arinc424.read_file, path)
    return
  for _ in range(n):
    s = next(source)
    once(kind, s[:50] + s[50:], keep)        # a text of its own


def memory(case, warm=0):
  n = case['n']
  source = stream(case)
  source = iter([next(source) for _ in range(3 * n + warm)])      # not counted as the library's memory
  keep = sut.Record()
  out = sys.stdout
  sys.stdout = Sink()
  try:
    with files.scratch() as d:
      keep.read(case['lines'][0])
      tracemalloc.start(1)
      play(case, source, n + warm, keep, d)
      sizes = []
      for _ in range(3):
        gc.collect()
        sizes.append(tracemalloc.get_traced_memory()[0])
        if len(sizes) < 3:
          play(case, source, n, keep, d)
      snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, SRC + '*')])
      tracemalloc.stop()
      where = ['%s:%d' % (os.path.basename(x.traceback[0].filename), x.traceback[0].lineno) for x in snap.statistics('lineno')[:3]]
  finally:
    sys.stdout = out
  return sizes, where


def steps(fn, *a):
  n = 0

  def inside(frame, event, arg):
    nonlocal n
    if event == 'line':
      n += 1
    return inside

  def trace(frame, event, arg):
    return inside if frame.f_code.co_filename.startswith(SRC) else None

  sys.settrace(trace)
  try:
    fn(*a)
  except Exception:
    pass
  finally:
    sys.settrace(None)
  return n


def work(case):
  """steps of one call before and after n others; of files of 25 and 400 lines"""
  source = stream(case)
  keep = sut.Record()
  line = case['lines'][0]
  out = sys.stdout
  sys.stdout = Sink()
  try:
    with files.scratch() as d:
      keep.read(line)
      once('parse' if case['kind'] in ('read_file', 'search') else case['kind'], line, keep)   # first use
      kind = case['kind']
      path = os.path.join(d, 'probe')
      body = [line if case['salt'] % 3 else line[:4] + '??' + line[6:]]
      files.write(path, body * FILE)

      def probe():
        if kind == 'search':
          sut.arinc424.search(path, line[4:6])
        elif kind == 'read_file':
          sut.arinc424.read_file(path)
        else:
          once(kind, line, keep)

      before = steps(probe)
      play(case, source, case['n'], keep, d)
      keep.read(line)
      after = steps(probe)
      ratio = None
      if kind in ('search', 'read_file'):
        files.write(path, body * (16 * FILE))
        ratio = steps(probe)
  finally:
    sys.stdout = out
  return before, after, ratio


SIZES = {'file of rejected lines': 4000, 'search, rejected lines': 4000, 'search, records': 3000, 'search, none found': 3000,
         'long line': 150000, 'long line of a record': 150000, 'folder': 250, 'file of blank lines': 20000, 'one long line in a file': 100000}


def timed(case):
  """processor time for sizes n and 8n"""
  what, salt = case['kind'], case['salt']
  base = case['lines'][0]
  out = sys.stdout
  sys.stdout = Sink()
  try:
    times = []
    for n in (SIZES[what], 8 * SIZES[what]):
      with files.scratch() as d:
        path = os.path.join(d, 'records')
        r = gen.rng('timed', salt)
        if what == 'folder':
          for i in range(n):
            with open(os.path.join(d, 'f%d' % i), 'w') as f:
              f.write('%d\n' % i)
          fn = lambda: sut.arinc424.read_folder(d)
        elif what == 'long line':
          text = 'S' + ''.join(r.choice('S 0A\t') for _ in range(1000)) * (n // 1000)
          fn = lambda: sut.arinc424.parse(text)
        elif what == 'long line of a record':
          text = base[:60] + (' ' if salt % 2 else 'A0') * n + base[60:] + ' ' * n
          fn = lambda: sut.arinc424.parse(text)
        elif what == 'one long line in a file':
          files.write(path, ['S' + 'A ' * n, base])
          fn = lambda: sut.arinc424.read_file(path, False)
        else:
          if what == 'file of blank lines':
            lines = [''] * n
          elif 'rejected' in what:
            lines = [base[:4] + '??' + '%08d' % i + base[14:] for i in range(n)]
          else:
            lines = [base[:123] + '%05d' % (i % 100000) + base[128:] for i in range(n)]
          files.write(path, lines)
          if 'search' in what:
            word = 'not there' if 'none' in what else base[4:6]
            fn = lambda: sut.arinc424.search(path, word)
          else:
            fn = lambda: sut.arinc424.read_file(path)
        best = None
        for _ in range(3):
          t = time.process_time()
          fn()
          t = time.process_time() - t
          best = t if best is None else min(best, t)
        times.append(best)
    return times
  finally:
    sys.stdout = out


def check(case):
  if case['what'] == 'time':
    for attempt in range(2):
      kind, res = harness.in_child(lambda: timed(case))
      if kind == 'hang':
        return ('hang', '%s: a call with %d of them does not return' % (case['kind'], 8 * SIZES[case['kind']]))
      if kind != 'ok':
        return None              # C02
      a, b = res
      if b < .5 or b < 24 * max(a, .005):
        return None
    return ('%s not linear' % case['kind'], '%s: %.3f s of processor time for size %d, %.3f s for eight times as much' % (case['kind'], a, SIZES[case['kind']], b))
  if case['what'] == 'memory':
    for warm in (0, 6000):          # growth is looked at again after more calls: a bounded cache is full by then
      kind, res = harness.in_child(lambda: memory(case, warm))
      if kind == 'hang':
        return None if warm else ('hang', '%s of %d lines does not come to an end' % (case['kind'], case['n']))
      if kind == 'died':
        return None              # C02
      if kind != 'ok':
        raise RuntimeError(res)
      (a, b, c), where = res
      grown = min(b - a, c - b)
      if grown <= max(PER_CALL * case['n'], FLOOR):
        return None
    return ('%s keeps memory' % case['kind'], '%s (%d calls, then twice %d more): %d, then %d bytes more are kept, %.0f per call; most is allocated at %s' % (
        case['kind'], case['n'] + warm, case['n'], b - a, c - b, grown / case['n'], ', '.join(where)))
  kind, res = harness.in_child(lambda: work(case))
  if kind == 'hang':
    return ('hang', '%s of %d lines does not come to an end' % (case['kind'], case['n']))
  if kind == 'died':
    return None
  if kind != 'ok':
    raise RuntimeError(res)
  before, after, ratio = res
  check.steps = before
  if after > 1.5 * before + 100:
    return ('%s takes longer' % case['kind'], '%s of %r takes %d steps at first and %d after %d others' % (case['kind'], case['lines'][0], before, after, case['n']))
  if ratio is not None and ratio > 20 * after + 400:
    return ('%s not linear' % case['kind'], '%s of %d lines takes %d steps, of %d lines %d' % (case['kind'], FILE, after, 16 * FILE, ratio))
  return None


check.steps = 0


def shrink(case):
  if case['what'] == 'time':
    return
  for part in common.shrink_list(case['lines']):
    if part:
      yield dict(case, lines=part)


def some(r, kind, n):
  out = []
  while len(out) < n:
    v = r.choice(model.VARIANTS)
    if kind == 'rejected':
      s = gen.record(r, v)
      s = r.choice((s[:-1], 'X' + s[1:], s[:4] + '??' + s[6:], s[:128] + 'x' + s[129:]))
    elif kind == 'refused':
      s = gen.record(r, v, legal_only=False)
      if not s.isascii() or not sut.call(sut.arinc424.parse, s, False).refused:
        continue
    else:
      s = common.good(r, v)
    if s and s.isascii():
      out.append(s)
  return out


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'time':
    for k in range(n):
      case = dict(what=what, kind=part, lines=some(r, 'read', 1), salt=r.randrange(10 ** 9))
      rep.case(case, repr(case), (what, part), case)
    return
  for k in range(n):
    kind = KINDS[(part + 16 * k) % len(KINDS)] if what == 'memory' else KINDS[(part + 8 * k) % len(KINDS)]
    slow = kind in ('decode', 'parse', 'read_file', 'held', 'refused')
    case = dict(what=what, kind=kind, lines=some(r, kind, r.choice((1, 3, 30))), salt=r.randrange(10 ** 9),
                n=r.choice((500, 700)) if slow else r.choice((1000, 3000)))
    ok = rep.case(case, None, (what, kind), case)
    assert ok in (True, False)
    rep.note(repr(case) if what == 'memory' or check.steps else None, (), dict(what=what, kind=kind, n=case['n'], line=case['lines'][0]))
    rep.evals -= 1
