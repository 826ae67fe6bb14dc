"""C02: no text crashes or terminates the caller."""
import signal

import common
import gen
import model
import sut

ID = 'C02'
RULE = ('non-trivial: the text is accepted as a record (so that every decoder of its layout runs) '
        'or is one edit away from a record; distinct by the text')
ASSUMPTIONS = [
    'ValueError is the documented way to refuse an illegal field value in decode() and parse()',
    'a call that takes longer than 20 s counts as not returning',
]
OWN_WATCHDOG = True
LIMIT = 20

ODD = list('²½٣ⅧßŁé\x00\x01\x1f\x7f\x80\xa0\u2028\u3000\ufeff\u200b€😀\ud800\t\n\r\x0b\x1b|+-\'"\\{}%')


def tasks(ctx):
  ids = [v.id for v in model.VARIANTS]
  out = [('fields', ctx.seed, i, ctx.n(5, 1)) for i in range(16)]
  out += [('words', ctx.seed, i, ctx.n(20, 2)) for i in range(16)]
  out += [('mix', ctx.seed, i, ctx.n(700, 15000)) for i in range(16)]
  out += [('text', ctx.seed, i, ctx.n(400, 6000)) for i in range(8)]
  out += [('hyp', ctx.seed, i, ctx.n(150, 4000)) for i in range(8)]
  if ctx.thorough:
    out += [('cover', ctx.seed, i, 60000) for i in range(8)]
  assert ids
  return out


class Hang(BaseException):
  pass


def _alarm(*_):
  raise Hang()


def check(case):
  line = case['line']
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(LIMIT)
  try:
    return _check(line, case.get('parse', False))
  except Hang:
    return ('hang', 'a call on %r did not return within %d s' % (common.brief(line), LIMIT))
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)


def _check(line, parse):
  r, o = sut.read(line)
  if isinstance(o.exc, Hang):
    raise o.exc
  if o.exc is not None:
    return ('read raises ' + type(o.exc).__name__, 'read(%r) raised %s' % (common.brief(line), o.error))
  if o.value is not True and o.value is not False:
    return ('read returns neither True nor False', 'read(%r) returned %r' % (common.brief(line), o.value))
  calls = [('json', lambda: r.json(False)), ('json lines', lambda: r.json(True, False)),
           ('decode', lambda: r.decode(False))] if o.value else []
  if o.value:
    calls += [('primary', r.primary), ('hasCont', r.hasCont)]
  if parse or not o.value:
    calls.append(('parse', lambda: sut.arinc424.parse(line)))
  for name, fn in calls:
    o2 = sut.call(fn)
    if isinstance(o2.exc, Hang):
      raise o2.exc
    if o2.exc is not None and not (name in ('decode', 'parse') and o2.refused):
      return ('%s raises %s' % (name, type(o2.exc).__name__),
              '%s of %r raised %s' % (name, common.brief(line), o2.error))
  return None


def shrink(case):
  line = case['line']
  n = len(line)
  if n != 132:
    for size in (n // 2, n // 4, n // 8, 1):
      if size:
        for a in range(0, n, size):
          yield dict(case, line=line[:a] + line[a + size:])
  yield from common.shrink_case(case)


def go(rep, line, label, parse=False):
  v = model.accept(line)
  rep.case(dict(line=line, parse=parse), line if v or label in ('mix', 'hyp') else None,
           (label, 'accepted' if v else 'rejected'), line)


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'fields':
    # every field filled with, and starting or ending in, every character
    for v in model.VARIANTS[part::16]:
      base = common.good(r, v) or gen.record(r, v)
      for name, cols, dec in v.fields:
        for c in gen.PRINT + ODD:
          if n > 1 and r.randrange(n):
            continue
          k = r.randrange(3)
          line = list(base)
          for i, col in enumerate(cols):
            if k == 0 or (k == 1 and i == 0) or (k == 2 and i == len(cols) - 1):
              line[col] = c
          go(rep, ''.join(line), 'fields')
  elif what == 'words':
    for v in model.VARIANTS[part::16]:
      base = common.good(r, v) or gen.record(r, v)
      for name, cols, dec in v.fields:
        new = set(gen.fresh_fitted(len(cols)))
        for w in gen.fitted(len(cols)):
          if w not in new and r.randrange(n):
            continue
          line = list(base)
          gen.put(line, cols, w)
          go(rep, ''.join(line), 'words')
  elif what == 'mix':
    for k in range(n):
      v = r.choice(model.VARIANTS)
      line = list(gen.record(r, v, legal_only=r.random() < .5))
      for _ in range(r.choice((1, 1, 2, 3, 8, 40))):
        m = r.randrange(6)
        i = r.randrange(len(line)) if line else 0
        if m == 0:
          line[i:i + 1] = [r.choice(ODD)]
        elif m in (1, 2):
          line[i:i + 1] = [r.choice(gen.PRINT)]
        elif m == 3 and k % 4 == 0:
          del line[i:i + r.randint(1, 20)]
        elif m == 4 and k % 4 == 0:
          line[i:i] = r.choice(gen.PRINT) * r.randint(1, 20)
        else:
          name, cols, dec = r.choice(v.fields)
          t = gen.text(r, len(cols))
          for c, x in zip(cols, t):
            if c < len(line):
              line[c] = x
      go(rep, ''.join(line), 'mix', k % 5 == 0)
  elif what == 'text':
    pool = gen.PRINT + ODD
    for k in range(n):
      ln = r.choice((0, 1, 2, 5, 12, 13, 131, 132, 133, 264, r.randint(0, 500), r.randint(0, 5000)))
      s = ''.join(r.choice(pool) for _ in range(ln))
      m = r.randrange(4)
      if m == 1:
        s = r.choice('ST') + s[1:]
      elif m == 2 and ln > 20:
        s = r.choice('ST') + s[1:4] + r.choice(sorted(model.KINDS)) + s[6:-9] + ''.join(r.choice(gen.DIGITS) for _ in range(9))
      elif m == 3:
        s = s[:-9] + '²' * 9
      go(rep, s, 'text')
    if part == 0:
      for s in ('', ' ', '\n', 'S', 'T', '\x00' * 132, 'S' * 132, 'S' * 123 + '0' * 9, 'S' * 100000, ' ' * 100000,
                'S' + '0' * 131, 'T' + '²' * 131, 'S' + '٣' * 131, 'S' + '0' * 3000000, '\n' * 3000000, 'T' + ' ' * 2000000 + '0' * 9,
                ' ' * 1000000 + 'S' + ' \t' * 500000, 'S' + '\x00' * 1000000, '9' * 2000000):
        go(rep, s, 'text', True)
    # one character over and over, which is what makes a pattern backtrack
    for v in model.VARIANTS[part::8]:
      base = list(gen.skeleton(r, v))
      fixed = model.selecting(v) | set(range(123, 132))
      for c in r.sample(gen.PRINT, 12) + list('0A '):
        a, b = sorted((r.randrange(133), r.randrange(133))) if r.random() < .5 else (0, 132)
        line = ''.join(c if i not in fixed and a <= i < b else x for i, x in enumerate(base))
        go(rep, line, 'text')
        go(rep, line[:122] + r.choice('!_-') + line[123:131] + r.choice('0!'), 'text')
  elif what == 'hyp':
    hyp(part, seed, n, rep)
  elif what == 'cover':
    cover(r, n, rep)


def hyp(part, seed, n, rep):
  """Hypothesis: arbitrary text, and records with arbitrary text spliced in"""
  import hypothesis as h
  from hypothesis import strategies as st
  vs = model.VARIANTS
  rec = st.tuples(st.integers(0, len(vs) - 1), st.integers(0, 2 ** 32)).map(
      lambda t: gen.record(gen.rng('hyp', t[1]), vs[t[0]], legal_only=False))
  splice = st.tuples(rec, st.integers(0, 131), st.text(max_size=12)).map(
      lambda t: t[0][:t[1]] + t[2] + t[0][t[1] + len(t[2]):])

  bad = []

  @h.seed(seed * 1000 + part)
  @h.settings(max_examples=n, database=None, deadline=None, phases=[h.Phase.generate, h.Phase.target],
              suppress_health_check=list(h.HealthCheck))
  @h.given(st.one_of(st.text(), splice, splice, st.binary(max_size=200).map(lambda b: b.decode('latin-1'))))
  def prop(line):
    h.target(float(len(line) == 132))
    try:
      go(rep, line, 'hyp', True)
    except BaseException as e:      # Stop of the harness ends the search
      bad.append(e)

  prop()
  if bad:
    raise bad[0]


def cover(r, n, rep):
  """mutation fuzzing guided by the lines of the library that are reached"""
  import sys
  tool = 4
  mon = sys.monitoring
  mon.use_tool_id(tool, 'cover')
  fresh = []
  root = sut.REPO

  def on_line(code, line):
    if code.co_filename.startswith(root):
      fresh.append((code.co_filename, line))
    return mon.DISABLE

  mon.register_callback(tool, mon.events.LINE, on_line)
  mon.set_events(tool, mon.events.LINE)
  corpus = [gen.record(r, v) for v in model.VARIANTS]
  pool = gen.PRINT + ODD
  ws = gen.words()
  try:
    for k in range(n):
      s = list(r.choice(corpus))
      for _ in range(r.choice((1, 1, 2, 4, 10))):
        m = r.randrange(4)
        i = r.randrange(132)
        if i >= len(s):
          continue
        if m == 0:
          s[i] = r.choice(pool)
        elif m == 1:
          w = r.choice(ws)
          s[i:i + len(w)] = w
          del s[132:]
        elif m == 2:
          o = r.choice(corpus)
          j = min(132, i + r.randint(1, 30))
          s[i:j] = o[i:j]
        else:
          s[i] = r.choice(gen.ALNUM + ' ')
      del fresh[:]
      line = ''.join(s)
      go(rep, line, 'cover', k % 4 == 0)
      if fresh:
        corpus.append(line)
        rep.classes['new code reached'] += 1
  finally:
    mon.set_events(tool, 0)
    mon.free_tool_id(tool)
