"""C11: primary() and hasCont() tell the truth about the record held."""
import common
import gen
import model
import sut

ID = 'C11'
RULE = ('non-trivial: a history of one or more reads on one Record whose last line is a record or one edit '
        'away from one; distinct by the lines')
ASSUMPTIONS = ['the continuation column of each kind is that of lib/layout.txt']


def tasks(ctx):
  out = [('conts', ctx.seed, i, ctx.n(5, 80)) for i in range(8)]
  out += [('history', ctx.seed, i, ctx.n(8000, 150000)) for i in range(8)]
  return out


def expected(line):
  v = model.accept(line)
  if v is None:
    return None, False, False
  raw = line.strip()
  return v, v.primary, model.has_cont(v, raw)


def check(case):
  lines = case['lines']
  r = sut.Record()
  bad = compare(r, None, False, False, 'a new Record')
  if bad:
    return bad
  for i, line in enumerate(lines):
    o = sut.call(r.read, line)
    if not model.judged(line):
      continue
    v, p, h = expected(line)
    if o.exc is not None or o.value is not (v is not None):
      continue                # C01, C02
    bad = compare(r, v, p, h, 'read %d of %r' % (i + 1, lines) if len(lines) < 4 else 'reading %r after %r' % (line, lines[i - 1]))
    if bad:
      return bad
    if case.get('use') and v:
      sut.call(r.decode, False)
      sut.call(r.json, False)
      bad = compare(r, v, p, h, 'decode() and json() of %r' % line)
      if bad:
        return bad
  return None


def compare(r, v, p, h, when):
  for name, fn, want in (('primary', r.primary, p), ('hasCont', r.hasCont, h)):
    o = sut.call(fn)
    what = v.kind.code if v else 'no record'
    if o.exc is not None:
      return ('%s raises: %s' % (name, what), '%s() raises %s after %s' % (name, o.error, when))
    if o.value is not want:
      return ('%s: %s' % (name, what), '%s() is %r after %s (%s), expected %r' % (
          name, o.value, when, v.id if v else 'no record', want))
  return None


def shrink(case):
  lines = case['lines']
  for part in common.shrink_list(lines):
    if part:
      yield dict(case, lines=part)
  for i, line in enumerate(lines):
    for s in common.shrink_line(line):
      yield dict(case, lines=lines[:i] + [s] + lines[i + 1:])


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'conts':
    for v in model.VARIANTS[part::8]:
      for k in range(n):
        base = gen.record(r, v, legal_only=False)
        col = v.kind.cont
        for c in gen.PRINT if col is not None else ' 0129AZ':
          i = col if col is not None else r.randrange(13, 123)
          line = base[:i] + c + base[i + 1:]
          rep.case(dict(lines=[line]), line, ('conts', v.kind.code), line)
        # neighbours of the continuation column must not matter
        for _ in range(30):
          i = r.randrange(1, 123)
          line = base[:i] + r.choice('01 2A') + base[i + 1:]
          rep.case(dict(lines=[line]), line, ('columns', v.kind.code), line)
  else:
    for k in range(n):
      lines = []
      for _ in range(r.choice((2, 2, 3, 5, 12))):
        m = r.random()
        if m < .3:
          lines.append(gen.junk(r))
        elif m < .4 and lines:
          lines.append(r.choice(lines))
        else:
          v = r.choice(model.VARIANTS)
          lines.append(gen.record(r, v, legal_only=False))
      rep.case(dict(lines=lines, use=k % 10 == 0), tuple(lines), ('history',), lines)
