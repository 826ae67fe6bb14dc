"""C16: search reports exactly the matching valid records and their number."""
import os
import re

import common
import files
import gen
import model
import sut

ID = 'C16'
RULE = ('non-trivial: the file has a valid record and the filter is not empty; distinct by content and filter')
ASSUMPTIONS = ['diagnostics that read() prints about rejected lines are not judged',
               'colour escapes are not judged']


def tasks(ctx):
  out = [('search', ctx.seed, i, ctx.n(250, 4000)) for i in range(16)]
  out += [('large', ctx.seed, i, ctx.n(3, 20)) for i in range(16)]
  out += [('aligned', ctx.seed, i, ctx.n(4, 40)) for i in range(8)]
  out += [('huge', ctx.seed, i, ctx.n(1, 4)) for i in range(8)]
  return out


def matches(raw, filters):
  if isinstance(filters, str):
    return filters in raw
  return all(x in raw for x in filters)


def check(case):
  lines, end, final, filters = case['lines'], case['end'], case['final'], case['filters']
  want, count, noise = [], 0, set()
  memo = {}
  for x in lines:
    if x not in memo:
      v = model.accept(x)
      _, o = sut.read(x)
      if o.exc is not None or o.value is not (v is not None):
        return None             # C01, C02
      memo[x] = (v is not None, o.out)
    ok, diag = memo[x]
    noise.update(diag.split('\n')[:-1])
    if ok and matches(x.strip(), filters):
      want.append(x.strip())
      count += 1
  with files.scratch() as d:
    path = os.path.join(d, 'records')
    files.write(path, lines, end, final)
    o = sut.call(sut.arinc424.search, path, filters)
  if o.exc is not None:
    return ('search raises', 'search(%r) raised %s on %d lines' % (filters, o.error, len(lines)))
  got = common.plain(o.out).split('\n')
  if got[-1:] == ['']:
    got.pop()
  else:
    return ('last line', 'search(%r) does not end its last line: %r' % (filters, o.out[-200:]))
  last = got.pop() if got else ''
  # diagnostics of rejected lines may stand between the records
  kept = []
  for g in got:
    if g not in noise or want[len(kept):len(kept) + 1] == [g]:
      kept.append(g)
  got = kept
  if got != want:
    i = 0
    while i < min(len(got), len(want)) and got[i] == want[i]:
      i += 1
    return ('lines differ', 'search(%r) over %d lines prints %d lines instead of %d; line %d is %r instead of %r' % (
        filters, len(lines), len(got), len(want), i + 1, got[i:i + 1], want[i:i + 1]))
  shown = str(filters)
  if shown not in last:
    return ('filter not shown', 'search(%r) ends with %r, which does not show the filter' % (filters, last))
  # take the filter out where it is shown, then the only number is the count
  numbers = set()
  at = last.find(shown)
  while True:
    rest = last[:at] + ' ' + last[at + len(shown):]
    numbers.add(tuple(re.findall(r'[-+0-9.,]*[0-9]', rest)))
    at = last.find(shown, at + 1)
    if at < 0 or not shown:
      break
  if (str(count),) not in numbers:
    return ('count', 'search(%r) ends with %r, %d records match' % (filters, last, count))
  return None


def shrink(case):
  for part in common.shrink_list(case['lines']):
    yield dict(case, lines=part)
  f = case['filters']
  if isinstance(f, list):
    for part in common.shrink_list(f):
      yield dict(case, filters=part)
  if case['end'] != '\n':
    yield dict(case, end='\n')
  if len(case['lines']) <= 3:
    for i, line in enumerate(case['lines']):
      for s in common.shrink_line(line):
        yield dict(case, lines=case['lines'][:i] + [s] + case['lines'][i + 1:])


def a_filter(r, lines):
  """a string that has a fair chance to be in some of the lines, or nearly"""
  k = r.randrange(12)
  src = r.choice(lines) if lines else 'SUSA'
  if k == 0:
    return r.choice(('', ' ', '  ', '.', '*', '.*', '[A-Z]', '^S', '$', 'S', '\\', 'SUSA', 'USA', '0', '1', '\t', '(', '|', '%s', '{}'))
  if k == 1:
    return src
  if k == 2:
    return src.strip()
  a = r.randrange(len(src) + 1)
  b = min(len(src), a + r.choice((1, 1, 2, 3, 4, 5, 8, 30)))
  s = src[a:b]
  if k == 3:
    return s.lower()
  if k == 4:
    return s + r.choice(gen.PRINT)
  if k == 5:
    return src[-r.randint(1, 12):]
  if k == 6:
    return src[:r.randint(1, 12)]
  if k == 7:
    return s[::-1]
  if k == 8 and len(s) > 1:
    return s[:1] + '.' + s[2:]
  if k == 9:
    return r.choice(gen.fresh() if gen.fresh() and r.random() < .5 else gen.words())
  return s


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  for k in range(n):
    if what == 'search':
      lines = files.lines(r, r.choice((0, 1, 2, 4, 10, 25, 60)))
      # records with values that decode() refuses are records, too
      for _ in range(r.choice((0, 0, 1, 3))):
        x = gen.record(r, r.choice(model.VARIANTS), legal_only=False)
        if x.isascii() and x.isprintable():
          lines.insert(r.randint(0, len(lines)), x)
      # siblings differing in one column, so that filters separate them
      for _ in range(r.randint(0, 5)):
        if lines:
          s = r.choice(lines)
          i = r.randrange(6, 122)
          if len(s) > i:
            lines.insert(r.randint(0, len(lines)), s[:i] + r.choice(gen.ALNUM) + s[i + 1:])
    elif what == 'aligned':
      lines = files.aligned([x for x in files.lines(r, 8) if x.isascii()] + [''], 1, [r.randint(-2, 2) for _ in range(12 if k else 15)], r.random())
    else:
      few = files.lines(r, 30)
      lines = [r.choice(few) for _ in range(r.choice((3000, 9000)) if what == 'large' else r.choice((40000, 70000)))]
    end, final = r.choice(('\n', '\n', '\r\n', '\r')), r.random() < .7
    if what == 'aligned':
      end = r.choice(('\n', '\r'))
    for _ in range(6 if what == 'search' else 3):
      m = r.random()
      if m < .5:
        f = a_filter(r, lines)
      elif m < .55:
        f = []
      else:
        f = [a_filter(r, lines) for _ in range(r.choice((1, 2, 2, 3, 4)))]
        if r.random() < .5 and lines:       # all from one line, so that it matches
          s = r.choice(lines).strip()
          f = []
          for _ in range(r.choice((1, 2, 3, 3, 9, 20, 70))):
            a = r.randrange(len(s) + 1)
            f.append(s[a:a + r.randint(1, 6)])
          if r.random() < .4:
            f.insert(r.choice((0, len(f), r.randint(0, len(f)))), a_filter(r, lines))
      case = dict(lines=lines, end=end, final=final, filters=f)
      hits = sum(1 for x in lines if model.accept(x) and matches(x.strip(), f))
      rep.case(case, repr(case) if f and any(model.accept(x) for x in lines) else None,
               (what, 'list' if isinstance(f, list) else 'string', 'some match' if 0 < hits else 'no match'),
               dict(filters=f, lines=lines[:2], matching=hits))
