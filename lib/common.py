"""Pieces shared by the property modules."""
import re

import gen
import model
import sut

ANSI = re.compile(r'\x1b\[[0-9;]*m')


def plain(text):
  return ANSI.sub('', text)


def observe(line):
  """everything a Record reports about one line, as plain data"""
  r = sut.Record()
  return state(r, sut.call(r.read, line))


def state(r, o):
  """observation of record r after read() gave outcome o"""
  if o.exc is not None:
    return dict(read=o.error)
  j1 = sut.call(r.json, False, True)
  j2 = sut.call(r.json, False, False)
  d = sut.call(r.decode, False)
  return dict(read=o.value, out=o.out, json=j1.value if j1.exc is None else j1.error,
              json_lines=j2.value if j2.exc is None else j2.error,
              table=d.value if d.exc is None else type(d.exc).__name__,
              primary=sut.call(r.primary).value, hasCont=sut.call(r.hasCont).value)


def differ(a, b, keys=None):
  """first observation in which a and b differ, as text, or None"""
  for k in keys or sorted(set(a) | set(b)):
    if a.get(k, '<none>') != b.get(k, '<none>'):
      return '%s: %r instead of %r' % (k, _short(b.get(k, '<none>'), a.get(k)), _short(a.get(k, '<none>'), b.get(k)))
  return None


def _short(x, other=None):
  if not isinstance(x, str) or len(x) < 300:
    return x
  i = 0
  if isinstance(other, str):
    while i < min(len(x), len(other)) and x[i] == other[i]:
      i += 1
  return '..' + x[max(0, i - 60):i + 120] + '..'


def shrink_line(line):
  """simpler lines: runs of columns, then single columns, made plain"""
  n = len(line)
  for size in (64, 32, 16, 8, 4, 2, 1):
    for a in range(0, n, size):
      part = line[a:a + size]
      for c in (' ', '0'):
        new = ''.join(x if x in ' ' or (c == '0' and x == '0') else c for x in part)
        if new != part:
          yield line[:a] + new + line[a + size:]


def shrink_case(case, key='line'):
  for s in shrink_line(case[key]):
    new = dict(case)
    new[key] = s
    yield new


def shrink_list(xs):
  """sub-lists, larger removals first"""
  n = len(xs)
  size = n // 2
  while size >= 1:
    for a in range(0, n, size):
      yield xs[:a] + xs[a + size:]
    size //= 2


def variants(pattern=None):
  return [v.id for v in model.VARIANTS]


BY_ID = {v.id: v for v in model.VARIANTS}


def chunks(xs, n):
  """xs split in at most n interleaved groups"""
  out = [xs[i::n] for i in range(n)]
  return [g for g in out if g]


def conts(variant):
  """continuation characters that keep a record in its variant"""
  if variant.kind.cont is None:
    return [None]
  if variant.primary:
    return ['0', '1']
  return list('23456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcz')


def rejoin(variant, line):
  return model.variant_of(line) is variant


def good(r, variant, tries=30, **k):
  """a record of the variant that decodes by the model, or None"""
  for _ in range(tries):
    s = gen.record(r, variant, **k)
    if model.variant_of(s) is variant and gen.decodable(variant, s):
      return s
  return None


def brief(line):
  return line if len(line) <= 140 else line[:140] + '..(%d)' % len(line)
