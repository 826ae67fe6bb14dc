"""Files of records for C15, C16 and C17, always in a scratch directory."""
import contextlib
import locale
import os
import shutil
import tempfile

import common
import gen
import model
import sut

UTF8 = locale.getpreferredencoding(False).lower().replace('-', '') == 'utf8'

NAMES = ['a', 'b', 'records', 'records.txt', 'X.TXT', 'data.dat', 'file.pc', '.hidden', '.hidden.txt', 'with blank', '~', 'x~',
         'README.md', '__init__.py', 'a.bak', 'a.zip', '-dash', 'noext.', '0', '1', '10', '2', 'Ünï', 'a;b', "q'uote", 'q"uote',
         '#hash#', '%41', '$HOME', '*', '?', '[a]', 'x' * 200, 'CON', 'FAACIFP18', 'a.tmp', 'a.json', 'Thumbs.db', '.DS_Store', '.gitkeep',
         'A', 'B', 'Records', 'RECORDS.TXT', 'x.txt', 'a.gz', 'index.html', 'desktop.ini', 'a.log', 'a.lock', 'core', 'LICENCE', ' lead', 'trail ', 'a.b.c']
if not UTF8:
  NAMES = [x for x in NAMES if x.isascii()]


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='arinc-check-')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


def write(path, lines, end='\n', final=True):
  text = end.join(lines) + (end if final and lines else '')
  with open(path, 'w', newline='', encoding='utf-8' if UTF8 else 'ascii', errors='replace') as f:
    f.write(text)


def a_line(r, cache=None):
  """one line of a file: a decodable record, or something to be skipped"""
  k = r.random()
  if k < .55:
    v = r.choice(model.VARIANTS)
    s = common.good(r, v, tries=4)
    if s is None:
      return ''
    m = r.random()
    if m < .1:
      s = ' ' * r.randint(1, 5) + s
    elif m < .2:
      s = s + r.choice((' ', '\t', '   '))
    elif m < .3 and UTF8:
      i = [x for n, c, d in v.fields if model.klass(d) == 'pass' and d not in model.CHECKED_ALNUM | model.CHECKED_ALPHA
           and len(c) > 3 and not set(c) & (model.selecting(v) | set(range(123, 132))) for x in c]
      if i:
        j = r.choice(i)
        s = s[:j] + r.choice('éÜñ\x1c\x1d\x1e\x1f\x0b\x0c\x85\u2028\u2029\xa0\x00\x1a\t') + s[j + 1:]
    return s
  if k < .57:
    return r.choice(('\x1a', '\x00', 'x' * 10000, ';', '//', '"', 'EOF', 'END', 'HDR01', ' ' * 132, '\t', '0' * 132, '\ufeff' if UTF8 else '-'))
  for _ in range(20):
    s = gen.junk(r).rstrip('\r\n')
    v = model.accept(s)
    if v is None and model.judged(s) or v is not None and gen.decodable(v, s.strip()):
      return s
  return ''


def lines(r, n):
  out = []
  while len(out) < n:
    if out and r.random() < .08:
      out.append(r.choice(out))            # the same line again
    else:
      out.append(a_line(r))
  return out


def parsed(line, output=True):
  """what parse() prints for a line, or None if it raises"""
  o = sut.call(sut.arinc424.parse, line, output)
  return None if o.exc is not None else o.out


def aligned(records, gap, align, salt, first=8):
  """lines of which one ends near each power of two of the file's length, a
  record on either side of it"""
  r = gen.rng('aligned', salt)
  out, at = [], 0

  def add(x):
    nonlocal at
    out.append(x)
    at += len(x) + gap

  for k, delta in enumerate(align):
    goal = (1 << (first + k)) + delta
    want = r.choice(records) if r.random() < .7 else ''
    tail = len(want) + gap if want and goal - at > len(want) + 2 * gap else 0
    while goal - tail - at > 2000:
      add('X' * r.randint(200, 1500))
    left = goal - tail - at - gap
    if left < 0:
      continue
    add('X' * left if left != 132 else '')
    if tail:
      add(want)
    if r.random() < .7:
      add(r.choice(records))
  return out
