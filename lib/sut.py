"""The code under test, seen through its public interface only."""
import contextlib
import io
import json
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'     # always compile the current sources
sys.path[:0] = [os.path.join(REPO, 'src')]
for _p in ('/opt/venv/lib/python3.12/site-packages',):
  if _p not in sys.path:
    sys.path.append(_p)

import arinc424  # noqa: E402

assert os.path.abspath(arinc424.__file__).startswith(os.path.abspath(REPO) + os.sep), arinc424.__file__
Record = arinc424.Record


class Outcome:
  """value returned, or exception raised, and what was printed"""
  __slots__ = ('value', 'exc', 'out')

  def __init__(self, value, exc, out):
    self.value, self.exc, self.out = value, exc, out

  @property
  def error(self):
    if self.exc is None:
      return None
    return '%s: %s' % (type(self.exc).__name__, self.exc)

  @property
  def refused(self):
    return isinstance(self.exc, ValueError)


def call(fn, *a, **k):
  buf = io.StringIO()
  try:
    with contextlib.redirect_stdout(buf):
      v = fn(*a, **k)
    return Outcome(v, None, buf.getvalue())
  except KeyboardInterrupt:
    raise
  except BaseException as e:     # SystemExit included
    return Outcome(None, e, buf.getvalue())


class BadTable(Exception):
  pass


def table(text):
  """(header, rows) of a printed table; a row is [field, value, decoded] where
  the cells of a row that takes several lines are joined with newlines."""
  lines = text.split('\n')
  if len(lines) < 4 or set(lines[0]) - set('+-') or lines[0][:1] != '+':
    raise BadTable('no table border in first line: %r' % lines[0][:80])
  cuts = [i for i, c in enumerate(lines[0]) if c == '+']
  if len(cuts) != 4:
    raise BadTable('not three columns')
  if lines[2] != lines[0] or lines[-1] != lines[0]:
    raise BadTable('borders do not match')
  width = len(lines[0])

  def cells(line):
    if len(line) != width or any(line[c] != '|' for c in cuts):
      raise BadTable('broken row %r' % line)
    return [line[cuts[i] + 2:cuts[i + 1] - 1] for i in range(3)]

  header = [c.strip() for c in cells(lines[1])]
  rows = []
  for line in lines[3:-1]:
    f, v, d = cells(line)
    if f.strip() == '' and v.strip() == '' and rows:
      rows[-1][2] += '\n' + d.rstrip()
    else:
      rows.append([f.rstrip(), v.rstrip(), d.rstrip()])
  return header, rows


def pairs(text):
  return json.loads(text, object_pairs_hook=lambda p: p)


def read(line):
  """(record, outcome of read)"""
  r = Record()
  return r, call(r.read, line)
