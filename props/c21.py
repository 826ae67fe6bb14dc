"""C21: an illegal value is reported to the caller, at its place.

A case is a file (or a folder of files) in which some valid records hold a
value that decode() refuses.  The reference is parse() on each line alone.
"""
import os

import common
import files
import gen
import model
import sut

ID = 'C21'
RULE = ('a case is a file or folder with records, or a line; non-trivial when parse() refuses one of its records and another record '
        'stands before or after it; distinct by content')
ASSUMPTIONS = ['which values are refused is taken from parse() on the line alone (C08-C10 judge it)',
               'a folder has one file with a refused record; the order of its files is free']


def tasks(ctx):
  out = [('file', ctx.seed, i, ctx.n(90, 1500)) for i in range(16)]
  out += [('folder', ctx.seed, i, ctx.n(25, 400)) for i in range(8)]
  out += [('fields', ctx.seed, i, ctx.n(1, 6)) for i in range(16)]
  return out


def _o(o):
  return ('ValueError' if o.refused else type(o.exc).__name__ if o.exc is not None else None, str(o.exc), o.out)


def expected(lines, output=True):
  """(error or None, text) of a file of these lines"""
  text = []
  for x in lines:
    o = sut.call(sut.arinc424.parse, x, output)
    text.append(o.out)
    if o.exc is not None:
      return (type(o.exc).__name__, str(o.exc)), ''.join(text), o.refused
  return None, ''.join(text), True


def check(case):
  if 'line' in case:
    return line(case['line'])
  if 'folder' in case:
    return folder(case)
  lines, output = case['lines'], case['output']
  err, text, fair = expected(lines, output)
  if not fair:
    return None                 # C02
  with files.scratch() as d:
    p = os.path.join(d, 'records')
    files.write(p, lines)
    o = sut.call(sut.arinc424.read_file, p, output)
  got = (type(o.exc).__name__, str(o.exc)) if o.exc is not None else None
  if got is None and err:
    return ('refusal hidden', 'read_file returns although parse() of one of the %d lines raises %s: %s' % (len(lines), err[0], err[1]))
  if o.exc is not None and not (err and o.refused):
    return ('other error', 'read_file raises %r, parse() of the line %s' % (got, 'raises %r' % (err,) if err else 'does not raise'))
  if o.out != text:
    return ('output', 'read_file of %d lines%s prints %d characters, the lines up to that one give %d: %s' % (
        len(lines), ', which ends with %s,' % err[0] if err else '', len(o.out), len(text), common.differ(dict(output=text), dict(output=o.out))))
  return None


def folder(case):
  fs = case['folder']
  parts, last = [], None
  for name in sorted(fs):
    err, text, fair = expected(fs[name])
    if not fair:
      return None
    if err:
      if last is not None:
        return None
      last = (err, text)
    elif text:
      parts.append(text)
  if last is None:
    return None
  with files.scratch() as d:
    for name in fs:
      files.write(os.path.join(d, name), fs[name])
    o = sut.call(sut.arinc424.read_folder, d)
  if o.exc is None:
    return ('refusal hidden', 'read_folder returns although a file of %r has a record that parse() refuses: %r' % (sorted(fs), last[0]))
  if not o.refused:
    return ('other error', 'read_folder raises %s, parse() of the line raises %r' % (o.error, last[0]))
  if not o.out.endswith(last[1]) or not some(o.out[:len(o.out) - len(last[1])], parts):
    return ('output', 'read_folder prints %d characters before it raises: not whole files and then the lines before the refused one (%d characters)' % (
        len(o.out), len(last[1])))
  return None


def some(text, parts):
  """is text a concatenation of some of the parts?"""
  if not text:
    return True
  tried = set()
  for i, p in enumerate(parts):
    if p not in tried and text.startswith(p):
      tried.add(p)
      if some(text[len(p):], parts[:i] + parts[i + 1:]):
        return True
  return False


def line(s):
  """the ways to decode one line agree on the refusal, and it leaves the rest of
  the object usable"""
  r, o = sut.read(s)
  if o.exc is not None or o.value is not True:
    return None
  ways = dict(parse=_o(sut.call(sut.arinc424.parse, s, False)), decode=_o(sut.call(r.decode, False)))
  ways['decode with output'] = _o(sut.call(r.decode, True))
  ways['decode again'] = _o(sut.call(r.decode, False))
  ways['parse with output'] = _o(sut.call(sut.arinc424.parse, s))
  a = ways['decode']
  if a[0] is None:
    # it must not be refused elsewhere
    for k, b in ways.items():
      if b[0] is not None:
        return ('%s refuses' % k, '%s of %r raises %s: %s, decode(False) does not' % (k, s, b[0], b[1]))
    return None
  for k, b in ways.items():
    if b[0] != a[0]:
      return ('%s differs' % k, '%s of %r gives %r, decode(False) raises %r' % (k, s, b[:2], a[:2]))
    if b[2] != a[2]:
      return ('%s prints' % k, '%s of %r, which is refused, prints %r, decode(False) prints %r' % (k, s, b[2][:300], a[2][:300]))
  j = sut.call(r.json, False)
  if j.exc is not None or r.primary() is None:
    return ('json after a refusal', 'json() of %r after the refused decode() raises %s' % (s, j.error))
  with files.scratch() as d:
    p = os.path.join(d, 'records')
    files.write(p, [s])
    o = sut.call(sut.arinc424.search, p, s.strip()[:4])
  if o.exc is not None or s.strip() not in o.out:
    return ('search', 'search does not report %r, whose values are refused: %s' % (s, o.error or common.plain(o.out)))
  return None


def shrink(case):
  if 'line' in case:
    for s in common.shrink_line(case['line']):
      yield dict(line=s)
  elif 'folder' in case:
    fs = case['folder']
    for k in sorted(fs):
      yield dict(folder={n: x for n, x in fs.items() if n != k})
    for k in sorted(fs):
      for part in common.shrink_list(fs[k]):
        yield dict(folder=dict(fs, **{k: part}))
  else:
    for part in common.shrink_list(case['lines']):
      yield dict(case, lines=part)


_BAD = {}


def refused(r):
  """a valid record that decode() refuses (most of the time)"""
  for _ in range(6):
    v = r.choice(model.VARIANTS)
    s = gen.record(r, v, legal_only=False)
    if r.random() < .5:
      hard = [f for i in gen.free(v) for f in [v.fields[i]] if f[2] in HARD]
      if hard:
        s = list(common.good(r, v) or s)
        name, cols, dec = r.choice(hard)
        gen.put(s, cols, gen.text(r, len(cols), gen.PRINT))
        s = ''.join(s)
    if not s.isascii():
      continue
    rec, o = sut.read(s)
    if o.value is True and sut.call(rec.decode, False).refused:
      return s
  return None


# items that refuse some of their values
HARD = model.CHECKED_ALNUM | model.CHECKED_ALPHA | {'002', '020', '021', '026', '027', '034', '039', '072', '108', '269', '177', '181'}


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'fields':
    for v in model.VARIANTS[part::16]:
      base = common.good(r, v) or gen.record(r, v)
      for i in gen.free(v):
        name, cols, dec = v.fields[i]
        if model.klass(dec) == 'pass' and dec not in HARD and r.random() < .7:
          continue
        for _ in range(3 * n):
          s = list(base)
          gen.put(s, cols, gen.text(r, len(cols), gen.PRINT))
          s = ''.join(s)
          bad = sut.call(sut.arinc424.parse, s, False).refused
          rep.case(dict(line=s), s if bad else None, ('line', 'refused' if bad else 'decodes'), s)
    return
  for k in range(n):
    if what == 'file':
      lines = [x for x in files.lines(r, r.choice((0, 1, 3, 8, 20))) if x.isascii()]
      for _ in range(r.choice((0, 1, 1, 1, 2, 3))):
        x = refused(r)
        if x:
          lines.insert(r.randint(0, len(lines)), x)
      case = dict(lines=lines, output=r.random() < .6)
      bad = len(lines) > 1 and expected(lines)[0]
      rep.case(case, repr(case) if bad else None, ('file', 'refused' if bad else 'decodes'), dict(lines=lines[:3], output=case['output']))
    else:
      names = r.sample(files.NAMES, r.randint(1, 5))
      fs = {x: [y for y in files.lines(r, r.choice((0, 1, 3))) if y.isascii()] for x in names}
      x = refused(r)
      if x:
        t = fs[r.choice(names)]
        t.insert(r.randint(0, len(t)), x)
      rep.case(dict(folder=fs), repr(fs) if x and len(names) > 1 else None, ('folder',), dict(names=names))
