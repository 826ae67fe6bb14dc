"""C13: the output switch controls printing and nothing else."""
import os
import shutil
import tempfile

import common
import gen
import model
import sut

ID = 'C13'
RULE = 'non-trivial: an accepted record (legal values unless labelled illegal); distinct by the line'
ASSUMPTIONS = ['legal values are those lib/model.py can decode']


def tasks(ctx):
  out = [('records', ctx.seed, i, ctx.n(120, 2500)) for i in range(32)]
  out += [('files', ctx.seed, i, ctx.n(10, 200)) for i in range(8)]
  return out


def same(a, b):
  return a.value == b.value and type(a.value) is type(b.value) and type(a.exc) is type(b.exc)


def check(case):
  if 'lines' in case:
    return check_file(case['lines'])
  line = case['line']
  v = model.accept(line)
  legal = v is not None and model.judged(line) and gen.decodable(v, line.strip())
  ident = v.id if v else 'rejected'
  r, o = sut.read(line)
  if o.exc is not None:
    return None
  if o.value is True and legal and o.out:
    return ('%s read prints' % ident, 'read(%r) prints %r' % (line, o.out))
  parse = sut.arinc424.parse
  calls = [('parse', lambda out: parse(line, out), lambda: parse(line), None)]
  if o.value is True:
    calls += [('decode', lambda out: r.decode(out), lambda: r.decode(), None),
              ('json', lambda out: r.json(out), lambda: r.json(), None),
              ('json single', lambda out: r.json(out, True), lambda: r.json(single_line=True), None),
              ('json lines', lambda out: r.json(out, False), lambda: r.json(single_line=False), None)]
  for name, fn, default, _ in calls:
    on, off, dflt = sut.call(fn, True), sut.call(fn, False), sut.call(default)
    if not same(on, off):
      return ('%s %s value' % (ident, name), '%s of %r returns %r with output and %r without' % (
          name, line, on.error or on.value, off.error or off.value))
    if not same(on, dflt) or dflt.out != on.out:
      return ('%s %s default' % (ident, name), '%s of %r: output does not default to True' % (name, line))
    if off.exc is not None:
      continue
    if legal and off.out:
      return ('%s %s prints' % (ident, name), '%s of %r with output=False prints %r' % (name, line, off.out[:300]))
    extra = on.value + '\n' if name != 'parse' else (str(sut.call(r.decode, False).value) + '\n' if o.value is True else '')
    if legal and on.out != extra or not legal and sorted(on.out.split('\n')) != sorted((off.out + extra).split('\n')):
      return ('%s %s printed text' % (ident, name), '%s of %r with output=True prints %r instead of %r' % (
          name, line, on.out[:2000], (off.out + extra)[:2000]))
  return None


def check_file(lines):
  d = tempfile.mkdtemp(prefix='c13-')
  try:
    path = os.path.join(d, 'records')
    with open(path, 'w') as f:
      f.write('\n'.join(lines) + '\n')
    o = sut.call(sut.arinc424.read_file, path, False)
  finally:
    shutil.rmtree(d)
  if o.exc is None and o.out:
    return ('read_file prints', 'read_file(output=False) prints %r' % o.out[:300])
  if o.exc is not None:
    return ('read_file raises', 'read_file(output=False) raises %s' % o.error)
  return None


def shrink(case):
  if 'lines' in case:
    for part in common.shrink_list(case['lines']):
      yield dict(lines=part)
  else:
    yield from common.shrink_case(case)


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'records':
    for v in model.VARIANTS[part::32]:
      for k in range(n):
        if k % 6 == 5:
          line = gen.record(r, v, legal_only=False)
          label = 'illegal'
        elif k % 15 == 4:
          line, label = gen.junk(r), 'junk'
        else:
          line, label = common.good(r, v, blank=k % 10 == 0) or gen.record(r, v), 'legal'
        if k % 4 == 1:
          line = r.choice(('', '', ' ', '\t', '\n')) + line + r.choice(('', '\n', '\r\n', ' ', '  \n', '\t'))
        rep.case(dict(line=line), line if label != 'junk' else None, (label, v.kind.code), line)
  else:
    for k in range(n):
      lines = []
      for _ in range(r.randint(1, 30)):
        s = common.good(r, r.choice(model.VARIANTS))
        if s:
          lines.append(r.choice(('', '', ' ', '\t')) + s + r.choice(('', '', ' ', '\r')))
        if r.random() < .2:
          lines.append(r.choice(('', '# comment', 'X' * 132, lines[0][:80] if lines else '')))
      rep.case(dict(lines=lines), tuple(lines), ('file',), lines[:2])
