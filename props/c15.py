"""C15: read_file parses every line of the file once, in order."""
import os
import pathlib

import common
import files
import gen
import model
import sut

ID = 'C15'
RULE = ('non-trivial: a file with at least two lines, at least one of them a record; distinct by its content '
        'and line ending')
ASSUMPTIONS = ['lines are separated by LF, CR LF or CR; other control characters are part of a line',
               'text that the locale encoding can express']


def tasks(ctx):
  out = [('small', ctx.seed, i, ctx.n(150, 2500)) for i in range(16)]
  out += [('large', ctx.seed, i, ctx.n(2, 12)) for i in range(16)]
  out += [('aligned', ctx.seed, i, ctx.n(4, 40)) for i in range(8)]
  out += [('huge', ctx.seed, i, ctx.n(1, 2)) for i in range(8)]
  return out


def check(case):
  lines, end, final = case['lines'], case['end'], case['final']
  if 'times' in case:
    lines = expand(case)
  elif 'align' in case:
    lines = files.aligned(case['lines'], len(end), case['align'], case['salt'])
  out = []
  memo = {}
  for x in lines:
    if x not in memo:
      memo[x] = files.parsed(x)
    if memo[x] is None:
      return None               # a record that does not decode: not in scope
    out.append(memo[x])
  want = ''.join(out)
  with files.scratch() as d:
    path = os.path.join(d, case.get('name', 'records'))
    files.write(path, lines, end, final)
    o = sut.call(sut.arinc424.read_file, pathlib.Path(path) if case.get('path') else path)
  if o.exc is not None:
    return ('read_file raises', 'read_file raised %s on a file of %d lines' % (o.error, len(lines)))
  if o.out != want:
    return ('output differs', 'read_file on a file of %d lines (%d records) printed %d characters, parse() on its lines '
            'prints %d: %s' % (len(lines), sum(1 for x in out if x), len(o.out), len(want),
                               common.differ(dict(output=want), dict(output=o.out))))
  return None


def expand(case):
  """a large file: few different lines in a random order, each with its own
  file record number"""
  r = gen.rng('expand', case['salt'])
  out = []
  for i in range(case['times']):
    x = case['lines'][0] if r.random() < case.get('share', .02) else r.choice(case['lines'])
    if len(x) == 132 and model.accept(x) and r.random() < case.get('renumber', .2):
      x = x[:123] + '%05d' % (i % 100000) + x[128:]
    out.append(x)
  return out


def shrink(case):
  if 'times' in case:
    t = case['times']
    for k in (t // 2, t * 3 // 4, t * 9 // 10, t - 100, t - 10, t - 1):
      if 0 < k < t:
        yield dict(case, times=k)
    return
  if 'align' in case:
    for k in range(len(case['align'])):
      yield dict(case, align=case['align'][:k])
    return
  for part in common.shrink_list(case['lines']):
    yield dict(case, lines=part)
  if case['end'] != '\n':
    yield dict(case, end='\n')
  if not case['final']:
    yield dict(case, final=True)
  for i, line in enumerate(case['lines']):
    if len(case['lines']) <= 4:
      for s in common.shrink_line(line):
        yield dict(case, lines=case['lines'][:i] + [s] + case['lines'][i + 1:])


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'aligned':
    for k in range(n):
      top = 22 if k == 0 else r.choice((13, 17, 18))
      end = r.choice(('\n', '\n', '\r\n', '\r'))
      case = dict(lines=[common.good(r, r.choice([v for v in model.VARIANTS if len(v.fields) < 16]), tries=100) or ''],
                  end=end, final=r.random() < .6, salt=r.random(), align=[r.randint(-2, 2) for _ in range(top - 7)])
      rep.case(case, repr(case), (what,), case)
    return
  for k in range(n):
    end, final = r.choice(('\n', '\n', '\r\n', '\r')), r.random() < .6
    if what == 'small':
      lines = files.lines(r, r.choice((0, 1, 2, 3, 5, 8, 20, 40)))
      if r.random() < .2:
        lines = [''] * r.randint(1, 3) + lines + [''] * r.randint(1, 3)
      case = dict(lines=lines, end=end, final=final, path=r.random() < .2)
      if r.random() < .3:
        case['name'] = r.choice(files.NAMES)
    else:
      lines = [gen.text(r, r.randint(0, 100), gen.ALNUM) for _ in range(20)]
      lines = [x for x in lines if model.accept(x) is None]
      lines[0] = common.good(r, r.choice([v for v in model.VARIANTS if len(v.fields) < 16]), tries=100) or lines[0]
      case = dict(lines=lines, end=end, final=final, times=r.choice((4000, 12000, 20000)), salt=r.random())
      if what == 'huge' and part % 2:        # many records
        case.update(times=r.choice((1100, 2100, 4200)), share=.98, renumber=.02)
      elif what == 'huge':                   # many lines
        case.update(times=r.choice((70000, 140000)), share=.0005)
    records = sum(1 for x in lines if model.accept(x))
    rep.case(case, repr(case) if records and len(lines) > 1 else None, (what,),
             dict(lines=lines[:3], count=case.get('times', len(lines)), end=end, final=final))
