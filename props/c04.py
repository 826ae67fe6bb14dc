"""C04: every field holds exactly the text of its columns."""
import common
import gen
import model
import sut

ID = 'C04'
RULE = ('non-trivial: an accepted record whose free columns are not all blank; distinct by the line')
ASSUMPTIONS = ['the columns of each field are those of lib/layout.txt (ARINC 424-18 chapter 4)']
ODD = 'é²٣ß€😀\u0301\u212b\ufb01ıſ\x00\x1f\x7f"\\\'|\t\xa0\u2028'
POOLS = (gen.PRINT, gen.ALNUM, gen.DIGITS, 'abcxyz ', gen.PRINT + list(ODD) * 3, gen.ALNUM + '  ', '0 ')


def tasks(ctx):
  out = [('all', ctx.seed, i, ctx.n(120, 2500)) for i in range(16)]
  out += [('columns', ctx.seed, i, ctx.n(1, 6)) for i in range(16)]
  out += [('words', ctx.seed, i, ctx.n(3, 1)) for i in range(16)]
  return out


def check(case):
  line = case['line']
  raw = line.strip()
  v = model.accept(line)
  if v is None or not model.judged(line):
    return None
  r, o = sut.read(line)
  if o.value is not True:
    return None
  j = sut.call(r.json, False)
  if j.exc is not None:
    return None
  got = {k.strip(): x for k, x in sut.pairs(j.value)}
  for name, value in model.values(v, raw):
    if name in got and got[name] != value:
      return ('%s %s' % (v.id, name), '%s of %r (%s) is %r, its columns hold %r' % (name, line, v.id, got[name], value))
  return None


def shrink(case):
  yield from common.shrink_case(case)


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  mine = model.VARIANTS[part::16]

  def go(line, label):
    v = model.accept(line)
    rep.case(dict(line=line), line if v else None, (label, v.kind.code if v else 'rejected'), line)

  if what == 'all':
    for v in mine:
      keep = model.selecting(v) | set(range(123, 132))
      for k in range(n):
        line = gen.record(r, v, legal_only=False)
        if k % 3:
          pool = POOLS[k % len(POOLS)]
          line = ''.join(c if i in keep else r.choice(pool) for i, c in enumerate(line))
        if k % 10 == 0:
          line = r.choice((' ', '\n', '\t ', '')) + line + r.choice((' ', '\n', '\r\n'))
        go(line, 'all')
  elif what == 'columns':
    for v in mine:
      for _ in range(n):
        base = gen.record(r, v, legal_only=False)
        for i in range(1, 132):
          for c in gen.ALNUM + ' a.-+/' if i < 123 else gen.DIGITS:
            go(base[:i] + c + base[i + 1:], 'columns')
  elif what == 'words':
    for v in mine:
      base = gen.record(r, v, legal_only=False)
      for name, cols, dec in v.fields:
        new = set(gen.fresh_fitted(len(cols)))
        for w in gen.fitted(len(cols)):
          if w in new or r.randrange(n) == 0:
            line = list(base)
            gen.put(line, cols, w)
            go(''.join(line), 'words')
