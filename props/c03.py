"""C03: the field names reported are those of the kind and variant."""
import common
import gen
import model
import sut

ID = 'C03'
RULE = ('non-trivial: an accepted record, with its own filler in all other columns; distinct by '
        'kind, variant, continuation number, application type and content')
ASSUMPTIONS = ['the fields of each kind and variant are those of lib/layout.txt, taken from the ARINC 424-18 layouts']
ODD = 'é²٣ß€😀\x00"\\'


def tasks(ctx):
  out = [('all', ctx.seed, i, ctx.n(6, 60)) for i in range(8)]
  out += [('free', ctx.seed, i, ctx.n(1500, 30000)) for i in range(8)]
  out += [('columns', ctx.seed, i, ctx.n(1, 10)) for i in range(8)]
  out += [('words', ctx.seed, i, ctx.n(25, 2)) for i in range(8)]
  return out


def check(case):
  line = case['line']
  v = model.accept(line)
  if v is None or not model.judged(line):
    return None
  r, o = sut.read(line)
  if o.value is not True:
    return None               # C01
  j = sut.call(r.json, False)
  if j.exc is not None:
    return None               # C06
  got = [k.strip() for k, _ in sut.pairs(j.value)]
  want = [f[0] for f in v.fields]
  if sorted(got) == sorted(want):
    return None
  extra = sorted(set(got) - set(want))
  missing = sorted(set(want) - set(got))
  return ('%s fields' % v.id, '%r is %s but reports fields %r beyond and lacks %r of its layout' % (
      line, v.id, extra, missing))


def shrink(case):
  yield from common.shrink_case(case)


def go(rep, line, label):
  v = model.accept(line)
  rep.case(dict(line=line), line if v else None, (label, v.kind.code if v else 'rejected'), line)


def filler(r, line, keep, pool):
  return ''.join(c if i in keep else r.choice(pool) for i, c in enumerate(line))


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  pools = (gen.PRINT, gen.ALNUM, gen.DIGITS, ' ', gen.PRINT + list(ODD), gen.ALNUM + ' ')
  if what == 'all':
    for v in model.VARIANTS[part::8]:
      keep = model.selecting(v) | set(range(123, 132))
      for c in common.conts(v):
        for k in range(n):
          line = gen.record(r, v, cont=c, legal_only=False)
          go(rep, line, 'all')
          if k % 2:
            go(rep, filler(r, line, keep, r.choice(pools)), 'filler')
  elif what == 'free':
    for _ in range(n):
      v = r.choice(model.VARIANTS)
      keep = model.selecting(v) | set(range(123, 132))
      line = gen.record(r, v, legal_only=False)
      go(rep, filler(r, line, keep, r.choice(pools)), 'filler')
  elif what == 'columns':
    for v in model.VARIANTS[part::8]:
      for _ in range(n):
        base = gen.record(r, v, legal_only=False)
        for i in range(1, 123):
          for c in gen.ALNUM + ' ':
            go(rep, base[:i] + c + base[i + 1:], 'columns')
  elif what == 'words':
    for v in model.VARIANTS[part::8]:
      base = gen.record(r, v, legal_only=False)
      new = set(gen.fresh())
      for w in gen.words():
        for i in range(1, 124 - len(w)):
          if w in new or r.randrange(n) == 0:
            go(rep, base[:i] + w + base[i + len(w):], 'words')
