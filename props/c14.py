"""C14: whitespace around a record does not matter."""
import common
import gen
import model
import sut

ID = 'C14'
RULE = ('a case is a line and the same line with a whitespace prefix and suffix; non-trivial when they are not '
        'both empty; distinct by line, prefix and suffix')
ASSUMPTIONS = ['whitespace is blank, tab, carriage return and newline']
WS = ' \t\r\n'


def tasks(ctx):
  out = [('records', ctx.seed, i, ctx.n(40, 900)) for i in range(32)]
  out += [('junk', ctx.seed, i, ctx.n(4000, 80000)) for i in range(8)]
  return out


def check(case):
  line, a, b = case['line'], case['before'], case['after']
  x = common.observe(line)
  y = common.observe(a + line + b)
  d = common.differ(x, y)
  if d is None:
    p, q = sut.call(sut.arinc424.parse, line), sut.call(sut.arinc424.parse, a + line + b)
    d = common.differ(dict(parse=p.value, out=p.out, exc=type(p.exc).__name__),
                      dict(parse=q.value, out=q.out, exc=type(q.exc).__name__))
  if d is None:
    return None
  v = model.accept(line)
  return ('%s %s' % (v.id if v else 'rejected', d.split(':')[0]),
          '%r with %r before and %r after gives %s' % (line, a, b, d))


def shrink(case):
  for k in ('before', 'after'):
    s = case[k]
    if s:
      yield dict(case, **{k: ''})
      yield dict(case, **{k: s[:len(s) // 2]})
      yield dict(case, **{k: s[1:]})
      if s.strip(' '):
        yield dict(case, **{k: ' ' * len(s)})
  yield from common.shrink_case(case)


def space(r):
  k = r.randrange(8)
  if k == 0:
    return ''
  if k == 1:
    return r.choice(WS)
  if k == 2:
    return r.choice(('\r\n', '\n\n', '    ', '\t\t'))
  if k == 3:
    return ' ' * r.randint(1, 140)
  if k == 4:
    return r.choice(WS) * r.choice((1, 2, 3, 132, 500))
  return ''.join(r.choice(WS) for _ in range(r.randint(1, 12)))


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)

  def go(line, a, b, label):
    rep.case(dict(line=line, before=a, after=b), (line, a, b) if a or b else None, (label,), [a, line, b])

  if what == 'records':
    for v in model.VARIANTS[part::32]:
      for k in range(n):
        line = gen.record(r, v, legal_only=k % 4 != 0)
        if k % 3 == 1:                # whitespace and the like inside as well
          line = list(line)
          for i in r.sample(sorted(set(range(1, 122)) - model.selecting(v)), r.choice((1, 2, 6))):
            line[i] = r.choice('\t\t\r\n\x0b\x0c\xa0\u3000\x00é  ')
          line = ''.join(line)
        go(line, space(r), '', 'before')
        go(line, '', space(r), 'after')
        go(line, space(r), space(r), 'both')
        same = space(r)
        go(line, same, same if r.random() < .5 else same[::-1], 'both')
        if k == 0:
          for c in WS:
            go(line, c, '', 'before')
            go(line, '', c, 'after')
  else:
    for k in range(n):
      line = gen.junk(r).strip()
      m = r.randrange(4)
      if m == 0:                      # the whitespace would complete the length
        v = r.choice(model.VARIANTS)
        s = gen.record(r, v)
        cut = r.randint(1, 10)
        i = r.randrange(132 - cut)
        line = (s[:i] + s[i + cut:]).strip()
        pad = ''.join(r.choice(WS) for _ in range(132 - len(line)))
        j = r.randint(0, len(pad))
        go(line, pad[:j], pad[j:], 'completes the length')
        continue
      go(line, space(r), space(r), 'junk')
