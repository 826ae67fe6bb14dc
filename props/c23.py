"""C23: decode() refuses a record exactly if a checked field breaks its rule.

The rules are those of RULES; every other field decodes whatever ASCII text it
holds.  Oracle: the set of broken rules predicted from lib/layout.txt.
"""
import re

import common
import gen
import model
import sut

ID = 'C23'
RULE_TEXT = 'a checked field breaks its rule, or the value of a checked field was changed at random'
RULE = 'non-trivial: the record is accepted, and ' + RULE_TEXT + '; distinct by the line'
ASSUMPTIONS = ['ASCII text only', "continuations of NDB navaids with application type 'Q' are not judged (no layout decodes)"]

_digits = re.compile('[0-9]+').fullmatch
_letters = re.compile('[A-Za-z]+').fullmatch
_alnum = re.compile('[A-Za-z0-9]+').fullmatch


def _word(v):
  return not v or len(v) <= 4 and _alnum(v)


# legal(value, value without surrounding blanks)
RULES = {
    '002': lambda x, v: x in ('S', 'T'),
    '008': lambda x, v: not v or _alnum(v),
    '020': lambda x, v: x in ('R', 'L', 'E', ' '),
    '021': lambda x, v: not v or _letters(v),
    '022': lambda x, v: not v or _letters(v),
    '023': lambda x, v: _word(v),
    '024': lambda x, v: _word(v),
    '025': lambda x, v: _word(v),
    '026': lambda x, v: _word(v) and (not v or v[-1] == 'T' or _digits(v)),
    '027': lambda x, v: not v or _digits(v[1:] if v[0] == 'T' else v),
    '034': lambda x, v: not v or _digits(v),
    '039': lambda x, v: not v or _digits(x[1:].strip()),
    '072': lambda x, v: not v or _digits(x),
    '082': lambda x, v: x[1] in 'BHL ' or x[0] == 'R',
    '108': lambda x, v: x in ('Y', 'N'),
    '182': lambda x, v: x in ('G', 'T', ' '),
    '269': lambda x, v: not v or _digits(v),
    '270': lambda x, v: x in ('I', 'R', 'V', 'D', ' '),
}


def broken(v, s):
  """(name, value, item) of the first field that breaks its rule, or None"""
  for name, cols, dec in v.fields:
    rule = RULES.get(dec)
    if rule:
      x = ''.join(s[c] for c in cols)
      if not rule(x, x.strip()):
        return name, x, dec
  return None


def tasks(ctx):
  out = [('fields', ctx.seed, i, ctx.n(1, 60)) for i in range(16)]
  out += [('short', ctx.seed, i, ctx.n(1, 1)) for i in range(16)]
  out += [('mix', ctx.seed, i, ctx.n(500, 60000)) for i in range(8)]
  return out


def check(case):
  s = case['line']
  v = model.accept(s)
  if v is None or not s.isascii():
    return None
  s = s.strip()
  r, o = sut.read(s)
  if o.exc is not None or o.value is not True:
    return None                 # C01, C02
  bad = broken(v, s)
  d = sut.call(r.decode, False)
  if d.exc is not None and not d.refused:
    return None                 # C02
  if bad and d.exc is None:
    return ('%s of item %s not refused' % (bad[0], bad[2]), '%r of %r is no legal value of item 5.%d, but decode() shows the record' % (
        bad[1], bad[0], int(bad[2])))
  if not bad and d.exc is not None:
    return ('%s refuses legal values' % v.id, 'decode() of %r raises %s although every checked field (%s) is legal' % (
        s, d.error, ', '.join('%s %r' % (n, ''.join(s[c] for c in cols)) for n, cols, dec in v.fields if dec in RULES)))
  return None


def shrink(case):
  yield from common.shrink_case(case)


def case(rep, v, s, label, near=True):
  s = ''.join(s)
  if model.variant_of(s) is not v:
    return
  b = broken(v, s)
  rep.case(dict(line=s), s if b or near else None, (label, 'refused' if b else 'legal') + ((b[2],) if b else ()), s)


def base(r, v):
  for _ in range(60):
    s = gen.record(r, v)
    if model.variant_of(s) is v and not broken(v, s):
      return s
  # make the checked fields legal one by one
  s = list(gen.record(r, v))
  for name, cols, dec in v.fields:
    if dec in RULES:
      for x in (' ' * len(cols), 'Y' * len(cols), 'R' * len(cols)):
        if RULES[dec](x, x.strip()):
          gen.put(s, cols, x)
          break
  return ''.join(s)


def values(r, n, legal):
  """texts near the rules"""
  k = r.random()
  if k < .25:
    t = list(legal)
    i = r.randrange(n)
    t[i] = r.choice((r.choice(gen.PRINT), t[i - 1], t[i - 1], '.'))
    return ''.join(t)
  if k < .45:
    return gen.text(r, n, r.choice((gen.DIGITS, gen.UPPER, gen.ALNUM, gen.ALNUM + ' ', gen.DIGITS + ' T', gen.DIGITS + '+-._ eE', gen.PRINT)))
  m = r.randint(0, n)
  t = gen.text(r, m, r.choice((gen.DIGITS, gen.UPPER, gen.ALNUM, gen.DIGITS + 'T', gen.DIGITS + 'NEWST')))
  if k < .6:
    return t.ljust(n)
  if k < .7:
    return t.rjust(n)
  if k < .8:
    return t.center(n)
  if k < .9:
    w = r.choice(gen.words())
    return (w + ' ' * n)[:n] if w.isascii() else t.ljust(n)
  a = r.choice(('T', 'E', 'W', 'N', 'S', 'D', '+', '-', '.', '0', ' '))
  t = a + gen.text(r, n, gen.DIGITS) if r.random() < .5 else gen.text(r, n - 1, gen.DIGITS) + a
  return t[:n]


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'mix':
    for _ in range(n):
      v = r.choice(model.VARIANTS)
      s = list(base(r, v) if r.random() < .7 else gen.record(r, v, legal_only=False))
      for _ in range(r.choice((0, 1, 1, 2, 3))):
        i = r.choice(list(gen.free(v)))
        name, cols, dec = v.fields[i]
        gen.put(s, cols, values(r, len(cols), ''.join(s[c] for c in cols)))
      s = ''.join(s)
      if s.isascii():
        case(rep, v, s, 'mix')
    return
  free = {v.id: list(gen.free(v)) for v in model.VARIANTS}
  if what == 'short':
    # one and two column fields: all characters and pairs of interesting ones
    for v in model.VARIANTS[part::16]:
      b = base(r, v)
      for i in free[v.id]:
        name, cols, dec = v.fields[i]
        if len(cols) == 1:
          texts = gen.PRINT
        elif len(cols) == 2 and dec in RULES:
          texts = [x + y for x in ' ABEHLRTUVXZabr019+-._' for y in ' ABEHLRTUVXZabr019+-._']
        else:
          continue
        if dec not in RULES and r.random() < .6:
          texts = r.sample(texts, 8)
        for x in texts:
          s = list(b)
          gen.put(s, cols, x)
          case(rep, v, s, 'short', dec in RULES)
    return
  for v in model.VARIANTS[part::16]:
    for _ in range(n):
      b = base(r, v)
      for i in free[v.id]:
        name, cols, dec = v.fields[i]
        for _ in range(40 if dec in RULES else 4):
          s = list(b)
          gen.put(s, cols, values(r, len(cols), ''.join(b[c] for c in cols)))
          s = ''.join(s)
          if s.isascii():
            case(rep, v, s, 'field', dec in RULES)
