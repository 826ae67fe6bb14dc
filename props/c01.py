"""C01: Record.read / parse accept exactly the supported records."""
import common
import gen
import model
import sut

ID = 'C01'
RULE = ('a case is non-trivial when the line is one edit (one column, the length, the section code, '
        'the continuation number or application type) away from acceptance or is accepted; '
        'distinct by the whole line')
ASSUMPTIONS = [
    'the supported kinds, continuation columns and application types are those of lib/layout.txt',
    'non-ASCII letters and digits in the columns that decide acceptance are not judged',
]
SECTION = gen.ALNUM + ' ~'
ODD = 'é²٣ß\u3000\xa0\x00\x1f€😀'


def tasks(ctx):
  out = [('section', ctx.seed, i, ctx.thorough) for i in range(8)]
  out += [('dispatch', ctx.seed, i, 4 if ctx.thorough else 1) for i in range(8)]
  out += [('columns', ctx.seed, i, 8 if ctx.thorough else 1) for i in range(8)]
  out += [('shape', ctx.seed, i, ctx.n(400, 6000)) for i in range(8)]
  out += [('words', ctx.seed, i, ctx.n(12, 1)) for i in range(8)]
  out += [('parse', ctx.seed, i, ctx.n(10, 150)) for i in range(8)]
  return out


def verdict(line):
  _, o = sut.read(line)
  return o


def judge(rep, line, label):
  v = model.accept(line)
  rep.note(line, (label, 'accepted' if v else 'rejected'), line)
  bad = check(dict(line=line))
  if bad:
    rep.violation(dict(line=line), *bad)


def check(case):
  line = case['line']
  if not model.judged(line):
    return None
  v = model.accept(line)
  want = v is not None
  for fn in ('parse', 'read') if case.get('parse') else ('read',):
    if fn == 'read':
      o = verdict(line)
    else:
      o = sut.call(sut.arinc424.parse, line, case.get('output', True))
      if o.refused:
        continue
    if o.exc is not None:
      return ('%s raises %s' % (fn, type(o.exc).__name__), '%s(%r) raised %s' % (fn, common.brief(line), o.error))
    if o.value is not want:
      what = v.id if v else 'not a supported record'
      return ('%s returns %r for %s' % (fn, o.value, v.id if v else 'unsupported ' + line.strip()[4:6]),
              '%s(%r) returned %r, expected %r (%s)' % (fn, line, o.value, want, what))
  return None


def shrink(case):
  yield from common.shrink_case(case)


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'section':
    fills = ['0', 'A', ' ', '2', 'C'] if n else ['0', 'A']
    tail = ''.join(r.choice(gen.DIGITS) for _ in range(9))
    for fill in fills:
      base = 'SUSA' + fill * 119 + tail
      k = 0
      for a in SECTION:
        for b in SECTION:
          for c in SECTION:
            k += 1
            if k % 8 == part:
              judge(rep, base[:4] + a + b + base[6:12] + c + base[13:], 'section')
    for a in gen.PRINT:
      for b in gen.PRINT:
        k += 1
        if k % 8 == part:
          judge(rep, base[:4] + a + b + base[6:], 'section')
          judge(rep, base[:4] + a + ' ' + base[6:12] + b + base[13:], 'section')
  elif what == 'dispatch':
    # every continuation character with every application type
    for kind in list(model.KINDS.values())[part::8]:
      if kind.cont is None:
        continue
      v = list(kind.variants.values())[0]
      for rep_no in range(n):
        base = list(gen.record(r, v, split=(rep_no % 2 == 0) and kind.code in model.SPLIT))
        for c in gen.PRINT:
          for a in gen.PRINT if len(kind.app) == 1 else _restrictions(r):
            base[kind.cont] = c
            if kind.app:
              for i, col in enumerate(kind.app):
                base[col] = a[i]
            judge(rep, ''.join(base), 'dispatch')
  elif what == 'columns':
    for v in model.VARIANTS[part::8]:
      for _ in range(n):
        base = gen.record(r, v, legal_only=False)
        for i in range(132):
          for c in gen.PRINT + list(ODD):
            judge(rep, base[:i] + c + base[i + 1:], 'columns')
  elif what == 'shape':
    for k in range(n):
      v = r.choice(model.VARIANTS)
      base = gen.record(r, v, legal_only=False)
      for ln in {131, 132, 133, r.randint(0, 131), r.randint(133, 400)}:
        s = (base * 4)[:ln]
        judge(rep, s, 'shape')
        if ln > 10:
          judge(rep, s[:-9] + base[-9:], 'shape')
          m = ln - 9 - 4
          judge(rep, base[:4] + base[4:4 + max(0, m)].ljust(max(0, m), '0') + base[-9:], 'shape')
      # whole text with white space that counts as length or not
      w = r.choice((' ', '\t', '\n', '\r\n', '  '))
      judge(rep, w + base, 'shape')
      judge(rep, base + w, 'shape')
      judge(rep, base[:131] + w, 'shape')
      judge(rep, w + base[len(w):], 'shape')
      judge(rep, base[:60] + w + base[60 + len(w):], 'shape')
      i = r.randrange(132)
      judge(rep, base[:i] + base[i + 1:], 'shape')
      judge(rep, base[:i] + r.choice(gen.PRINT) + base[i:], 'shape')
      judge(rep, gen.junk(r), 'junk')
      judge(rep, base.lower(), 'shape')
      judge(rep, base[::-1], 'shape')
    if part == 0:
      base = gen.record(r, model.VARIANTS[0])
      for ln in range(0, 300):
        judge(rep, ('S' * ln)[:max(0, ln - 9)] + base[-9:][:ln], 'shape')
        judge(rep, (base * 3)[:ln], 'shape')
  elif what == 'words':
    # harvested constants anywhere in a record
    for v in model.VARIANTS[part::8]:
      base = gen.record(r, v, legal_only=False)
      new = set(gen.fresh())
      for w in gen.words():
        for i in range(132 - len(w) + 1):
          if n == 1 or w in new or r.randrange(n) == 0:
            judge(rep, base[:i] + w + base[i + len(w):], 'words')
  elif what == 'parse':
    for v in model.VARIANTS[part::8]:
      for k in range(n):
        line = gen.record(r, v)
        for l in (line, gen.junk(r), '  ' + line + '\n'):
          rep.case(dict(line=l, parse=True, output=bool(k % 2)), l, ('parse',))


def _restrictions(r):
  known = ['AE', 'TC', 'SC', 'NR', 'ae', 'A ', ' A', 'EA', 'CT', 'AC', 'TE', 'NC', 'SR', '  ', '00']
  return known + [r.choice(gen.PRINT) + r.choice(gen.PRINT) for _ in range(20)]
