"""C06: JSON output is a lossless, well-formed image of the record."""
import json

import common
import gen
import model
import sut

ID = 'C06'
RULE = ('non-trivial: an accepted record with at least one character that JSON has to escape, or with text '
        'in most fields; distinct by the line')
ASSUMPTIONS = ['field values are those of lib/layout.txt; where a plain-text record already disagrees with it, '
               'the disagreement is left to C03/C04']
ODD = ['"', '\\', '/', "'", '\t', '\n', '\r', '\x00', '\x01', '\x08', '\x0b', '\x0c', '\x1b', '\x1f', '\x7f', '\x85', '\xa0',
       'é', 'ß', '²', '€', '\u2028', '\u2029', '\ufeff', '😀', '\ud83d', '<', '>', '&', '{', '}', '[', ',', ':', '\\u', '%', 'ı', 'İ', '\u0301', '\u212b', '\ufb01']
ODD = [c for c in ODD if len(c) == 1]


def tasks(ctx):
  out = [('odd', ctx.seed, i, ctx.n(150, 3000)) for i in range(16)]
  out += [('fields', ctx.seed, i, ctx.n(2, 1)) for i in range(16)]
  out += [('words', ctx.seed, i, ctx.n(10, 1)) for i in range(16)]
  out += [('table', ctx.seed, i, ctx.n(30, 600)) for i in range(16)]
  return out


def forms(line):
  """(error, pairs of single line form, pairs of indented form, record)"""
  r, o = sut.read(line)
  if o.value is not True:
    return None
  a, b = sut.call(r.json, False, True), sut.call(r.json, False, False)
  for name, x in (('single-line', a), ('indented', b)):
    if x.exc is not None:
      return ('json raises', '%s json() raised %s' % (name, x.error)), None, None, r
    if not isinstance(x.value, str):
      return ('json type', '%s json() returned a %s' % (name, type(x.value).__name__)), None, None, r
  if a.value.splitlines() != [a.value]:
    return ('line break', 'the single-line form has a line break: %r' % a.value), None, None, r
  out = []
  for name, x in (('single-line', a), ('indented', b)):
    try:
      p = json.loads(x.value, object_pairs_hook=lambda q: q, strict=True)
    except ValueError as e:
      return ('invalid', 'the %s form is not JSON (%s): %r' % (name, e, x.value)), None, None, r
    if not isinstance(p, list) or not x.value.lstrip().startswith('{'):
      return ('no object', 'the %s form is not an object: %r' % (name, x.value)), None, None, r
    for k, v in p:
      if not isinstance(v, str):
        return ('member type', 'member %r of the %s form is %r' % (k, name, v)), None, None, r
    keys = [k for k, _ in p]
    if len(set(keys)) != len(keys):
      return ('duplicate', 'duplicate names in the %s form' % name), None, None, r
    out.append(p)
  return None, out[0], out[1], r


def check(case):
  line = case['line']
  v = model.accept(line)
  if v is None or not model.judged(line):
    return None
  raw = line.strip()
  f = forms(line)
  if f is None:
    return None
  err, a, b, rec = f
  if err:
    return ('%s %s' % (v.id, err[0]), '%s, for %r (%s)' % (err[1], line, v.id))
  if dict(a) != dict(b):
    k = sorted(k for k in set(dict(a)) | set(dict(b)) if dict(a).get(k) != dict(b).get(k))
    return ('%s forms differ' % v.id, 'the two forms of %r (%s) differ in %r' % (line, v.id, k))
  want = model.values(v, raw)
  if [(k.strip(), x) for k, x in a] != want and sorted((k.strip(), x) for k, x in a) != sorted(want):
    # is it the layout (C03/C04) or the JSON? look at a plain record
    plain = ''.join(c if ' ' < c < '\x7f' and c not in '"\\\'/<>&%' else 'X' for c in raw)
    if model.variant_of(plain) is v:
      g = forms(plain)
      ok = g is not None and not g[0] and sorted((k.strip(), x) for k, x in g[1]) == sorted(model.values(v, plain))
      if ok:
        d = [(k, x, dict(a).get(k)) for k, x in want if dict((n.strip(), y) for n, y in a).get(k) != x]
        return ('%s lossy' % v.id, 'JSON of %r (%s) is not its text: %r' % (line, v.id, d[:3] or a))
  if case.get('table'):
    t = sut.call(rec.decode, False)
    if t.exc is None:
      try:
        _, rows = sut.table(t.value)
      except sut.BadTable:
        return None
      shown = sorted((x[0].strip(), x[1]) for x in rows)
      if shown != sorted((k.strip(), "'%s'" % x) for k, x in a):
        return ('%s json and table' % v.id, 'JSON and table of %r (%s) have different fields: %r' % (
            line, v.id, sorted(set(shown) ^ set((k.strip(), "'%s'" % x) for k, x in a))[:4]))
  return None


def shrink(case):
  yield from common.shrink_case(case)


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)

  def go(line, label, table=False):
    v = model.accept(line)
    rep.case(dict(line=line, table=table), line if v else None, (label, v.kind.code if v else 'rejected'), line)

  for v in model.VARIANTS[part::16]:
    keep = model.selecting(v) | set(range(123, 132))
    open_ = [i for i in range(132) if i not in keep]
    if what == 'odd':
      for k in range(n):
        line = list(gen.record(r, v, legal_only=False))
        pool = ODD if k % 3 else [r.choice(ODD)] * 3 + ['A']
        for i in r.sample(open_, r.choice((1, 2, 10, len(open_)))):
          line[i] = r.choice(pool)
        go(''.join(line), 'odd')
      for c in ODD:                     # all of it one character, with blanks between
        for share in (1, .9):
          line = list(gen.skeleton(r, v))
          for i in open_:
            if r.random() < share:
              line[i] = c
          go(''.join(line), 'odd')
    elif what == 'fields':
      base = gen.record(r, v)
      for name, cols, dec in v.fields:
        for c in ODD:
          if n > 1 and r.randrange(n):
            continue
          line = list(base)
          for i in cols:
            if i not in keep:
              line[i] = c
          go(''.join(line), 'fields')
    elif what == 'words':
      base = gen.record(r, v)
      for name, cols, dec in v.fields:
        new = set(gen.fresh_fitted(len(cols)))
        for w in gen.fitted(len(cols)):
          if w not in new and n > 1 and r.randrange(n):
            continue
          line = list(base)
          gen.put(line, cols, w)
          go(''.join(line), 'words')
    else:
      for k in range(n):
        go(common.good(r, v) or gen.record(r, v), 'table', True)
