"""C05: one column belongs to at most one field."""
import common
import gen
import model
import sut

ID = 'C05'
RULE = ('a case is a pair of accepted records of the same variant that differ in one column; non-trivial '
        'when that column belongs to a field; distinct by variant, column, the two characters and the record. '
        'Memo cases are whole records whose decoded fields are compared with every earlier record of the variant')
ASSUMPTIONS = ['the columns that select kind and variant (record type, section codes, continuation number, '
               'application or restriction type) are excluded, as the statement says']


def tasks(ctx):
  out = [('json', ctx.seed, i, ctx.n(6, 60)) for i in range(16)]
  out += [('table', ctx.seed, i, ctx.n(2, 20)) for i in range(32)]
  out += [('memo', ctx.seed, i, ctx.n(500, 6000)) for i in range(32)]
  return out


def selecting(v):
  s = {0, 4, 5, 12}
  k = v.kind
  if k.cont is not None:
    s.add(k.cont)
    s.update(k.app)
  return s


def check(case):
  a, b = case['line'], case['other']
  if len(a) != 132 or len(b) != 132:
    return None
  col = [i for i in range(132) if a[i] != b[i]]
  v = model.variant_of(a)
  if v is None or model.variant_of(b) is not v or selecting(v).intersection(col):
    return None
  ra, oa = sut.read(a)
  rb, ob = sut.read(b)
  if oa.value is not True or ob.value is not True:
    return None
  bad = tables(case, v, ra, rb, col) if case.get('table') else None
  if bad is None and len(col) == 1:
    bad = objects(case, v, ra, rb, col[0])
  return bad


def objects(case, v, ra, rb, col):
  a, b = case['line'], case['other']
  ja, jb = sut.call(ra.json, False), sut.call(rb.json, False)
  if ja.exc is None and jb.exc is None:
    da, db = dict(sut.pairs(ja.value)), dict(sut.pairs(jb.value))
    changed = sorted(k for k in set(da) | set(db) if da.get(k) != db.get(k))
    if len(changed) > 1:
      return ('%s column %d: %s' % (v.id, col, ' + '.join(changed)),
              'changing column %d of %r (%s) to %r changes %d fields: %r' % (
                  col, a, v.id, b[col], len(changed), changed))
  return None


def rows_of(rec):
  """rows of the table of a record, or None if it does not decode"""
  t = sut.call(rec.decode, False)
  if t.exc is not None:
    return None
  try:
    return sut.table(t.value)[1]
  except sut.BadTable:
    return None               # C07


def tables(case, v, ra, rb, col):
  a, b = case['line'], case['other']
  rowa, rowb = rows_of(ra), rows_of(rb)
  if rowa is None or rowb is None:
    return None
  names = [x[0] for x in rowa]
  if len(set(names)) != len(names):
    twice = sorted({n for n in names if names.count(n) > 1})
    return ('%s duplicate names: %s' % (v.id, ' + '.join(twice)), 'fields of %r (%s) share names: %r' % (a, v.id, twice))
  if len(rowa) != len(rowb):
    return ('%s rows' % v.id, '%r and %r (%s) have %d and %d rows' % (a, b, v.id, len(rowa), len(rowb)))
  for x, y in zip(rowa, rowb):
    if x[1] == y[1] and x != y:
      return ('%s decoding of %s depends on other columns' % (v.id, x[0]),
              'changing only columns %r of %r (%s) to %r leaves %s as %s but decodes it as %r instead of %r' % (
                  col, a, v.id, ''.join(b[i] for i in col), x[0], x[1], y[2], x[2]))
  return None


def shrink(case):
  a, b = case['line'], case['other']
  col = [i for i in range(132) if a[i] != b[i]]
  if len(col) > 1:
    for part in common.shrink_list(col):
      yield dict(case, other=''.join(b[i] if i in part else a[i] for i in range(132)))
  for s in common.shrink_line(a):
    if all(s[i] == a[i] for i in col):
      yield dict(case, line=s, other=''.join(b[i] if i in col else s[i] for i in range(132)))


def memo(v, r, n, rep):
  """many records of one variant: a field text seen twice must decode alike,
  whatever the other columns hold"""
  seen = {}
  sel = sorted(selecting(v))
  groups = {}
  for k in range(n):
    line = gen.record(r, v, blank=k % 12 == 11)
    rep.note(line, ('memo', v.kind.code))
    rec, o = sut.read(line)
    if o.value is not True or model.variant_of(line) is not v:
      continue
    rows = rows_of(rec)
    if rows is None:
      continue
    key = groups.setdefault(''.join(line[i] for i in sel), len(groups))
    for name, value, dec in rows:
      old = seen.setdefault((name, value), (dec, line, key))
      if old[0] != dec:
        # keep the selecting columns the same in both
        other = list(line)
        for i in sel:
          other[i] = old[1][i]
        case = dict(line=old[1], other=''.join(other), table=True)
        bad = check(case)
        if bad:
          rep.violation(case, *bad)


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'memo':
    for v in model.VARIANTS[part::32]:
      memo(v, r, n, rep)
    return
  mine = model.VARIANTS[part::16] if what == 'json' else model.VARIANTS[part::32]
  for v in mine:
    sel = selecting(v)
    owned = {}
    for name, cols, dec in v.fields:
      for c in cols:
        owned.setdefault(c, []).append((name, cols, dec))
    kind = v.kind.code
    for k in range(n):
      base = gen.record(r, v, legal_only=what == 'table', blank=k % 6 == 5)
      if what == 'table':
        base = common.good(r, v, blank=k % 6 == 5) or base
      for i in range(1, 132):
        if i in sel:
          continue
        for c in picks(r, what, base, i, owned.get(i, []), kind):
          other = base[:i] + c + base[i + 1:]
          if other == base:
            continue
          rep.case(dict(line=base, other=other, table=what == 'table'),
                   (base, i, c) if i in owned else None, (what, kind),
                   dict(line=base, column=i, to=c))


def picks(r, what, base, i, owners, kind):
  if i >= 123:
    return [r.choice(gen.DIGITS)]
  if what == 'json':
    return r.sample(gen.PRINT, 6) + [r.choice('é²"\\')]
  # a character that keeps its field legal, so that both records decode
  cand = r.sample(gen.ALNUM + ' ', 12)
  out = []
  for c in cand:
    ok = True
    for name, cols, dec in owners:
      val = ''.join(c if x == i else base[x] for x in cols)
      ok = ok and model.clean(dec, val, kind)
    if ok:
      out.append(c)
    if len(out) == 2:
      break
  return out
