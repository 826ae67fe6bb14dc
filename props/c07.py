"""C07: the table shows every field once, in order, with its raw text."""
import common
import gen
import model
import sut

ID = 'C07'
RULE = 'non-trivial: an accepted record that decodes; distinct by the line'
ASSUMPTIONS = ['order and values of the fields are those of lib/layout.txt; where the JSON view already disagrees '
               'with it (C03/C04) the table is compared with the JSON view',
               'values are printable ASCII: the width of other characters in a text table is not judged']


def tasks(ctx):
  out = [('all', ctx.seed, i, ctx.n(450, 9000)) for i in range(32)]
  out += [('words', ctx.seed, i, ctx.n(6, 1)) for i in range(32)]
  return out


def check(case):
  line = case['line']
  v = model.accept(line)
  if v is None or not model.judged(line):
    return None
  raw = line.strip()
  r, o = sut.read(line)
  if o.value is not True:
    return None
  t = sut.call(r.decode, True)
  if t.exc is not None:
    return None
  if not isinstance(t.value, str):
    return ('%s type' % v.id, 'decode() of %r returned a %s' % (line, type(t.value).__name__))
  if not t.out.endswith(t.value + '\n'):
    return ('%s printed' % v.id, 'decode() of %r prints %r and returns %r' % (line, t.out[-300:], t.value[-300:]))
  try:
    head, rows = sut.table(t.value)
  except sut.BadTable as e:
    return ('%s table' % v.id, 'decode() of %r: %s' % (line, e))
  if head != ['Field', 'Value', 'Decoded']:
    return ('%s header' % v.id, 'header of %r is %r' % (line, head))
  got = [(x[0].strip(), x[1]) for x in rows]
  want = [(n, "'%s'" % x) for n, x in model.values(v, raw)]
  if got == want:
    return None
  j = sut.call(r.json, False)
  if j.exc is None:
    pairs = [(k.strip(), "'%s'" % x) for k, x in sut.pairs(j.value)]
    if sorted(pairs) != sorted(want) and sorted(got) == sorted(pairs):
      return None             # the record itself is read differently: C03/C04
  for i, (a, b) in enumerate(zip(got + [None] * len(want), want)):
    if a != b:
      return ('%s rows' % v.id, 'row %d of %r (%s) shows %r, expected %r; %d rows for %d fields' % (
          i + 1, line, v.id, a, b, len(got), len(want)))
  return ('%s rows' % v.id, 'table of %r (%s) has %d rows for %d fields' % (line, v.id, len(got), len(want)))


def shrink(case):
  yield from common.shrink_case(case)


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)

  def go(v, line, label):
    ok = model.variant_of(line) is v and gen.decodable(v, line)
    rep.case(dict(line=line), line if ok else None, (label, v.kind.code), line)

  for v in model.VARIANTS[part::32]:
    if what == 'all':
      for k in range(n):
        line = gen.record(r, v, legal_only=k % 20 != 0, blank=k % 15 == 0)
        go(v, line, 'all')
    else:
      base = common.good(r, v) or gen.record(r, v)
      pools = [gen.fitted(len(cols)) for _, cols, _ in v.fields]
      # all fields take harvested words at once, as long as they are legal
      for k in range(max(len(p) for p in pools) // n):
        line = list(base)
        for (name, cols, dec), pool in zip(v.fields, pools):
          w = r.choice(pool)
          if model.clean(dec, w, v.kind.code) and not set(cols) & model.selecting(v) and max(cols) < 123:
            gen.put(line, cols, w)
        go(v, ''.join(line), 'words')
