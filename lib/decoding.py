"""Common engine of C08, C09 and C10: decoded cells against the model.

Records are packed: every field of the class takes its next value at once, and
every cell of every record is judged, so one decode judges dozens of values and
any influence of one field on another shows as well.
"""
import itertools

import common
import gen
import model
import sut


def check(case, cls):
  line = case['line']
  v = model.accept(line)
  if v is None or not model.judged(line):
    return None
  raw = line.strip()
  r, o = sut.read(line)
  if o.value is not True:
    return None
  exp = model.expectation(v, raw)
  t = sut.call(r.decode, False)
  if t.exc is not None:
    return raised(v, raw, exp, t, cls)
  try:
    _, rows = sut.table(t.value)
  except sut.BadTable:
    return None               # C07
  cells = {}
  for name, value, dec in rows:
    cells.setdefault((name.strip(), value), dec)
  kind = v.kind.code
  for name, value, dec, e in exp:
    if model.klass(dec) != cls:
      continue
    got = cells.get((name, "'%s'" % value))
    if got is None:
      continue                # C03/C04/C07
    if not model.cell_ok(e, value, got):
      return ('%s %s' % (v.id, name), '%s %r of %r (%s) decodes to %r, expected %s' % (
          name, value, line, v.id, got, describe(e)))
  return None


def describe(e):
  if e[0] == 'is':
    return repr(e[1])
  if e[0] == 'starts':
    return '%r...' % e[1]
  return 'unknown/unsupported, the value itself, or ValueError'


def raised(v, raw, exp, t, cls):
  if any(e[3][0] not in ('is', 'starts') for e in exp):
    if t.refused:
      return None
    return None               # C02
  # every value is legal, yet decoding fails: which field is it?
  r = gen.rng('culprit', raw)
  kind = v.kind.code
  fixed = model.selecting(v) | set(range(123, 132))
  for name, cols, dec in v.fields:
    if fixed & set(cols):
      continue
    for _ in range(3):
      w = gen.legal(r, dec, kind, len(cols))
      line = list(raw)
      if w is None:
        continue
      gen.put(line, cols, w)
      rec, o = sut.read(''.join(line))
      if o.value is True and sut.call(rec.decode, False).exc is None:
        if model.klass(dec) != cls:
          return None
        value = ''.join(raw[c] for c in cols)
        return ('%s %s raises' % (v.id, name), '%s %r of %r (%s) makes decode() raise %s, expected %s' % (
            name, value, raw, v.id, t.error, describe(model.decode(dec, value, kind))))
  return ('%s raises' % v.id, 'decode() of %r (%s) raises %s although every value is legal' % (raw, v.id, t.error))


# ------------------------------------------------------------------- values

def neighbours(r, words, n):
  out = set()
  for w in words:
    w = w.ljust(n)[:n]
    for i in range(n):
      out.add(w[:i] + r.choice(gen.ALNUM + ' ') + w[i + 1:])
    out.add(w.lower())
    out.add(w[::-1])
    out.add(w[1:] + w[0])
  return out


def odd(n):
  """texts that int() or float() take for a number, and near misses of numbers"""
  out = set()
  for w in ('NAN', 'INF', 'nan', '-INF', 'INFINITY', '1E3', '1e3', '12E1', '1_0', '12_3', '+1', '-1', '+12', '-12', '-0', '.5', '5.',
            '1.5', '12.5', '0X1', '0B1', '0O7', '1,0', '1O', 'O1', 'l0', '1/2', '1:0', '1-2', '1 2', '$1', '#1'):
    for k in (w, 'T' + w, 'E' + w):
      if len(k) <= n:
        out.update((k.ljust(n), k.rjust(n), k.ljust(n, '0'), k.center(n)))
        out.update((k + '123456789'[:n - len(k)], '123456789'[:n - len(k)] + k))
  return {x for x in out if len(x) == n}


def pool(r, dec, kind, n, scale):
  """values of a field, legal or not, most of them interesting"""
  cls = model.klass(dec)
  out = set(gen.fitted(n))
  out.update(gen.fresh_fitted(n))
  out.add(' ' * n)
  real = list(gen.realistic(dec, n))
  out.update(real if scale > 3 else r.sample(real, min(len(real), 150)))
  if cls == 'code':
    if n == 1:
      out.update(gen.PRINT)
    elif n == 2:
      out.update(a + b for a in gen.ALNUM + ' ' for b in gen.ALNUM + ' ')
      out.update(r.choice(gen.PRINT) + r.choice(gen.PRINT) for _ in range(100))
    tables = [t for k, t in model.CODES.items() if k.split(' ')[0].split('.')[0] == dec]
    words = sorted({c.ljust(n)[:n] for t in tables for c in t})
    out.update(words)
    out.update(neighbours(r, words, n))
    if dec == '017':
      sets = [sorted(model.CODES['017.%d' % i]) + [' ', 'q', '0'] for i in range(4)]
      every = [''.join(p) for p in itertools.product(*sets)]
      out.update(every if scale > 3 else r.sample(every, min(len(every), 800)))
      for i in range(4):
        for c in gen.PRINT:
          w = r.choice(every)
          out.add(w[:i] + c + w[i + 1:])
    for _ in range(300 * scale):
      w = gen.code(r, dec, kind, n)
      if w:
        out.add(w)
  elif cls == 'num':
    out.update(odd(n))
    limit = 1000 * scale
    if 10 ** n <= limit:
      out.update(str(i).zfill(n) for i in range(10 ** n))
    else:
      top = 10 ** n
      out.update(str(r.randrange(top)).zfill(n) for _ in range(limit // 2))
      out.update(str(r.randrange(10 ** r.randint(1, n))).zfill(n) for _ in range(limit // 4))
      out.update(str(i).zfill(n) for i in range(min(top, 200)))
      out.update(str(top - 1 - i) for i in range(20))
      for k in range(n):
        for d in range(1, 10):
          for x in (d * 10 ** k, d * 10 ** k - 1, d * 10 ** k + 1):
            if 0 <= x < top:
              out.add(str(x).zfill(n))
    for _ in range(300 * scale):
      w = gen.number(r, dec, n)
      if len(w) == n:
        out.add(w)
    digit = sorted(x for x in out if x.isdigit())
    for w in r.sample(digit, min(len(digit), 60 * scale)):
      k = r.randrange(n)
      out.add(w[:k] + r.choice(gen.PRINT) + w[k + 1:])
      out.add(w[:k].ljust(n))
      out.add(w[:k].rjust(n))
      out.add(w[:k] + ' ' + w[k + 1:])
    if dec in ('026', '027', '039', '178', '010', '045', '103'):
      for c in gen.PRINT:
        out.add(c + gen.digits(r, n - 1) if n > 1 else c)
        if n > 1:
          out.add(gen.digits(r, n - 1) + c)
    if dec == '178':
      out.update(c + d for c in gen.UPPER for d in ('00', '15', '30', '45', '59'))
    if dec == '039':
      out.update(c + str(i).zfill(n - 1) for c in 'EWTN' for i in range(0, 1800, max(1, 7 // scale)))
  else:
    for _ in range(150 * scale):
      out.add(gen.text(r, n))
      out.add(gen.formatted(r, n))
    for c in gen.PRINT:
      out.add(c * n)
      out.add((c + gen.text(r, n, gen.ALNUM))[:n])
      out.add((gen.text(r, n, gen.ALNUM) + c)[-n:])
      k = r.randrange(n)
      w = gen.text(r, n, gen.ALNUM)
      out.add(w[:k] + c + w[k + 1:])
    for _ in range(60):
      w = gen.text(r, n)
      out.add(gen.digits(r, n))
      out.add(w.lower())
  return [x for x in sorted(out) if len(x) == n]


def run(task, rep, cls):
  what, seed, part, parts, cap, scale = task
  r = gen.rng(rep.m.ID, *task)
  if what == 'every':
    return all_numbers(gen.rng(rep.m.ID, what, seed), rep, cls, part, parts, cap)
  for v in model.VARIANTS[part::parts]:
    (packed if what == 'packed' else whole)(r, v, rep, cls, cap, scale)


def every(dec, n):
  """all numbers of a field of n columns, if they can be enumerated"""
  if dec == '039':
    return [c + str(i).zfill(n - 1) for c in 'EWT' for i in range(10 ** (n - 1))] if n <= 5 else []
  if dec == '178':
    return [c + str(i).zfill(n - 1) for c in gen.UPPER for i in range(10 ** (n - 1))] if n <= 3 else []
  if n > 5:
    return []
  out = [str(i).zfill(n) for i in range(10 ** n)]
  if dec == '027':
    out += ['T' + str(i).zfill(n - 1) for i in range(10 ** (n - 1))]
  if dec == '026':
    out += [str(i).zfill(n - 1) + 'T' for i in range(10 ** (n - 1))]
  return out


def all_numbers(r, rep, cls, part, parts, stride):
  """every number of every item, spread over the fields that hold the item, in
  all record types; of five-digit ones each stride-th"""
  places = {}
  for v in model.VARIANTS:
    taken = set()
    for i in gen.free(v):
      name, cols, dec = v.fields[i]
      if model.klass(dec) == cls and not taken & set(cols):
        taken |= set(cols)
        places.setdefault((dec, len(cols)), []).append((v, name))
  todo = {}
  for (dec, n), where in sorted(places.items()):
    values = every(dec, n)
    if len(values) > 20000:
      values = values[r.randrange(stride)::stride]
    r.shuffle(values)
    for k, (v, name) in enumerate(where):
      todo.setdefault(v.id, {})[name] = values[k::len(where)][part::parts]
  for v in model.VARIANTS:
    work = todo.get(v.id, {})
    pick = [(name, cols, work[name]) for name, cols, dec in (v.fields[i] for i in gen.free(v)) if work.get(name)]
    for k in range(max([len(x) for _, _, x in pick], default=0)):
      if k % 50 == 0:
        base = common.good(r, v)
        if base is None:
          break
      line = list(base)
      for name, cols, vals in pick:
        gen.put(line, cols, vals[k % len(vals)])
      judge(rep, v, ''.join(line), cls, 'all numbers')


def whole(r, v, rep, cls, cap, scale):
  """whole random records, all continuation numbers and areas"""
  cs = common.conts(v)
  for k in range(cap):
    line = gen.record(r, v, cont=cs[k % len(cs)], legal_only=k % 8 != 7)
    judge(rep, v, line, cls, 'whole')


def judge(rep, v, line, cls, label):
  exp = model.expectation(v, line)
  mine = [(n, x, d) for n, x, d, _ in exp if model.klass(d) == cls]
  key = (v.id, tuple(x for _, x, _ in mine)) if mine else None
  rep.classes['cells judged'] += len(mine)
  return rep.case(dict(line=line), key, (label, v.kind.code), line)


def packed(r, v, rep, cls, cap, scale):
  kind = v.kind.code
  free = [v.fields[i] for i in gen.free(v)]
  mine = [f for f in free if model.klass(f[2]) == cls]
  taken = set()
  pick = []
  for f in mine:              # overlapping columns: only the first of them
    if not taken & set(f[1]):
      taken |= set(f[1])
      pick.append(f)
  if not pick:
    return
  base = common.good(r, v) or gen.record(r, v)
  clean, risky = {}, {}
  refuses = set()
  cache = {}
  for name, cols, dec in pick:
    ck = (dec, len(cols))
    if ck not in cache:
      p = pool(r, dec, kind, len(cols), scale)
      cache[ck] = ([x for x in p if model.clean(dec, x, kind)],
                   [x for x in p if not model.clean(dec, x, kind)])
    a, b = cache[ck]
    a, b = list(a), list(b)
    r.shuffle(a)
    r.shuffle(b)
    new = set(gen.fresh_fitted(len(cols)))
    new.update(odd(len(cols)) if cls == 'num' else ())
    a.sort(key=lambda x: x not in new)
    b.sort(key=lambda x: x in new)       # taken from the end
    clean[name], risky[name] = a, b
  n = min(cap, max(len(x) for x in clean.values()))
  for k in range(n):
    line = list(base)
    if k % 10 == 0:
      base = common.good(r, v) or base
      line = list(base)
    for name, cols, dec in pick:
      vals = clean[name]
      if vals:
        gen.put(line, cols, vals[k % len(vals)] if k < len(vals) else r.choice(vals))
    judge(rep, v, ''.join(line), cls, 'legal')
  # values outside their tables: packed while they do not raise
  work = {name: list(x)[:cap] for name, x in risky.items() if x}
  single = []
  k = 0
  while any(work.values()) and k < cap:
    k += 1
    line = list(base)
    used = []
    for name, cols, dec in pick:
      if work.get(name):
        x = work[name].pop()
        if dec in refuses:
          if len(single) < cap:
            single.append((cols, x))
          continue
        gen.put(line, cols, x)
        used.append((name, cols, dec, x))
    if not used:
      continue
    s = ''.join(line)
    rec, o = sut.read(s)
    if o.value is True and sut.call(rec.decode, False).refused:
      for name, cols, dec, x in used:
        alone = list(base)
        gen.put(alone, cols, x)
        alone = ''.join(alone)
        judge(rep, v, alone, cls, 'illegal alone')
        rec, o = sut.read(alone)
        if o.value is True and sut.call(rec.decode, False).refused:
          refuses.add(dec)
    else:
      judge(rep, v, s, cls, 'illegal')
  for cols, x in single:
    line = list(base)
    gen.put(line, cols, x)
    judge(rep, v, ''.join(line), cls, 'illegal alone')
