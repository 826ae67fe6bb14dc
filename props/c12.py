"""C12: results do not depend on what was processed before.

A case is a pool of lines and a sequence of operations on several Records.  The
expected observations of every line are taken in a process that has done
nothing else (a child forked before the library was ever called); the sequence
runs in one other child, and every observation in it must be the expected one.
"""
import common
import decoding
import gen
import harness
import model
import sut

ID = 'C12'
RULE = ('non-trivial: a sequence of at least five operations with at least two different lines; '
        'distinct by operations and lines')
ASSUMPTIONS = ['a fresh process is the reference for what a line means']

OPS = ('read', 'read', 'read', 'read', 'json', 'jsonl', 'decode', 'decode', 'primary', 'hasCont', 'parse', 'new')


def tasks(ctx):
  out = [('short', ctx.seed, i, ctx.n(24, 500), 40, 12) for i in range(24)]
  out += [('long', ctx.seed, i, ctx.n(2, 40), ctx.n(1500, 4000), 40) for i in range(24)]
  out += [('many', ctx.seed, i, ctx.n(1, 4), ctx.n(70000, 300000), 24) for i in range(8)]
  out += [('touch', ctx.seed, i, ctx.n(1, 6), 32, 6) for i in range(32)]
  return out


def fresh(line):
  """what a fresh process observes for one line"""
  r = sut.Record()
  o = sut.call(r.read, line)
  d = dict(read=_o(o))
  d['json'] = _o(sut.call(r.json, True, True))
  d['jsonl'] = _o(sut.call(r.json, True, False))
  d['decode'] = _o(sut.call(r.decode, True))
  d['primary'] = _o(sut.call(r.primary))
  d['hasCont'] = _o(sut.call(r.hasCont))
  return d


def fresh_parse(line):
  return _o(sut.call(sut.arinc424.parse, line))


def _o(o):
  return (o.value, type(o.exc).__name__ if o.exc is not None else None, o.out)


def empty():
  """what a new Record reports"""
  r = sut.Record()
  return dict(json=_o(sut.call(r.json, True, True)), jsonl=_o(sut.call(r.json, True, False)),
              decode=_o(sut.call(r.decode, True)), primary=_o(sut.call(r.primary)), hasCont=_o(sut.call(r.hasCont)))


_CACHE = {}
NONE = ('a new Record',)


def reference(line, parse):
  for key, fn in (((line, 'record'), fresh), ((line, 'parse'), fresh_parse))[:2 if parse else 1]:
    if key not in _CACHE:
      kind, d = harness.in_child(lambda: fn(line))
      if kind != 'ok':
        return None
      _CACHE[key] = d
  return dict(_CACHE[line, 'record'], parse=_CACHE.get((line, 'parse')))


def many(case):
  """operations of a long history: mostly reads, every line checked in full
  again at some points"""
  r = gen.rng('many', case['salt'])
  n, k = case['count'], len(case['lines'])
  full = ('read', 'json', 'decode', 'jsonl', 'primary', 'hasCont', 'parse')
  style = case['style']
  # some objects hold their record all the time
  out = [('read', 2 + i, i) for i in range(min(k, 12))] + [('read', 0, 0)]
  n += len(out)
  while len(out) < n:
    if style == 'same':                    # one line and one object again and again
      out.append((r.choice(('decode', 'decode', 'json')), 0, 0))
    elif style == 'objects':               # always another object
      out.append(('new', 0, 0))
      out.append(('read', 0, r.randrange(k)))
    elif style == 'decodes':
      i = r.randrange(k)
      out += [('read', 0, i), ('decode', 0, i)]
    else:
      out.append(('read', 0, r.randrange(k)))
  out += [(op, 2 + i, i) for i in range(min(k, 12)) for op in full[1:6]]
  for i in range(k):
    out += [(op, 1, i) for op in full]
  return out


def check(case):
  if 'salt' in case:
    return judge(case['lines'], many(case))
  return judge(case['lines'], [tuple(o) for o in case['ops']])


def judge(lines, ops):
  parsed = {o[2] for o in ops if o[0] == 'parse'}
  seen = {o[2] for o in ops if o[0] != 'touch'}
  refs = [reference(x, i in parsed) if i in seen else False for i, x in enumerate(lines)]
  if NONE not in _CACHE:
    kind, d = harness.in_child(empty)
    if kind != 'ok':
      return None
    _CACHE[NONE] = d
  none = _CACHE[NONE]
  if any(x is None for x in refs):
    return None
  # a rejected read leaves the object holding no record
  for line, ref in zip(lines, refs):
    if ref and ref['read'][0] is False:
      for k in none:
        if ref[k] != none[k]:
          return ('rejected read keeps %s' % k, 'after the rejected read of %r, %s gives %r instead of %r' % (
              line, k, ref[k], none[k]))
  kind, bad = harness.in_child(lambda: execute(lines, refs, none, ops))
  if kind == 'hang':
    return ('hang', 'a sequence of %d operations does not come to an end' % len(ops))
  if kind != 'ok':
    return ('process ended', 'the process ended in a sequence of operations: %s' % bad)
  return bad


def execute(lines, refs, none, ops):
  recs = {}
  holds = {}
  for i, (op, obj, arg) in enumerate(ops):
    if op == 'new' or obj not in recs:
      recs[obj] = sut.Record()
      holds[obj] = none
      if op == 'new':
        continue
    r = recs[obj]
    if op == 'touch':           # process it, whatever comes of it
      sut.call(r.read, lines[arg])
      sut.call(r.json, False)
      sut.call(r.decode, False)
      del recs[obj]
      continue
    if op == 'read':
      got = _o(sut.call(r.read, lines[arg]))
      want = refs[arg]['read']
      holds[obj] = refs[arg] if want[0] is True else none
    elif op == 'parse':
      got, want = _o(sut.call(sut.arinc424.parse, lines[arg])), refs[arg]['parse']
    else:
      fn = dict(json=lambda: r.json(True, True), jsonl=lambda: r.json(True, False), decode=lambda: r.decode(True),
                primary=r.primary, hasCont=r.hasCont)[op]
      got, want = _o(sut.call(fn)), holds[obj][op]
    if got != want:
      what = [k for k, a, b in zip(('value', 'exception', 'output'), got, want) if a != b]
      j = what and ('value', 'exception', 'output').index(what[0])
      d = common.differ(dict(x=want[j]), dict(x=got[j])) or ''
      return ('%s %s' % (op, what[0]), 'operation %d, %s on object %r%s, gives another %s than in a fresh process: %s' % (
          i + 1, op, obj, ' with %r' % lines[arg] if op in ('read', 'parse') else '', what[0], d[3:]))
  return None


def shrink(case):
  if 'salt' in case:
    n = case['count']
    for k in (1, n // 10, n // 2, n * 9 // 10, n * 99 // 100, n - 1):
      if 0 < k < n:
        yield dict(case, count=k)
    return
  ops = case['ops']
  for part in common.shrink_list(ops):
    if part:
      yield dict(case, ops=part)
  used = sorted({o[2] for o in ops})
  if len(used) < len(case['lines']):
    new = {a: i for i, a in enumerate(used)}
    yield dict(case, lines=[case['lines'][a] for a in used], ops=[[o[0], o[1], new[o[2]]] for o in ops])
  if len(ops) <= 12:
    for i, line in enumerate(case['lines']):
      for s in common.shrink_line(line):
        yield dict(case, lines=case['lines'][:i] + [s] + case['lines'][i + 1:])


def pool(r, n):
  """lines that share as much as possible: same content under another kind,
  one field changed, primary and continuation of one kind, rejected twins"""
  out = []
  while len(out) < n:
    v = r.choice(model.VARIANTS)
    base = gen.record(r, v, legal_only=r.random() < .85)
    out.append(base)
    for _ in range(r.randint(0, 4)):
      m = r.randrange(6)
      line = list(base)
      if m == 0:                                   # same text, another kind
        other = r.choice(model.VARIANTS)
        twin = gen.skeleton(r, other)
        for i in model.selecting(other):
          line[i] = twin[i]
      elif m == 1:                                 # one field changed
        name, cols, dec = r.choice(v.fields)
        if max(cols) < 123:
          gen.put(line, cols, gen.legal(r, dec, v.kind.code, len(cols)) or gen.text(r, len(cols)))
      elif m == 2 and v.kind.cont is not None:     # other continuation number
        line[v.kind.cont] = r.choice('0123A ')
      elif m == 3:                                 # sibling kind
        line[5 if line[5] != ' ' else 12] = r.choice('ACDEFPNRSTUV')
      elif m == 4:                                 # rejected twin
        line[r.choice((0, 4, 125))] = 'X'
      else:                                        # same record, other cycle
        line[123:132] = [r.choice(gen.DIGITS) for _ in range(9)]
      out.append(''.join(line))
    if r.random() < .3:
      out.append(gen.junk(r))
    if r.random() < .1:
      out.append('  ' + base + '\n')
  r.shuffle(out)
  return out[:n]


def run(task, rep):
  what, seed, part, n, length, size = task
  r = gen.rng(ID, *task)
  if what == 'touch':
    return touch(r, part, n, length, size, rep)
  if what == 'many':
    for k in range(n):
      _CACHE.clear()
      style = ('reads', 'same', 'objects', 'decodes')[part % 4]
      count = length // 14 if style in ('same', 'decodes') else length
      case = dict(lines=pool(r, size), salt=r.random(), count=count, style=style)
      rep.classes['operations'] += count
      rep.case(case, repr(case), ('many', style), dict(lines=case['lines'][:2], style=style, count=count))
    return
  for k in range(n):
    _CACHE.clear()
    lines = pool(r, size)
    ops = []
    for _ in range(length if what == 'long' else r.randint(4, length)):
      op = r.choice(OPS)
      if op == 'new' and r.random() < .5:
        op = 'read'
      ops.append([op, r.randrange(4), r.randrange(len(lines))])
    rep.classes['operations'] += len(ops)
    rep.case(dict(lines=lines, ops=ops), (tuple(lines), repr(ops)), (what,), dict(lines=lines[:2], ops=ops[:8]))


def touch(r, part, n, parts, size, rep):
  """for every variant: some records of its kind, then many others of the same
  kind with every sort of content, then the same records again"""
  for v in model.VARIANTS[part::parts]:
    for _ in range(n):
      _CACHE.clear()
      kin = [x for x in model.VARIANTS if x.kind.code[0] == v.kind.code[0] or x.kind.code[1] == v.kind.code[1]]
      base = common.good(r, v) or gen.record(r, v)
      lines = [base] + [gen.record(r, v, legal_only=True) for _ in range(size // 2)]
      lines += [gen.record(r, r.choice(kin), legal_only=True) for _ in range(size // 2)]
      # and every code of every coded field, to be recognised afterwards too
      coded = [f for f in v.fields if model.klass(f[2]) == 'code' and max(f[1]) < 123 and not set(f[1]) & model.selecting(v)]
      codes = {f[0]: sorted({c.ljust(len(f[1]))[:len(f[1])] for c in model.table(f[2], v.kind.code)})
               for f in coded if f[2] in model.SIMPLE}
      top = max([len(x) for x in codes.values()], default=0)
      for k in range(top):
        line = list(base)
        for name, cols, dec in coded:
          if codes.get(name):
            gen.put(line, cols, codes[name][k % len(codes[name])])
        lines.append(''.join(line))
      keep = len(lines)
      # content that a special case could be keyed on, one field at a time
      for name, cols, dec in v.fields:
        w = len(cols)
        if max(cols) >= 123 or set(cols) & model.selecting(v):
          continue
        values = list(gen.fresh_fitted(w)[:60]) + r.sample(gen.fitted(w), min(3, len(gen.fitted(w))))
        if model.klass(dec) == 'code':
          p = decoding.pool(r, dec, v.kind.code, w, 1)
          values += r.sample(p, min(len(p), 80))
        for x in values + [' ' * w, gen.text(r, w), gen.formatted(r, w)]:
          if len(x) == w:
            line = list(base if r.random() < .7 else gen.record(r, v))
            gen.put(line, cols, x)
            lines.append(''.join(line))
      for _ in range(6):
        lines.append(gen.record(r, v, legal_only=False))
        lines.append(gen.record(r, r.choice(kin), legal_only=False))
      ops = []
      for again in range(2):
        for i in range(keep):
          for op in ('read', 'json', 'decode', 'jsonl', 'primary', 'hasCont'):
            ops.append([op, i % 4, i])
        if not again:
          ops += [['touch', 4, i] for i in range(keep, len(lines))]
      rep.classes['operations'] += len(ops)
      rep.case(dict(lines=lines, ops=ops), (tuple(lines), 'touch'), ('touch', v.kind.code), dict(lines=lines[:2], ops=ops[:8]))
