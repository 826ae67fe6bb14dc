"""Generators of values, records and lines.  Every random choice comes from the
random.Random handed in, so a run is a function of the seed and the code."""
import ast
import glob
import os
import random
import string

import model

UPPER = string.ascii_uppercase
DIGITS = string.digits
PRINT = [chr(c) for c in range(32, 127)]
ALNUM = UPPER + DIGITS


def rng(*parts):
  return random.Random('|'.join(str(p) for p in parts))


# ---- dictionary harvested from the constants of the code under test --------

def harvest(repo):
  """string and integer constants in the sources: magic values that a special
  case in the code would be keyed on"""
  words = set()

  def add(v):
    if isinstance(v, bytes):
      v = v.decode('latin-1')
    if isinstance(v, str):
      if 0 < len(v) <= 40 and v.isprintable():
        words.add(v)
    elif isinstance(v, (int, float)) and not isinstance(v, bool) and 0 <= v < 10 ** 7:
      for n in {int(v) - 1, int(v), int(v) + 1, int(v * 10), int(v * 100)}:
        if n >= 0:
          words.add(str(n))

  def folded(code):
    for c in code.co_consts:
      if hasattr(c, 'co_consts'):
        folded(c)
      elif isinstance(c, (tuple, frozenset)):
        for x in c:
          add(x)
      elif not isinstance(c, str):
        add(c)

  for path in sorted(glob.glob(os.path.join(repo, 'src', '**', '*.py'), recursive=True)):
    try:
      tree = ast.parse(open(path, encoding='utf-8').read())
      folded(compile(tree, path, 'exec'))
    except (SyntaxError, UnicodeDecodeError, OSError, ValueError):
      continue
    doc = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
    for node in ast.walk(tree):
      if isinstance(node, ast.Constant) and id(node) not in doc:
        add(node.value)
      elif isinstance(node, ast.Compare):
        # what the two sides of a comparison make together
        ns = [n.value for n in ast.walk(node) if isinstance(n, ast.Constant) and type(n.value) is int and 1 < n.value < 10 ** 7]
        ops = [n for n in ast.walk(node) if isinstance(n, ast.BinOp)]
        if ops and 1 < len(ns) < 5:
          for a in ns:
            for b in ns:
              if a is not b:
                words.update(str(x) for x in (a * b, a // b, a + b, a - b) if 0 <= x < 10 ** 7)
  return sorted(words)


_H = {}
_BASE = {}


def fresh():
  """harvested words that the reference tree does not have (lib/words.txt):
  what a change introduced; generators prefer them.  Empty on that tree."""
  if 'words' not in _BASE:
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'words.txt')
    with open(path, encoding='utf-8') as f:
      known = {x.rstrip('\n') for x in f}
    _BASE['words'] = [w for w in words() if w not in known][:400]
  return _BASE['words']


def fresh_fitted(width):
  if ('f', width) not in _BASE:
    out = sorted(fit(fresh(), width))
    r = rng('fresh', width)
    if len(out) > 300:
      out = sorted(r.sample(out, 300))
    more = sorted(extended(r, fresh(), width) - set(out))
    room = max(0, 300 - len(out))
    if len(more) > room:
      more = r.sample(more, room)
    _BASE['f', width] = sorted(out + more)
  return _BASE['f', width]


def extended(r, ws, width):
  """texts that contain a word, or two, among others; characters of numbers;
  texts that a word matches as a pattern"""
  out = set()
  short = [w for w in ws if len(w) < width][:80]
  for w in short:
    for alphabet in (UPPER, DIGITS):
      fill = ''.join(r.choice(alphabet) for _ in range(width - len(w)))
      k = r.randint(0, len(fill))
      out.update((w + fill, fill + w, fill[:k] + w + fill[k:]))
    if w.isdigit() and 32 < int(w) < 127:
      c = chr(int(w))
      fill = ''.join(r.choice(ALNUM) for _ in range(width - 1))
      out.update((c * width, (c + fill)[:width], (fill + c)[-width:]))
  for a in short[:12]:
    for b in short[:12]:
      k = width - len(a) - len(b)
      if a != b and k >= 0:
        out.update((a + ''.join(r.choice(DIGITS) for _ in range(k)) + b, a + ' ' * k + b))
  for w in ws:
    if any(c in w for c in '[\\^$*+?{(|.'):
      for x in matching(r, w, 40):
        if len(x) <= width:
          fill = ''.join(r.choice(ALNUM) for _ in range(width - len(x)))
          out.update((x.ljust(width), x.rjust(width), x + fill))
  return {x for x in out if len(x) == width}


def matching(r, pattern, n):
  """some texts that a regular expression matches"""
  try:
    from re import _parser
    tree = _parser.parse(pattern)
  except Exception:
    return []

  def one(items):
    out = []
    for op, arg in items:
      op = str(op)
      if op == 'LITERAL':
        out.append(chr(arg))
      elif op == 'NOT_LITERAL':
        out.append(r.choice([c for c in ALNUM if c != chr(arg)]))
      elif op == 'ANY':
        out.append(r.choice(ALNUM))
      elif op == 'IN':
        out.append(r.choice(charset(arg)))
      elif op == 'BRANCH':
        out.append(one(r.choice(arg[1])))
      elif op == 'SUBPATTERN':
        out.append(one(arg[-1]))
      elif op in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, sub = arg
        out += [one(sub) for _ in range(r.randint(int(lo), min(int(hi), int(lo) + 3)))]
    return ''.join(out)

  def charset(items):
    keep, negate = set(), False
    for op, arg in items:
      op = str(op)
      if op == 'NEGATE':
        negate = True
      elif op == 'LITERAL':
        keep.add(chr(arg))
      elif op == 'RANGE':
        keep.update(chr(c) for c in range(arg[0], min(arg[1], arg[0] + 200) + 1))
      elif op == 'CATEGORY':
        keep.update({'CATEGORY_DIGIT': DIGITS, 'CATEGORY_SPACE': ' ', 'CATEGORY_WORD': ALNUM}.get(str(arg), PRINT))
    if negate:
      keep = set(PRINT) - keep
    return sorted(keep) or [' ']

  try:
    return sorted({one(tree) for _ in range(n)})
  except Exception:
    return []


def words(repo=None):
  import sut
  repo = repo or sut.REPO
  if repo not in _H:
    _H[repo] = harvest(repo)
  return _H[repo]


_FIT = {}


def fit(ws, width):
  out = set()
  for w in ws:
    if len(w) > width:
      continue
    if w.isdigit():
      out.add(w.zfill(width))
      if len(w) < width:
        out.add(w.ljust(width, '0'))
    out.add(w.ljust(width))
    out.add(w.rjust(width))
  return out


def fitted(width):
  """harvested words that fit a field of this width, padded to it"""
  if width not in _FIT:
    _FIT[width] = sorted(fit(words(), width) | set(fresh_fitted(width)))
  return _FIT[width]


# ---- sample records of the repository -------------------------------------

def samples():
  import sut
  out = []
  for path in sorted(glob.glob(os.path.join(sut.REPO, 'data', 'ARINC-424-18', '*'))):
    if os.path.isfile(path):
      with open(path, encoding='utf-8', errors='replace') as f:
        out += [x.rstrip('\r\n') for x in f]
  return sorted({x for x in out if model.accept(x)})


_REAL = {}


def realistic(dec, n):
  """values that fields of this item and width have in the sample data"""
  if not _REAL:
    _REAL[None] = []
    for x in samples():
      v = model.accept(x)
      for (name, value), (_, cols, d) in zip(model.values(v, x.strip()), v.fields):
        _REAL.setdefault((d, len(cols)), set()).add(value)
    for k in list(_REAL):
      _REAL[k] = sorted(_REAL[k])
  return _REAL.get((dec, n), ())


def formatted(r, n):
  """text in a common ARINC format: coordinates, bearings, times, idents"""
  if n == 9:
    return r.choice('NS') + '%02d%02d%02d%02d' % (r.randint(0, 90), r.randint(0, 60), r.randint(0, 60), r.randint(0, 99))
  if n == 10:
    return r.choice('EW') + '%03d%02d%02d%02d' % (r.randint(0, 180), r.randint(0, 60), r.randint(0, 60), r.randint(0, 99))
  if n == 5:
    return r.choice(('RW%02d%s' % (r.randint(1, 36), r.choice('LCR ')), '%s%04d' % (r.choice('EWT+-'), r.randint(0, 1800)),
                     'FL%03d' % r.randint(0, 600), ''.join(r.choice(UPPER) for _ in range(5))))
  if n == 4:
    return r.choice((r.choice('KECLPY') + ''.join(r.choice(UPPER) for _ in range(3)), '%04d' % r.randint(0, 3600),
                     '%03dT' % r.randint(0, 360), '%02d%02d' % (r.randint(0, 24), r.randint(0, 60)), '-%03d' % r.randint(0, 900)))
  if n == 3:
    return r.choice(('%03d' % r.randint(0, 360), '%02d' % r.randint(0, 99) + r.choice('LRC'), 'N%02d' % r.randint(0, 90)))
  if n == 2:
    return r.choice((r.choice('KLEPCY') + r.choice(DIGITS), '%02d' % r.randint(0, 99)))
  words_ = ['%s' % ''.join(r.choice(UPPER) for _ in range(r.randint(1, 9))) for _ in range(6)]
  return ' '.join(words_)[:n].ljust(n)


# ---- values ---------------------------------------------------------------

def digits(r, n):
  k = r.random()
  if k < .15:
    return '0' * n
  if k < .3:
    return str(r.randrange(10 ** r.randint(0, n))).zfill(n)[-n:]
  if k < .35:
    return '9' * n
  return ''.join(r.choice(DIGITS) for _ in range(n))


def shape(r, n, alphabet):
  """text with a regularity that a condition could be about"""
  if n < 1:
    return ''
  s = ''.join(r.choice(alphabet) for _ in range(n))
  k = r.randrange(10)
  if k == 0:
    return s[0] * n
  if k == 1:
    h = s[:(n + 1) // 2]
    return h + h[:n // 2][::-1]
  if k == 2:
    h = s[:max(1, n // 2)]
    return (h * 3)[:n]
  if k == 3:
    return ''.join(sorted(s))
  if k == 4:
    return ''.join(r.choice(UPPER if i % 2 else DIGITS) for i in range(n))
  if k == 5:
    i = r.randrange(n)
    return s[:i] + ' ' + s[i + 1:]
  if k == 6:
    i = r.randrange(n)
    return (s[:i] + '  ' + s[i:])[:n]
  if k == 7:
    return ('0' * r.randint(1, 3) + s)[:n]
  if k == 8:
    return (s + '0' * r.randint(1, 3))[-n:]
  return s.lower() if r.random() < .5 else s.title()


def text(r, n, alphabet=None):
  """free text of n characters with blanks in all places"""
  k = r.random()
  if k < .12:
    return ' ' * n
  if k < .30:
    f = fresh_fitted(n) if r.random() < .7 else fitted(n)
    if not f:
      f = fitted(n)
    if f:
      return r.choice(f)
  if k < .40:
    return formatted(r, n)
  if k < .46:
    return shape(r, n, alphabet or r.choice((UPPER, ALNUM, DIGITS)))
  if alphabet is None:
    alphabet = r.choice((UPPER, ALNUM, ALNUM + ' ', DIGITS, PRINT))
  s = ''.join(r.choice(alphabet) for _ in range(n))
  k = r.random()
  if k < .3:
    s = s[:r.randint(0, n)].ljust(n)
  elif k < .4:
    s = s[:r.randint(0, n)].rjust(n)
  return s


def code(r, dec, kind, n):
  """a legal value of a coded field"""
  if dec == '016':
    return r.choice(ALNUM)
  if dec == '017':
    return ''.join(r.choice(sorted(model.CODES['017.%d' % i]) + [' ', ' ', 'Q']) for i in range(4))
  if dec in ('042', '196'):
    a, b = sorted(model.CODES[dec + '.0']), sorted(model.CODES[dec + '.1'])
    s = r.choice(a + [' ', ' ', 'X']) + r.choice(b)
    return (s + r.choice(UPPER + ' ')).ljust(n)[:n]
  if dec == '082':
    return r.choice(' R') + r.choice(sorted(model.CODES['082.1']))
  if dec == '118':
    return r.choice(sorted(model.CODES['118.0'])) + r.choice(' E')
  t = sorted(model.table(dec, kind))
  if not t:
    return None
  return r.choice(t).ljust(n)[:n]


def number(r, dec, n):
  if dec == '010':
    return text(r, n, ALNUM)
  if dec == '012':
    return digits(r, n) if r.random() < .7 else text(r, n, ALNUM)
  if dec == '039':
    return r.choice('EWTN') + digits(r, n - 1)
  if dec == '178':
    return r.choice('ZABCDEFGHIKLMNOPQRSTUVWXY') + r.choice(('00', '30', '45', digits(r, 2)))
  if dec in ('026', '027') and r.random() < .25:
    return digits(r, n - 1) + 'T' if dec == '026' else 'T' + digits(r, n - 1)
  if dec in model.FEET or dec in model.FEET100:
    k = r.random()
    if k < .2:
      return r.choice(('FL450', 'FL100', 'UNKNN', 'NOTSP', 'GND  ', 'UNLTD', 'MSL  ', 'B', '+', '-')).ljust(n)[:n]
    if k < .4:
      return text(r, n)
  return digits(r, n)


def legal(r, dec, kind, n):
  """a value of n characters that decodes (by the model), for any field"""
  for _ in range(20):
    k = r.random()
    c = model.klass(dec)
    new = fresh_fitted(n)
    real = realistic(dec, n)
    if new and r.random() < .2:
      v = r.choice(new)
    elif real and r.random() < .15:
      v = r.choice(real)
    elif c == 'code':
      v = code(r, dec, kind, n) if k < .9 else ' ' * n
    elif c == 'num':
      v = number(r, dec, n) if k < .75 else r.choice(fitted(n) or ['']) if k < .9 else ' ' * n
    elif dec in model.CHECKED_ALNUM:
      v = text(r, n, ALNUM) if dec == '008' else text(r, min(n, 4), ALNUM).ljust(n)
    elif dec in model.CHECKED_ALPHA:
      v = r.choice(UPPER + ' ')
    else:
      v = text(r, n)
    if v is not None and len(v) == n and model.clean(dec, v, kind):
      return v
  for v in (' ' * n, '0' * n, 'E' + '0' * (n - 1), 'A' * n, 'Y' * n, 'C' * n):
    if model.clean(dec, v, kind):
      return v
  return None


# ---- records --------------------------------------------------------------

def free_fields(variant):
  """indices of fields whose columns are all free to choose"""
  sel = model.selecting(variant)
  fixed = sel | set(range(123, 132))
  return [i for i, (_, c, _d) in enumerate(variant.fields)
          if not fixed.intersection(c)]


_FREE = {}


def free(variant):
  if variant.id not in _FREE:
    _FREE[variant.id] = free_fields(variant)
  return _FREE[variant.id]


def skeleton(r, variant, cont=None, app=None, split=None, blank=False):
  """132 columns as a list: selecting columns right, gaps filled, no fields"""
  kind = variant.kind
  line = [' '] * 132
  if not blank:
    fill = r.random()
    for i in range(132):
      if fill > .5:
        line[i] = r.choice(PRINT) if fill > .75 else ' '
  line[0] = r.choice('ST')
  c1, c2 = kind.code
  line[4] = c1
  if split is None:
    split = kind.code in model.SPLIT and r.random() < .85
  if split:
    line[12] = c2
    line[5] = ' '
    if not blank and r.random() < .3:
      line[5] = r.choice([x for x in PRINT if c1 + x not in model.KINDS])
    if c1 + line[5] in model.KINDS:      # R and D have a blank subsection
      line[5] = '~'
  else:
    line[5] = c2
  if kind.cont is not None:
    if cont is None:
      cont = r.choice('01') if variant.primary else r.choice('23456789ABCXYZa')
    line[kind.cont] = cont
    if variant.name not in ('primary',):
      a = app if app is not None else variant.app
      if a == 'OTHER':
        a = r.choice([x for x in PRINT if 'cont ' + x.replace(' ', '_') not in kind.variants])
      for i, col in enumerate(kind.app):
        line[col] = a[i]
  for i in range(123, 132):
    line[i] = r.choice(DIGITS)
  k = r.random()
  if k < .05:
    line[123:128] = r.choice(('00000', '00001', '99999'))
  elif k < .10:
    line[128:132] = r.choice(('0000', '9913', '0001', '5001', '5113', '2413'))
  elif k < .12:
    line[123:132] = r.choice('09') * 9
  elif k < .17:
    line[123:128] = r.choice(fitted(5)).strip().zfill(5) if r.random() < .5 else line[123:128]
    for i in range(123, 128):
      if line[i] not in DIGITS:
        line[i] = '0'
  return line


AREAS = sorted(model.CODES['003'])


def put(line, cols, value):
  for i, c in enumerate(cols):
    line[c] = value[i]


def record(r, variant, cont=None, app=None, split=None, legal_only=True, blank=False):
  """a record of the variant; with legal_only every field decodes, unless a
  field shares columns with the application type (then by luck)"""
  line = skeleton(r, variant, cont, app, split, blank)
  kind = variant.kind.code
  base = blank or r.random() < .1
  for i in free(variant):
    name, cols, dec = variant.fields[i]
    if legal_only:
      v = legal(r, dec, kind, len(cols)) if not base else \
          (' ' * len(cols) if model.clean(dec, ' ' * len(cols), kind) else legal(r, dec, kind, len(cols)))
    else:
      v = text(r, len(cols)) if r.random() < .5 else (legal(r, dec, kind, len(cols)) or text(r, len(cols)))
    if v is not None:
      put(line, cols, v)
  if line[1:4] == [' '] * 3 or r.random() < .5:
    line[1:4] = r.choice(AREAS)
  if not blank and r.random() < .12:
    alike(r, variant, line, legal_only)
  if legal_only:
    repair(r, variant, line)
  return ''.join(line)


def alike(r, variant, line, legal_only):
  """give fields of one width the same text, or all fields the same character"""
  kind = variant.kind.code
  fields = [variant.fields[i] for i in free(variant)]
  if not fields:
    return
  src = r.choice(fields)
  v = ''.join(line[c] for c in src[1])
  c = r.choice(ALNUM)
  one = r.random() < .3
  for name, cols, dec in fields:
    w = c * len(cols) if one else v
    if len(w) == len(cols) and r.random() < .8 and (not legal_only or model.clean(dec, w, kind)):
      put(line, cols, w)


def repair(r, variant, line):
  """partly fixed or overlapping fields: retry their free columns"""
  kind = variant.kind.code
  fixed = model.selecting(variant) | set(range(123, 132))
  for name, cols, dec in variant.fields:
    for _ in range(30):
      v = ''.join(line[c] for c in cols)
      if model.clean(dec, v, kind):
        break
      w = legal(r, dec, kind, len(cols)) or ' ' * len(cols)
      for i, c in enumerate(cols):
        if c not in fixed:
          line[c] = w[i]


def decodable(variant, line):
  return all(e[3][0] in ('is', 'starts') for e in model.expectation(variant, line))


def junk(r):
  """a line that is (usually) not a record"""
  k = r.randrange(9)
  if k == 0:
    return ''
  if k == 1:
    return '#' + text(r, r.randint(0, 60))
  v = r.choice(model.VARIANTS)
  s = record(r, v)
  if k == 2:
    return s[:r.randint(0, 131)]
  if k == 3:
    return s + r.choice(ALNUM)
  if k == 4:
    i = r.randint(123, 131)
    return s[:i] + r.choice(UPPER + '-. ') + s[i + 1:]
  if k == 5:
    return r.choice('XHV#st') + s[1:]
  if k == 6:
    return s[:4] + r.choice('XQZ') + s[5:]
  if k == 7 and v.kind.cont is not None:
    return s[:v.kind.cont] + r.choice(' -+.') + s[v.kind.cont + 1:]
  return text(r, 132, PRINT)
