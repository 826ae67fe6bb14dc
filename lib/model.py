"""Reference model of the library: acceptance, layouts and field decoding.

Written against layout.txt and codes.txt only; it never looks at the code
under test.  Decoding of one field yields an expectation:
  ('is', text)        the decoded cell is this text (up to surrounding blanks)
  ('starts', text)    the decoded cell starts with this text
  ('unknown', metas)  a code outside its table: unknown marker, the value
                      itself, or ValueError, but none of the meanings in metas
  ('any',)            not judged (ValueError allowed)
"""
import os
import re
from functools import lru_cache

HERE = os.path.dirname(os.path.abspath(__file__))
DIGITS = '0123456789'


class Variant:
  __slots__ = ('kind', 'name', 'fields', 'primary', 'app')

  def __init__(self, kind, name, fields):
    self.kind = kind            # Kind
    self.name = name            # 'primary', 'cont A', 'primary AE', ...
    self.fields = fields        # [(label, cols tuple, dec)]
    self.primary = name.startswith('primary')
    a = name.split(' ')
    self.app = a[1].replace('_', ' ') if len(a) > 1 else None

  @property
  def id(self):
    return self.kind.code + '/' + self.name


class Kind:
  __slots__ = ('code', 'cont', 'app', 'variants')

  def __init__(self, code, cont, app):
    self.code = code
    self.cont = cont            # column or None
    self.app = app              # tuple of columns or None
    self.variants = {}


def cols(expr):
  out = []
  for part in expr.split('+'):
    if ':' in part:
      a, b = part.split(':')
      out += range(int(a), int(b))
    else:
      out.append(int(part))
  return tuple(out)


def _load():
  kinds, layouts = {}, {}
  kind = cur = None
  for line in open(os.path.join(HERE, 'layout.txt')):
    line = line.rstrip('\n')
    if not line or line.startswith('#'):
      continue
    if line.startswith('KIND '):
      _, code, c, a = line.split(' ')
      c, a = c[5:], a[4:]
      kind = Kind(code.replace('_', ' '), None if c == '-' else int(c),
                  None if a == '-' else cols(a))
      kinds[kind.code] = kind
    elif line.startswith('    '):
      name, c, dec = [x.strip() for x in line.split('|')]
      cur.append((name, cols(c), dec))
    else:
      name, _, same = line.strip().partition(' = ')
      cur = layouts[same] if same else []
      layouts.setdefault(kind.code.replace(' ', '_') + '/' + name.replace(' ', '/'), cur)
      kind.variants[name] = Variant(kind, name, cur)
  return kinds


KINDS = _load()
VARIANTS = [v for k in KINDS.values() for v in k.variants.values()]


def _codes():
  t = {}
  for line in open(os.path.join(HERE, 'codes.txt')):
    if line.startswith('#'):
      continue
    key, code, meaning = line.rstrip('\n').split('|')
    item, _, rest = key.partition(' ')
    for k in (rest.split(' ') if rest else ['']):
      t.setdefault((item + ' ' + k).strip(), {})[code] = meaning
  return t


CODES = _codes()

# kinds whose section code is found in columns 5 and 13 in real data
SPLIT = {k for k in KINDS if k[0] in 'PH' and k not in ('PN',)}


# --------------------------------------------------------------- acceptance

def identify(line):
  """kind of a 132 character line by its section code, or None"""
  a, b = line[4:6], line[4] + line[12]
  return KINDS.get(a) or KINDS.get(b)


def variant_of(line):
  """Variant of a stripped line, or None when it must be rejected."""
  if len(line) != 132 or line[0] not in 'ST':
    return None
  if any(c not in DIGITS for c in line[-9:]):
    return None
  kind = identify(line)
  if kind is None:
    return None
  if kind.cont is None:
    return kind.variants['primary']
  c = line[kind.cont]
  if not c.isalnum():
    return None
  app = ''.join(line[i] for i in kind.app).replace('_', '\x00').replace(' ', '_')
  first = 'primary' if c in '01' else 'cont'
  if first in kind.variants:
    return kind.variants[first]
  return kind.variants.get(first + ' ' + app) or kind.variants.get(first + ' OTHER')


def judged(line):
  """False where acceptance is left open: non-ASCII digits and letters in the
  columns that decide it (str.isnumeric / isalnum accept them)."""
  line = line.strip()
  if len(line) != 132:
    return True
  if any(ord(c) > 127 for c in line[-9:]):
    return False
  kind = identify(line)
  if kind is not None and kind.cont is not None and ord(line[kind.cont]) > 127:
    return False
  return True


def accept(line):
  return variant_of(line.strip())


def values(variant, line):
  """[(label, value)] the record must report"""
  return [(n, ''.join([line[i] for i in c])) for n, c, _ in variant.fields]


def is_primary(variant, line):
  return variant.primary


def has_cont(variant, line):
  return variant.kind.cont is not None and line[variant.kind.cont] == '1'


def selecting(variant):
  """columns whose content selects kind and variant, or is constrained"""
  k = variant.kind
  s = {0, 4, 5, 12}
  if k.cont is not None:
    s.add(k.cont)
    if variant.name != 'primary':
      s.update(k.app)
  return s


# ----------------------------------------------------------------- decoding

FEET = {'029', '030', '048', '050', '053', '073', '086', '092', '127', '161', '184', '209', '240'}
FEET100 = {'054', '147'}
NUMERIC = FEET | FEET100 | {'010', '012', '026', '027', '032', '034', '039', '045', '062', '065',
                            '072', '103', '135', '178', '269'}
SIMPLE = {'002', '003', '004', '007', '020', '021', '049', '091', '101', '102', '104', '106', '108',
          '112', '113', '117', '165', '177', '179', '181', '182', '198', '199', '270'}
CODED = SIMPLE | {'016', '017', '042', '082', '118', '196'}
# pass-through fields that refuse some characters with ValueError
CHECKED_ALNUM = {'008', '023', '024', '025'}
CHECKED_ALPHA = {'022'}

_num = re.compile(r'[0-9]+\Z').match


def klass(dec):
  return 'num' if dec in NUMERIC else 'code' if dec in CODED else 'pass'


def table(dec, kind):
  if dec == '007':
    return CODES.get('007 ' + kind, {})
  return CODES[dec]


def _tenths(v):
  n = int(v)
  return '%d.%d' % (n // 10, n % 10)


def _hundredths(v):
  n = int(v)
  return '%d.%02d' % (n // 100, n % 100)


@lru_cache(maxsize=200000)
def decode(dec, value, kind):
  v = value.strip()
  if dec in NUMERIC:
    return _decode_num(dec, value, v, kind)
  if dec in CODED:
    return _decode_code(dec, value, v, kind)
  if (dec in CHECKED_ALNUM and v and not (v.isalnum() and v.isascii())
      or dec in ('023', '024', '025') and len(v) > 4
      or dec in CHECKED_ALPHA and v and not (v.isalpha() and v.isascii())):
    return ('unknown', ()) if value.isascii() else ('any',)
  return ('is', v)


def _decode_num(dec, value, v, kind):
  if not value.isascii():
    return ('any',)
  if dec in FEET:
    return ('is', '%d ft' % int(value)) if _num(value) else ('is', v)
  if dec in FEET100:
    return ('is', '%d ft' % (int(value) * 100)) if _num(value) else ('is', v)
  if dec == '010':
    return ('is', 'Approach: %s, Runway: %s' % (value[0], value[1:4]))
  if dec == '012':
    t = {1: 'MSA Table, TAA Table, Cruise Table',
         2: 'VHF Navaid Limitation Continuation Records',
         3: 'SID/STAR/Approach and Company Routes',
         4: 'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace'}.get(len(v))
    return ('is', '%s - Sequence No. %s' % (t, value)) if t else ('is', v)
  if dec == '032':
    if not _num(value):
      return ('any',)
    y = int(value[:2])
    return ('is', '%d, Release %s' % ((1900 if y > 50 else 2000) + y, value[2:]))
  if dec == '178':
    plus, minus = 'ZNOPQRSTUVWXY', 'ZABCDEFGHIKLM'
    if _num(value[1:]):
      if value[0] in plus:
        return ('is', 'GMT +%d:%s' % (plus.index(value[0]), value[1:]))
      if value[0] in minus:
        return ('is', 'GMT -%d:%s' % (minus.index(value[0]), value[1:]))
    return ('unknown', ('GMT',))
  if dec in ('045', '103', '062', '135'):
    if _num(value):
      return ('is', _hundredths(value) if dec in ('045', '103') else _tenths(value))
    return ('unknown', ())
  if v == '':
    return ('is', '')
  if dec == '026':
    if _num(v):
      return ('is', _tenths(v))
    if re.match(r'[0-9]*T\Z', v):
      return ('is', v)
    return ('unknown', ())
  if dec == '027':
    if _num(v):
      return ('is', _tenths(v) + ' nm')
    if v[0] == 'T' and _num(v[1:]):
      return ('is', _tenths(v[1:]) + ' min')
    return ('unknown', ())
  if dec == '034':
    if _num(v):
      return ('is', _tenths(v) if kind in ('DB', 'PN', 'PM') else _hundredths(v))
    return ('unknown', ())
  if dec == '039':
    if _num(value[1:].strip()):
      return ('is', '%03d %s' % (int(value[1:]), value[0]))
    return ('unknown', ())
  if dec == '065':
    if _num(value):
      return ('is', '%dm %ds' % (int(value[0]), int(value[1]) * 6))
    return ('unknown', ())
  if dec == '072':
    return ('is', value + ' knots (IAS)') if _num(value) else ('unknown', ('knots',))
  if dec == '269':
    return ('is', _tenths(v)) if _num(v) else ('unknown', ())
  raise AssertionError(dec)


def _decode_code(dec, value, v, kind):
  if dec == '016':
    t = CODES['016']
    return ('is', t.get(value) or value + ' - Continuation')
  if dec == '017':
    parts = [CODES['017.%d' % i].get(value[i]) for i in range(4)]
    return ('is', '\n'.join(p for p in parts if p))
  if dec in ('042', '196'):
    a, b = CODES[dec + '.0'], CODES[dec + '.1']
    if value[0] in a:
      return ('starts', a['N']) if dec == '042' and value[0] == 'N' else ('is', a[value[0]])
    if value[1] in b:
      return ('is', b[value[1]])
    return ('unknown', tuple(a.values()) + tuple(b.values()))
  if dec == '082':
    t = CODES['082.1']
    if value[1] in t:
      return ('is', t[value[1]])
    if value[0] == 'R':
      return ('is', 'RNAV')
    return ('unknown', tuple(t.values()))
  if dec == '118':
    t = CODES['118.0']
    if value[0] in t:
      end = ', End of description, return to origin point' if value[1] == 'E' else ''
      return ('is', t[value[0]] + end)
    return ('unknown', tuple(t.values()))
  t = table(dec, kind)
  if dec == '021':
    value = v
  if value in t:
    return ('is', t[value])
  if v == '' and dec in ('004', '021', '106', '199', '270'):
    return ('is', '')
  return ('unknown', tuple(t.values()))


MARKS = ('unknown', 'unsupported', 'bad value', 'invalid')


def cell_ok(exp, value, got):
  """does a decoded cell meet its expectation?"""
  g = '\n'.join(x.rstrip() for x in got.split('\n')).strip()
  if exp[0] == 'is':
    return g == exp[1].strip()
  if exp[0] == 'starts':
    return g.startswith(exp[1])
  if exp[0] == 'unknown':
    if g == value.strip():
      return True
    low = g.lower()
    return any(m in low for m in MARKS) and not any(m in g for m in exp[1])
  return True


def clean(dec, value, kind):
  """True when the value is legal: it decodes, prints nothing and is judged"""
  return decode(dec, value, kind)[0] in ('is', 'starts')


def expectation(variant, line):
  """[(label, value, dec, expectation)]"""
  k = variant.kind.code
  out = []
  for n, c, dec in variant.fields:
    v = ''.join([line[i] for i in c])
    out.append((n, v, dec, decode(dec, v, k)))
  return out
