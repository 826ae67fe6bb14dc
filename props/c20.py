"""C20: results do not depend on the environment or the clock.

The same lines are observed by one child interpreter per environment (hash
seed, optimisation, locale, time zone, terminal, current directory, clock);
every observation must equal that of the plain environment.
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import time

import common
import files
import gen
import model
import sut

ID = 'C20'
RULE = 'a case is a line or a file observed in one environment and in the plain one; non-trivial for accepted records; distinct by line and environment'
ASSUMPTIONS = ['colour escapes of search depend on the terminal by design and are not judged',
               'the clock is replaced in the time and datetime modules before the library is loaded']

ENVS = {
    'hash seed 1': dict(env=dict(PYTHONHASHSEED='1')),
    'hash seed 77': dict(env=dict(PYTHONHASHSEED='77')),
    'hash seed 4242': dict(env=dict(PYTHONHASHSEED='4242')),
    'optimised': dict(flags=['-O']),
    'docstrings removed': dict(flags=['-OO']),
    'C locale': dict(env=dict(LC_ALL='C', LANG='C')),
    'POSIX locale': dict(env=dict(LC_ALL='POSIX', PYTHONCOERCECLOCALE='0')),
    'UTF-8 mode': dict(env=dict(PYTHONUTF8='1')),
    'time zone east': dict(env=dict(TZ='Pacific/Kiritimati')),
    'time zone west': dict(env=dict(TZ='XXX+11:30')),
    'narrow terminal': dict(env=dict(COLUMNS='20', LINES='5', TERM='dumb', NO_COLOR='1')),
    'colour terminal': dict(env=dict(COLUMNS='500', TERM='xterm-256color', FORCE_COLOR='1')),
    'other directory': dict(cwd=True, env=dict(HOME='/nonexistent', USER='nobody')),
    'clock 1985': dict(clock=-41 * 31556952),
    'clock in 7 years': dict(clock=7 * 31556952),
    'clock in 40 years': dict(clock=40 * 31556952),
    'clock in 13 days': dict(clock=13 * 86400),
    'dev mode': dict(flags=['-X', 'dev', '-W', 'ignore']),
    'clock at 2000': dict(at=946684800),
    'clock on 29 February': dict(at=1709209800),
    'clock on 31 December 2050': dict(at=2556140395),
    'clock after 2038': dict(at=2147483647 + 3600 * 5),
    'clock in 2099': dict(at=4086000000),
    'terminal': dict(tty=True),
    'command line': dict(args=['-v', '--debug', '--verbose', '--raw', '-h']),
    'words as variables': dict(words='1'),
    'words as variables, text': dict(words='yes'),
    'CI variables': dict(env=dict(CI='1', DEBUG='1', VERBOSE='1', ARINC424_DEBUG='1', LOGLEVEL='DEBUG', PYTHONASYNCIODEBUG='1')),
}

CLOCK = '''
import time, datetime
_s = %d
def _shift(f):
  return lambda: f() + _s
time.time = _shift(time.time)
_ns = time.time_ns
time.time_ns = lambda: _ns() + _s * 10 ** 9
_lt, _gt = time.localtime, time.gmtime
time.localtime = lambda t=None: _lt(time.time() if t is None else t)
time.gmtime = lambda t=None: _gt(time.time() if t is None else t)
_sf = time.strftime
time.strftime = lambda f, t=None: _sf(f, time.localtime() if t is None else t)
class _d(datetime.date):
  @classmethod
  def today(cls):
    return cls.fromtimestamp(time.time())
class _dt(datetime.datetime):
  @classmethod
  def now(cls, tz=None):
    return cls.fromtimestamp(time.time(), tz)
  @classmethod
  def utcnow(cls):
    return cls.utcfromtimestamp(time.time())
  @classmethod
  def today(cls):
    return cls.now()
datetime.date, datetime.datetime = _d, _dt
'''

CHILD = r'''
import contextlib, hashlib, io, json, os, sys
src, dep, work, out, top = sys.argv[1:6]
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
sys.path[:0] = [src]
sys.path.append(dep)
import arinc424
class Terminal(io.StringIO):
  def isatty(self):
    return True
def do(fn, *a):
  b = Terminal() if TTY else io.StringIO()
  try:
    with contextlib.redirect_stdout(b):
      v = fn(*a)
    e = None
  except BaseException as x:
    v, e = None, type(x).__name__
  return [v, e, b.getvalue()]
with open(work, encoding='utf-8') as f:
  job = json.load(f)
res = []
for line in job['lines']:
  r = arinc424.Record()
  res.append([do(r.read, line), do(r.json, True), do(r.json, True, False), do(r.decode, True), do(r.primary), do(r.hasCont),
              do(arinc424.parse, line, False)])
fs = []
for name, filters in job['files']:
  p = os.path.join(top, name)
  fs.append([do(arinc424.read_file, p), do(arinc424.search, p, filters)])
with open(out, 'w', encoding='utf-8', errors='backslashreplace') as f:
  json.dump([res, fs], f)
'''


def tasks(ctx):
  return [('env', ctx.seed, i, ctx.n(2, 40)) for i in range(8)]


def variables(value):
  """names that the code mentions, as environment variables"""
  out = {}
  for w in gen.words():
    for x in (w, w.upper()):
      if re.fullmatch('[A-Za-z_][A-Za-z0-9_]{2,40}', x) and x not in os.environ and not x.upper().startswith(('PYTHON', 'LD_', 'LC_', 'LANG', 'TZ', 'MALLOC', 'GCONV')):
        out[x] = value
  return out


def observe(job, env):
  """observations of one environment, or None if the interpreter fails"""
  e = ENVS.get(env, {})
  shift = e.get('clock')
  if 'at' in e:
    shift = e['at'] - int(time.time())
  with files.scratch() as d:
    work, out, script = (os.path.join(d, x) for x in ('work', 'out', 'script'))
    with open(work, 'w') as f:
      json.dump(dict(lines=job['lines'], files=[['f%d' % i, x['filters']] for i, x in enumerate(job['files'])]), f)
    for i, x in enumerate(job['files']):
      files.write(os.path.join(d, 'f%d' % i), x['lines'])
    with open(script, 'w') as f:
      f.write((CLOCK % shift if shift is not None else '') + 'TTY = %r\n' % e.get('tty', False) + CHILD)
    os.mkdir(os.path.join(d, 'cwd'))
    vars_ = {k: v for k, v in os.environ.items() if k not in ('TZ', 'COLUMNS', 'LINES', 'NO_COLOR', 'FORCE_COLOR')}
    vars_['PYTHONHASHSEED'] = '0'
    vars_.update(e.get('env', {}))
    if 'words' in e:
      vars_.update(variables(e['words']))
    p = subprocess.run([sys.executable, '-s'] + e.get('flags', []) + [script, os.path.join(sut.REPO, 'src'),
                       '/opt/venv/lib/python3.12/site-packages', work, out, d] + e.get('args', []), cwd=os.path.join(d, 'cwd') if e.get('cwd') else d,
                       env=vars_, capture_output=True, timeout=300, stdin=subprocess.DEVNULL)
    try:
      with open(out, encoding='utf-8') as f:
        res = json.load(f)
    except (OSError, ValueError):
      return None, p.stderr.decode('utf-8', 'replace')[-300:]
    for f in res[1]:
      f[1][2] = common.plain(f[1][2])
      f[0][2] = f[0][2].replace(d, '<dir>')
    return res, None


NAMES = ('read', 'json', 'indented json', 'decode', 'primary', 'hasCont', 'parse')


def compare(a, b, job, env):
  for line, x, y in zip(job['lines'], a[0], b[0]):
    for name, p, q in zip(NAMES, x, y):
      if p != q:
        d = common.differ(dict(value=p[0], exception=p[1], output=p[2]), dict(value=q[0], exception=q[1], output=q[2]))
        return (dict(lines=[line], files=[], env=env), '%s under %s' % (name, env), '%s of %r gives another result with %s: %s' % (name, line, env, d))
  for f, x, y in zip(job['files'], a[1], b[1]):
    for name, p, q in zip(('read_file', 'search'), x, y):
      if p != q:
        d = common.differ(dict(value=p[0], exception=p[1], output=p[2]), dict(value=q[0], exception=q[1], output=q[2]))
        return (dict(lines=[], files=[f], env=env), '%s under %s' % (name, env), '%s of %d lines gives another result with %s: %s' % (name, len(f['lines']), env, d))
  return None


_PLAIN = {}


def plain(job):
  key = hashlib.sha1(repr(job).encode('utf-8', 'backslashreplace')).hexdigest()
  if key not in _PLAIN:
    _PLAIN.clear()
    _PLAIN[key] = observe(job, 'plain')[0]
  return _PLAIN[key]


def judge(case):
  job = dict(lines=case['lines'], files=case['files'])
  a = plain(job)
  if a is None:
    return None
  b, err = observe(job, case['env'])
  if b is None:
    return (case, 'fails under %s' % case['env'], 'the library does not load or run with %s: %s' % (case['env'], err))
  return compare(a, b, job, case['env'])


def check(case):
  bad = judge(case)
  return None if bad is None else bad[1:]


def shrink(case):
  for part in common.shrink_list(case['files']):
    yield dict(case, files=part)
  for part in common.shrink_list(case['lines']):
    yield dict(case, lines=part)
  if len(case['lines']) == 1:
    for s in common.shrink_line(case['lines'][0]):
      yield dict(case, lines=[s])


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  for k in range(n):
    lines = []
    for v in model.VARIANTS[part::8]:
      for _ in range(6):
        lines.append(gen.record(r, v, legal_only=r.random() < .85, blank=r.random() < .05))
    # every year of the cycle date
    for y in range(part, 100, 8):
      s = gen.record(r, r.choice(model.VARIANTS))
      lines.append(s[:128] + '%02d' % y + s[130:])
    lines += [gen.junk(r) for _ in range(20)]
    lines = [x for x in lines if x.isascii()]
    fs = []
    for _ in range(3):
      ls = [x for x in files.lines(r, 20) if x.isascii()]
      fs.append(dict(lines=ls, filters=r.choice(('S', 'USA', ['S', '0'], ['0'], '', []))))
    envs = sorted(ENVS) if k % 2 == 0 else r.sample(sorted(ENVS), 6)
    for env in envs:
      case = dict(lines=lines, files=fs, env=env)
      bad = judge(case)
      for x in lines:
        rep.note((x, env) if model.accept(x) else None, (), dict(line=x, env=env))
      rep.classes[env] += len(lines)
      if bad is not None:
        rep.violation(*bad)
