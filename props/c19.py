"""C19: reading changes nothing but standard output.

A case is one call (parse, search, read_file, read_folder, or read/json/decode
of a Record) with its arguments and a scratch folder.  The state of the
process, of the scratch folder and of the arguments is taken before and after
the call, which may succeed, be refused or fail.
"""
import builtins
import copy
import decimal
import gc
import json
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import time
import warnings

import common
import files
import gen
import harness
import model
import sut

import prettytable  # noqa: E402  (found through sut)

ID = 'C19'
RULE = ('non-trivial: the call reached a record or a file with a record, or ended with an exception; distinct by the call and '
        'its input')
ASSUMPTIONS = ['access times of files and lazily imported modules are not judged',
               'files are judged closed after the exception of a failed call is released']


def tasks(ctx):
  out = [('record', ctx.seed, i, ctx.n(40, 600)) for i in range(8)]
  out += [('size', ctx.seed, i, ctx.n(2, 12)) for i in range(8)]
  out += [('files', ctx.seed, i, ctx.n(60, 900)) for i in range(16)]
  return out


def opened():
  out = []
  for fd in os.listdir('/proc/self/fd'):
    try:
      out.append('%s %s' % (fd, os.readlink('/proc/self/fd/' + fd)))
    except OSError:
      pass
  return sorted(x for x in out if '/proc/' not in x)


SAMPLE = {'b': '"\\\x00é', 'a': [1.5, None, True, 1e300]}


def sample_table():
  t = prettytable.PrettyTable(field_names=['A', 'B'])
  t.add_row(['x', 1.25])
  t.add_row(['long text here', 'y\nz'])
  return t.get_string()


def process():
  mask = os.umask(0o22)
  os.umask(mask)
  return dict(
      cwd=os.getcwd(), environ=dict(os.environ), open_files=opened(), umask=mask,
      streams=[id(x) for x in (sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__)],
      recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), gc=gc.isenabled(),
      locale=locale.setlocale(locale.LC_ALL), argv=list(sys.argv), path=list(sys.path),
      filters=repr(warnings.filters), random=random.getstate(), decimal=repr(decimal.getcontext()),
      signals=[repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGCHLD)],
      alarm=signal.getitimer(signal.ITIMER_REAL)[0], threads=threading.active_count(),
      logging=(logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
      builtins={k: id(v) for k, v in vars(builtins).items() if k != '_'},
      hooks=[id(sys.excepthook), id(sys.displayhook), repr(sys.gettrace()), repr(sys.getprofile())],
      json=(json.dumps(SAMPLE), json.dumps(SAMPLE, indent=2)), table=sample_table(), digits=sys.get_int_max_str_digits(),
      stdout=[getattr(sys.stdout, k, None) for k in ('encoding', 'errors', 'line_buffering', 'write_through', 'closed')],
      limits=[resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CPU)],
      zone=time.tzname, nice=os.nice(0), bytecode=sys.dont_write_bytecode)


def tree(top):
  out = {}
  for d, ds, fs in os.walk(top):
    st = os.lstat(d)
    out[d] = ('dir', st.st_mode, st.st_mtime_ns)
    for x in fs:
      p = os.path.join(d, x)
      st = os.lstat(p)
      with open(p, 'rb') as f:
        out[p] = ('file', st.st_mode, st.st_mtime_ns, f.read())
  return out


def execute(case):
  """runs in a child: (what changed, failed?, printed?)"""
  with files.scratch() as top:
    folder = os.path.join(top, 'folder')
    os.mkdir(folder)
    for name, lines in sorted(case.get('files', {}).items()):
      files.write(os.path.join(folder, name), lines)
    if case.get('broken'):
      with open(os.path.join(folder, 'broken'), 'wb') as f:
        f.write(b'\xff\xfe\x00SUSA\n')
    if case.get('sub'):
      os.mkdir(os.path.join(folder, 'sub'))
    home = os.path.join(top, 'home')
    os.mkdir(home)
    os.chdir(home)
    os.environ['HOME'] = os.environ['TMPDIR'] = home
    name = case['call']
    args = copy.deepcopy(case['args'])
    if name in ('read_file', 'search'):
      args[0] = os.path.join(folder, args[0])
      if case.get('relative'):
        args[0] = os.path.relpath(args[0])
    elif name == 'read_folder':
      args[0] = '../folder' if case.get('relative') else folder
    given = copy.deepcopy(args)
    os.utime(home, (10 ** 9, 10 ** 9))
    for f in (sys.stdout, sys.stderr):
      f.flush()
    buf = sut.io.TextIOWrapper(sut.io.BytesIO(), 'utf-8', 'backslashreplace', newline='', write_through=True)
    keep = sys.stdout
    sys.stdout = buf
    try:
      before = (process(), tree(top))
      failed = call(name, args)
      after = (process(), tree(top))
    finally:
      mine = sys.stdout
      sys.stdout = keep
      os.chdir('/')
    changed = [k for k in before[0] if before[0][k] != after[0][k]]
    if mine is not buf:
      changed.append('streams')
    what = {k: _delta(before[0][k], after[0][k]) for k in changed if k in before[0]}
    for p in sorted(set(before[1]) | set(after[1])):
      if before[1].get(p) != after[1].get(p):
        changed.append('files')
        what['files'] = os.path.relpath(p, top)
        break
    if args != given or any(type(a) is not type(b) for a, b in zip(args, given)):
      changed.append('arguments')
      what['arguments'] = '%r became %r' % (given, args)
    return changed, what, failed, bool(buf.buffer.getvalue())


def _delta(a, b):
  if isinstance(a, dict):
    return repr({k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)})[:300]
  if isinstance(a, list):
    return 'before %r, after %r' % ([x for x in a if x not in b][:5], [x for x in b if x not in a][:5])
  return '%s -> %s' % (repr(a)[:200], repr(b)[:200])


def call(name, args):
  try:
    if name == 'record':
      r = sut.Record()
      if r.read(args[0]):
        r.primary()
        r.hasCont()
        r.json()
        r.json(single_line=False)
        r.decode()
    else:
      getattr(sut.arinc424, name)(*args)
    failed = None
  except Exception as e:
    failed = type(e).__name__
  gc.collect()
  return failed


def check(case):
  kind, res = harness.in_child(lambda: execute(case))
  check.reached = False
  if kind == 'hang':
    return ('hang', '%s(%r) does not return' % (case['call'], case['args']))
  if kind != 'ok':
    return None if kind == 'error' else ('process ended', '%s(%r) ended the process' % (case['call'], case['args']))
  changed, what, failed, printed = res
  check.reached = bool(failed or printed)
  if not changed:
    return None
  return ('%s changes %s' % (case['call'], changed[0]), '%s(%r)%s changes %s: %s' % (
      case['call'], case['args'], ', which raises %s,' % failed if failed else '', changed[0], what.get(changed[0], '')))


def shrink(case):
  fs = case.get('files', {})
  for k in sorted(fs):
    if k not in case['args']:
      yield dict(case, files={n: x for n, x in fs.items() if n != k})
  for k in sorted(fs):
    for part in common.shrink_list(fs[k]):
      yield dict(case, files=dict(fs, **{k: part}))
  for k in ('broken', 'sub', 'relative'):
    if case.get(k):
      yield dict(case, **{k: False})


def go(rep, case):
  bad = rep.m.check(case)
  rep.note(repr(case) if check.reached else None, (case['call'],) + (('large',) if sum(len(x) for x in case.get('files', {}).values()) > 200 else ()),
           dict(call=case['call'], args=case['args']))
  if bad is not None:
    rep.violation(case, *bad)


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  if what == 'record':
    for v in model.VARIANTS[part::8]:
      for k in range(max(2, n // 8)):
        line = gen.record(r, v, legal_only=k % 3 != 2)
        go(rep, dict(call='record' if k % 2 else 'parse', args=[line] + ([] if k % 2 else [r.random() < .5])))
    for k in range(n):
      go(rep, dict(call=r.choice(('record', 'parse')), args=[gen.junk(r)]))
    return
  if what == 'size':
    for k in range(n):
      few = [x for x in files.lines(r, 4) if len(x) < 200] + [common.good(r, r.choice(model.VARIANTS), tries=50) or 'S']
      name = ('read_file', 'search', 'read_folder')[(part + k) % 3]
      if name == 'read_folder':
        fs = {'f%03d' % i: [r.choice(few)] if r.random() < .3 else [] for i in range(r.choice((45, 130, 300)))}
        go(rep, dict(call=name, files=fs, args=['folder']))
      else:
        many = 1100 if name == 'read_file' else r.choice((2500, 11000))
        fs = {'f': [few[-1] if r.random() < .8 else r.choice(few) for _ in range(many)]}
        go(rep, dict(call=name, files=fs, args=['f', r.random() < .5] if name == 'read_file' else ['f', r.choice(('', [], few[-1][4:6], [few[-1][:2]]))]))
    return
  for k in range(n):
    name = r.choice(('read_file', 'search', 'search', 'read_folder'))
    fs = {x: files.lines(r, r.choice((0, 1, 3, 8))) for x in r.sample(files.NAMES, r.choice((1, 2, 4)))}
    if k % 30 == 7:                  # a file of some size
      x = r.choice(sorted(fs))
      few = fs[x] + files.lines(r, 5)
      fs[x] = [r.choice(few) if r.random() < .1 else 'X' * r.randint(0, 140) for _ in range(r.choice((300, 1500, 5000)))]
    if r.random() < .35:             # a record that does not decode
      x = r.choice(sorted(fs))
      v = r.choice(model.VARIANTS)
      fs[x] = fs[x] + [gen.record(r, v, legal_only=False) for _ in range(4)]
    case = dict(call=name, files=fs, sub=r.random() < .3, broken=r.random() < .1, relative=r.random() < .4)
    if name == 'read_folder':
      case['args'] = ['folder']
    else:
      x = r.choice(sorted(fs) + (['broken'] if case['broken'] else ['missing'] if r.random() < .1 else []))
      case['args'] = [x]
      if name == 'search':
        some = r.choice([y for y in fs.values() for y in y] or ['SUSA'])
        i = r.randrange(len(some) + 1)
        f = some[i:i + r.randint(1, 5)]
        case['args'].append(f if r.random() < .3 else r.sample([f, 'USA', 'S', 'ZZ', '', f], r.randint(0, 4)))
      elif r.random() < .5:
        case['args'].append(r.random() < .5)
    go(rep, case)
