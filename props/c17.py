"""C17: read_folder parses every file of the folder exactly once."""
import os
import pathlib

import common
import files
import gen
import model
import sut

ID = 'C17'
RULE = ('non-trivial: a folder with at least two files that hold records, or a file next to a subdirectory; '
        'distinct by names and contents')
ASSUMPTIONS = ['the order of the files is not specified', 'symbolic links are not judged']

DIRS = ['sub', 'sub.txt', '.git', 'a dir', '__pycache__', 'zz']


def tasks(ctx):
  return [('folder', ctx.seed, i, ctx.n(120, 2500)) for i in range(16)]


def snapshot(top):
  out = {}
  for d, ds, fs in os.walk(top):
    for x in ds:
      out[os.path.join(d, x)] = None
    for x in fs:
      p = os.path.join(d, x)
      with open(p, 'rb') as f:
        out[p] = f.read()
  return out


def build(d, tree):
  """tree: name -> lines | {subtree}"""
  for name, x in sorted(tree.items()):
    p = os.path.join(d, name)
    if isinstance(x, dict):
      os.mkdir(p)
      build(p, x)
    else:
      files.write(p, x)


def check(case):
  tree, how = case['tree'], case['how']
  here = os.getcwd()
  with files.scratch() as top:
    folder = os.path.join(top, 'folder')
    os.mkdir(folder)
    build(folder, tree)
    # files outside the folder that must not be read
    files.write(os.path.join(top, 'outside'), case['outside'])
    for x in tree:
      if not isinstance(tree[x], dict) and case.get('shadow'):
        files.write(os.path.join(top, x), case['outside'])
    parts = []
    for name, x in sorted(tree.items()):
      if not isinstance(x, dict):
        o = sut.call(sut.arinc424.read_file, os.path.join(folder, name))
        if o.exc is not None:
          return None             # C15
        parts.append((name, o.out))
    before = snapshot(top)
    path = folder
    try:
      if how == 'slash':
        path = folder + '/'
      elif how == 'relative':
        os.chdir(top)
        path = 'folder'
      elif how == 'dot':
        os.chdir(folder)
        path = '.'
      elif how == 'path':
        path = pathlib.Path(folder)
      elif how == 'dotted':
        os.chdir(folder)
        path = '../folder/'
      o = sut.call(sut.arinc424.read_folder, path)
      cwd = os.getcwd()
    finally:
      os.chdir(here)
    after = snapshot(top)
    if before != after:
      return ('files changed', 'read_folder changed %r' % sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))[:5])
  if o.exc is not None:
    return ('raises ' + type(o.exc).__name__, 'read_folder raised %s on a folder with %r' % (o.error, sorted(tree)))
  if not arrange(o.out, [p for _, p in parts if p]):
    seen = [n for n, p in parts if p and p in o.out]
    return ('output', 'the output of read_folder (%d characters) is no arrangement of the outputs of its files %r; '
            'found whole: %r' % (len(o.out), [(n, len(p)) for n, p in parts], seen))
  return None


def arrange(text, parts):
  """is text a concatenation of all parts in some order?"""
  if len(text) != sum(map(len, parts)):
    return False
  budget = [20000]

  def go(at, left):
    if not left:
      return at == len(text)
    budget[0] -= 1
    if budget[0] < 0:
      return True                 # undecided: do not alarm
    tried = set()
    for i, p in enumerate(left):
      if p not in tried and text.startswith(p, at):
        tried.add(p)
        if go(at + len(p), left[:i] + left[i + 1:]):
          return True
    return False

  return go(0, sorted(parts, key=len, reverse=True))


def shrink(case):
  tree = case['tree']
  for k in sorted(tree):
    yield dict(case, tree={n: x for n, x in tree.items() if n != k})
  for k in sorted(tree):
    x = tree[k]
    if isinstance(x, dict):
      if x:
        yield dict(case, tree=dict(tree, **{k: {}}))
    else:
      for part in common.shrink_list(x):
        yield dict(case, tree=dict(tree, **{k: part}))
  if case['how'] != 'plain':
    yield dict(case, how='plain')
  if case.get('shadow'):
    yield dict(case, shadow=False)


def content(r):
  k = r.random()
  if k < .1:
    return []
  if k < .2:
    return ['# nothing', '', 'not a record']
  return files.lines(r, r.choice((1, 2, 3, 6)))


def run(task, rep):
  what, seed, part, n = task
  r = gen.rng(ID, *task)
  for k in range(n):
    names = r.sample(files.NAMES, r.choice((0, 1, 2, 3, 3, 5, 9)))
    for w in r.sample(gen.words(), 2) + (r.sample(gen.fresh(), 1) if gen.fresh() else []):
      for x in (w, 'a' + w, w + '.txt'):
        if r.random() < .5 and '/' not in x and x not in ('.', '..') and x not in DIRS:
          names.append(x)
    for x in names[:]:
      if r.random() < .15:
        names += [y for y in (x.upper(), x.lower(), x + ' ', x + '~', x + x, x[::-1]) if r.random() < .4 and len(y) < 200
                  and '/' not in y and y not in ('.', '..') and y not in DIRS]
    names = list(dict.fromkeys(names))
    if not files.UTF8:
      names = [x for x in names if x.isascii()]
    if r.random() < .1:
      names += ['f%03d' % i for i in range(r.choice((20, 60, 60, 130, 300)))]
    tree = {x: content(r) for x in names}
    if names and r.random() < .08:             # a file of some size
      few = [x for x in (gen.text(r, r.randint(0, 100), gen.ALNUM) for _ in range(20)) if model.accept(x) is None]
      rec = files.lines(r, 2)
      tree[r.choice(names)] = [r.choice(few) if r.random() < .97 else r.choice(rec) for _ in range(r.choice((600, 2000, 8000)))]
    if len(names) > 1 and r.random() < .3:
      tree[names[0]] = tree[names[1]]          # two files with one content
    for x in r.sample(DIRS, r.choice((0, 0, 1, 2))):
      tree[x] = {y: content(r) for y in r.sample(files.NAMES, r.randint(0, 2)) if y.isascii()}
      if r.random() < .3:
        tree[x]['deeper'] = {'a': content(r)}
    how = r.choice(('plain', 'plain', 'slash', 'relative', 'dot', 'dotted', 'path'))
    case = dict(tree=tree, how=how, outside=files.lines(r, 1), shadow=r.random() < .3)
    full = sum(1 for x in tree.values() if not isinstance(x, dict) and any(model.accept(y) for y in x))
    dirs = any(isinstance(x, dict) for x in tree.values())
    rep.case(case, repr(sorted(tree.items(), key=lambda t: t[0])) if full > 1 or (full and dirs) else None,
             (how, 'with subdirectories' if dirs else 'flat'), dict(names=sorted(tree), how=how))
