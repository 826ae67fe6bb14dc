"""C08: decoded cells of the 'code' fields against the reference model."""
import common
import decoding

ID = 'C08'
CLASS = 'code'
RULE = ('non-trivial: an accepted record with at least one field of the class; distinct by variant and the '
        'values of all its fields of the class')
ASSUMPTIONS = ['the meaning of each code is that of lib/codes.txt (ARINC 424-18 chapter 5, in the wording of the library)',
               'a code outside its table may be shown as unknown or unsupported, unaltered, or refused']


def tasks(ctx):
  out = [('packed', ctx.seed, i, 64, ctx.n(500, 20000), ctx.n(1, 10)) for i in range(64)]
  out += [('whole', ctx.seed, i, 32, ctx.n(150, 4000), 1) for i in range(32)]
  return out


def check(case):
  return decoding.check(case, CLASS)


def run(task, rep):
  decoding.run(task, rep, CLASS)


def shrink(case):
  yield from common.shrink_case(case)
