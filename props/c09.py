"""C09: decoded cells of the 'num' fields against the reference model."""
import common
import decoding

ID = 'C09'
CLASS = 'num'
RULE = ('non-trivial: an accepted record with at least one field of the class; distinct by variant and the '
        'values of all its fields of the class')
ASSUMPTIONS = ['units and scaling as in the statement; non-ASCII digits and fields the statement does not define are not judged']


def tasks(ctx):
  out = [('packed', ctx.seed, i, 64, ctx.n(700, 60000), ctx.n(1, 10)) for i in range(64)]
  out += [('whole', ctx.seed, i, 32, ctx.n(150, 4000), 1) for i in range(32)]
  out += [('every', ctx.seed, i, 32, ctx.n(4, 1), 1) for i in range(32)]
  return out


def check(case):
  return decoding.check(case, CLASS)


def run(task, rep):
  decoding.run(task, rep, CLASS)


def shrink(case):
  yield from common.shrink_case(case)
