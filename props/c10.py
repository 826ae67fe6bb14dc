"""C10: decoded cells of the 'pass' fields against the reference model."""
import common
import decoding

ID = 'C10'
CLASS = 'pass'
RULE = ('non-trivial: an accepted record with at least one field of the class; distinct by variant and the '
        'values of all its fields of the class')
ASSUMPTIONS = ['fields without a code table or numeric meaning are those lib/model.py does not list as such',
               'route identifier, recommended navaid, theta, rho and turn-direction-valid may refuse text that is not alphanumeric']


def tasks(ctx):
  out = [('packed', ctx.seed, i, 64, ctx.n(500, 10000), ctx.n(1, 10)) for i in range(64)]
  out += [('whole', ctx.seed, i, 32, ctx.n(150, 4000), 1) for i in range(32)]
  return out


def check(case):
  return decoding.check(case, CLASS)


def run(task, rep):
  decoding.run(task, rep, CLASS)


def shrink(case):
  yield from common.shrink_case(case)
