#!/usr/bin/env python3-vt
"""check.py ID [quick|thorough]   or   check.py --replay FILE"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
  os.environ['PYTHONHASHSEED'] = '0'
  os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [os.path.join(ROOT, 'lib'), os.path.join(ROOT, 'props')]

import harness  # noqa: E402


def main(argv):
  if argv[0] == '--replay':
    m = importlib.import_module(json.load(open(argv[1]))['property'].lower())
    return harness.replay(m, argv[1])
  tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  return harness.main(importlib.import_module(argv[0].lower()), tier, seed)


if __name__ == '__main__':
  try:
    code = main(sys.argv[1:])
  except Exception:
    import traceback
    traceback.print_exc()
    code = 2
  sys.stdout.flush()
  os._exit(code)
