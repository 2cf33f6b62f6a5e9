"""Runs cases it reads from stdin, one JSON object per line."""
import importlib
import json
import os
import sys


def main():
  out = os.fdopen(os.dup(1), 'w', buffering=1)
  os.dup2(2, 1)  # stray prints of the code under test must not mix in
  prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
  from mon import core
  module = importlib.import_module(f'mon.props.{prop.lower()}')
  out.write(json.dumps({'ready': True}) + '\n')
  for line in sys.stdin:
    name, rep = json.loads(line)
    try:
      res = core.run_case(module, prop, tier, seed, name, rep)
    except Exception as e:  # pylint: disable=broad-except
      import traceback
      res = {'harness_error': traceback.format_exc(), 'case': f'{name}#{rep}'}
    out.write(json.dumps(res) + '\n')


if __name__ == '__main__':
  main()
