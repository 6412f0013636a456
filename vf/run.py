"""python -m vf.run <property id> [...]: runs the checks of the properties."""
import importlib
import sys

from vf import env  # pylint: disable=unused-import


def main(argv):
  rc = 0
  for pid in argv:
    mod = importlib.import_module(f'vf.props.{pid.lower()}')
    r = mod.check().run()
    rc = max(rc, r)
  return rc


if __name__ == '__main__':
  sys.stdout.reconfigure(line_buffering=True)
  code = main(sys.argv[1:])
  sys.stdout.flush()
  # daemon threads of host callbacks must not delay the exit
  import os
  os._exit(code)
