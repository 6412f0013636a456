"""Numbers written in the code: boundaries worth trying.

Only used to choose inputs on which the contracts are evaluated on the running code.
Numbers which the code did not contain when the checks were written come first.
"""
import ast
import collections
import functools
import json
import os

from vf import env

BASE = os.path.join(env.VERIF, 'vf', 'literals.json')


# numbers which narrow types cannot represent
NARROW = {'int8': 128, 'uint8': 256, 'int16': 32768, 'uint16': 65536, 'float16': 2049,
          'bfloat16': 257, 'half': 2049}


def current():
  """Numbers in the sources with the number of their occurrences."""
  out = collections.Counter()
  for root, _, files in os.walk(os.path.join(env.REPO, 'jax_sgmc')):
    for f in files:
      if f.endswith('.py'):
        try:
          tree = ast.parse(open(os.path.join(root, f)).read())
        except SyntaxError:
          continue
        for n in ast.walk(tree):
          if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out[repr(float(n.value))] += 1
          name = n.attr if isinstance(n, ast.Attribute) else (
            n.value if isinstance(n, ast.Constant) else None)
          if isinstance(name, str) and name in NARROW:
            out[repr(float(NARROW[name]))] += 1
  return out


@functools.lru_cache(None)
def novel():
  try:
    base = json.load(open(BASE))
  except (OSError, ValueError):
    return ()
  return tuple(sorted(float(v) for v, n in current().items() if n > base.get(v, 0)))


@functools.lru_cache(None)
def sizes():
  out = set()
  for v in novel():
    if 0 <= v <= 1e6:
      k = int(v)
      out |= {k - 1, k, k + 1, k + 2, 2 * k + 1}
  return tuple(sorted(out))


@functools.lru_cache(None)
def values():
  out = set()
  for v in novel():
    if v:
      out |= {v, 0.5 * v, 0.9 * v, 1.1 * v, 2 * v, v + 1, v - 1}
  return tuple(sorted(out))


if __name__ == '__main__':
  json.dump(dict(sorted(current().items())), open(BASE, 'w'), indent=0)
