"""Shared pieces of the contracts on data loaders and collectors (engine H)."""
import contextlib
import itertools
import warnings

from vf import env  # pylint: disable=unused-import
import numpy as onp
import z3

from vf import hjax, host as H, literals, terms as T

N, M = z3.Ints('N m')
SIZES = [N, M]
SIZE_HYPS = [N >= 1, M >= 1, M <= N]
NL = 'jax_sgmc/data/numpy_loader.py: NumpyDataLoader.'
Val = z3.DeclareSort('Val')         # numbers in the data
X = z3.Function('X', H.I, Val)      # observation i of the observable x
Y = z3.Function('Y', H.I, H.I, Val)
Junk = z3.Function('junk', H.I, H.I)


def loader_module():
  from jax_sgmc.data import numpy_loader
  return numpy_loader


def core_module():
  from jax_sgmc.data import core
  return core


# loops over a symbolic number of items (H.arbitrary)
LOOPS = dict(range=H.hrange, enumerate=H.henumerate, itertools=H.Itertools())
CACHE = z3.Int('cache')


def any_item(p, n, k):
  """The item of the loops over n items, or k if there was none."""
  return p.loops.get(H.simp(H._z(n)).sexpr(), (k,))[0]


@contextlib.contextmanager
def core_shims(*rules, **more):
  """core reaches numpy, loops and callbacks through the shims; ``rules`` are the
  invariants of the loops, ``more`` are callees replaced by their contracts."""
  core = core_module()
  names = dict(onp=H.NumpyShim(onp), jnp=H.NumpyShim(core.jnp), lax=hjax.Lax(*rules),
               jax=hjax.Jax(), jxp=hjax.Callback(), len=H.hlen, int=H.hint)
  with H.patched(core, **{**names, **more}), quiet():
    yield core


@contextlib.contextmanager
def shims():
  """numpy_loader reaches numpy and math through the shims of engine H."""
  mod = loader_module()
  rnd = type('Random', (), {'default_rng': staticmethod(H.SymRandom.default_rng),
                            'SeedSequence': H.SymRandom.SeedSequence})
  with H.patched(mod, onp=H.NumpyShim(onp, rnd), math=H.MathShim(), len=H.hlen, int=H.hint,
                 jnp=H.NumpyShim(mod.jnp), **LOOPS):
    yield mod


def sym_loader(mod, n=None, **data):
  """A real NumpyDataLoader with a symbolic number of observations."""
  loader = mod.NumpyDataLoader.__new__(mod.NumpyDataLoader)
  loader.__dict__.update(_chains=[], _reference_data=data,
                         _observation_count=H.mk(N if n is None else n))
  return loader


class Paths:
  """Obligations over all paths of a symbolic run."""

  def __init__(self, obs, name, run, hyps=(), instances=(), sizes=None, func=None):
    self.obs, self.name, self.func = obs, name, func
    self.sizes = SIZES if sizes is None else sizes
    with shims():
      self.paths = H.explore(run, hyps, instances, self.sizes)
    obs.cover(name, list(hyps))
    bad = [p for p in self.paths if p.exc is not None]
    for p in bad:
      if isinstance(p.exc, (AttributeError, NameError)):
        raise H.Unsupported(f'{type(p.exc).__name__}: {p.exc}')
    self.ok = [p for p in self.paths if p.exc is None]
    self.bad = bad

  def safe(self):
    """No exception and no undefined operation."""
    for p in self.bad:
      self._add(f'no exception ({type(p.exc).__name__}: {p.exc})', p, z3.BoolVal(False))
    seen = set()
    for p in self.paths:
      for what, cond, facts in p.safety:
        key = (what, cond.get_id(), tuple(f.get_id() for f in facts))
        if key in seen:
          continue
        seen.add(key)
        r = H.prove(facts, cond, p.instances, self.sizes)
        self.obs.add(f'{self.name}: {what}', r, self.func)
    return self

  def _add(self, name, p, goal, hyps=()):
    r = H.prove(p.facts + list(hyps), goal, p.instances, self.sizes)
    return self.obs.add(f'{self.name}: {name}', r, self.func)

  def ensure(self, name, goal, hyps=()):
    """goal(path) holds at the end of every path."""
    for k, p in enumerate(self.ok):
      H._PATH.append(p)
      try:
        g = goal(p)
        h = [x(p) if callable(x) else x for x in hyps]
      finally:
        H._PATH.pop()
      if isinstance(g, bool):
        g = z3.BoolVal(g)
      self._add(name if len(self.ok) == 1 else f'{name} (path {k})', p, g, h)
    return self


def obj(dims, fn, dtype='float32'):
  """Array of numbers."""
  return H.HArr(dims, fn, 'o', dtype=onp.dtype(dtype))


def scalar(t):
  return H.HArr((), lambda: t, 'b' if z3.is_bool(t) else 'i' if z3.is_int(t) else 'o',
                dtype=None if t.sort() != Val else onp.dtype('float32'))


def row(a, *i):
  """Entry of an array result; concrete results are read as they are."""
  return H.asarr(a).at(*i)


def dims(a, *want):
  a = H.asarr(a)
  if a.ndim != len(want):
    return z3.BoolVal(False)
  return z3.And(*[H._z(x) == H._z(y) for x, y in zip(a.dims, want)])


def is_bool(a):
  return H.asarr(a).kind == 'b'


# -------------------------------------------------------------- running code
def cases(se, mod_small=5, mod_large=11):
  """(N, m) pairs: first those of counterexamples, then all small, then random."""
  for h in se.hints:
    if 'N' in h and 'm' in h and 1 <= h['m'] <= h['N'] <= 100000:
      yield h['N'], h['m']
  for v in literals.sizes()[:12]:
    if 3000 < v <= 70000:
      yield v + 1, v // 3
    if 1 <= v <= 3000:
      yield v, max(1, v // 5)
      yield v + 7, v
      yield 2 * v + 1, max(v - 1, 1)
  for n in range(1, mod_small + 1):
    for m in range(1, n + 1):
      yield n, m
  while True:
    n = se.rng.randrange(1, mod_large + 1) if se.rng.random() < 0.8 else se.rng.randrange(12, 60)
    yield n, se.rng.randrange(1, n + 1)


@contextlib.contextmanager
def quiet():
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    yield
