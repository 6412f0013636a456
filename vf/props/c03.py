"""C03: rows of a batch."""
import collections
import copy
import itertools
import os
import shutil
import tempfile
import types

import jax
import jax.numpy as jnp
import numpy as onp
import z3

from vf import env, hjax, host as H, terms as T
from vf.check import Check, Unit, Failure
from vf.props import c02, dcommon as D
from vf.props.dcommon import N, M, NL, Val, row

HL = 'jax_sgmc/data/hdf5_loader.py: HDF5Loader.'
TL = 'jax_sgmc/data/tensorflow_loader.py: TensorflowDataLoader.'
C, P, Q = z3.Ints('c P Q')
OBS = {                       # observables: shape of an observation, data, type
  'x': ((), D.X, 'float32'),
  'y': ((2,), D.Y, 'float64'),
  'z': ((P, Q), z3.Function('Z', H.I, H.I, H.I, Val), 'int64'),
  'w': ((), z3.Function('W', H.I, Val), 'uint8'),
  'v': ((2, P, 3), z3.Function('V', H.I, H.I, H.I, H.I, Val), 'int32')}
SIZES = [N, M, C, P, Q]
HYPS = D.SIZE_HYPS + [C >= 1, P >= 1, Q >= 1]
IDX = z3.Function('idx', H.I, H.I, H.I)
MASK = z3.Function('msk', H.I, H.I, H.B)


def idx_range(ts):
  return [z3.And(x >= 0, x < N) for x in H.apps(ts, IDX) if not T.has_var(x)]


def full(name):
  shape, f, dt = OBS[name]
  return D.obj((N,) + shape, f, dt)


def canonical(dt):
  return jax.dtypes.canonicalize_dtype(onp.dtype(dt))


def served(data, index, lead, js=None):
  """Every observable holds the observation index(row) in every row; announced shape
  and type. ``lead``: leading dimensions of the batches; ``js``: the row, if it is
  not any row."""
  js = js or [z3.FreshConst(H.I, 'j') for _ in lead]
  hyp = [z3.And(j >= 0, j < H._z(d)) for j, d in zip(js, lead)]
  out = [z3.BoolVal(set(data) == set(OBS))]
  for nm, (shape, f, dt) in OBS.items():
    if nm not in data:
      continue
    a = H.asarr(data[nm])
    ks = [z3.FreshConst(H.I, 'k') for _ in shape]
    h = hyp + [z3.And(k >= 0, k < H._z(d)) for k, d in zip(ks, shape)]
    if a.ndim != len(lead) + len(shape):
      return z3.BoolVal(False)
    out += [D.dims(a, *lead, *shape), z3.BoolVal(canonical(a.dtype) == canonical(dt)),
            z3.Implies(z3.And(*h), a.at(*js, *ks) == f(index(*js), *ks))]
  return z3.And(*out)


def loader_with(indices=None):
  mod = D.loader_module()
  loader = D.sym_loader(mod, **{nm: full(nm) for nm in OBS})
  if indices is not None:
    loader._get_indices = indices
  return loader


# ------------------------------------------------------------------- numpy
def prove_gather(obs):
  """Any indices, any number of batches."""
  def run():
    asked = []

    def indices(chain):
      asked.append(chain)
      return (H.HArr((C, M), lambda a, b: IDX(a, b), 'i'),
              H.HArr((C, M), lambda a, b: MASK(a, b), 'b'))
    loader = loader_with(indices)
    getattr(D.loader_module().NumpyDataLoader, '_get_indices')
    with D.core_shims():
      return loader.get_batches(3), asked
  ps = D.Paths(obs, 'get_batches', run, HYPS, [idx_range], SIZES, NL + 'get_batches')
  ps.safe()
  a, b = z3.Ints('a b')
  ps.ensure('rows of all observables', lambda p: served(p.result[0][0], IDX, (C, M)))
  ps.ensure('mask of the rows', lambda p: z3.And(
    D.dims(p.result[0][1], C, M), z3.BoolVal(D.is_bool(p.result[0][1])),
    row(p.result[0][1], a, b) == MASK(a, b)), [a >= 0, a < C, b >= 0, b < M])
  ps.ensure('indices of this chain, once', lambda p: z3.BoolVal(p.result[1] == [3]))


def same_chain(old, new):
  out = [z3.BoolVal(set(old) == set(new))]
  i = z3.FreshConst(H.I, 'i')
  for k in set(old) & set(new):
    a, b = old[k], new[k]
    if isinstance(a, H.HArr):
      out += [z3.BoolVal(isinstance(b, H.HArr) and b.ndim == a.ndim),
              D.dims(b, *a.dims), a.at(i) == b.at(i)]
    elif isinstance(a, H.SymRng):
      out.append(a._s == b._s)
    elif isinstance(a, H.SymInt) or isinstance(b, H.SymInt):
      out.append(H._int(a) == H._int(b))
    else:
      out.append(z3.BoolVal(a == b))
  return z3.And(*out)


class Offset(H.LoopContract):
  """The offset of an ordered chain is an observation."""
  At = z3.Function('offset_at', H.I, H.I)

  def __init__(self, off, chain):
    self.off, self.c = off, chain

  def begin(self):
    H.path().assume(self.At(0) == self.off)
    H.path().require('offset before the batches', H._int(self.c['idx_offset']) == self.off)

  def at(self, k):
    o = self.At(H._z(k))
    H.path().assume(o >= 0, o < N)
    self.c['idx_offset'] = H.mk(o)

  def kept(self, k):
    o = self.At(k)
    H.path().assume(self.At(k + 1) == z3.If(o + M >= N, 0, o + M))
    H.path().require('offset after a batch', H._int(self.c['idx_offset']) == self.At(k + 1))


def prove_mode(mode, cache):
  """With the real indices: association of the rows, other chains are not touched."""
  any_cache = cache is None
  cache = D.CACHE if any_cache else cache

  def prove(obs):
    g = c02.Ghost(mode) if mode != 'ordered' else None
    off = z3.Int('o')

    def chain():
      size = H.mk(cache) if any_cache else cache
      if g:
        return g.chain(size)
      return {'type': 'ordered', 'rng': None, 'idx_offset': H.mk(off), 'mb_size': H.mk(M),
              'cache_size': size}

    def loop(c):
      """The next loop draws from chain c."""
      p = H.path()
      if any_cache:
        if p.contract is not None:
          raise H.Unsupported('no loop over the batches')
        p.arbitrary, p.entries = True, lambda t: z3.And(t >= 0, t < N)
        p.contract = None if c is None else c02.Draws(g, c) if g else Offset(off, c)

    def run():
      if g:
        g.shared()
      loader, twin = loader_with(), loader_with()
      other = c02.Ghost('shuffle')
      other.shared()
      oc = other.chain(2)
      loader._chains += [oc, chain(), {'type': 'ordered', 'rng': None, 'mb_size': 1,
                                       'idx_offset': H.mk(off), 'cache_size': 2}]
      twin._chains += [None, chain()]
      before = [copy.deepcopy(c) for c in loader._chains]
      with D.core_shims():
        loop(twin._chains[1])
        idx, mask = twin._get_indices(1)
        loop(loader._chains[1])
        got = loader.get_batches(1)
        loop(None)
      return got, idx, mask, before, loader._chains, loader._reference_data
    hyps = g.hyps() if g else D.SIZE_HYPS + [off >= 0, off < N]
    hyps = hyps + [cache >= 1] if any_cache else hyps
    if mode != 'shuffle':
      hyps = hyps + [h for h in c02.Ghost('shuffle').hyps() if not any(h.eq(o) for o in hyps)]
    ps = D.Paths(obs, 'get_batches', run, hyps + [P >= 1, Q >= 1], [c02.junk_range],
                 SIZES, NL + 'get_batches')
    ps.safe()
    a, b = z3.Ints('a b')
    item = lambda p: D.any_item(p, cache, a) if any_cache else a
    ps.ensure('rows of all observables', lambda p: served(
      p.result[0][0], lambda i, j: z3.substitute(p.result[1].at(item(p), b), (a, i), (b, j)),
      (cache, M), [item(p), z3.FreshConst(H.I, 'j')] if any_cache else None))
    ps.ensure('mask of the rows', lambda p: z3.And(
      D.dims(p.result[0][1], cache, M), row(p.result[0][1], item(p), b) == row(
        p.result[2], item(p), b)), [a >= 0, a < cache, b >= 0, b < M])
    ps.ensure('other chains are unchanged', lambda p: z3.And(
      z3.BoolVal(len(p.result[4]) == 3), same_chain(p.result[3][0], p.result[4][0]),
      same_chain(p.result[3][2], p.result[4][2])))
    ps.ensure('the data is unchanged', lambda p: served(p.result[5], lambda i: i, (N,)))
  return prove


def prove_construct(device):
  def prove(obs):
    k = z3.Int('k')
    n2 = z3.Int('N2')
    for cp in (True, False):
      for equal in (True, False):
        if not equal and not cp:
          continue

        def run():
          mod = D.loader_module()
          cls = mod.DeviceNumpyDataLoader if device else mod.NumpyDataLoader
          data = {nm: full(nm) for nm in OBS}
          if not equal:
            data['w'] = D.obj((n2,), OBS['w'][1], 'uint8')
          with D.core_shims():
            loader = cls(copy=cp, **data)
          if cp and equal:
            for nm, a in data.items():
              junk = z3.Function('user_' + nm, *[H.I] * a.ndim, Val)
              a[H.mk(k)] = H.HArr(a.dims[1:], lambda *i, j=junk: j(k, *i), 'o', dtype=a.dtype)
          return loader, (loader.get_full_data() if device else loader.reference_data)
        nm = ('copied' if cp else 'referenced') + ('' if equal else ', different lengths')
        hyps = HYPS + [k >= 0, k < N] + ([n2 >= 1, n2 != N] if not equal else [])
        ps = D.Paths(obs, nm, run, hyps, (), SIZES,
                     'jax_sgmc/data/numpy_loader.py: NumpyBase.__init__')
        if not equal:
          for p in ps.bad:
            if not isinstance(p.exc, ValueError):
              ps._add('rejected with a ValueError', p, z3.BoolVal(False))
          ps.ensure('rejected', lambda p: z3.BoolVal(False))
          continue
        ps.safe()
        ps.ensure('stored data', lambda p: served(p.result[1], lambda i: i, (N,)))
        ps.ensure('observation count', lambda p: H._int(
          p.result[0].static_information['observation_count']) == N)
  return prove


def struct(tree, lead, zeros=False):
  out = [z3.BoolVal(set(tree) == set(OBS))]
  for nm, (shape, _, dt) in OBS.items():
    if nm not in tree:
      continue
    s = tree[nm]
    want = tuple(lead) + shape
    if len(s.shape) != len(want):
      return z3.BoolVal(False)
    out += [H._z(a) == H._z(b) for a, b in zip(s.shape, want)]
    if not zeros:
      out.append(z3.BoolVal(onp.dtype(s.dtype) == onp.dtype(dt)))
  return z3.And(*out)


def prove_format(obs):
  def run():
    mod = D.loader_module()
    loader = loader_with()
    dev = mod.DeviceNumpyDataLoader.__new__(mod.DeviceNumpyDataLoader)
    dev.__dict__.update(loader.__dict__)
    with D.core_shims():
      fmt, info = loader.batch_format(H.mk(C), H.mk(M))
      zeros = [l.initializer_batch(*a) for l in (loader, dev) for a in ((), (H.mk(M),))]
      return loader._format, fmt, info, zeros, dev._format
  ps = D.Paths(obs, 'format', run, HYPS, (), SIZES,
               'jax_sgmc/data/core.py: HostDataLoader.batch_format, DataLoader.initializer_batch')
  ps.safe()
  ps.ensure('one observation', lambda p: z3.And(struct(p.result[0], ()), struct(p.result[4], ())))
  ps.ensure('batches', lambda p: struct(p.result[1], (C, M)))
  j = z3.Int('j')
  ps.ensure('batch information', lambda p: z3.And(
    H._int(p.result[2].observation_count) == N, H._int(p.result[2].batch_size) == M,
    D.dims(p.result[2].mask, M), row(p.result[2].mask, j)), [j >= 0, j < M])
  ps.ensure('initializer batch', lambda p: z3.And(*[
    struct(z, l, True) for z, l in zip(p.result[3], ((), (M,), (), (M,)))]))


# -------------------------------------------------------------------- files
class FakeDataset:
  """Contract of h5py: increasing indices select rows in order."""

  def __init__(self, arr):
    self.arr, self.shape, self.dtype = arr, arr.shape, arr.dtype
    self.ndim = arr.ndim

  def __getitem__(self, key):
    if isinstance(key, H.HArr) and key.ndim == 1:
      k = H.path().fresh('k')
      n = H._z(key.dims[0])
      hjax.obligation('indices of a selection are increasing', z3.Implies(
        z3.And(k >= 0, k + 1 < n), key.at(k) < key.at(k + 1)))
      hjax.obligation('indices of a selection are observations', z3.Implies(
        z3.And(k >= 0, k < n), z3.And(key.at(k) >= 0, key.at(k) < N)))
    elif isinstance(key, tuple) and not key:
      return self.arr
    elif not isinstance(key, (int, slice, type(Ellipsis), H.SymInt)):
      raise H.Unsupported(f'selection {type(key)}')
    return self.arr[key]


class FakeFile(dict):
  pass


def flen(x):
  return x.shape[0] if isinstance(x, FakeDataset) else H.hlen(x)


Pair = collections.namedtuple('Pair', ['u', 'm'])
SAMPLE = {'b': Pair(onp.zeros((), 'float32'), (onp.zeros((3,), 'int32'),)),
          'a': [{'q': onp.zeros((2, 2), 'float32')}]}
LEAVES = {'a/list_element_0/q': ((2, 2), z3.Function('AQ', H.I, H.I, H.I, Val), 'float32'),
          'b/u': ((), z3.Function('B0', H.I, Val), 'float32'),
          'b/m/list_element_0': ((3,), z3.Function('B1', H.I, H.I, Val), 'int32')}


def leaf(tree, path):
  for k in path.split('/'):
    tree = (tree[int(k[13:])] if k.startswith('list_element_') else
            getattr(tree, k) if isinstance(tree, Pair) else tree[k])
  return tree


def prove_hdf5(cache, subdir):
  any_cache = cache is None
  cache = D.CACHE if any_cache else cache

  def prove(obs):
    from jax_sgmc.data import hdf5_loader as mod

    def run():
      H.path().arbitrary = any_cache
      f = FakeFile({subdir + '/' + nm: FakeDataset(D.obj((N,) + s, fn, dt))
                    for nm, (s, fn, dt) in LEAVES.items()})
      shims = dict(onp=H.NumpyShim(onp), jnp=H.NumpyShim(jnp), len=flen, int=H.hint, **D.LOOPS,
                   h5py=types.SimpleNamespace(File=FakeFile))
      with H.patched(mod, **shims), D.core_shims():
        loader = mod.HDF5Loader(f, subdir=subdir, sample=SAMPLE)

        def indices(chain):
          return (H.HArr((cache, M), lambda a, b: IDX(a, b), 'i'),
                  H.HArr((cache, M), lambda a, b: MASK(a, b), 'b'))
        loader._get_indices = indices
        fmt, info = loader.batch_format(H.mk(cache) if any_cache else cache, H.mk(M))
        return loader.get_batches(0), fmt, info, loader.static_information
    ps = D.Paths(obs, 'get_batches', run, D.SIZE_HYPS + [H._z(cache) >= 1], [idx_range], D.SIZES,
                 HL + 'get_batches')
    ps.safe()
    a, b = z3.Ints('a b')
    hyp = [a >= 0, a < cache, b >= 0, b < M]
    item = lambda p: D.any_item(p, cache, a) if any_cache else a

    def rows(p):
      a = item(p)
      out = [z3.BoolVal(jax.tree_util.tree_structure(p.result[0][0])
                        == jax.tree_util.tree_structure(SAMPLE))]
      for nm, (s, fn, dt) in LEAVES.items():
        got, fmt = H.asarr(leaf(p.result[0][0], nm)), leaf(p.result[1], nm)
        ks = [z3.FreshConst(H.I, 'k') for _ in s]
        if got.ndim != 2 + len(s) or len(fmt.shape) != 2 + len(s):
          return z3.BoolVal(False)
        out += [D.dims(got, cache, M, *s), z3.BoolVal(onp.dtype(fmt.dtype) == onp.dtype(dt)),
                z3.And(*[H._z(x) == H._z(y) for x, y in zip(fmt.shape, (cache, M) + s)]),
                z3.Implies(z3.And(*[z3.And(k >= 0, k < d) for k, d in zip(ks, s)]) if ks else
                           z3.BoolVal(True), got.at(a, b, *ks) == fn(IDX(a, b), *ks))]
      return z3.And(*out)
    ps.ensure('rows of all leaves at their place', rows, hyp)
    ps.ensure('mask', lambda p: z3.And(D.dims(p.result[0][1], cache, M),
                                       row(p.result[0][1], item(p), b) == MASK(item(p), b)), hyp)
    ps.ensure('sizes', lambda p: z3.And(
      H._int(p.result[2].observation_count) == N, H._int(p.result[2].batch_size) == M,
      H._int(p.result[3]['observation_count']) == N))
  return prove


# --------------------------------------------------------------- tensorflow
class FakePipe:
  """Contract of tf.data: batch(n) groups n consecutive elements (fewer at the end of a
  finite pipeline), repeat makes it infinite, shuffle changes the order."""
  At = z3.Function('element', H.I, H.I, H.I, H.I)

  def __init__(self, lead=(), infinite=False):
    self.lead, self.infinite = lead, infinite

  def repeat(self, count=None):
    if count is not None or self.lead:
      raise H.Unsupported('repeat')
    return FakePipe(self.lead, True)

  def shuffle(self, size, **_):
    if self.lead:
      raise H.Unsupported('shuffle of batches')
    return FakePipe(self.lead, self.infinite)

  def prefetch(self, *_):
    return self

  def batch(self, n, drop_remainder=False, **_):
    n = H._int(n)
    if not self.infinite and not drop_remainder:
      e = H.path().fresh('rows')
      H.path().assume(e >= 1, e <= n)
      n = e
    return FakePipe((n,) + self.lead, self.infinite)

  def cardinality(self):
    return types.SimpleNamespace(numpy=lambda: onp.array(7))

  @property
  def element_spec(self):
    import tensorflow as tf
    return {'x': tf.TensorSpec((), tf.float32), 'id': tf.TensorSpec((), tf.string),
            'y': tf.TensorSpec((2,), tf.int32)}

  def __iter__(self):
    return FakeIter(self.lead)


class FakeIter:
  def __init__(self, lead):
    self.lead, self.k = lead, 0

  def __iter__(self):
    return self

  def __next__(self):
    k = z3.IntVal(self.k)
    self.k += 1
    if len(self.lead) != 2:
      raise H.Unsupported('pipeline')
    return {'x': D.obj(self.lead, lambda a, b: D.X(FakePipe.At(k, a, b)), 'float32'),
            'y': D.obj(self.lead + (2,), lambda a, b, i: D.Y(FakePipe.At(k, a, b), i), 'int32'),
            'id': D.obj(self.lead, lambda a, b: z3.Const('text', Val), 'float32')}


def prove_tensorflow(obs):
  from jax_sgmc.data import tensorflow_loader as mod

  def run():
    with H.patched(mod, jnp=H.NumpyShim(jnp), int=H.hint, len=H.hlen), D.core_shims():
      loader = mod.TensorflowDataLoader(FakePipe(), shuffle_cache=10, exclude_keys=['id'])
      ids = [loader.register_random_pipeline(H.mk(C), H.mk(M)),
             loader.register_random_pipeline(1, 1)]
      fmt, info = loader.batch_format(H.mk(C), H.mk(M))
      first = loader.get_batches(0)
      loader.get_batches(1)
      return ids, fmt, info, first, loader.get_batches(0)
  ps = D.Paths(obs, 'get_batches', run, [M >= 1, C >= 1], (), SIZES, TL + 'get_batches')
  ps.safe()
  a, b, i = z3.Ints('a b i')

  def rows(p):
    out = [z3.BoolVal(p.result[0] == [0, 1])]
    for k, (got, mask) in enumerate(p.result[3:]):
      out.append(z3.BoolVal(set(got) == {'x', 'y'} == set(p.result[1]) and mask is None))
      if set(got) != {'x', 'y'}:
        return z3.BoolVal(False)
      e = FakePipe.At(z3.IntVal(k), a, b)
      out += [D.dims(got['x'], C, M), D.dims(got['y'], C, M, 2),
              row(got['x'], a, b) == D.X(e), row(got['y'], a, b, i) == D.Y(e, i)]
    for s, want, dt in ((p.result[1]['x'], (C, M), 'float32'),
                        (p.result[1]['y'], (C, M, 2), 'int32')):
      out += [z3.BoolVal(len(s.shape) == len(want) and s.dtype == onp.dtype(dt)),
              *[H._z(u) == H._z(v) for u, v in zip(s.shape, want)]]
    return z3.And(*out)
  ps.ensure('rows are elements of the pipeline', rows,
            [a >= 0, a < C, b >= 0, b < M, i >= 0, i < 2])
  ps.ensure('sizes', lambda p: z3.And(H._int(p.result[2].batch_size) == M,
                                      z3.BoolVal(int(p.result[2].observation_count) == 7)))


# ------------------------------------------------------------ running code
def user_data(n, salt):
  i = onp.arange(n)
  return {'x': (i * 3 + salt).astype(onp.float32), 'y': onp.stack([i, -i + 0.5 + salt], 1),
          'z': (i[:, None, None] * 6 + onp.arange(6).reshape(2, 3)).astype(onp.int64),
          'v': (i[:, None, None, None] * 12 + onp.arange(12).reshape(2, 2, 3)).astype(onp.int32),
          'w': (i % 251).astype(onp.uint8), 'f': i % 3 == 0, 'h': (i / 4).astype(onp.float16)}


def check_rows(data, got, index, case):
  if set(got) != set(data):
    raise Failure(f'observables {sorted(got)}', **case)
  for nm, a in data.items():
    g = onp.asarray(got[nm])
    want = a[index].astype(canonical(a.dtype))
    if g.dtype != want.dtype or g.shape != want.shape or not (g == want).all():
      raise Failure(f'{nm}: {g.dtype} {g.tolist()} instead of {want.dtype} {want.tolist()}', **case)


def check_format(loader, data, n, c, m, case):
  with D.quiet():
    for lead, fmt in (((), loader._format), ((c, m), loader.batch_format(c, m)[0]),
                      ((), loader.initializer_batch()), ((m,), loader.initializer_batch(m))):
      for nm, a in data.items():
        if (tuple(fmt[nm].shape) != lead + a.shape[1:]
            or canonical(fmt[nm].dtype) != canonical(a.dtype)):
          raise Failure(f'format of {nm}: {fmt[nm]}', **case)
    info = loader.batch_format(c, m)[1]
    if (int(info.observation_count) != n or int(info.batch_size) != m
        or onp.asarray(info.mask).tolist() != [True] * m
        or loader.static_information['observation_count'] != n):
      raise Failure('batch information', **case)


def index_rows(ids, n):
  v = onp.asarray(ids).astype(int)
  return (v - 0) // 3


def search_numpy(se):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  modes = [{}, dict(shuffle=True), dict(shuffle=True, in_epochs=True), 'ordered']
  for k, (n, m) in enumerate(D.cases(se, 3, 12)):
    if not se.more() and k >= 12:
      break
    c = se.size([1 + k % 3], 'c', limit=70)
    mode = modes[(k // 3) % 4]
    case = dict(observations=n, batch=m, cache=c, mode=mode, copy=bool(k % 4))
    se.now = case
    data = user_data(n, 0)
    given = {q: v.copy() for q, v in data.items()}
    loader = NumpyDataLoader(copy=bool(k % 4), **given)
    if k % 4:
      for v in given.values():
        v[...] = 1
    check_format(loader, data, n, c, m, case)
    reg = lambda: (loader.register_ordered_pipeline(c, m) if mode == 'ordered' else
                   loader.register_random_pipeline(c, m, seed=5, **mode))
    others = [loader.register_ordered_pipeline(2, m), loader.register_random_pipeline(1, m)]
    a, b = reg(), reg()
    got = [[], []]
    for r in range(2 + 2 * n // (c * m)):
      for i, ch in enumerate((a, b)):
        for o in others:
          if se.rng.random() < 0.5:
            loader.get_batches(o)
        d, mask = loader.get_batches(ch)
        d = {q: onp.asarray(v) for q, v in d.items()}
        if d['x'].shape != (c, m) or onp.shape(mask) != (c, m) or mask.dtype != bool:
          raise Failure(f'shape {d["x"].shape}, {onp.shape(mask)}', **case)
        got[i].append((d['x'].tolist(), onp.asarray(mask).tolist()))
        check_rows(data, d, index_rows(d['x'], n), case)
    if got[0] != got[1]:
      raise Failure('chains with the same seed are not independent', **case)
    se.count(case)


def search_invalid(se):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  for cls, (a, b, c) in itertools.product((NumpyDataLoader, DeviceNumpyDataLoader), (
      (3, 4, 3), (4, 3, 3), (3, 3, 4))):
    case = dict(loader=cls.__name__, lengths=[a, b, c])
    se.now = case
    try:
      cls(x=onp.zeros(a), y=onp.zeros((b, 2)), z=onp.zeros(c))
    except ValueError:
      se.count(case)
      continue
    raise Failure('observables of different lengths accepted', **case)
  for k in range(6):
    n, m = 3 + 2 * k, 2 + k
    data = user_data(n, 0)
    given = {q: v.copy() for q, v in data.items()}
    with D.quiet():
      loader = DeviceNumpyDataLoader(copy=True, **given)
    for v in given.values():
      v[...] = 1
    case = dict(loader='device', observations=n, batch=m)
    se.now = case
    check_format(types.SimpleNamespace(
      _format=loader._format, batch_format=lambda c, m: (
        {q: jax.ShapeDtypeStruct((c, m) + v.shape[1:], v.dtype) for q, v in data.items()},
        types.SimpleNamespace(observation_count=n, batch_size=m, mask=onp.ones(m, bool))),
      initializer_batch=loader.initializer_batch,
      static_information=loader.static_information), data, n, 1, m, case)
    check_rows(data, loader.get_full_data(), onp.arange(n), case)
    s = loader.init_random_data(key=jax.random.PRNGKey(k))
    for _ in range(3):
      s, (d, info) = loader.get_random_data(s, m)
      check_rows(data, d, index_rows(d['x'], n), case)
      if onp.shape(d['x']) != (m,):
        raise Failure(f'{onp.shape(d["x"])} rows', **case)
    se.count(case)


def search_hdf5(se):
  import h5py
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  tmp = tempfile.mkdtemp(prefix='vf_c03_')
  try:
    for k, (n, m) in enumerate(D.cases(se, 3, 10)):
      if not se.more() and k >= 10:
        break
      c = se.size([1 + k % 3], 'c', limit=70)
      case = dict(loader='hdf5', observations=n, batch=m, cache=c)
      se.now = case
      i = onp.arange(n)
      data = {'a/list_element_0/q':
              (i[:, None, None] * 4 + onp.arange(4).reshape(2, 2)).astype('float32'),
              'b/u': i.astype('float32') + 0.5, 'b/m/list_element_0': (i[:, None] * 7 + onp.arange(3)).astype('int32')}
      fn = os.path.join(tmp, f'{k}.h5')
      sub = ('/chain~0/variables/', '/chain~1', '/')[k % 3]
      with h5py.File(fn, 'w') as f:
        for nm, v in data.items():
          f[sub + '/' + nm] = v
      loader = HDF5Loader(fn, subdir=sub, sample=SAMPLE)
      if loader.static_information['observation_count'] != n:
        raise Failure('observation count', **case)
      fmt = loader.batch_format(c, m)[0]
      twin = NumpyDataLoader(x=i)
      for mode in ('ordered', {}, dict(shuffle=True), dict(shuffle=True, in_epochs=True)):
        chain, tc = [l.register_ordered_pipeline(c, m) if mode == 'ordered' else
                     l.register_random_pipeline(c, m, seed=k, **mode) for l in (loader, twin)]
        for r in range(3):
          got, mask = loader.get_batches(chain)
          want, wmask = twin.get_batches(tc)
          if not (onp.asarray(mask) == onp.asarray(wmask)).all():
            raise Failure(f'mask {onp.asarray(mask).tolist()}', **case)
          if jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(SAMPLE):
            raise Failure('structure of the batch', **case)
          ids = onp.asarray(got['b'].u) - 0.5
          if ids.shape != (c, m) or onp.shape(mask) != (c, m):
            raise Failure(f'shape {ids.shape}', **case)
          if not (ids == onp.asarray(want['x'])).all():
            raise Failure(f'rows {ids.tolist()}', mode=mode, **case)
          for nm, v in data.items():
            g, w, s = onp.asarray(leaf(got, nm)), v[ids.astype(int)], leaf(fmt, nm)
            if g.dtype != v.dtype or not (g == w).all() or s.shape != g.shape or s.dtype != g.dtype:
              raise Failure(f'{nm}: {g.tolist()} instead of {w.tolist()}', **case)
      loader.close()
      se.count(case)
  finally:
    shutil.rmtree(tmp)


def search_tensorflow(se):
  from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader
  import tensorflow as tf
  for k in range(6):
    n, m, c = 5 + k, 2 + k % 3, 1 + k % 3
    case = dict(loader='tensorflow', observations=n, batch=m, cache=c)
    se.now = case
    i = onp.arange(n)
    pipe = tf.data.Dataset.from_tensor_slices({
      'x': i.astype('float32'), 'y': onp.stack([i, -2 * i], 1).astype('int32'),
      'id': onp.array([f'n{v}' for v in i])})
    loader = TensorflowDataLoader(pipe, shuffle_cache=3 + k, exclude_keys=['id'])
    chains = [loader.register_random_pipeline(c, m), loader.register_random_pipeline(1, 1)]
    fmt, info = loader.batch_format(c, m)
    if int(info.observation_count) != n or info.batch_size != m:
      raise Failure('sizes', **case)
    for r in range(4):
      loader.get_batches(chains[1])
      got, mask = loader.get_batches(chains[0])
      x, y = onp.asarray(got['x']), onp.asarray(got['y'])
      if set(got) != {'x', 'y'} or x.shape != (c, m) or not (
          y == onp.stack([x, -2 * x], -1)).all() or not onp.isin(x, i).all():
        raise Failure(f'{x.tolist()} {y.tolist()}', **case)
      for q in got:
        if fmt[q].shape != got[q].shape or fmt[q].dtype != got[q].dtype:
          raise Failure(f'format of {q}', **case)
    se.count(case)


def check():
  units = [Unit('numpy: any indices', NL + 'get_batches', prove_gather, search_numpy, soft=True)]
  for mode in ('ordered', 'draw', 'shuffle', 'epochs'):
    units.append(Unit(f'numpy: {mode}', [NL + 'get_batches', NL + '_get_indices'],
                      prove_mode(mode, 2 if mode != 'shuffle' else 1), soft=True))
    units.append(Unit(f'numpy: {mode}, any cache', [NL + 'get_batches', NL + '_get_indices'],
                      prove_mode(mode, None), soft=True))
  for dev in (False, True):
    units.append(Unit(('device' if dev else 'numpy') + ': data of the user',
                      'jax_sgmc/data/numpy_loader.py: NumpyBase.__init__',
                      prove_construct(dev), search_invalid if dev else None, soft=True))
  units.append(Unit('announced format', [
    'jax_sgmc/data/core.py: HostDataLoader.batch_format, DataLoader.initializer_batch',
    'jax_sgmc/data/numpy_loader.py: NumpyBase._format, static_information'], prove_format,
                    soft=True))
  units.append(Unit('device: random batch', 'jax_sgmc/data/numpy_loader.py: '
                    'DeviceNumpyDataLoader.get_random_data, init_random_data', c02.prove_device))
  for cache in (1, 2, None):
    units.append(Unit(f'hdf5: cache of {cache or "any size"}', [HL + '__init__', HL + 'get_batches'],
                      prove_hdf5(cache, '/chain~0/variables/' if cache == 1 else '/chain~2'),
                      search_hdf5 if cache == 1 else None, soft=True))
  units.append(Unit('tensorflow', [TL + '__init__', TL + 'register_random_pipeline',
                                   TL + 'get_batches', TL + '_format'],
                    prove_tensorflow, search_tensorflow, soft=True))
  return Check(
    'C03', 'Rows of a batch', units=units, assumptions=[
      'numpy/jax indexing, numpy.unique and h5py selection by increasing indices as documented',
      'tf.data: batch groups consecutive elements, repeat and shuffle keep elements whole',
      'types change only by the canonicalisation of JAX (64 to 32 bit)'],
    note='Unbounded in observations, batch size, shapes of the observables and number of '
         'cached batches.')
