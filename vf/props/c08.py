"""C08: samples handed back or written to disk."""
import contextlib
import itertools
import os
import pathlib
import shutil
import tempfile
import types

import jax
import jax.numpy as jnp
import numpy as onp
import z3
from jax import tree_util

from vf import env, hjax, host as H, literals, terms as T
from vf.check import Check, Unit, Failure
from vf.props import dcommon as D
from vf.props.c07 import Text, formatting
from vf.props.dcommon import Val

IO = 'jax_sgmc/io.py: '
n, K, C, BN, F, LAT = z3.Ints('n K C B F later')  # capacity, samples so far, earlier chains,
# vectorized chains, write frequency, later chains
VX = z3.Function('VX', H.I, Val)          # i-th sample to be kept
VY = z3.Function('VY', H.I, H.I, Val)
JX = z3.Function('JX', H.I, Val)          # unused storage
JY = z3.Function('JY', H.I, H.I, Val)
i, j = z3.Ints('i j')
ROWS = [i >= 0, j >= 0, j < 2]
SIZES = [n, C, BN, F, LAT]


def sample(k):
  """The k-th sample to be kept."""
  return {'x': D.obj((), lambda: VX(k)), 'y': D.obj((2,), lambda b: VY(k, b), 'float16')}


def storage(k, arrays):
  """Arrays with the first k samples; what follows is unknown."""
  def fx(a):
    return z3.If(z3.And(a >= 0, a < k), VX(a), JX(a))

  def fy(a, b):
    return z3.If(z3.And(a >= 0, a < k), VY(a, b), JY(a, b))
  x, y = arrays
  return [D.obj(x.dims, fx, x.dtype), D.obj(y.dims, fy, y.dtype)]


def holds(arrays, k, size=n):
  """Exactly the first k samples, in order (for the arbitrary sample i)."""
  if len(arrays) != 2:
    return z3.BoolVal(False)
  x, y = map(H.asarr, arrays)
  if x.ndim != 1 or y.ndim != 2:
    return z3.BoolVal(False)
  shapes = z3.And(D.dims(x, size), D.dims(y, size, 2))
  if isinstance(k, int) and k == 0:
    return shapes
  return z3.And(shapes, z3.Implies(
    z3.And(i >= 0, i < k, j >= 0, j < 2), z3.And(x.at(i) == VX(i), y.at(i, j) == VY(i, j))))


# ------------------------------------------------------------------- no_save
def static(**kw):
  return types.SimpleNamespace(samples_collected=H.mk(n), **kw)


@contextlib.contextmanager
def io_shims(**more):
  from jax_sgmc import io
  names = dict(onp=IoNumpy(onp), jnp=H.NumpyShim(jnp), lax=hjax.Lax(), len=_len, int=H.hint,
               enumerate=_enumerate, range=_range)
  with H.patched(io, **{**names, **more}), formatting(), D.quiet():
    yield io


def _len(x):
  return H.mk(x.length) if isinstance(x, Chains) else H.hlen(x)


def prove_device(obs):
  from jax_sgmc import io

  def start():
    with io_shims():
      init, _, _ = io.no_save()
      return init(sample(0), None, static())
  ps = D.Paths(obs, 'init', start, [n >= 1], (), SIZES, IO + 'no_save.init')
  ps.safe()
  ps.ensure('storage for every sample', lambda p: z3.And(
    z3.BoolVal(set(p.result.data) == {'x', 'y'} and not p.result.saved_samples
               and [H.asarr(p.result.data[l]).dtype for l in 'xy'] == [onp.float32, onp.float16]),
    holds([p.result.data['x'], p.result.data['y']], 0)))
  keep = z3.Bool('keep')

  def step():
    with io_shims():
      init, save, post = io.no_save()
      st = init(sample(0), None, static())
      x, y = storage(K, [st.data['x'], st.data['y']])
      st = st._replace(saved_samples=D.scalar(K), data={'x': x, 'y': y})
      new, _ = save(st, D.scalar(keep), sample(K), scheduler_state=None, solver_state=None)
      return new, post(new, None)
  ps = D.Paths(obs, 'save', step, [n >= 1, K >= 0, K <= n, z3.Implies(keep, K < n)], (), SIZES,
               IO + 'no_save.save')
  ps.safe()
  count = K + z3.If(keep, 1, 0)
  ps.ensure('kept samples are counted', lambda p: H._int(
    H.asarr(p.result[0].saved_samples).term()) == count)
  ps.ensure('kept samples in order, nothing else', lambda p: holds(
    [p.result[0].data['x'], p.result[0].data['y']], count))
  ps.ensure('the samples are returned', lambda p: z3.And(
    H._int(H.asarr(p.result[1]['sample_count']).term()) == count,
    holds([p.result[1]['samples']['x'], p.result[1]['samples']['y']], count)))


# ---------------------------------------------------------------- collectors
class Chains(list):
  """List with one entry for each of ``length`` chains. Only the entry of the own chain
  may be touched."""

  def __init__(self, length, this=None, value=None):
    super().__init__()
    self.length, self.this, self.value, self.added = length, this, value, 0

  def __len__(self):
    raise TypeError('number of chains')

  def __iter__(self):
    raise H.Unsupported('loop over chains')

  def _own(self, k):
    if isinstance(k, (slice, list)):
      raise H.Unsupported('chains')
    t = H._int(H.asarr(k).term())
    if self.this is None:
      raise H.Unsupported('entry of another chain')
    hjax.obligation('only the entry of the own chain is used', z3.Or(
      t == self.this, z3.And(t < 0, t + self.length == self.this)))

  def __getitem__(self, k):
    self._own(k)
    return self.value

  def __setitem__(self, k, v):
    self._own(k)
    self.value = v

  def append(self, v):
    self.this, self.value = self.length, v
    self.length = H.simp(self.length + 1)
    self.added += 1

  insert = pop = extend = remove = __delitem__ = None


class Samples(list):
  """List with the first k samples."""

  def __init__(self, k):
    super().__init__()
    self.k, self.new = k, []

  def __len__(self):
    raise TypeError('number of samples')

  def __getitem__(self, k):
    raise H.Unsupported('one of the samples')

  def append(self, v):
    self.new.append(v)

  def __iter__(self):
    """The samples are passed on as a whole."""
    k = H.simp(self.k + len(self.new))
    for n_, v in enumerate(self.new):
      x, y = leaves(v)
      hjax.obligation('the new sample is added unchanged', z3.And(
        x.at() == VX(self.k + n_), y.at(0) == VY(self.k + n_, 0),
        y.at(1) == VY(self.k + n_, 1)))
    yield [Segment((k,), lambda a: VX(a)), Segment((k, 2), lambda a, b: VY(a, b))]


class Segment:
  """Leaves of a sequence of samples."""

  def __init__(self, dims, fn):
    self.dims, self.fn = dims, fn


def leaves(v):
  v = tree_util.tree_leaves(v)
  if len(v) != 2:
    raise H.Unsupported('sample')
  return list(map(H.asarr, v))


class IoNumpy(H.NumpyShim):
  def __init__(self, real):
    super().__init__(real)
    self.files = []
    self.lib = types.SimpleNamespace(format=types.SimpleNamespace(
      write_array=lambda f, a, *_, **__: f.write_array(a)))

  def stack(self, parts, axis=0):
    parts = list(parts)
    if len(parts) == 1 and isinstance(parts[0], Segment) and axis == 0:
      return Listable(parts[0].dims, parts[0].fn, 'o')
    if any(isinstance(p, Segment) for p in parts):
      raise H.Unsupported('stack')
    return super().__getattr__('stack')(parts, axis)

  def flatnonzero(self, a):
    return Chosen(a) if chains(a) else super().__getattr__('flatnonzero')(a)

  def nonzero(self, a):
    return (Chosen(a),) if chains(a) else super().__getattr__('nonzero')(a)

  def where(self, *a):
    return self.nonzero(a[0]) if len(a) == 1 else super().__getattr__('where')(*a)

  def array(self, parts, *a, **k):
    if isinstance(parts, (list, tuple)) and any(isinstance(p, Segment) for p in parts):
      if a or set(k) - {'copy'}:
        raise H.Unsupported('array of samples')
      return self.stack(parts)
    return super().__getattr__('array')(parts, *a, **k)

  def asarray(self, parts, *a, **k):
    if isinstance(parts, (list, tuple)) and any(isinstance(p, Segment) for p in parts):
      return self.array(parts, *a, **k)
    return super().__getattr__('asarray')(parts, *a, **k)

  def savez(self, file, *a, **k):
    if a:
      raise H.Unsupported('savez')
    file.content = dict(k)


class Listable(H.HArr):
  def tolist(self):
    return ['list', self]


class File:
  """Stands for paths and files. What is written is kept in ``content``."""

  def __init__(self, name='', log=None):
    self.name, self.log = name, [] if log is None else log
    self.content = {}

  def __truediv__(self, name):
    f = File(f'{self.name}/{name}' if self.name else name, self.log)
    self.log.append(f)
    return f

  def joinpath(self, name):
    return self / name

  def mkdir(self, *a, **k):
    return None
  touch = mkdir

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def open(self, name, mode='r', **_):
    if 'w' not in mode:
      raise H.Unsupported('file')
    return Entry(self, name)
  close = touch


class Entry:
  def __init__(self, file, name):
    self.file, self.name = file, name

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def write_array(self, a):
    self.file.content[self.name[:-4] if self.name.endswith('.npy') else self.name] = a


class Threads:
  """Stands for threading. Waiting for something that never happens is a deadlock."""

  class Lock:
    def __init__(self):
      self.held = False

    def acquire(self, *_, **__):
      hjax.obligation('no deadlock', z3.BoolVal(not self.held))
      self.held = True
      return True

    def release(self):
      hjax.obligation('only a held lock is released', z3.BoolVal(self.held))
      self.held = False

    def __enter__(self):
      return self.acquire()

    def __exit__(self, *a):
      self.release()

    def locked(self):
      return self.held

  class Event:
    def __init__(self):
      self.flag = False

    def set(self):
      self.flag = True

    def wait(self, *_):
      hjax.obligation('no deadlock', z3.BoolVal(self.flag))

  class Barrier:
    def __init__(self, parties):
      pass

    def wait(self):
      raise H.Unsupported('barrier')


class Hdf5:
  """Stands for an open file: data sets by name."""

  def __init__(self):
    self.sets = {}

  def create_dataset(self, name, shape=None, dtype=None, **_):
    if name in self.sets:
      raise ValueError('Unable to create dataset (name already exists)')
    if len(shape) == 1:
      self.sets[name] = H.HArr(shape, lambda a: JX(a), 'o', dtype=onp.dtype(dtype))
    else:
      self.sets[name] = H.HArr(shape, lambda a, b: JY(a, b), 'o', dtype=onp.dtype(dtype))
    return self.sets[name]

  def __getitem__(self, name):
    return self.sets[name]


def registered(kind, io, env_, names=True):
  """A collector with C chains and one more. Returns it with the id of the new chain."""
  args = {'memory': lambda: io.MemoryCollector(), 'npz': lambda: io.MemoryCollector(File('dir')),
          'json': lambda: io.JSONCollector(File('dir'), **env_),
          'hdf5': lambda: io.HDF5Collector(Hdf5())}
  col = args[kind]()
  for k, v in list(vars(col).items()):
    if isinstance(v, list):
      if v:
        raise H.Unsupported('new collector')
      setattr(col, k, Chains(C))
    elif isinstance(v, dict):
      raise H.Unsupported('chains in a dictionary')
  cid = col.register_chain(init_sample=sample(0), init_checkpoint=({'s': 1}, None),
                           static_information=static())
  return col, cid


def lists(col):
  return {k: v for k, v in vars(col).items() if isinstance(v, Chains)}


def midway(col, k=K):
  """The collector after k saved samples."""
  for name, v in lists(col).items():
    v.length = C + 1 + LAT
    if isinstance(v.value, list) and not v.value:
      v.value = Samples(k)
    elif isinstance(v.value, list) and all(isinstance(a, H.HArr) for a in v.value):
      v.value = storage(k, v.value)
    elif isinstance(v.value, int) and not isinstance(v.value, bool):
      if v.value:
        raise H.Unsupported('count of samples')
      v.value = H.mk(k)
  file = next((v for v in vars(col).values() if isinstance(v, Hdf5)), None)
  if file is not None:
    file.sets = dict(zip(file.sets, storage(k, list(file.sets.values()))))
  return col


def stored(col):
  """The sample arrays of the own chain."""
  file = next((v for v in vars(col).values() if isinstance(v, Hdf5)), None)
  if file is not None:
    return list(file.sets.values())
  for v in lists(col).values():
    if isinstance(v.value, list) and v.value and all(isinstance(a, H.HArr) for a in v.value):
      return v.value
  raise H.Unsupported('stored samples')


def distinct_names(names):
  """Texts of different chains are different: the number of the chain is a digit string
  between pieces without digits at its ends."""
  out = []
  for nm in names:
    pos = [m for m in Text.terms if m in nm]
    pos.sort(key=nm.index)
    if not pos:
      return z3.BoolVal(False)
    k = nm.index(pos[0])
    before, after = nm[:k], nm[k + len(pos[0]):]
    out.append(Text.terms[pos[0]] == C)
    out.append(z3.BoolVal('⟦' not in before and not before[-1:].isdigit()
                          and not after[:1].isdigit() and after[:1] != '⟦'))
  return z3.And(*out)


class Json:
  def __init__(self):
    self.written = []

  def dump(self, obj, file, **kw):
    if kw:
      raise H.Unsupported('options of dump')
    self.written.append((file.name, obj))


def collector_shims(json=None):
  return io_shims(threading=Threads, Path=lambda p: p, ujson=json or Json(),
                  open=lambda f, mode='r', *a, **k: f,
                  zipfile=types.SimpleNamespace(ZipFile=lambda f, *a, **k: f),
                  HDF5File=Hdf5)


def prove_collector(kind):
  def prove(obs):
    env_ = {'write_frequency': H.mk(F)} if kind == 'json' else {}
    cls = {'json': 'JSONCollector', 'hdf5': 'HDF5Collector'}.get(kind, 'MemoryCollector')
    hyps = [n >= 1, C >= 0, F >= 0, LAT >= 0]

    def register():
      with collector_shims() as io:
        return registered(kind, io, env_)
    ps = D.Paths(obs, 'register_chain', register, hyps, (), SIZES, IO + f'{cls}.register_chain')
    ps.safe()
    ps.ensure('the chain has the next number', lambda p: H._int(
      H.asarr(p.result[1]).term()) == C)
    ps.ensure('every list has one more entry', lambda p: z3.BoolVal(
      all(v.added == 1 for v in lists(p.result[0]).values())))
    if kind in ('memory', 'npz', 'hdf5'):
      ps.ensure('storage for every sample', lambda p: z3.And(
        holds(stored(p.result[0]), 0),
        z3.BoolVal([a.dtype for a in stored(p.result[0])] == [onp.float32, onp.float16])))
    if kind == 'hdf5':
      ps.ensure('data sets of the chains are different', lambda p: distinct_names(
        next(v for v in vars(p.result[0]).values() if isinstance(v, Hdf5)).sets))

    full = [K < n] if kind != 'json' else []
    written = Json()

    def save():
      written.written.clear()
      with collector_shims(written) as io:
        col, _ = registered(kind, io, env_)
        midway(col)
        col.save(D.scalar(C), tree_util.tree_leaves(sample(K)))
        seq = [v.value for v in lists(col).values() if isinstance(v.value, Samples)]
        if seq:
          for _ in seq[0]:
            pass
        return col, list(written.written), seq
    ps = D.Paths(obs, 'save', save, hyps + [K >= 0] + full, (), SIZES, IO + f'{cls}.save')
    ps.safe()
    if kind == 'json':
      ps.ensure('one sample is added', lambda p: z3.BoolVal(
        len(p.result[2]) == 1 and len(p.result[2][0].new) == 1))
      def frequency(p):
        if not H.entails(p, F > 0):
          return z3.And(F == 0, z3.BoolVal(not p.result[1]))
        before = len(p.decisions)
        rest = H._int(H.mod(K + 1, F))
        if len(p.decisions) != before:
          raise H.Unsupported('remainder')
        return z3.And(z3.BoolVal(len(p.result[1]) <= 1),
                      z3.BoolVal(len(p.result[1]) == 1) == (rest == 0))
      ps.ensure('a file is written at the frequency', frequency)
      ps.ensure('the file contains all samples', lambda p: z3.And(*[
        z3.And(json_content(c, K + 1), distinct_names([nm])) for nm, c in p.result[1]]))
    else:
      ps.ensure('the sample is added unchanged', lambda p: holds(stored(p.result[0]), K + 1))
    ps.ensure('the samples are counted', lambda p: z3.And(*[
      H._int(H.asarr(v.value).term()) == K + 1 for v in lists(p.result[0]).values()
      if isinstance(v.value, (H.SymInt, H.HArr))]))

    def finish():
      written.written.clear()
      with collector_shims(written) as io:
        col, _ = registered(kind, io, env_)
        midway(col)
        col.finalize(D.scalar(C))
        res = col.finished(D.scalar(C))
        return col, res, list(written.written)
    ps = D.Paths(obs, 'finalize', finish, hyps + [K >= 0] + ([K <= n] if full else []), (),
                 SIZES, IO + f'{cls}.finalize')
    ps.safe()
    if kind == 'json':
      ps.ensure('the file contains all samples', lambda p: z3.And(
        z3.BoolVal(len(p.result[2]) == 1) == (K > 0), z3.BoolVal(len(p.result[2]) <= 1),
        *[z3.And(json_content(c, K), distinct_names([nm])) for nm, c in p.result[2]]))
    elif kind == 'hdf5':
      ps.ensure('the samples stay', lambda p: holds(stored(p.result[0]), K))
    else:
      ps.ensure('the samples are returned in their structure', lambda p: z3.And(
        z3.BoolVal(isinstance(p.result[1], dict) and set(p.result[1]) == {'x', 'y'}),
        holds([p.result[1]['x'], p.result[1]['y']], K)))
    if kind == 'npz':
      def files(p):
        out = [f for v in vars(p.result[0]).values() if isinstance(v, File) for f in v.log]
        out = [f for f in out if f.content]
        if len(out) != 1 or set(out[0].content) != {'x', 'y'}:
          return z3.BoolVal(False)
        return z3.And(holds([out[0].content['x'], out[0].content['y']], K),
                      distinct_names([out[0].name]))
      ps.ensure('the file contains the samples', files)
  return prove


def json_content(c, k):
  ok = isinstance(c, list) and len(c) == 2 and all(
    isinstance(a, list) and a[0] == 'list' for a in c)
  if not ok:
    return z3.BoolVal(False)
  return holds([a[1] for a in c], k, k)


# ------------------------------------------------------------ transfer to host
J1, J2 = z3.Ints('J1 J2')
CH = z3.Function('CH', H.I, H.I)
KP = z3.Function('KP', H.I, H.B)
CNT = z3.Function('CNT', H.I, H.I)
BX = z3.Function('BX', H.I, Val)
BY = z3.Function('BY', H.I, H.I, Val)
lane = z3.Int('lane')


class Batch(H.HArr):
  """Values of all vectorized chains. Loops see two arbitrary chains in order."""

  def __iter__(self):
    for t in (J1, J2):
      yield self[H.mk(t)]
    H.path().done = getattr(H.path(), 'done', 0) + 1


def chains(a):
  """An array with a value for each of the vectorized chains."""
  return isinstance(a, H.HArr) and a.ndim == 1 and H._same(a.dims[0], BN)


class Chosen:
  """Positions of the true values."""

  def __init__(self, a):
    if a.kind != 'b' or a.ndim != 1:
      raise H.Unsupported('positions of true values')
    self.a = a

  def __iter__(self):
    for t in (J1, J2):
      if self.a[H.mk(t)]:
        yield H.mk(t)
    H.path().done = getattr(H.path(), 'done', 0) + 1


def _enumerate(x, start=0):
  if isinstance(x, Batch):
    return ((H.mk(H.simp(t + start)), v) for v, t in zip(iter(x), itertools.chain((J1, J2), (J2,))))
  return enumerate(x, start)


def _range(*a):
  if len(a) == 1 and isinstance(a[0], H.SymInt):
    return Batch((a[0].t,), lambda k: k)
  return range(*a)


def mentions(t, v):
  return not z3.substitute(t, (v, z3.Int('another chain'))).eq(t)


def depends(a):
  return mentions(a.at(*[z3.Int(f'q{d}') for d in range(a.ndim)]), lane)


def lift(a):
  """Value of one chain -> values of all."""
  f = a.fn
  return Batch((BN,) + a.dims, lambda b, *ix: z3.substitute(f(*ix), (lane, H._int(b))), a.kind,
               dtype=a.dtype)


class Collector:
  def __init__(self):
    self.log = []

  def register_chain(self, **kw):
    self.log.append(('register', kw))
    return H.mk(C)

  def save(self, chain_id, values):
    self.log.append(('save', H._int(H.asarr(chain_id).term()), list(values)))

  def finalize(self, chain_id):
    self.log.append(('finalize', H._int(H.asarr(chain_id).term())))

  def finished(self, chain_id):
    self.log.append(('finished', H._int(H.asarr(chain_id).term())))
    return ('samples of', H._int(H.asarr(chain_id).term()))


class Callbacks:
  """Stands for host_callback: the function receives the arrays on the host; under
  vectorization the batched arrays and a description of the batched ones."""

  def __init__(self, vectorized=False):
    self.vectorized = vectorized

  def id_tap(self, f, args, *, result=None, **kw):
    args_ = tree_util.tree_map(H.asarr, args)
    if self.vectorized:
      flat, tree = tree_util.tree_flatten(args_)
      dims = tuple(0 if depends(a) else None for a in flat)
      # arguments which are not batched are marked by an object that is no number
      dims = tuple(d if d == 0 else NOT_MAPPED for d in dims)
      flat = [lift(a) if d == 0 else a for a, d in zip(flat, dims)]
      f(tree_util.tree_unflatten(tree, flat), (('batch', {'batch_dims': dims}),))
    else:
      f(args_, ())
    return args if result is None else result

  def __getattr__(self, name):
    raise H.Unsupported(f'host_callback.{name}')


NOT_MAPPED = object()


class VmapLax(hjax.Lax):
  """Conditions on values of the chains become selections."""

  @staticmethod
  def cond(pred, true_fun, false_fun, *operands):
    p = H.asarr(pred)
    if not depends(p):
      return hjax.Lax.cond(pred, true_fun, false_fun, *operands)
    a, b = true_fun(*operands), false_fun(*operands)
    return tree_util.tree_map(lambda x, y: H._NP.where(p, x, y), a, b)


def prove_save(obs):
  from jax_sgmc import io
  keep = z3.Bool('keep')
  struct = {'x': D.obj((), lambda: BX(0)), 'y': D.obj((2,), lambda b: BY(0, b))}

  def single():
    col = Collector()
    with io_shims(host_callback=Callbacks()):
      init, save, post = io.save(col)
      st = init(struct, {'c': 1}, 'static')
      zero = st.saved_samples
      st = st._replace(saved_samples=D.scalar(K))
      new, _ = save(st, D.scalar(keep), struct, scheduler_state=1, solver_state=2)
      res = post(new, None)
    return col.log, zero, new, res, st
  ps = D.Paths(obs, 'one chain', single, [K >= 0, C >= 0], (), SIZES, IO + 'save')
  ps.safe()

  def calls(p):
    log, zero, new, res, st = p.result
    names = [e[0] for e in log]
    saved = names == ['register', 'save', 'finalize', 'finished']
    if not saved and names != ['register', 'finalize', 'finished']:
      return z3.BoolVal(False)
    reg = log[0][1]
    ok = [z3.BoolVal(saved) == keep, z3.BoolVal(
      zero == 0 and reg.get('init_sample') is struct and reg.get('init_checkpoint') == {'c': 1}
      and reg.get('static_information') == 'static'),
          *[e[1] == C for e in log[1:]]]
    if saved:
      x, y = map(H.asarr, log[1][2])
      ok += [x.at() == BX(0), y.at(j) == BY(0, j)]
    return z3.And(*ok)
  ps.ensure('kept samples are sent once and unchanged, then the chain is finished', calls,
            [j >= 0, j < 2])
  ps.ensure('kept samples are counted', lambda p: z3.And(
    H._int(H.asarr(p.result[2].saved_samples).term()) == K + z3.If(keep, 1, 0),
    H._int(H.asarr(p.result[3]['sample_count']).term()) == K + z3.If(keep, 1, 0),
    H._int(H.asarr(p.result[2].chain_id).term()) == C,
    z3.BoolVal(isinstance(p.result[3]['samples'], tuple)),
    p.result[3]['samples'][1] == C))


def prove_vmap(own_keep, shared):
  def prove(obs):
    from jax_sgmc import io
    kp = KP(lane) if own_keep else z3.Bool('keep')

    def keep_of(t):
      return z3.substitute(kp, (lane, t))

    def run():
      col = Collector()
      x = D.obj((), lambda: BX(lane))
      y = D.obj((2,), lambda b: BY(7, b)) if shared else D.obj((2,), lambda b: BY(lane, b))
      with io_shims(host_callback=Callbacks(True), lax=VmapLax()):
        init, save, _ = io.save(col)
        st = init({'x': x, 'y': y}, None, None)
        st = st._replace(chain_id=D.scalar(CH(lane)), saved_samples=D.scalar(CNT(lane)))
        new, _ = save(st, D.scalar(kp), {'x': x, 'y': y}, scheduler_state=1, solver_state=2)
      return [e for e in col.log if e[0] != 'register'], new, getattr(H.path(), 'done', 0)
    ps = D.Paths(obs, 'vectorized chains', run, [J1 >= 0, J1 < J2, J2 < BN, lane >= 0, lane < BN],
                 (), SIZES, IO + 'save._save')
    ps.safe()

    def sent(p):
      log, _, done = p.result
      if any(e[0] != 'save' or len(e[2]) != 2 for e in log) or len(log) > 2:
        return z3.BoolVal(False)

      def matches(e, t):
        x, y = map(H.asarr, e[2])
        if x.ndim != 0 or y.ndim != 1:
          return z3.BoolVal(False)
        return z3.And(e[1] == CH(t), x.at() == BX(t), D.dims(y, 2),
                      y.at(j) == (BY(7, j) if shared else BY(t, j)))
      k1, k2 = keep_of(J1), keep_of(J2)
      none = z3.And(z3.Not(k1), z3.Not(k2))
      if not log:
        return none
      if not done:
        return z3.BoolVal(False)
      if len(log) == 1:
        return z3.Or(z3.And(k1, z3.Not(k2), matches(log[0], J1)),
                     z3.And(k2, z3.Not(k1), matches(log[0], J2)))
      return z3.And(k1, k2, matches(log[0], J1), matches(log[1], J2))
    ps.ensure('each chain sends its kept samples once and unchanged', sent, [j >= 0, j < 2])
    ps.ensure('every chain counts its samples', lambda p: z3.And(
      H._int(H.asarr(p.result[1].saved_samples).term()) == CNT(lane) + z3.If(
        kp, 1, 0), H._int(H.asarr(p.result[1].chain_id).term()) == CH(lane)))
  return prove


# -------------------------------------------------------------- running code
TREES = {
  'array': lambda k: jnp.asarray(k, jnp.float32) * 1.5,
  'tree': lambda k: {'b': jnp.stack([k * 1., -k * 2.]), 'a': (jnp.asarray(k), [k * 0.25]),
                     'm': jnp.full((2, 3), k, jnp.float16), 'f': k % 2 == 0},
  'special': lambda k: {'w': jnp.where(k % 2 == 0, jnp.nan, jnp.inf) * jnp.ones(2),
                        'z': jnp.float32(1e-39) * k},
  'many': lambda k: [jnp.asarray(k * 100 + q + 2 ** 25) for q in range(12)],
  'shared': lambda k: {'a': jnp.arange(3.) + 5, 'v': k * 1., 'w': jnp.asarray(2)},
  'names': lambda k: {'file': k * 1., 'arr_0': k + 0.5, 'allow_pickle': -k},
  'numbers': lambda k: {11: k * 1., 2: {3: k + 0.5}},
}


def patterns(se):
  yield [True]
  yield [False, True, False]
  yield [True] * 4
  yield [False, False, True, True, False, True]
  yield [k % 5 != 1 for k in range(150)]
  for v in literals.sizes()[:12]:
    if 0 < v <= 1500:
      yield [se.rng.random() < 0.9 for _ in range(v)] + [True]
      yield [k % 2 == 0 or k > v for k in range(2 * v)]
  for q in itertools.count():
    if q % 8 == 7:
      yield [se.rng.random() < 0.8 for _ in range(60 * se.factor)] + [True]
    yield [se.rng.random() < 0.5 for _ in range(se.rng.randrange(2, 14))] + [True]


def make(kind, folder, freq):
  from jax_sgmc import io
  if kind == 'device':
    return None, io.no_save()
  col = {'memory': lambda: io.MemoryCollector(),
         'npz': lambda: io.MemoryCollector(os.path.join(folder, 'npz')),
         'json': lambda: io.JSONCollector(os.path.join(folder, 'json'), freq),
         'hdf5': lambda: io.HDF5Collector(__import__('h5py').File(
           os.path.join(folder, 'f.h5'), 'w'))}[kind]()
  return col, io.save(col)


def compare(got, want, case, what):
  got, want = onp.asarray(got), onp.asarray(want)
  if got.shape != want.shape:
    raise Failure(f'{what}: shape {got.shape} instead of {want.shape}', **case)
  a, b = got.astype(onp.float64), want.astype(onp.float64)
  if not onp.array_equal(a, b, equal_nan=True):
    raise Failure(f'{what}: {got.tolist()} instead of {want.tolist()}', **case)


def expected(tree, idx, total):
  """Leaves of the kept samples."""
  each = [tree_util.tree_leaves(jax.tree_util.tree_map(onp.asarray, tree(jnp.asarray(k))))
          for k in idx]
  return [onp.stack([e[q] for e in each]) for q in range(len(each[0]))]


def check_result(kind, col, folder, res, tree, idx, cid, freq, case, capacity):
  from jax_sgmc import io
  want = expected(tree, idx, capacity)
  k = len(idx)
  if int(res['sample_count']) != k:
    raise Failure(f"chain {cid}: sample_count {res['sample_count']} instead of {k}", **case)
  struct = tree_util.tree_structure(tree(jnp.asarray(0)))
  if kind in ('device', 'memory', 'npz'):
    if tree_util.tree_structure(res['samples']) != struct:
      raise Failure('structure of the samples', **case)
    like = [jnp.asarray(l) for l in tree_util.tree_leaves(tree(jnp.asarray(0)))]
    for g, w, l in zip(tree_util.tree_leaves(res['samples']), want, like):
      if g.shape[0] != capacity or g.dtype != l.dtype:
        raise Failure(f'chain {cid}: array {g.dtype}{g.shape}', **case)
      compare(g[:k], w, case, f'chain {cid}')
  if kind == 'json':
    files = {p.name: __import__('ujson').loads(p.read_text())
             for p in pathlib.Path(folder, 'json').iterdir()}
    mine = {nm: c for nm, c in files.items() if nm.startswith(f'chain_{cid}_')}
    counts = ({f for f in range(1, k + 1) if freq and f % freq == 0}) | {k}
    if set(mine) != {f'chain_{cid}_iteration_{c}.json' for c in counts}:
      raise Failure(f'chain {cid}: files {sorted(mine)}', **case)
    for c in counts:
      got = mine[f'chain_{cid}_iteration_{c}.json']
      if len(got) != len(want):
        raise Failure(f'chain {cid}: {len(got)} leaves', **case)
      for g, w in zip(got, want):
        compare(onp.asarray(g).astype(w.dtype), w[:c], case, f'file of chain {cid} at {c}')
  keys = ['/'.join(map(str, p)) for p in io.pytree_dict_keys(tree(jnp.asarray(0)))]
  if kind == 'npz':
    name = os.path.join(folder, 'npz', f'chain_{cid}.npz')
    if not os.path.exists(name):
      raise Failure(f'no file of chain {cid}', **case)
    with onp.load(name) as f:
      if sorted(f.files) != sorted(keys):
        raise Failure(f'chain {cid}: entries {f.files}', **case)
      for nm, w in zip(keys, want):
        compare(f[nm][:k], w, case, f'file of chain {cid}')
  if kind == 'hdf5':
    for nm, w in zip(keys, want):
      nm = f'chain~{cid}/{nm}' if nm else f'chain~{cid}'
      if nm not in col._file:
        raise Failure(f'no data set {nm}', **case)
      d = col._file[nm][()]
      compare(d[:k], w, case, f'data set of chain {cid}')


def scenario(se, kind, mode, chains, tree, pattern, freq, runs):
  """Runs with the saving functions alone; samples of chain c are distinguishable."""
  from jax_sgmc.util import list_map
  from jax_sgmc import scheduler
  folder = tempfile.mkdtemp(prefix='c08-', dir=env.SCRATCH if hasattr(env, 'SCRATCH') else None)
  case = dict(collector=kind, mode=mode, chains=chains, tree=tree, pattern=pattern,
              frequency=freq, runs=runs)
  se.now = case
  try:
    col, (init, save, post) = make(kind, folder, freq)
    def start(r):
      fn = TREES[list(TREES)[(list(TREES).index(tree) + 3 * r) % len(TREES)]]
      pats = [pattern if mode != 'vmap own' else pattern[c:] + pattern[:c]
              for c in range(chains)]
      cap = max(sum(p) for p in pats)
      st = [init(fn(jnp.asarray(0)), ({}, None), scheduler.static_information(
        samples_collected=cap)) for _ in range(chains)]
      return fn, pats, cap, st

    cid, todo = 0, []
    together = runs > 1 and len(pattern) % 2      # all chains are registered at the start
    started = [start(r) for r in range(runs)] if together else None
    for r in range(runs):
      fn, pats, cap, st = started[r] if together else start(r)
      off = [10000 * r + 1000 * c for c in range(chains)]

      def run(arg):
        state, o, *pat = arg

        def up(s, x):
          k, p = x
          new, _ = save(s, p, fn(o + k), scheduler_state=None, solver_state=None)
          return new, None
        return jax.lax.scan(up, state, (jnp.arange(len(pattern)), *(
          pat or [jnp.asarray(pattern)])))[0]
      args = [(s, jnp.asarray(o)) + (() if mode == 'vmap' else (jnp.asarray(p),))
              for s, o, p in zip(st, off, pats)]
      if mode == 'map':
        fin = [jax.jit(run)(a) for a in args]
      elif mode == 'eager':
        fin = []
        for (s, o, p) in args:
          for k, q in enumerate(pats[0]):
            s, _ = save(s, jnp.asarray(q), fn(o + k))
          fin.append(s)
      else:
        fin = list(jax.jit(list_map.list_vmap(run))(*args))
      res = [post(s, None) for s in fin]
      for c in range(chains):
        idx = [off[c] + k for k, q in enumerate(pats[c]) if q]
        todo.append((res[c], fn, idx, cid, cap))
        cid += 1
    for res, fn, idx, cid, cap in todo:
      check_result(kind, col, folder, res, fn, idx, cid, freq, case, cap)
    if kind == 'hdf5':
      col._file.close()
    se.count(case)
  finally:
    shutil.rmtree(folder, ignore_errors=True)


def search_kinds(*kinds):
  def search(se):
    pats = patterns(se)
    combos = [(k, m, c) for m, c in (('map', 1), ('vmap', 2), ('vmap own', 3), ('map', 2),
                                     ('eager', 1), ('vmap', 1)) for k in kinds]
    for q in itertools.count():
      if not se.more() and q >= len(combos):
        break
      kind, mode, c = combos[q % len(combos)]
      scenario(se, kind, mode, c, list(TREES)[(q + q // len(combos)) % len(TREES)], next(pats),
               (0, 2, 1, 3)[q % 4], 1 + (q % 3 == 1))
  return search


def search_shared(se):
  """Values which are the same for all vectorized chains."""
  pats = patterns(se)
  for q in itertools.count():
    if not se.more() and q >= 4:
      break
    scenario(se, ('memory', 'hdf5', 'device', 'json')[q % 4], ('vmap', 'vmap own')[q // 4 % 2],
             2 + q % 2, 'shared', next(pats), 0, 1)


def search_mcmc(se):
  """Complete runs: samples on device and host agree, static information is delivered."""
  from jax_sgmc import io, scheduler, solver
  for q in itertools.count():
    if not se.more() and q >= 4:
      break
    strategy = ('map', 'vmap')[q % 2]
    chains = 1 + q % 3
    iters, burn, acc = [(7, 2, 3), (10, 0, 10), (9, 3, 2), (12, 5, 4)][q % 4]
    case = dict(strategy=strategy, chains=chains, iterations=iters, burn_in=burn, accepted=acc)
    se.now = case

    def update(state, *schedules, **kw):
      return state + 1, None
    sol = (lambda s: s, update, lambda s: {'v': s, 'w': jnp.stack([s, -s]) * 0.5})
    if q % 2:
      thin = scheduler.random_thinning(scheduler.polynomial_step_size(1., 1., 0.33),
                                       scheduler.initial_burn_in(burn), acc)
    else:
      thin = None
    sched = scheduler.init_scheduler(burn_in=scheduler.initial_burn_in(burn), thinning=thin,
                                    progress_bar=False)
    dev = solver.mcmc(sol, sched, strategy=strategy)
    col = io.MemoryCollector()
    host = solver.mcmc(sol, sched, strategy=strategy, saving=io.save(col))
    start = [jnp.asarray(100. * c) for c in range(chains)]
    a = dev(*start, iterations=iters)
    b = host(*start, iterations=iters)
    b2 = host(*start, iterations=iters)
    for c in range(chains):
      for r in (b, b2):
        if int(a[c]['sample_count']) != int(r[c]['sample_count']):
          raise Failure('sample_count on device and host', **case)
        for x, y in zip(tree_util.tree_leaves(a[c]['samples']),
                        tree_util.tree_leaves(r[c]['samples'])):
          compare(x, y, case, f'chain {c}')
      v = onp.asarray(a[c]['samples']['v'])
      if len(v) != int(a[c]['sample_count']):
        raise Failure(f'{len(v)} samples, sample_count {a[c]["sample_count"]}', **case)
      if thin is None and not onp.array_equal(v, 100. * c + 1 + onp.arange(burn, iters)):
        raise Failure(f'chain {c}: {v.tolist()}', **case)
    se.count(case)


def check():
  units = [Unit('samples on the device', [IO + 'no_save'], prove_device,
                search_kinds('device'), soft=True)]
  for kind, nm, fs in (
      ('memory', 'samples in memory', ['MemoryCollector']),
      ('npz', 'samples in memory and in files', ['MemoryCollector']),
      ('json', 'samples in JSON files', ['JSONCollector', 'JSONCollector._write_file']),
      ('hdf5', 'samples in HDF5 files', ['HDF5Collector'])):
    units.append(Unit(nm, [IO + f for f in fs], prove_collector(kind), search_kinds(kind),
                      soft=True))
  units.append(Unit('transfer to the host', [IO + 'save'], prove_save, search_mcmc, soft=True))
  for own in (True, False):
    for shared in (False, True):
      units.append(Unit(
        'transfer of vectorized chains' + (', common pattern' if not own else '')
        + (', shared values' if shared else ''), [IO + 'save'], prove_vmap(own, shared),
        search_shared if shared and own else None, soft=True))
  return Check(
    'C08', 'Collected samples', units=units,
    assumptions=[
      'host_callback.id_tap delivers every call once, in order, with the values of the program '
      'and the batched ones marked under vmap',
      'h5py, numpy and ujson write what they are given',
      'the run keeps at most samples_collected samples (C10)',
      'names of the leaves contain no "/"'],
    note='Any number of samples, chains and iterations: each save extends the stored sequence '
         'of samples by one (induction over the run).')
