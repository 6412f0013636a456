"""C01: ordered pass over the full data."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
import z3

from vf import env, hjax, host as H, terms as T
from vf.check import Check, Unit, Failure
from vf.props import dcommon as D
from vf.props.dcommon import N, M, NL, X, Y, Val, row

CORE = 'jax_sgmc/data/core.py: '
E = H.ceil_name(N, M)               # number of batches of a pass
E_HYPS = [M * E >= N, M * E < N + M]
O = z3.Int('o')                     # offset of a pass on the device
Wrap = z3.Function('wrap', H.I, H.I)
WrapQ = z3.Function('wrapq', H.I, H.I)
Carry = z3.Function('carry', H.I, Val)
Fa = z3.Function('Fa', Val, Val, Val, Val, Val)
Fb = z3.Function('Fb', Val, Val, Val, Val, H.I, Val)
Ga = z3.Function('Ga', H.I, Val)
Gb = z3.Function('Gb', H.I, H.I, Val)


def wrap_def(ts):
  """wrap(i) = i mod N."""
  out = []
  for a in H.apps(ts, Wrap):
    if not T.has_var(a):
      q = WrapQ(a.arg(0))
      out += [a >= 0, a < N, a == a.arg(0) - N * q, z3.Implies(z3.And(
        a.arg(0) >= 0, a.arg(0) < N), a == a.arg(0))]
  return out


# ----------------------------------------------------------- ordered indices
def prove_step(obs):
  i, j = z3.Ints('i j')

  def run():
    H._z(H.ceildiv(N, M))
    c = {'type': 'ordered', 'rng': None, 'idx_offset': H.mk(i * M), 'mb_size': H.mk(M),
         'cache_size': 1}
    loader = D.sym_loader(D.loader_module())
    return (c,) + tuple(loader._ordered_indices(c))
  ps = D.Paths(obs, 'batch i of a pass', run, D.SIZE_HYPS + E_HYPS + [i >= 0, i < E],
               func=NL + '_ordered_indices')
  ps.safe()
  rowj = [j >= 0, j < M]
  ps.ensure('batch has the requested size', lambda p: z3.And(
    D.dims(p.result[1], M), D.dims(p.result[2], M), z3.BoolVal(D.is_bool(p.result[2]))))
  ps.ensure('row j is observation i m + j', lambda p: z3.Implies(
    i * M + j < N, row(p.result[1], j) == i * M + j), rowj)
  ps.ensure('padding refers to existing observations', lambda p: z3.And(
    row(p.result[1], j) >= 0, row(p.result[1], j) < N), rowj)
  ps.ensure('exactly the padding is masked', lambda p: row(p.result[2], j) == (i * M + j < N),
            rowj)
  ps.ensure('next batch, the pass is repeated after the last', lambda p: H._int(
    p.result[0]['idx_offset']) == z3.If(i + 1 < E, (i + 1) * M, 0))


def prove_requests(cache):
  def prove(obs):
    i, j = z3.Ints('i j')

    def run():
      H._z(H.ceildiv(N, M))
      c = {'type': 'ordered', 'rng': None, 'idx_offset': H.mk(i * M), 'mb_size': H.mk(M),
           'cache_size': cache}
      loader = D.sym_loader(D.loader_module())
      loader._chains += [{'type': 'random', 'in_epochs': True, 'shuffle': True}, c]
      return (c,) + tuple(loader._get_indices(1))
    ps = D.Paths(obs, f'cache of {cache}', run, D.SIZE_HYPS + E_HYPS + [i >= 0, i < E],
                 func=NL + '_get_indices')
    ps.safe()
    ps.ensure('shape', lambda p: z3.And(D.dims(p.result[1], cache, M),
                                        D.dims(p.result[2], cache, M)))

    def batch(b, goal):
      """Goal for batch i + b of the stream, as a batch of its pass."""
      return z3.And(*[z3.Implies(z3.And(i + b >= c * E, i + b < (c + 1) * E), goal(i + b - c * E))
                      for c in range(cache + 1)])
    for b in range(cache):
      ps.ensure(f'batch {b} of the request is batch i + {b} of the stream', lambda p: batch(
        b, lambda k: z3.And(row(p.result[2], b, j) == (k * M + j < N), z3.Implies(
          k * M + j < N, row(p.result[1], b, j) == k * M + j))), [j >= 0, j < M])
    ps.ensure('state after the request', lambda p: batch(cache, lambda k: H._int(
      p.result[0]['idx_offset']) == k * M))
  return prove


At = z3.Function('batch_at', H.I, H.I)     # number of the batch in its pass, by recursion


class Requests(H.LoopContract):
  """The state of the chain in a loop over consecutive batches."""

  def __init__(self, first, chain):
    self.first, self.c = first, chain

  def begin(self):
    H.path().assume(At(0) == self.first)
    H.path().require('before the batches: offset',
                     H._int(self.c['idx_offset']) == self.first * M)

  def at(self, k):
    b = At(H._z(k))
    H.path().assume(b >= 0, b < E)
    self.c['idx_offset'] = H.mk(b * M)

  def kept(self, k):
    p, b = H.path(), At(k)
    p.assume(At(k + 1) == z3.If(b + 1 < E, b + 1, 0))
    p.require('after a batch: offset', H._int(self.c['idx_offset']) == z3.If(
      b + 1 < E, (b + 1) * M, 0))
    p.require('after a batch: number', z3.And(At(k + 1) >= 0, At(k + 1) < E))


def prove_any_cache(obs):
  i, j, k = z3.Ints('i j k')

  def run():
    H._z(H.ceildiv(N, M))
    c = {'type': 'ordered', 'rng': None, 'idx_offset': H.mk(i * M), 'mb_size': H.mk(M),
         'cache_size': H.mk(D.CACHE)}
    loader = D.sym_loader(D.loader_module())
    loader._chains += [{'type': 'random', 'in_epochs': True, 'shuffle': True}, c]
    p = H.path()
    p.arbitrary, p.contract = True, Requests(i, c)
    res = loader._get_indices(1)
    if p.contract is not None:
      raise H.Unsupported('no loop over the batches')
    return c, res
  ps = D.Paths(obs, 'request', run, D.SIZE_HYPS + E_HYPS + [i >= 0, i < E, D.CACHE >= 1],
               func=NL + '_get_indices')
  ps.safe()
  ps.ensure('shape', lambda p: z3.And(D.dims(p.result[1][0], D.CACHE, M),
                                      D.dims(p.result[1][1], D.CACHE, M)))

  def goal(p):
    a = D.any_item(p, D.CACHE, k)
    got, mask = row(p.result[1][0], a, j), row(p.result[1][1], a, j)
    o = At(a) * M + j
    return z3.And(mask == (o < N), z3.Implies(o < N, got == o), got >= 0, got < N)
  ps.ensure('row k is the k-th batch that follows', goal,
            [j >= 0, j < M, k >= 0, k < D.CACHE])
  ps.ensure('state after the request', lambda p: H._int(
    p.result[0]['idx_offset']) == At(D.CACHE) * M)


def prove_register(obs):
  def run():
    loader = D.sym_loader(D.loader_module())
    ids = [loader.register_ordered_pipeline(2, H.mk(M)),
           loader.register_ordered_pipeline(cache_size=H.mk(D.CACHE), mb_size=H.mk(M))]
    return loader._chains, ids
  ps = D.Paths(obs, 'new chain', run, [N >= 1, M >= 1], func=NL + 'register_ordered_pipeline')
  for p in ps.bad:
    ps._add('batches not larger than the data set are accepted', p, M > N)
  ps.bad = []
  ps.safe()
  ps.ensure('larger batches are rejected', lambda p: M <= N)
  ps.ensure('starts at the first observation', lambda p: z3.And(*[
    z3.And(H._int(c['idx_offset']) == 0, H._int(c['mb_size']) == M,
           z3.BoolVal(c['type'] == 'ordered'), H._int(c['cache_size']) == k)
    for c, k in zip(p.result[0], (2, D.CACHE))]))
  ps.ensure('ids are numbered', lambda p: z3.BoolVal(p.result[1] == [0, 1]))


# ------------------------------------------------------------------ scan
def host_class(core):
  class Loader(core.HostDataLoader):
    """Announces the sizes; everything else is reached through contracts."""
    static_information = property(lambda self: {'observation_count': H.mk(N)})
    _format = None
    register_random_pipeline = register_ordered_pipeline = get_batches = None
  return Loader


def device_class(core):
  class Loader(core.DeviceDataLoader):
    static_information = property(lambda self: {'observation_count': H.mk(N)})
    _format = init_random_data = get_random_data = None

    def get_full_data(self):
      return {'x': D.obj((N,), X), 'y': D.obj((N, 2), lambda i, k: Y(i, k))}
  return Loader


def host_row(t, j):
  """Observation in row j of batch t of a pass (contract of the ordered stream)."""
  i = t * M + j
  return z3.If(i < N, i, i - N)


class Rule:
  """Invariant of the scan: after t batches, the data state is at batch t of the pass
  and the carry is the one returned for batch t - 1."""

  def __init__(self, core, device, masking, information):
    self.core, self.device = core, device
    self.masking, self.information = masking, information
    self.t, self.calls = None, 0

  def line(self, t):
    return Wrap(O + t * M) if self.device else t

  def at(self, t):
    return (self.core.CacheState(current_line=D.scalar(H.simp(self.line(t)))),
            {'c': D.scalar(Carry(t))})

  def same(self, state, t):
    s, c = state
    return z3.And(H._int(H.asarr(s.current_line).term()) == self.line(t),
                  H.asarr(c['c']).term() == Carry(t))

  def begin(self, t):
    self.t, self.calls = t, 0

  def end(self, t):
    return z3.BoolVal(self.calls == 1)

  # contract of the batch function of the host (C04)
  def batch_fn(self, state, information=False, device_count=1):
    k = H._int(H.asarr(state.current_line).term())
    mask = H.HArr((M,), lambda j: k * M + j < N, 'b')
    batch = {'x': D.obj((M,), lambda j: X(host_row(k, j))),
             'y': D.obj((M, 2), lambda j, i: Y(host_row(k, j), i))}
    new = self.core.CacheState(current_line=D.scalar(k + 1))
    info = self.core.MiniBatchInformation(H.mk(N), mask, H.mk(M))
    return new, (batch, info) if information else batch

  def fun(self, *args):
    """The mapped function: its precondition is the statement on what is presented."""
    p, t = H.path(), self.t
    self.calls += 1
    args = list(args)
    carry = args.pop()
    mask = args.pop() if self.masking else None
    batch, = args
    if self.information:
      batch, info = batch
      hjax.obligation('information belongs to the data', z3.And(
        H._int(info.observation_count) == N, H._int(info.batch_size) == M))
    j = p.fresh('row')
    rows = z3.And(j >= 0, j < M)
    at = (lambda j: Wrap(O + t * M + j)) if self.device else (lambda j: host_row(t, j))
    valid = z3.BoolVal(True) if self.device else t * M + j < N
    x, y = batch['x'], batch['y']
    hjax.obligation('a batch has the requested number of rows', z3.And(
      D.dims(x, M), D.dims(y, M, 2)))
    hjax.obligation('batch t holds the observations t m, t m + 1, ...', z3.Implies(
      z3.And(rows, t * M + j < N), z3.And(x.at(j) == X(at(j)), y.at(j, 0) == Y(at(j), 0),
                                          y.at(j, 1) == Y(at(j), 1))))
    hjax.obligation('carry of the batch before', H.asarr(carry['c']).term() == Carry(t))
    if mask is not None:
      hjax.obligation('exactly the padding is masked', z3.And(
        D.dims(mask, M), z3.BoolVal(D.is_bool(mask)), z3.Implies(
          rows, row(mask, j) == (t * M + j < N))))
      res = {'a': D.scalar(Ga(t)), 'b': D.obj((3,), lambda i: Gb(t, i))}
    else:
      c = carry['c'].term()
      res = {'a': D.obj((M,), lambda j: Fa(x.at(j), y.at(j, 0), y.at(j, 1), c)),
             'b': D.obj((M, 3), lambda j, i: Fb(x.at(j), y.at(j, 0), y.at(j, 1), c, i))}
    return res, {'c': D.scalar(Carry(t + 1))}


def prove_scan(device, masking, information):
  def prove(obs):
    core = D.core_module()
    i, q, k = z3.Ints('i q k')

    def run():
      rule = Rule(core, device, masking, information)
      loader = (device_class if device else host_class)(core)()
      with D.core_shims(rule, _hcb_wrapper=lambda *a, **kw: (
          rule.batch_fn, core.MiniBatchInformation(H.mk(N), None, H.mk(M)))):
        init_fn, scan, _ = core.full_reference_data(loader, H.mk(z3.Int('cache')), H.mk(M))
        if device:
          state = init_fn(H.mk(O))
        else:
          state = rule.at(z3.IntVal(0))[0]
        rule.rules = core.lax.rules
        state, (res, carry) = scan(rule.fun, state, {'c': D.scalar(Carry(z3.IntVal(0)))},
                                   masking=masking, information=information)
        return state, res, carry, rule
    hyps = D.SIZE_HYPS + E_HYPS + [z3.Int('cache') >= 1] + ([O >= 0, O < N] if device else [])
    ps = D.Paths(obs, 'pass', run, hyps, [wrap_def],
                 func=CORE + 'full_reference_data.batch_scan')
    ps.safe()
    ps.ensure('one pass over the loop', lambda p: z3.BoolVal(not p.result[3].rules))
    ps.ensure('carry of the last batch is returned',
              lambda p: H.asarr(p.result[2]['c']).term() == Carry(E))
    ps.ensure('data state after the pass', lambda p: H._int(H.asarr(
      p.result[0].current_line).term()) == (Wrap(O + E * M) if device else E))
    if masking:
      ps.ensure('one result per batch', lambda p: z3.And(
        D.dims(p.result[1]['a'], E), D.dims(p.result[1]['b'], E, 3)))
      ps.ensure('results in the order of the batches', lambda p: z3.And(
        row(p.result[1]['a'], q) == Ga(q), row(p.result[1]['b'], q, k) == Gb(q, k)),
        [q >= 0, q < E, k >= 0, k < 3])
      return
    ps.ensure('exactly one result per observation', lambda p: z3.And(
      D.dims(p.result[1]['a'], N), D.dims(p.result[1]['b'], N, 3)))
    # observation i is in batch q
    o = (lambda i: Wrap(O + i)) if device else (lambda i: i)
    args = lambda i: (X(o(i)), Y(o(i), 0), Y(o(i), 1), Carry(q))
    ps.ensure('result i belongs to observation i', lambda p: z3.And(
      row(p.result[1]['a'], i) == Fa(*args(i)), row(p.result[1]['b'], i, k) == Fb(*args(i), k)),
      [i >= 0, i < N, M * q <= i, i < M * q + M, k >= 0, k < 3])
  return prove


def prove_init(obs):
  core = D.core_module()
  off = z3.Int('offset')

  def run():
    with D.core_shims():
      init_fn, _, _ = core.full_reference_data(device_class(core)(), 1, H.mk(M))
      first = init_fn()
      return first, init_fn(H.mk(off))
  ps = D.Paths(obs, 'state of a pass on the device', run, D.SIZE_HYPS + [off >= 0],
               func=CORE + '_full_reference_data_device.init_fn')
  for p in ps.bad:
    ps._add('offsets within the data set are accepted', p, off >= N)
  ps.bad = []
  ps.safe()
  ps.ensure('offset', lambda p: z3.And(
    off < N, H._int(H.asarr(p.result[1].current_line).term()) == off,
    H._int(H.asarr(p.result[0].current_line).term()) == 0))

  def large():
    with D.core_shims():
      return core.full_reference_data(device_class(core)(), 1, H.mk(M))
  ps = D.Paths(obs, 'batch larger than the data set', large, [N >= 1, M > N],
               func=CORE + 'full_reference_data')
  for p in ps.ok:
    ps._add('rejected', p, z3.BoolVal(False))
  obs.true('batch larger than the data set: rejected', not ps.ok and bool(ps.bad),
           func=CORE + 'full_reference_data')


# ------------------------------------------------------------------ mapper
def prove_mapper(device, size, unused):
  """``unused`` states wait on the host. Invariant: each of them is at the begin of a
  pass. ``size``: 1 for batches of one observation, m else."""
  def prove(obs):
    core = D.core_module()
    i, q, k = z3.Ints('i q k')
    Fu = z3.Function('Fu', Val, Val, Val, Val, Val)
    Fv = z3.Function('Fv', Val, Val, Val, Val, H.I, Val)
    Cu = z3.Function('Cu', Val, Val, Val)
    Start = z3.Function('start', H.I, H.B)   # line is the begin of a pass
    log = []

    def run(batched, masking):
      del log[:]
      names = itertools.count()
      m = z3.IntVal(1) if size == 1 else M

      def init_fn(**kw):
        t = H.path().fresh('line')
        H.path().assume(Start(t))
        return core.CacheState(current_line=D.scalar(t))

      def map_fn(fun, state, carry, masking=False, information=False, device_count=1):
        """Contract of full_reference_data for a pass started at its begin."""
        t = H._int(H.asarr(state.current_line).term())
        hjax.obligation('the pass starts at the first observation', Start(t))
        end = H.path().fresh('end')
        if not device:   # the ordered stream repeats the pass
          H.path().assume(Start(end))
        log.append((masking, information, device_count))
        if batched:
          res = fun('batch', carry)
          return core.CacheState(current_line=D.scalar(end)), res
        b = H.path().fresh('b')
        off = b * m
        batch = {'x': D.obj((m,), lambda j: X(off + j)),
                 'y': D.obj((m, 2), lambda j, i: Y(off + j, i))}
        res, new = fun(batch, {'c': D.scalar(Carry(b))} if carry is not None else None)
        return core.CacheState(current_line=D.scalar(end)), (b, m, res, new)

      def user(*args):
        return ('result', args)

      def single(batch, carry):
        x, y = H.asarr(batch['x']).term(), batch['y']
        c = carry['c'].term() if carry is not None else Carry(z3.IntVal(-1))
        hjax.obligation('an unbatched function gets a single observation', z3.And(
          D.dims(batch['x']), D.dims(y, 2)))
        return ({'a': D.scalar(Fu(x, y.at(0), y.at(1), c)),
                 'b': D.obj((3,), lambda i: Fv(x, y.at(0), y.at(1), c, i))},
                {'c': D.scalar(Cu(x, c))} if carry is not None else None)

      loader = (device_class if device else host_class)(core)()
      with D.core_shims(full_reference_data=lambda *a, **kw: (init_fn, map_fn, lambda: None)):
        mapper, release = core.full_data_mapper(loader, 2, H.mk(m))
        helper = [c.cell_contents for c in mapper.__closure__
                  if type(c.cell_contents).__name__ == '_FullDataHelper']
        for h in helper:
          h._unused_states = [init_fn() for _ in range(unused)]
        if batched:
          out = [mapper(user, 'carry', masking=masking, information=True, device_count=3)
                 for _ in range(2)]
          states = [s for h in helper for s in h._unused_states]
          return out, states, list(log)
        out = mapper(single, {'c': D.scalar(Carry(z3.IntVal(0)))}, batched=False)
        none = mapper(single, None, batched=False)
        states = [s for h in helper for s in h._unused_states]
        return out, none, states
    hyps = D.SIZE_HYPS
    free = lambda st: z3.And(*[Start(H._int(H.asarr(s.current_line).term())) for s in st]
                             ) if st else z3.BoolVal(True)
    for masking in (False, True):
      ps = D.Paths(obs, 'mask' if masking else 'no mask', lambda: run(True, masking), hyps,
                   func=CORE + 'full_data_mapper')
      ps.safe()
      ps.ensure('results of the pass are returned', lambda p: z3.BoolVal(
        p.result[0] == [('result', ('batch', 'carry'))] * 2
        and p.result[2] == [(masking, True, 3)] * 2))
      ps.ensure('invariant: unused states are at the begin of a pass', lambda p: z3.And(
        free(p.result[1]), z3.BoolVal(len(p.result[1]) == max(unused, 1))))
    ps = D.Paths(obs, 'function of one observation', lambda: run(False, False), hyps,
                 func=CORE + 'full_data_mapper')
    ps.safe()

    def one(p, out, carry):
      b, m, res, new = out
      c = Carry(b) if carry else Carry(z3.IntVal(-1))
      o = b * m + q
      args = (X(o), Y(o, 0), Y(o, 1), c)
      ok = [D.dims(res['a'], m), D.dims(res['b'], m, 3), row(res['a'], q) == Fu(*args),
            row(res['b'], q, k) == Fv(*args, k)]
      if carry:
        ok.append(H.asarr(new['c']).term() == Cu(X(b * m), c))
      else:
        ok.append(z3.BoolVal(new is None))
      return z3.Implies(z3.And(q >= 0, q < m, k >= 0, k < 3), z3.And(*ok))
    ps.ensure('row j of the result belongs to row j of the batch', lambda p: z3.And(
      one(p, p.result[0], True), one(p, p.result[1], False)))
    ps.ensure('invariant: unused states are at the begin of a pass', lambda p: free(p.result[2]))
  return prove


# -------------------------------------------------------------- running code
def setting(se, k, n, m):
  cache = se.size([(1, 2, 3, 5)[k % 4]], 'c', limit=70)
  return dict(observations=n, batch=m, cache=cache)


def loader_for(n, device):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  x = onp.arange(n, dtype=onp.float32)
  y = onp.stack([x + 0.25, x * 2], axis=1)
  return (DeviceNumpyDataLoader if device else NumpyDataLoader)(x=x, y=y)


def collect(log):
  """Mapped functions which record what they get and mix the carry."""
  def plain(batch, carry):
    b, info = batch if isinstance(batch, tuple) else (batch, None)
    jax.debug.callback(lambda *a: log.append(a), b['x'], b['y'], jnp.ones_like(b['x']), ordered=True)
    new = {'c': (carry['c'] * 3 + b['x'][0] + 1) % 1009, 'n': carry['n'] + 1}
    return {'a': b['x'] * 2 + carry['n'], 'b': b['y'] + b['x'][:, None]}, new

  def masked(batch, mask, carry):
    b, info = batch if isinstance(batch, tuple) else (batch, None)
    jax.debug.callback(lambda *a: log.append(a), b['x'], b['y'], mask, ordered=True)
    new = {'c': (carry['c'] * 3 + b['x'][0] + 1) % 1009, 'n': carry['n'] + 1}
    return {'a': jnp.sum(b['x'] * mask), 'b': jnp.sum(b['y'] * mask[:, None], axis=0)}, new

  def single(obs, carry):
    return {'a': obs['x'] * 2 + carry['n'], 'b': obs['y'] + obs['x']}, {
      'c': (carry['c'] * 3 + obs['x'] + 1) % 1009, 'n': carry['n'] + 1}
  return plain, masked, single


def expect(case, n, m, off, masked, log, res, carry, c0, unbatched=False):
  x = (onp.arange(n) + off) % n
  e = -(-n // m)
  y = onp.stack([x + 0.25, x * 2], axis=1)
  if not unbatched:
    if len(log) != e:
      raise Failure(f'{len(log)} batches in a pass', **case)
    got, goty, valid = [], [], []
    for t, (bx, by, mask) in enumerate(log):
      want = min(m, n - t * m)
      if bx.shape != (m,) or by.shape != (m, 2):
        raise Failure(f'shape of batch {t}: {bx.shape}', **case)
      if masked and list(onp.asarray(mask, bool)) != [True] * want + [False] * (m - want):
        raise Failure(f'mask of batch {t}: {list(mask)}', **case)
      got += list(bx[:want])
      goty += list(by[:want])
      if ((bx < 0) | (bx >= n) | (bx != bx.astype(int))).any():
        raise Failure(f'batch {t} serves {bx.tolist()}', **case)
    if got != x.tolist() or not (onp.asarray(goty) == y).all():
      raise Failure(f'the pass presents {got}', **case)
  c = c0
  for t in range(e):
    c = (c * 3 + x[t * m] + 1) % 1009
  if int(carry['n']) != e or float(carry['c']) != onp.float32(c):
    raise Failure(f'carry after the pass is {carry}, not {c} after {e} batches', **case)
  a, b = onp.asarray(res['a']), onp.asarray(res['b'])
  if masked:
    wa = onp.asarray([x[t * m:(t + 1) * m].sum() for t in range(e)])
    wb = onp.asarray([y[t * m:(t + 1) * m].sum(0) for t in range(e)])
  else:
    wa, wb = x * 2 + onp.arange(n) // m, y + x[:, None]
  if a.shape != wa.shape or b.shape != wb.shape:
    raise Failure(f'results have the shapes {a.shape} {b.shape}', **case)
  if not (onp.allclose(a, wa) and onp.allclose(b, wb)):
    raise Failure(f'results {a.tolist()} for the observations {x.tolist()}', **case)


def search_scan(device):
  def f(se):
    from jax_sgmc import data
    for k, (n, m) in enumerate(D.cases(se)):
      if not se.more() and k >= 8:
        break
      if k >= 6 and not se.hints and k < 12:
        n, m = (7, 3) if k % 2 else (6, 4)
      if n > 300:
        n, m = n, max(m, n // 60)
      cache = 1 if device else se.size([(1, 2, 3, 5)[k % 4]], 'c', limit=70)
      off = se.rng.randrange(n) if device and k % 2 else 0
      masking, information = bool(k & 1), bool(k & 2)
      case = dict(device=device, observations=n, batch=m, cache=cache, masking=masking,
                  offset=off)
      se.now = case
      with D.quiet():
        init, scan, release = data.core.full_reference_data(loader_for(n, device), cache, m)
        log = []
        plain, masked, _ = collect(log)
        state = init(offset=off) if device else init()
        step = jax.jit(lambda s, c: scan(masked if masking else plain, s, c, masking=masking,
                                         information=information))
        c = {'c': jnp.float32(1), 'n': jnp.int32(0)}
        for p in range(3):
          del log[:]
          state, (res, carry) = step(state, c)
          jax.block_until_ready(res)
          jax.effects_barrier()
          expect(dict(case, **{'pass': p}), n, m, off, masking, log, res, carry, 1)
          if device:
            off = (off + -(-n // m) * m) % n
        release()
      se.count(case)
  return f


def search_mapper(device):
  def f(se):
    from jax_sgmc import data
    for k, (n, m) in enumerate(D.cases(se)):
      if not se.more() and k >= 8:
        break
      if k >= 6 and not se.hints and k < 12:
        n, m = (7, 3) if k % 2 else (6, 4)
      if n > 300:
        n, m = n, max(m, n // 60)
      cache = se.size([(1, 2, 3, 5)[k % 4]], 'c', limit=70)
      masking = bool(k % 2)
      case = dict(device=device, mapper=True, observations=n, batch=m, cache=cache,
                  masking=masking)
      se.now = case
      with D.quiet():
        mapper, release = data.core.full_data_mapper(loader_for(n, device), cache, m)
        log = []
        plain, masked, single = collect(log)
        c = {'c': jnp.float32(1), 'n': jnp.int32(0)}
        run = jax.jit(lambda c: mapper(masked if masking else plain, c, masking=masking))
        one = jax.jit(lambda c: mapper(single, c, batched=False))
        none = jax.jit(lambda: mapper(lambda b, s: (b['x'] * 2, s), None, batched=False))
        for p in range(3):
          del log[:]
          res, carry = run(c)
          jax.block_until_ready(res)
          jax.effects_barrier()
          expect(dict(case, **{'pass': p}), n, m, 0, masking, log, res, carry, 1)
          if p < 2:
            res, carry = one(c)
            expect(dict(case, batched=False, **{'pass': p}), n, m, 0, False, None, res, carry, 1,
                   unbatched=True)
        # two passes at the same time
        def nested(b, s):
          total, _ = mapper(lambda b, mask, s: (jnp.sum(b['x'] * mask), s), None, masking=True)
          return b['x'] + jnp.sum(total), s
        if k % 3 == 0:
          for p in range(2):
            res, _ = jax.jit(lambda: mapper(nested, None))()
            if onp.asarray(res).tolist() != [i + n * (n - 1) / 2. for i in range(n)]:
              raise Failure(f'pass inside of a pass: {res}', **case)
        res, carry = none()
        if carry is not None or onp.asarray(res).tolist() != [2. * i for i in range(n)]:
          raise Failure(f'unbatched function without carry: {res}', **case)
        release()
      se.count(case)
  return f


def search_indices(se):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  for k, (n, m) in enumerate(D.cases(se)):
    if not se.more() and k >= 15:
      break
    cache = se.size([1 + k % 4], 'c', limit=70)
    case = dict(observations=n, batch=m, cache=cache)
    se.now = case
    loader = NumpyDataLoader(x=onp.arange(n))
    loader.register_ordered_pipeline(2, m)
    chain = loader.register_ordered_pipeline(cache, m)
    e = -(-n // m)
    b = 0
    for r in range(2 + 2 * e // cache):
      loader.get_batches(0)
      d, mask = loader.get_batches(chain)
      if onp.shape(d['x']) != (cache, m) or onp.shape(mask) != (cache, m):
        raise Failure(f'request {r}: shape {onp.shape(d["x"])}', **case)
      for x, v in zip(onp.asarray(d['x']), onp.asarray(mask)):
        i = b % e * m
        want = min(m, n - i)
        if list(v) != [True] * want + [False] * (m - want) or len(x) != m:
          raise Failure(f'mask of batch {b} is {v.tolist()}', **case)
        if list(x[:want]) != list(range(i, i + want)) or ((x < 0) | (x >= n)).any():
          raise Failure(f'batch {b} serves {x.tolist()}', **case)
        b += 1
    se.count(case)


def search_register(se):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  for n in range(1, 5):
    for m in (n + 1, n + 3):
      case = dict(observations=n, batch=m)
      try:
        NumpyDataLoader(x=onp.arange(n)).register_ordered_pipeline(1, m)
      except (AssertionError, ValueError):
        se.count(case)
        continue
      raise Failure('batch larger than the data set accepted', **case)


def check():
  units = [
    Unit('ordered indices', NL + '_ordered_indices', prove_step, search_indices, soft=True),
    Unit('new chain', NL + 'register_ordered_pipeline', prove_register, search_register,
         soft=True)]
  for c in (1, 2):
    units.append(Unit(f'batches of a request (cache {c})', NL + '_get_indices',
                      prove_requests(c), soft=True))
  units.append(Unit('batches of a request (any cache)', NL + '_get_indices', prove_any_cache,
                    soft=True))
  for device in (False, True):
    nm = 'device' if device else 'host'
    fs = [CORE + 'full_reference_data.batch_scan'] + (
      [CORE + '_full_reference_data_device.batch_fn'] if device else [])
    for masking in (False, True):
      for info in (False, True):
        units.append(Unit(
          f'{nm}: pass{" with mask" if masking else ""}{" and information" if info else ""}',
          fs, prove_scan(device, masking, info),
          search_scan(device) if not masking and not info else None, soft=True))
  units.append(Unit('device: state', CORE + '_full_reference_data_device.init_fn', prove_init,
                    soft=True))
  for device in (False, True):
    nm = 'device' if device else 'host'
    for size in (1, 2):
      for unused in (0, 1, 2):
        units.append(Unit(
          f'{nm}: mapper, {"one observation" if size == 1 else "m observations"} per batch, '
          f'{unused} unused states',
          [CORE + 'full_data_mapper', CORE + '_FullDataHelper'],
          prove_mapper(device, size, unused),
          search_mapper(device) if size == 1 and not unused else None, soft=True))
  return Check(
    'C01', 'Ordered full pass', units=units, assumptions=[
      'the batch function of the host serves the ordered stream of the loader (C04, C05)',
      'float division N / m of the sizes is exact under ceil',
      'the mapped function is a function of the batch, the mask and the carry',
      'io_callback calls the function once with the given values'],
    note='Unbounded in observations, batch size, cache size and number of passes; the mapper '
         'with 0 to 2 waiting states.')
