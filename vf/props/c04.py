"""C04: cache of batches on the device."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
import z3

from vf import env, hjax, host as H, terms as T
from vf.check import Check, Unit, Failure
from vf.props import dcommon as D
from vf.props.dcommon import N, M, Val, row

CORE = 'jax_sgmc/data/core.py: '
C = z3.Int('c')                    # batches in the cache
K, L = z3.Ints('k l')              # requests so far, line of the cache
SX = z3.Function('SX', H.I, H.I, Val)          # batch k of the stream, row
SY = z3.Function('SY', H.I, H.I, H.I, Val)
SM = z3.Function('SM', H.I, H.I, H.B)
SIZES = [M, C, N]
HYPS = D.SIZE_HYPS + [C >= 1]


def content(base, mask=True):
  """The cache whose first line is batch ``base`` of the stream."""
  return ({'x': D.obj((C, M), lambda a, b: SX(base + a, b)),
           'y': D.obj((C, M, 2), lambda a, b, i: SY(base + a, b, i))},
          H.HArr((C, M), lambda a, b: SM(base + a, b), 'b') if mask else None)


class Requests:
  """Contract of the host requests (C05): the next c batches of the chain for its
  current token."""

  def __init__(self, pos, chain, uuid, token, mask):
    self._host_data_loaders = {}
    self.pos, self.chain, self.uuid, self.token, self.mask = pos, chain, uuid, token, mask
    self.calls, self.strict = [], []

  def __call__(self, chain_id, token, callback_uuid, device_count=1, strict=False):
    from jax_sgmc.util.uuid import JaxUUID
    hjax.obligation('request of the chain with its current token', z3.And(
      H._int(H.asarr(chain_id).term()) == self.chain,
      z3.BoolVal(token.as_uuid == self.token.as_uuid
                 and callback_uuid.as_uuid == self.uuid.as_uuid)))
    self.calls.append(H._int(H.asarr(device_count).term()))
    self.strict.append(strict)
    res = content(self.pos, self.mask)
    self.pos = H.simp(self.pos + C)
    self.token = JaxUUID()
    return res, self.token


def loader_class(core, log=None, mask=True, chain=5):
  class Loader(core.HostDataLoader):
    static_information = property(lambda self: {'observation_count': H.mk(N)})
    _format = {'x': jax.ShapeDtypeStruct((), onp.float32),
               'y': jax.ShapeDtypeStruct((2,), onp.float32)}

    def register_random_pipeline(self, cache_size=1, mb_size=None, **kwargs):
      log.append(('random', cache_size, mb_size, kwargs))
      return chain

    def register_ordered_pipeline(self, cache_size=1, mb_size=None, **kwargs):
      log.append(('ordered', cache_size, mb_size, kwargs))
      return chain

    def get_batches(self, chain_id):
      log.append(('get', chain_id))
      return content(z3.IntVal(0), mask)
  return Loader


def invariant(state, k, pos, chain, uuid, token):
  """Line l of the cache is batch k, the loader serves batch pos next."""
  l = H._int(H.asarr(state.current_line).term())
  a, b, i = z3.Ints('a b i')
  x, y = H.asarr(state.cached_batches['x']), H.asarr(state.cached_batches['y'])
  v = H.asarr(state.valid)
  shape = z3.And(D.dims(x, C, M), D.dims(y, C, M, 2), D.dims(v, C, M),
                 z3.BoolVal(D.is_bool(v)))
  rows = z3.Implies(z3.And(a >= 0, a < C, b >= 0, b < M, i >= 0, i < 2), z3.And(
    x.at(a, b) == SX(k - l + a, b), y.at(a, b, i) == SY(k - l + a, b, i),
    v.at(a, b) == (SM(k - l + a, b) if v.store is not None else False)))
  return {
    'cached batches': z3.And(shape, rows),
    'line': z3.And(l >= 0, l <= C, pos == k - l + C),
    'identity of the chain': z3.And(
      H._int(H.asarr(state.cached_batches_count).term()) == C,
      H._int(H.asarr(state.chain_id).term()) == chain,
      z3.BoolVal(state.callback_uuid.as_uuid == uuid.as_uuid
                 and state.token.as_uuid == token.as_uuid))}


def make(core, loader, ordered, strict):
  if ordered:
    init, (batch, info), release = core._full_reference_data_host(loader, H.mk(C), H.mk(M))
    return init, batch, release
  return core.random_reference_data(loader, H.mk(C), H.mk(M), verify_calls=strict)


def prove_batch(ordered, mask, information):
  def prove(obs):
    core = D.core_module()
    from jax_sgmc.util.uuid import JaxUUID
    b, i = z3.Ints('b i')
    chain = z3.Int('chain')

    def run():
      uuid, token = JaxUUID(), JaxUUID()
      req = Requests(K - L + C, chain, uuid, token, mask)
      data, valid = content(K - L)
      if not mask:
        H.path().instances.append(lambda ts: [a for a in H.apps(ts, SM) if not T.has_var(a)])
      with D.core_shims(_data_requests=req):
        init, batch, release = make(core, loader_class(core)(), ordered, not information)
        state = core.CacheState(
          cached_batches=data, cached_batches_count=D.scalar(C), current_line=D.scalar(L),
          chain_id=D.scalar(chain), valid=valid, callback_uuid=uuid, token=token)
        new, out = batch(state, information=True) if information else batch(state)
        info = None
        if information:
          out, info = out
        return new, out, info, req, uuid
    ps = D.Paths(obs, 'request', run, HYPS + [K >= 0, L >= 0, L <= C, K - L >= 0], sizes=SIZES,
                 func=CORE + '_hcb_wrapper.batch_fn')
    ps.safe()
    rows = [b >= 0, b < M, i >= 0, i < 2]
    ps.ensure('batch k is served', lambda p: z3.And(
      D.dims(p.result[1]['x'], M), D.dims(p.result[1]['y'], M, 2),
      row(p.result[1]['x'], b) == SX(K, b), row(p.result[1]['y'], b, i) == SY(K, b, i)), rows)
    if information:
      ps.ensure('information belongs to batch k', lambda p: z3.And(
        D.dims(p.result[2].mask, M), row(p.result[2].mask, b) == SM(K, b),
        H._int(p.result[2].observation_count) == N, H._int(p.result[2].batch_size) == M), rows)
    ps.ensure('data is requested exactly when the cache is exhausted', lambda p: z3.And(
      z3.If(L == C, z3.BoolVal(len(p.result[3].calls) == 1),
            z3.BoolVal(len(p.result[3].calls) == 0)), *[d == 1 for d in p.result[3].calls]))
    ps.ensure('requests are verified if asked for', lambda p: z3.BoolVal(
      all(bool(s) == (ordered or not information) for s in p.result[3].strict)))
    for nm in ('cached batches', 'line', 'identity of the chain'):
      ps.ensure(f'invariant: {nm}', lambda p: invariant(
        p.result[0], K + 1, p.result[3].pos, chain, p.result[4], p.result[3].token)[nm])
  return prove


def prove_init(ordered, mask):
  def prove(obs):
    core = D.core_module()

    def run():
      log = []
      req = Requests(z3.IntVal(0), 5, None, None, mask)
      if not mask:
        H.path().instances.append(lambda ts: [a for a in H.apps(ts, SM) if not T.has_var(a)])
      with D.core_shims(_data_requests=req):
        loader = loader_class(core, log, mask)()
        init, _, release = make(core, loader, ordered, False)
        before = dict(req._host_data_loaders)
        state = init(option='given')
        release()
        return state, log, before, dict(req._host_data_loaders), loader
    ps = D.Paths(obs, 'new chain', run, HYPS, sizes=SIZES,
                 func=CORE + ('_full_reference_data_host' if ordered
                              else '_random_reference_data_host'))
    ps.safe()

    def registered(p):
      state, log, before, after, loader = p.result
      want = 'ordered' if ordered else 'random'
      return z3.And(z3.BoolVal(
        [e[0] for e in log] == [want, 'get'] and log[0][3] == {'option': 'given'}
        and before == {state.callback_uuid.as_uuid: loader} and not after),
                    H._int(H.asarr(log[1][1]).term()) == 5,
                    H._int(log[0][1]) == C, H._int(log[0][2]) == M)
    ps.ensure('registered once with its sizes and options', registered)
    for nm in ('cached batches', 'line', 'identity of the chain'):
      ps.ensure(f'invariant: {nm}', lambda p: invariant(
        p.result[0], z3.IntVal(0), C, 5, p.result[0].callback_uuid, p.result[0].token)[nm])
  return prove


def prove_device(obs):
  core = D.core_module()
  Next = z3.Function('next', H.I, H.I)
  s = z3.Int('s')

  class Loader(core.DeviceDataLoader):
    static_information = property(lambda self: {'observation_count': H.mk(N)})
    _format = get_full_data = None

    def init_random_data(self, **kwargs):
      return ('init', kwargs)

    def get_random_data(self, state, batch_size):
      return H.mk(Next(H._int(state))), ({'of': state, 'size': batch_size}, ('info', state))

  def run():
    with D.core_shims():
      init, batch, release = core.random_reference_data(Loader(), 1, H.mk(M))
      a, b1 = batch(core.CacheState(state=H.mk(s)))
      a2, b2 = batch(a, information=True)
      release()
      return init(key=3), a, b1, a2, b2
  ps = D.Paths(obs, 'device', run, D.SIZE_HYPS, func=CORE + '_random_reference_data_device')
  ps.safe()
  ps.ensure('the state of the loader is kept', lambda p: z3.And(
    z3.BoolVal(p.result[0].state == ('init', {'key': 3})),
    H._int(p.result[1].state) == Next(s), H._int(p.result[3].state) == Next(Next(s))))
  ps.ensure('the batch of this request is returned', lambda p: z3.And(
    H._int(p.result[2]['of']) == s, H._int(p.result[2]['size']) == M,
    H._int(p.result[4][0]['of']) == Next(s), H._int(p.result[4][0]['size']) == M,
    z3.BoolVal(p.result[4][1][0] == 'info'), H._int(p.result[4][1][1]) == Next(s)))


def prove_sizes(obs):
  """Impossible sizes are rejected."""
  core = D.core_module()
  c, m, n = z3.Ints('c m N')
  for host in (True, False):
    def run():
      class Dev(core.DeviceDataLoader):
        static_information = property(lambda self: {'observation_count': H.mk(N)})
        _format = init_random_data = get_random_data = get_full_data = None
      loader = loader_class(core, [])() if host else Dev()
      with D.core_shims(_data_requests=Requests(z3.IntVal(0), 5, None, None, True)):
        return core.random_reference_data(loader, H.mk(c), H.mk(m))
    nm = 'host' if host else 'device'
    ps = D.Paths(obs, nm, run, [n >= 1], sizes=SIZES, func=CORE + 'random_reference_data')
    valid = z3.And(c >= 1 if host else c == 1, m >= 1, m <= n)
    for p in ps.bad:
      ps._add('valid sizes are accepted', p, z3.Not(valid))
    ps.ensure('invalid sizes are rejected', lambda p: valid)


# -------------------------------------------------------------- running code
def make_loader(n, mode, mask_none, calls):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader

  class Loader(NumpyDataLoader):
    def get_batches(self, chain_id):
      calls.append(int(chain_id))
      d, m = super().get_batches(chain_id)
      return d, None if mask_none else m
  x = onp.arange(n, dtype=onp.float32)
  return Loader(x=x, y=onp.stack([x, -x], 1))


def search_stream(se):
  from jax_sgmc import data
  modes = [{}, dict(shuffle=True), dict(shuffle=True, in_epochs=True)]
  for k in itertools.count():
    if not se.more() and k >= 6:
      break
    n = se.size([se.rng.randrange(2, 12)], 'N', low=2, limit=600)
    m = min(se.size([se.rng.randrange(1, n + 1)], 'm', limit=100), n)
    c = se.size([(1, 2, 3, 5, 4)[k % 5]], 'c', limit=70)
    if k < len(se.hints):
      h = se.hints[k]
      c, m = min(h.get('c', 1), 60), min(h.get('m', 1), 50)
      n = max(m, min(h.get('N', m), 500))
    mode = modes[k % 3]
    none = not mode and k % 2 == 1
    r = 2 * c + 3
    case = dict(observations=n, batch=m, cache=c, mode=mode, mask_none=none, requests=r)
    se.now = case
    calls, ref = [], []
    with D.quiet():
      loader = make_loader(n, mode, none, calls)
      init, batch, release = data.random_reference_data(loader, c, m, verify_calls=bool(k % 2))
      states = [init(seed=k + 7, **mode), init(seed=k + 8, **mode)]

      @jax.jit
      def run(s):
        def body(s, _):
          s, (b, info) = batch(s, information=True)
          return s, (b, info.mask, jnp.asarray(info.observation_count),
                     jnp.asarray(info.batch_size))
        return jax.lax.scan(body, s, None, length=r)
      plain = jax.jit(batch)
      for i, s in enumerate(states):
        del calls[:]
        s, (b, mask, count, size) = run(s)
        jax.block_until_ready(b)
        got = [{q: onp.asarray(b[q][t]) for q in b} for t in range(r)]
        s, extra = plain(s)
        jax.block_until_ready(extra)
        got.append({q: onp.asarray(extra[q]) for q in extra})
        if calls != [i] * ((r + c) // c - 1):
          raise Failure(f'{len(calls)} requests to the host for {r + 1} batches', chain=i, **case)
        ref = make_loader(n, mode, none, [])
        chain = ref.register_random_pipeline(1, m, seed=k + 7 + i, **mode)
        for t in range(r + 1):
          d, v = ref.get_batches(chain)
          for q in d:
            if onp.asarray(d[q][0]).shape != got[t][q].shape or not (
                onp.asarray(d[q][0]) == got[t][q]).all():
              raise Failure(f'batch {t}: {got[t][q].tolist()} instead of '
                            f'{onp.asarray(d[q][0]).tolist()}', chain=i, **case)
          v = onp.ones(m, bool) if v is None else onp.asarray(v[0])
          if t < r and not (onp.asarray(mask[t]) == v).all():
            raise Failure(f'mask of batch {t}: {onp.asarray(mask[t]).tolist()}', chain=i, **case)
        if not ((onp.asarray(count) == n).all() and (onp.asarray(size) == m).all()):
          raise Failure('batch information', **case)
      release()
    se.count(case)


def search_device(se):
  from jax_sgmc import data
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
  for k in range(3):
    n, m = se.rng.randrange(2, 9), 2
    case = dict(loader='device', observations=n, batch=m)
    se.now = case
    with D.quiet():
      loader = DeviceNumpyDataLoader(x=onp.arange(n))
      init, batch, release = data.random_reference_data(loader, 1, m)
      s, ref = init(key=jax.random.PRNGKey(k)), loader.init_random_data(key=jax.random.PRNGKey(k))
      for t in range(4):
        s, (b, info) = batch(s, information=True)
        ref, (rb, _) = loader.get_random_data(ref, m)
        if not (b['x'] == rb['x']).all():
          raise Failure(f'batch {t} is {b}, not {rb}', **case)
      for bad in (lambda: data.random_reference_data(loader, 2, m),
                  lambda: data.random_reference_data(loader, 1, n + 1),
                  lambda: data.random_reference_data(loader, 1, 0)):
        try:
          bad()
        except ValueError:
          continue
        raise Failure('impossible size accepted', **case)
    se.count(case)


def check():
  units = []
  first = True
  for ordered in (False, True):
    nm = 'ordered' if ordered else 'random'
    for mask in (True, False):
      for info in (True, False):
        units.append(Unit(
          f'{nm}: request{"" if mask else ", loader without mask"}'
          f'{", information" if info else ""}',
          [CORE + '_hcb_wrapper.batch_fn', CORE + '_hcb_wrapper._new_cache_fn',
           CORE + '_hcb_wrapper.get_data'], prove_batch(ordered, mask, info),
          search_stream if first else None, soft=True))
        first = False
      units.append(Unit(f'{nm}: new chain{"" if mask else ", loader without mask"}',
                        CORE + ('_full_reference_data_host' if ordered else
                                '_random_reference_data_host'), prove_init(ordered, mask),
                        soft=True))
  units.append(Unit('device', CORE + '_random_reference_data_device', prove_device,
                    search_device, soft=True))
  units.append(Unit('sizes', CORE + 'random_reference_data', prove_sizes, soft=True))
  return Check(
    'C04', 'Cache of batches', units=units, assumptions=[
      'the host answers a request with the current token with the next c batches (C05)',
      'lax.cond executes exactly one branch (no vmap over the data state), io_callback is '
      'called once per execution',
      'get_batches returns arrays of the announced format (C03)'],
    note='Unbounded in cache size, batch size and number of requests: the cache is an '
         'arbitrary one which satisfies the invariant.')
