"""C14: the full potential is the exact sum over all observations."""
from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
import numpy as onp
from jax import tree_util, lax
import z3

from vf import jx, opaque
from vf.check import Check, Failure, Unit
from vf.props import common as C
from vf.props.c13 import Model, rows

S = opaque.S
tm = tree_util.tree_map
FN = 'jax_sgmc/potential.py: full_potential'


class Data:
  """Contract of the mapping over the full data (C01).

  Batch k holds the rows r = 0 .. n-1, which are the observations k n + r; rows
  beyond the number of observations are masked. The carry passes all batches in
  order; results are stacked.
  """

  def __init__(self, n, K, N):
    self.n, self.K, self.N = n, K, N

  def batch(self, ds, k):
    return {'x': opaque.call('bx', S((self.n,)), ds, k),
            'y': opaque.call('by', S((self.n, 2)), ds, k)}

  def mask(self, k):
    return k * self.n + jnp.arange(self.n) < self.N

  def mapper(self, quick=False):
    core = C.modules()[5]
    info = core.MiniBatchInformation(observation_count=self.N, batch_size=self.n,
                                     mask=jnp.ones(self.n))

    def run(fun, ds, carry, masking=False, information=False, **kwargs):
      if not (masking and information) or kwargs:
        raise jx.Unsupported('mapping without mask or information')

      def body(c, k):
        r, c = fun((self.batch(ds, k), info), self.mask(k), c)
        return c, r
      carry, res = lax.scan(body, carry, jnp.arange(self.K))
      return opaque.call('next', S(), ds), (res, carry)
    if quick:
      return lambda fun, carry, **kw: run(fun, jnp.array(0.5), carry, **kw)[1]
    return run


def spec(model, data, x, ds, state, temperature):
  def body(st, k):
    ls, m = rows(model, x, data.batch(ds, k), st)
    return m, jnp.sum(jnp.where(data.mask(k), ls, 0.0))
  m, parts = lax.scan(body, state, jnp.arange(data.K))
  return (-jnp.sum(parts) - model.prior(x)) / temperature, m


def make(state, batched, strategy, quick, kind):
  def prove(obs):
    pmod = C.modules()[3]
    ctx = jx.Ctx()
    k, K = ctx.dims('k, K')
    n = k + 1
    x = C.sym_tree(ctx, kind, 'x')
    N, T_ = ctx.fresh('N', kind='i'), ctx.fresh('T')
    ctx.hyps += [T_.at() > 0, N.at() > 0]
    st = {'a': ctx.fresh('sa'), 'b': ctx.fresh('sb', (3,))} if state else None
    ds = ctx.fresh('ds')
    model = Model(state, batched)
    obs.cover('inputs', ctx.hyps)

    def fun(x, ds, st, N, T_):
      data = Data(n, K, N)
      fp = pmod.full_potential(model.prior, model.likelihood(), strategy=strategy,
                               has_state=state, is_batched=batched, temperature=T_)
      u, (d, m) = fp(x, None if quick else ds, data.mapper(quick), state=st)
      return u, (jnp.array(0.) if d is None else d), m

    def sp(x, ds, st, N, T_):
      data = Data(n, K, N)
      d = jnp.array(0.5) if quick else ds
      u, m = spec(model, data, x, d, st, T_)
      return u, (jnp.array(0.) if quick else opaque.call('next', S(), ds)), m
    u, d, m = ctx.trace(fun, x, ds, st, N, T_)
    wu, wd, wm = ctx.trace(sp, x, ds, st, N, T_)
    obs.equal(ctx, 'potential', u, wu, FN)
    obs.equal(ctx, 'data state', d, wd, FN)
    if state:
      obs.equal(ctx, 'model state', m, wm, FN)
  return prove


def prove_rows(obs):
  """Every observation is exactly one unmasked row of the padded batches."""
  ctx = jx.Ctx()
  N, n, i, k, r = z3.Ints('N n i k r')
  pos = [N >= 1, n >= 1]
  obs.cover('sizes', pos)
  f = FN
  q, m = i / n, i % n
  div = [i == n * q + m, m >= 0, m < n]
  K = z3.Int('K')
  ceil = [K * n >= N, (K - 1) * n < N]
  obs.prove(ctx, 'row of an observation exists', z3.And(q >= 0, m < n, q * n + m < N),
            hyps=pos + div + [i >= 0, i < N], func=f)
  obs.prove(ctx, 'batch of an observation exists', q < K,
            hyps=pos + div + ceil + [i >= 0, i < N,
                                     z3.Implies(q >= K, q * n >= K * n)], func=f)
  k2, r2 = z3.Ints('k2 r2')
  obs.prove(ctx, 'rows of different batches are different observations',
            z3.And(k == k2, r == r2),
            hyps=pos + [0 <= r, r < n, 0 <= r2, r2 < n, k * n + r == k2 * n + r2,
                        z3.Implies(k > k2, k * n >= k2 * n + n),
                        z3.Implies(k < k2, k * n + n <= k2 * n)], func=f)


def search(se):
  """End to end with the loaders of the repository."""
  from jax_sgmc import data, potential
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  i = 0
  while se.more() or i < 6:
    rng = se.rng
    N = se.size([1, 2, 3, 5, 7, 8], 'N', 'K', limit=200)
    mb = min(se.size([rng.randrange(1, N + 1)], 'n', limit=200), N)
    cache = se.size([1, 2, 3, 5], 'c', limit=60)
    device = i % 3 == 2
    state = i % 2 == 1
    batched = not state and rng.random() < 0.5
    strategy = rng.choice(['map', 'vmap'])
    i += 1
    T_ = se.value([1.0, 2.0, 0.5], 0.01, 100)
    g = onp.random.default_rng(rng.randrange(1 << 30))
    xs, ys = g.normal(size=N).astype('f'), g.normal(size=(N, 2)).astype('f')
    case = dict(N=N, batch_size=mb, cache=cache, device=device, state=state,
                batched=batched, strategy=strategy, temperature=T_)
    loader = (DeviceNumpyDataLoader if device else NumpyDataLoader)(x=xs, y=ys)
    w = jnp.asarray(g.normal(size=2), jnp.float32)

    def row(s, d):
      return -jnp.sum((d['x'] - d['y'] @ s) ** 2)

    def lik(s, d):
      return jax.vmap(lambda r: row(s, r))(d) if batched else row(s, d)

    def liks(st, s, d):
      return row(s, d) * (1 + 0.1 * st), st + 1
    prior = lambda s: -0.5 * jnp.sum(s ** 2)
    fp = potential.full_potential(prior, liks if state else lik, strategy=strategy,
                                  has_state=state, is_batched=batched, temperature=T_)
    init, mapper, release = data.full_reference_data(loader, cached_batches_count=cache,
                                                     mb_size=mb)
    # the model state counts the batches
    want = (-sum(float(row(w, {'x': xs[j], 'y': ys[j]})) * (1 + 0.1 * state * (j // mb))
                 for j in range(N)) - float(prior(w))) / T_
    ds = init()
    st = jnp.array(0.0) if state else None
    K = -(-N // mb)
    for turn in range(2):
      u, (ds, st) = fp(w, ds, mapper, state=st)
      if not (state and turn):     # a later pass may assign the rows to other batches
        C.close(u, jnp.array(want), f'full potential, evaluation {turn}', rtol=1e-3, **case)
      if state:
        C.close(st, jnp.array(float(K * (turn + 1))), 'model state passes every batch', **case)
    release()
    mapper2, release2 = data.full_data_mapper(loader, cache, mb)
    u, (_, st) = fp(w, None, mapper2, state=jnp.array(0.0) if state else None)
    C.close(u, jnp.array(want), 'full potential with full_data_mapper', rtol=1e-3, **case)
    if state:
      C.close(st, jnp.array(float(K)), 'model state with full_data_mapper', **case)
    release2()
    se.count(case)


def check():
  f = [FN + '.sum_batched_evaluations', FN + '.batch_evaluation',
       'jax_sgmc/potential.py: minibatch_potential']
  units = [
    Unit('sum over all batches, map', f, make(False, False, 'map', False, 'dict'), search),
    Unit('sum over all batches, vmap', f, make(False, False, 'vmap', False, 'nested')),
    Unit('sum over all batches, batched', f, make(False, True, 'map', False, 'leaf')),
    Unit('model state, map', f, make(True, False, 'map', False, 'dict')),
    Unit('model state, vmap', f, make(True, False, 'vmap', False, 'dict')),
    Unit('model state, batched', f, make(True, True, 'map', False, 'dict')),
    Unit('mapping function without data state', f, make(True, False, 'vmap', True, 'dict')),
    Unit('rows of the padded batches', f, prove_rows)]
  return Check('C14', 'Full potential', units=units, assumptions=[
    'likelihood and prior enter by contract',
    'the mapping over the full data enters by the contract proved in C01',
    'likelihoods of padding rows are finite'])
