"""C13: the minibatch potential is an unbiased, correctly scaled estimate."""
from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
import numpy as onp
from jax import tree_util

from vf import jx, opaque
from vf.check import Check, Failure, Unit
from vf.props import common as C

S = opaque.S
tm = tree_util.tree_map
FN = 'jax_sgmc/potential.py: minibatch_potential'


class Model:
  """Likelihood and prior by contract."""

  def __init__(self, state, batched, n=None):
    self.state, self.batched, self.n = state, batched, n

  def likelihood(self):
    def value(*args):
      if self.batched:
        n = jnp.shape(tree_util.tree_leaves(args[-1])[0])[0]
        return opaque.call('LB', S((n,)), *args)
      return opaque.call('L', S(), *args)
    if self.state:
      def lik(state, sample, data):
        m = tm_state(state, sample, data)
        return value(state, sample, data), m
      return lik
    return lambda sample, data: value(sample, data)

  @staticmethod
  def prior(sample):
    return opaque.call('P', S(), sample)


def tm_state(state, *args):
  ls, td = tree_util.tree_flatten(state)
  return tree_util.tree_unflatten(
    td, [opaque.call(f'M{n}', S(jnp.shape(l)), state, *args) for n, l in enumerate(ls)])


def rows(model, sample, batch, state):
  """Likelihood of every row and the model state after the evaluation."""
  lik = model.likelihood()
  if model.batched:
    return lik(state, sample, batch) if model.state else (lik(sample, batch), None)
  if model.state:
    ls, ms = jax.vmap(lambda r: lik(state, sample, r))(batch)
    return ls, tm(lambda l, o: jnp.reshape(l[0], jnp.shape(o)), ms, state)
  return jax.vmap(lambda r: lik(sample, r))(batch), None


def spec(model, sample, batch, n, N, state, mask, temperature, prior=True):
  ls, m = rows(model, sample, batch, state)
  if mask is None:
    like = jnp.sum(ls) / n
  else:
    like = jnp.sum(jnp.where(mask, ls, 0.0)) / n
  pot = -N * like
  if prior:
    pot = pot - model.prior(sample)
  return pot / temperature, ls, m


def make(state, batched, strategy, masked, kind):
  def prove(obs):
    pmod = C.modules()[3]
    core = C.modules()[5]
    ctx = jx.Ctx()
    k, = ctx.dims('k')
    n = k + 1
    x = C.sym_tree(ctx, kind, 'x')
    batch = {'x': ctx.fresh('bx', (n,)), 'y': ctx.fresh('by', (n, 2))}
    N, temp = ctx.fresh('N'), None
    T_ = ctx.fresh('T')
    ctx.hyps += [T_.at() > 0, N.at() > 0]
    st = {'a': ctx.fresh('sa'), 'b': ctx.fresh('sb', (3,))} if state else None
    mask = ctx.fresh('mask', (n,), 'b') if masked else None
    model = Model(state, batched)
    obs.cover('inputs', ctx.hyps)

    def build(T_):
      return pmod.minibatch_potential(
        model.prior, model.likelihood(), strategy=strategy, has_state=state,
        is_batched=batched, temperature=T_)

    def fun(x, batch, N, T_, st, mask):
      info = core.MiniBatchInformation(observation_count=N, batch_size=n,
                                       mask=jnp.ones(n, dtype=bool))
      p = build(T_)
      u, (ls, m) = p(x, (batch, info), state=st, mask=mask, likelihoods=True)
      u2, m2 = p(x, (batch, info), state=st, mask=mask)
      return u, ls, m, u2, m2
    u, ls, m, u2, m2 = ctx.trace(fun, x, batch, N, T_, st, mask)

    def sp(x, batch, N, T_, st, mask):
      return spec(model, x, batch, n, N, st, mask, T_)
    wu, wls, wm = ctx.trace(sp, x, batch, N, T_, st, mask)
    obs.equal(ctx, 'potential', u, wu, FN)
    obs.equal(ctx, 'potential without likelihoods', u2, wu, FN)
    obs.equal(ctx, 'likelihood of every row', ls, wls, FN)
    if state:
      obs.equal(ctx, 'model state', m, wm, FN)
      obs.equal(ctx, 'model state without likelihoods', m2, wm, FN)
    if masked:
      # a masked row has no influence: other likelihoods at masked rows
      pass
  return prove


def prove_gradient(batched, masked):
  """The gradient is the gradient of the potential."""
  def prove(obs):
    pmod, core = C.modules()[3], C.modules()[5]
    ctx = jx.Ctx()
    k, = ctx.dims('k')
    n = k + 1
    x = C.sym_tree(ctx, 'dict', 'x')
    batch = {'x': ctx.fresh('bx', (n,)), 'y': ctx.fresh('by', (n, 2))}
    N = ctx.fresh('N')
    mask = ctx.fresh('mask', (n,), 'b') if masked else None
    model = Model(False, batched)

    def fun(x, batch, N, mask):
      info = core.MiniBatchInformation(observation_count=N, batch_size=n,
                                       mask=jnp.ones(n, dtype=bool))
      p = pmod.minibatch_potential(model.prior, model.likelihood(), strategy='vmap',
                                   is_batched=batched)
      return jax.grad(p, has_aux=True)(x, (batch, info), mask=mask)[0]

    def sp(x, batch, N, mask):
      return jax.grad(lambda x: spec(model, x, batch, n, N, None, mask, 1.0)[0])(x)
    g = ctx.trace(fun, x, batch, N, mask)
    w = ctx.trace(sp, x, batch, N, mask)
    obs.equal(ctx, 'gradient', g, w, FN)
  return prove


def one_case(se, i, state, batched, strategy, masked, sizes=(1, 2, 3, 5)):
  pmod, core = C.modules()[3], C.modules()[5]
  rng = se.rng
  n = rng.choice(sizes) if strategy == 'pmap' else se.size(sizes, 'n')
  N = se.size([1, 4, 7, 100, 0], 'N', low=0, limit=10**6) + n
  kind = C.KINDS[i % 4]
  T_ = se.value([1.0, 0.5, 3.0, 0.01, 50.0], 0.01, 100)
  x = C.num_tree(rng, kind, sizes=(2, 2))
  g = onp.random.default_rng(rng.randrange(1 << 30))
  batch = {'x': jnp.asarray(g.normal(size=n), jnp.float32),
           'y': jnp.asarray(g.normal(size=(n, 2)), jnp.float32)}
  st = {'a': jnp.array(0.3), 'b': jnp.arange(3.)} if state else None
  mask = jnp.asarray(g.integers(0, 2, size=n).astype(bool)) if masked else None
  model = Model(state, batched)
  case = dict(state=state, batched=batched, strategy=strategy, n=n, N=N, kind=kind,
              mask=None if mask is None else mask.tolist(), temperature=T_)
  info = core.MiniBatchInformation(observation_count=N, batch_size=n,
                                   mask=jnp.ones(n, dtype=bool))
  p = pmod.minibatch_potential(model.prior, model.likelihood(), strategy=strategy,
                               has_state=state, is_batched=batched, temperature=T_)
  u, (ls, m) = p(x, (batch, info), state=st, mask=mask, likelihoods=True)
  u2, m2 = p(x, (batch, info), state=st, mask=mask)
  wu, wls, wm = spec(model, x, batch, n, N, st, mask, T_)
  C.close(u, wu, 'potential', **case)
  C.close(u2, wu, 'potential without likelihoods', **case)
  C.close(ls, wls, 'likelihood of every row', **case)
  C.close((m, m2), (wm, wm), 'model state', **case)
  if i % 4 == 3:
    gr = jax.grad(p, has_aux=True)(x, (batch, info), state=st, mask=mask)[0]
    gw = jax.grad(lambda x: spec(model, x, batch, n, N, st, mask, T_)[0])(x)
    C.close(gr, gw, 'gradient', rtol=1e-3, **case)
  if masked:
    # other data in the masked rows
    b2 = tm(lambda l: jnp.where(jnp.reshape(mask, (-1,) + (1,) * (l.ndim - 1)), l, 9.5), batch)
    if not batched:
      u3, _ = p(x, (b2, info), state=st, mask=mask)
      C.close(u3, wu, 'potential with other data in masked rows', **case)
  return case


def search(se):
  cases = [(st, ba, sg, ma) for st in (False, True)
           for ba, sg in ((False, 'map'), (False, 'vmap'), (True, 'map'))
           for ma in (False, True)]
  i = 0
  while se.more() or i < len(cases):
    se.count(one_case(se, i, *cases[i % len(cases)]))
    i += 1


def pmap_main():
  from vf.check import Searcher
  se = Searcher(env.SEED, 100)
  for i in range(8):
    one_case(se, i, i % 2 == 1, False, 'pmap', i // 2 % 2 == 1, sizes=(1, 2, 3, 4))


def search_pmap(se):
  C.on_devices(se, 'c13')


def check():
  f = [FN + '.batch_potential', FN + '.stateful_likelihood', FN + '.potential_function']
  units = []
  first = True
  for state in (False, True):
    for batched, strategy in ((False, 'map'), (False, 'vmap'), (True, 'map'), (False, 'pmap')):
      for masked in (False, True):
        nm = ('batched' if batched else strategy) + (', model state' if state else '') + (
          ', mask' if masked else '')
        units.append(Unit(nm, f, make(state, batched, strategy, masked,
                                      'dict' if state else 'nested'),
                          search if first else search_pmap if strategy == 'pmap' and not (
                            state or masked) else None))
        first = False
  for batched in (False, True):
    units.append(Unit(f'gradient, {"batched" if batched else "vmap"}', f,
                      prove_gradient(batched, False)))
  units.append(Unit('gradient, mask', f, prove_gradient(False, True)))
  return Check('C13', 'Minibatch potential', units=units, assumptions=[
    'likelihood and prior enter by contract (deterministic functions of their arguments)',
    'likelihoods of masked rows are finite'])
