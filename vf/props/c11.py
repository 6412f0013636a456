"""C11: adaptive step size by dual averaging."""
import math

import jax
import jax.numpy as jnp
import z3

from vf import jx, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C

FN = 'jax_sgmc/scheduler.py: adaptive_step_size'
NAMES = ('burn_in', 'initial_step_size', 'stabilization_constant', 'decay_constant',
         'speed_constant', 'target_acceptance_rate')


def machine(burn_in, initial, t0, kappa, gamma, target, n, acc):
  """Contract: dual averaging (Hoffman and Gelman, 2014) on the logarithm."""
  mu = jnp.log(10 * initial)

  def body(carry, x):
    x_bar, h_bar = carry
    t, a = x
    m = t + 1
    h_new = (1 - 1 / (m + t0)) * h_bar + (target - a) / (m + t0)
    x_new = mu - jnp.sqrt(m) / gamma * h_new
    w = jnp.exp(-kappa * jnp.log(m))
    x_bar_new = jnp.where(t < burn_in, w * x_new + (1 - w) * x_bar, x_bar)
    return (x_bar_new, h_new), jnp.exp(x_bar)
  (x_bar, _), out = jax.lax.scan(
    body, (jnp.log(initial), 0.0 * initial), (jnp.arange(n), acc))
  return out, jnp.exp(x_bar)


def prove_machine(where):
  def prove(obs):
    sched = C.modules()[2]
    ctx = jx.Ctx()
    n, = ctx.dims('n')
    par = [ctx.fresh('burn_in', kind='i')] + [ctx.fresh(k) for k in NAMES[1:]]
    ctx.hyps += [p.at() > 0 for p in par[1:]] + [par[0].at() >= 0]
    obs.cover('precondition', ctx.hyps)
    acc = ctx.fresh('acc', (n,))

    def fn(*a):
      kw = dict(zip(NAMES, a[:-1]))
      if where == 'closure':
        s = sched.adaptive_step_size(**kw)
        state = s.init(n)
      else:
        s = sched.adaptive_step_size()
        state = s.init(n, **kw)

      def body(st, x):
        t, r = x
        return s.update(st, t, acceptance_ratio=r, unrelated=1.0), s.get(st, t)
      st, out = jax.lax.scan(body, jax.tree_map(jnp.asarray, state), (jnp.arange(n), a[-1]))
      return out, s.get(st, n)
    got = ctx.trace(fn, *par, acc)
    want = ctx.trace(lambda *a: machine(*a[:-1], n, a[-1]), *par, acc)
    obs.equal(ctx, 'step size of every iteration', got[0], want[0])
    obs.equal(ctx, 'step size after the run', got[1], want[1])
    # the first step size is the given one
    obs.prove(ctx, 'initial step size', z3.substitute(
      got[0].at(z3.IntVal(0)), *[(l.t, z3.IntVal(0)) for l in ctx.loops])
      == got[0].at(z3.IntVal(0)))
  return prove


def prove_lemmas(obs):
  """Consequences of the contract, for one iteration of two chains."""
  ctx = jx.Ctx()
  h1, h2, x1, x2, a1, a2 = z3.Reals('h1 h2 x1 x2 a1 a2')
  m, t0, g, tgt, mu, w, e, s = z3.Reals('m t0 gamma target mu w eta s')
  kap = z3.Real('kappa')
  pre = [m >= 1, t0 >= 0, g > 0, h1 <= h2, x1 >= x2, a1 >= a2]
  obs.cover('precondition', pre)
  W = T.Exp(-(kap * T.Log(m)))
  obs.prove(ctx, 'instance: products with a positive factor',
            z3.Implies(z3.And(kap >= 0, T.Log(m) >= 0), kap * T.Log(m) >= 0), func=FN)
  obs.prove(ctx, 'weight of an iteration is a weight', z3.And(W > 0, W <= 1),
            hyps=[m >= 1, kap >= 0, z3.Implies(z3.And(kap >= 0, T.Log(m) >= 0),
                                               kap * T.Log(m) >= 0)], func=FN)
  E_ = T.Inv(m + t0)
  obs.prove(ctx, 'weight of the acceptance rate is a weight', z3.And(E_ > 0, E_ <= 1),
            hyps=[m >= 1, t0 >= 0], func=FN)
  H = lambda h, a: (1 - e) * h + e * (tgt - a)
  obs.prove(ctx, 'more acceptance never increases the statistic', H(h1, a1) <= H(h2, a2),
            hyps=pre + [e > 0, e <= 1], func=FN)
  k1, k2 = z3.Reals('k1 k2')
  X = lambda x, k: w * (mu - s * k) + (1 - w) * x
  obs.prove(ctx, 'a smaller statistic moves towards larger steps',
            mu - s * k1 >= mu - s * k2, hyps=[s > 0, k1 <= k2], func=FN)
  y1, y2 = z3.Reals('y1 y2')
  obs.prove(ctx, 'more acceptance never decreases the step size',
            w * y1 + (1 - w) * x1 >= w * y2 + (1 - w) * x2,
            hyps=[w > 0, w <= 1, y1 >= y2, x1 >= x2], func=FN)
  obs.prove(ctx, 'exp is monotone', T.Exp(x1) >= T.Exp(x2), hyps=[x1 >= x2], func=FN)


def prove_frozen(obs):
  """After the burn in no update changes the step size, from any state."""
  sched = C.modules()[2]
  ctx = jx.Ctx()
  par = [ctx.fresh('burn_in', kind='i')] + [ctx.fresh(k) for k in NAMES[1:]]
  n, = ctx.dims('n')
  m = ctx.fresh('t', kind='i')
  acc = ctx.fresh('acc', (n,))
  late = ctx.fresh('late')
  ctx.hyps += [m.at() >= 0, m.at() >= par[0].at()]

  def fn(*a):
    kw = dict(zip(NAMES, a[:6]))
    acc, m, late = a[6:]
    s = sched.adaptive_step_size(**kw)

    def body(st, x):
      t, r = x
      return s.update(st, t, acceptance_ratio=r), None
    st, _ = jax.lax.scan(body, jax.tree_map(jnp.asarray, s.init(n)), (jnp.arange(n), acc))
    return s.get(st, m), s.get(s.update(st, m, acceptance_ratio=late), m + 1)
  a, b = ctx.trace(fn, *par, acc, m, late)
  obs.equal(ctx, 'step size is frozen after the burn in', b, a)


def search(se):
  sched = C.modules()[2]
  rng = se.rng
  i = 0
  while se.more() or i < 4:
    steps = se.size([16], 'm', 'm2', low=16, limit=300)
    kw = dict(burn_in=se.size([0, 1, 5, 12, steps], 'b', low=0, limit=300),
              initial_step_size=se.value([0.05, 0.3, 1.0, 1e-4, 20.0], 1e-5, 100),
              stabilization_constant=se.value([10, 100, 1, 1000], 0.5, 2000),
              decay_constant=se.value([0.75, 0.5, 1.0, 0.1], 0.05, 1.5),
              speed_constant=se.value([0.05, 0.5, 2.0], 0.05, 20),
              target_acceptance_rate=se.value([0.02, 0.25, 0.8, 0.97], 0.0, 1.0))
    defaults = i == 0
    if defaults:
      kw = dict(burn_in=0, initial_step_size=0.05, stabilization_constant=100,
                decay_constant=0.75, speed_constant=0.05, target_acceptance_rate=0.02)
    s = sched.adaptive_step_size(**({} if defaults else kw))
    # parameters may also be given for each chain at the initialization
    st = s.init(20 + steps) if i % 2 else sched.adaptive_step_size().init(
      20 + steps, **({'burn_in': 8} if defaults else kw))
    if defaults:
      kw['burn_in'] = 8
    i += 1
    b, e, t0, kap, gam, tgt = [kw[k] for k in NAMES]
    x, h, mu = math.log(e), 0.0, math.log(10 * e)
    hist = []
    for t in range(steps):
      got = float(s.get(st, t))
      # beyond 80 the exponential leaves the normal single precision numbers
      if abs(x) < 80 and not abs(got - math.exp(x)) <= 2e-3 * math.exp(x):
        raise Failure(f'step size of iteration {t} is {got} instead of {math.exp(x)}',
                      acceptance=hist, **kw)
      a = se.value([0.0, 0.3, 1.0], 0.0, 1.0)
      hist.append(a)
      st = s.update(st, jnp.array(t), acceptance_ratio=jnp.array(a), unrelated=3)
      m = t + 1
      h = (1 - 1 / (m + t0)) * h + (tgt - a) / (m + t0)
      if t < b:
        x = m ** -kap * (mu - math.sqrt(m) / gam * h) + (1 - m ** -kap) * x
    se.count(kw)


def check():
  f = [FN + '.init', FN + '.update', FN + '.get']
  return Check('C11', 'Adaptive step size', units=[
    Unit('dual averaging, parameters of the constructor', f, prove_machine('closure'), search),
    Unit('dual averaging, parameters of init', f, prove_machine('init')),
    Unit('frozen after the burn in', f, prove_frozen),
    Unit('monotone in the acceptance rate', f, prove_lemmas)],
    assumptions=['x^y is exp(y log x) for positive x',
                 'that the acceptance rate is the one of the previous update is decided '
                 'in C12 and C22'])
