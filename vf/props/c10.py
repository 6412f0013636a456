"""C10: polynomial step size schedules."""
import numpy as onp
import jax
import jax.numpy as jnp
import z3

from vf import jx, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C

POLY = 'jax_sgmc/scheduler.py: polynomial_step_size'
FL = 'jax_sgmc/scheduler.py: polynomial_step_size_first_last'


def run(sched_, its, t, **kw):
  """Step size of iteration t after an update as seen by the scheduler."""
  state = sched_.init(its, **kw)
  other = sched_.update(state, t, acceptance_ratio=0.5)
  return sched_.get(state, t), sched_.get(other, t)


def each_path(obs, ctx, name, fn, args, hyps, func, on_path):
  for n, (cond, out) in enumerate(ctx.trace_paths(fn, *args)):
    if isinstance(out, Exception):
      obs.prove(ctx, f'{name}: valid parameters are accepted ({n})', z3.Not(cond),
                hyps=hyps, func=func)
    else:
      on_path(n, out, hyps + [cond])


def prove_poly(where):
  def prove(obs):
    sched = C.modules()[2]
    ctx = jx.Ctx()
    n, = ctx.dims('n')
    a, b, g = ctx.fresh('a'), ctx.fresh('b'), ctx.fresh('gamma')
    t = ctx.fresh('t', kind='i')
    hy = [a.at() > 0, b.at() > 0, g.at() >= 0, t.at() >= 0, t.at() < ctx.zdim(n)]
    obs.cover('precondition', ctx.hyps + hy)

    def fn(a, b, g, t):
      if where == 'closure':
        return run(sched.polynomial_step_size(a, b, g), n, t)
      return run(sched.polynomial_step_size(), n, t, a=a, b=b, gamma=g)

    def on_path(m, out, hyps):
      want = ctx.trace(lambda a, b, g, t: a * jnp.exp(-g * jnp.log(b + t)), a, b, g, t)
      obs.equal(ctx, f'step size of iteration t ({m})', out[0], want, hyps=hyps)
      obs.equal(ctx, f'unchanged by updates ({m})', out[1], want, hyps=hyps)
    each_path(obs, ctx, 'polynomial', fn, (a, b, g, t), hy, POLY, on_path)
  return prove


def closed(first, last, g, t, m):
  """Contract: interpolation in the power -1/gamma; m + 1 iterations."""
  p = lambda v: jnp.exp(-(1 / g) * jnp.log(v))
  u = p(first) + (p(last) - p(first)) / m * t
  return jnp.exp(-g * jnp.log(u))


def prove_first_last(where):
  def prove(obs):
    sched = C.modules()[2]
    ctx = jx.Ctx()
    m, = ctx.dims('m')
    f, l, g = ctx.fresh('first'), ctx.fresh('last'), ctx.fresh('gamma')
    t = ctx.fresh('t', kind='i')
    M = ctx.zdim(m)
    base = [l.at() > 0, f.at() >= l.at(), g.at() > 0]
    hy = base + [t.at() >= 0, t.at() <= M]
    obs.cover('precondition', ctx.hyps + hy)

    def fn(f, l, g, t):
      if where == 'closure':
        return run(sched.polynomial_step_size_first_last(f, l, g), m + 1, t)
      return run(sched.polynomial_step_size_first_last(), m + 1, t,
                 first=f, last=l, gamma=g)

    def on_path(k, out, hyps):
      want = ctx.trace(lambda *a: closed(*a, m * 1.0), f, l, g, t)
      for v, nm in zip(out, ('step size', 'step size after an update')):
        obs.equal(ctx, f'{nm} of iteration t ({k})', v, want, hyps=hyps)
        v0 = z3.substitute(v.at(), (t.at(), z3.IntVal(0)))
        vl = z3.substitute(v.at(), (t.at(), M))
        obs.prove(ctx, f'{nm}: first value ({k})', v0 == f.at(), hyps=base)
        obs.prove(ctx, f'{nm}: last value ({k})', vl == l.at(), hyps=base)
    each_path(obs, ctx, 'first last', fn, (f, l, g, t), hy, FL, on_path)
  return prove


def prove_monotone(obs):
  """Lemmas on the contract: monotone and between the given values."""
  ctx = jx.Ctx()
  f, l, g, m = z3.Reals('f l g m')
  t, s = z3.Reals('t s')
  Lf, Ll = T.Log(f), T.Log(l)
  ig = T.Inv(g)
  pre = [l > 0, f >= l, g > 0, m >= 1, 0 <= t, t <= s, s <= m]
  P, Q = T.Exp(-(ig * Lf)), T.Exp(-(ig * Ll))
  obs.cover('precondition', pre)
  obs.prove(ctx, 'powers are ordered', z3.And(P > 0, P <= Q), hyps=pre + [
    z3.Implies(z3.And(ig > 0, Lf >= Ll), ig * Lf >= ig * Ll)], func=FL)
  obs.prove(ctx, 'instance: products are monotone',
            z3.Implies(z3.And(ig > 0, Lf >= Ll), ig * Lf >= ig * Ll), func=FL)
  p, q = z3.Reals('p q')
  h2 = [p > 0, p <= q, m >= 1, 0 <= t, t <= s, s <= m]
  u = lambda x: p + (q - p) * T.Inv(m) * x
  w = z3.Real('w')
  obs.prove(ctx, 'slope is not negative', (q - p) * T.Inv(m) >= 0, hyps=h2, func=FL)
  obs.prove(ctx, 'interpolation is monotone and positive',
            z3.And(p + w * t > 0, p + w * t <= p + w * s), hyps=h2 + [w >= 0], func=FL)
  u1, u2 = z3.Reals('u1 u2')
  L1, L2 = T.Log(u1), T.Log(u2)
  obs.prove(ctx, 'instance: products with gamma are monotone',
            z3.Implies(z3.And(g > 0, L1 <= L2), g * L1 <= g * L2), func=FL)
  obs.prove(ctx, 'step sizes never increase', T.Exp(-(g * L2)) <= T.Exp(-(g * L1)),
            hyps=[g > 0, u1 > 0, u1 <= u2,
                  z3.Implies(z3.And(g > 0, L1 <= L2), g * L1 <= g * L2)], func=FL)


def prove_single(obs):
  sched = C.modules()[2]
  ctx = jx.Ctx()
  f, l, g = ctx.fresh('first'), ctx.fresh('last'), ctx.fresh('gamma')
  hy = [l.at() > 0, f.at() >= l.at(), g.at() > 0]

  def fn(f, l, g):
    return run(sched.polynomial_step_size_first_last(f, l, g), 1, 0)

  def on_path(k, out, hyps):
    # the only iteration is the first one
    obs.equal(ctx, f'single iteration ({k})', out[0], f, hyps=hyps)
  each_path(obs, ctx, 'single iteration', fn, (f, l, g), hy, FL, on_path)

  def fn2(f, g):
    return run(sched.polynomial_step_size_first_last(f, f, g), ctx.dims('m')[0] + 1, 0)

  def on_path2(k, out, hyps):
    obs.equal(ctx, f'equal first and last value ({k})', out[0], f, hyps=hyps)
  each_path(obs, ctx, 'equal values', fn2, (f, g), [f.at() > 0, g.at() > 0], FL, on_path2)


def search_poly(se):
  sched = C.modules()[2]
  rng = se.rng
  i = 0
  while se.more() or i < 8:
    n = se.size([1, 2, 3, 10, 57, 1000], 'N', 'n', limit=70000)
    a = se.value([1.0, 0.3, 2.5, 1e-4, 1e-9, 1e6], 1e-9, 1e6)
    b = se.value([0.1, 1.0, 7.5, 200.0, 1e-3, 1e5], 1e-3, 1e5)
    g = se.value([0.0, 0.33, 0.55, 1.0, 1.7], 0.0, 2.0)
    as_array = i % 3 == 2
    case = dict(iterations=n, a=a, b=b, gamma=g, arrays=as_array)
    conv = (lambda v: jnp.asarray(v, jnp.float32)) if as_array else (lambda v: v)
    s = sched.polynomial_step_size(conv(a), conv(b), conv(g))
    st = s.init(n)
    if i % 2:
      s2 = sched.polynomial_step_size()
      st = s2.init(n, a=conv(a), b=conv(b), gamma=conv(g))
    i += 1
    ts = sorted({0, n - 1, rng.randrange(n), rng.randrange(n)})
    for t in ts:
      st = s.update(st, t, acceptance_ratio=0.3)
      v = float(s.get(st, jnp.array(t)))
      want = a * (b + t) ** (-g)
      if not abs(v - want) <= 1e-4 * abs(want):
        raise Failure(f'step size of iteration {t} is {v} instead of {want}', **case)
    se.count(case)


def search_first_last(se):
  sched = C.modules()[2]
  rng = se.rng
  i = 0
  while se.more() or i < 12:
    n = se.size([1, 2, 3, 10, 57, 1000], 'N', 'n', limit=5000)
    first = se.value([1.0, 0.3, 0.05, 1e-2, 2.0, 1e-6, 1e-9, 300.0], 1e-9, 300)
    last = first * se.value([1.0, 1.0, 0.9, 0.5, 0.1, 1e-2], 1e-2, 1.0)
    g = se.value([0.33, 0.55, 1.0, 0.8], 0.33, 1.2)
    if i < 3:
      n, last = [1, 5, 1][i], [first, first, 0.5 * first][i]
    case = dict(iterations=n, first=first, last=last, gamma=g)
    s = sched.polynomial_step_size_first_last(first, last, g)
    if i % 2:
      s = sched.polynomial_step_size_first_last()
      st = s.init(n, first=first, last=last, gamma=g)
    else:
      st = s.init(n)
    i += 1
    v = onp.array([float(s.get(s.update(st, t), t)) for t in
                   sorted({0, n - 1} | set(range(0, n, max(n // 20, 1))))])
    if not onp.isfinite(v).all():
      raise Failure(f'step sizes are {v[:4].tolist()}', **case)
    if abs(v[0] - first) > 2e-3 * first:
      raise Failure(f'first step size is {v[0]}', **case)
    if n > 1 and abs(v[-1] - last) > 2e-3 * last:
      raise Failure(f'last step size is {v[-1]}', **case)
    if (onp.diff(v) > 1e-5 * first).any():
      raise Failure('step sizes increase', values=v.tolist(), **case)
    p = lambda x: x ** (-1 / g)
    mid = n // 2
    if n > 2:
      want = (p(first) + (p(last) - p(first)) / (n - 1) * mid) ** (-g)
      got = float(s.get(st, mid))
      if abs(got - want) > 3e-3 * want:
        raise Failure(f'step size of iteration {mid} is {got} instead of {want}', **case)
    se.count(case)


def check():
  p = [POLY + '.init_fn', POLY + '.update_fn', POLY + '.get_fn']
  q = [FL + '.init_fn', FL + '.step_sizes', FL + '.update_fn', FL + '.get_fn']
  return Check('C10', 'Polynomial step sizes', units=[
    Unit('polynomial, parameters of the constructor', p, prove_poly('closure'), search_poly),
    Unit('polynomial, parameters of init', p, prove_poly('init')),
    Unit('first and last, parameters of the constructor', q, prove_first_last('closure'),
         search_first_last),
    Unit('first and last, parameters of init', q, prove_first_last('init')),
    Unit('single iteration and constant step size', q, prove_single),
    Unit('monotone step sizes', q, prove_monotone)],
    assumptions=['x^y is exp(y log x) for positive x'])
