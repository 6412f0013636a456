"""C09: announced number of samples."""
import contextlib

import jax
import jax.numpy as jnp
import numpy as onp
import z3

from vf import jx, opaque, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C
from vf.props import c12

BI = 'jax_sgmc/scheduler.py: initial_burn_in'
RT = 'jax_sgmc/scheduler.py: random_thinning'
SC = 'jax_sgmc/scheduler.py: init_scheduler.init_fn'


def prove_burn_in(where):
  def prove(obs):
    sched = C.modules()[2]
    ctx = jx.Ctx()
    n, = ctx.dims('n')
    N = ctx.zdim(n)
    b, t = ctx.fresh('b', kind='i'), ctx.fresh('t', kind='i')
    hy = [b.at() >= 0, b.at() <= N, t.at() >= 0, t.at() < N]
    obs.cover('precondition', ctx.hyps + hy)

    def fn(b, t):
      s = sched.initial_burn_in(b) if where == 'closure' else sched.initial_burn_in()
      st, count = s.init(n) if where == 'closure' else s.init(n, n=b)
      later = s.update(st, t, acceptance_ratio=0.5)
      return s.get(st, t), s.get(later, t), count
    for k, (cond, out) in enumerate(ctx.trace_paths(fn, b, t)):
      if isinstance(out, Exception):
        obs.prove(ctx, f'no exception ({k})', z3.Not(cond), hyps=hy)
        continue
      h = hy + [cond]
      want = z3.If(t.at() >= b.at(), z3.RealVal(1), z3.RealVal(0))
      obs.prove(ctx, f'kept exactly after the burn in ({k})', T.to_real(out[0].at()) == want,
                hyps=h)
      obs.prove(ctx, f'after updates ({k})', T.to_real(out[1].at()) == want, hyps=h)
      # the iterations b, ..., N - 1 are N - b many
      obs.prove(ctx, f'announced number ({k})', T.to_real(out[2].at()) == T.to_real(N - b.at()),
                hyps=h)
    i, j = z3.Ints('i j')
    obs.prove(ctx, 'lemma: kept iterations are numbered 0, ..., N - b - 1', z3.And(
      z3.Implies(z3.And(i >= b.at(), i < N), z3.And(i - b.at() >= 0, i - b.at() < N - b.at())),
      z3.Implies(z3.And(j >= 0, j < N - b.at()), z3.And(j + b.at() >= b.at(), j + b.at() < N))),
      hyps=hy)
  return prove


@contextlib.contextmanager
def choice_by_contract(record):
  """jax.random.choice without replacement, known by its contract."""
  orig = jax.random.choice

  def choice(key, a, shape=(), replace=True, p=None, axis=0):
    record.append(dict(shape=shape, replace=replace, p=p, a=a, key=key))
    if jnp.ndim(a) == 0:
      a = jnp.arange(a)        # an integer stands for the range up to it
    return opaque.call('choice', C.S(tuple(shape), 'int32'), key, a, p)
  jax.random.choice = choice
  try:
    yield
  finally:
    jax.random.choice = orig


def prove_thinning(where):
  def prove(obs):
    sched = C.modules()[2]
    ctx = jx.Ctx()
    n, k = ctx.dims('n, k')
    N, K = ctx.zdim(n), ctx.zdim(k)
    t = ctx.fresh('t', kind='i')
    key = ctx.key('k0')
    hy = [t.at() >= 0, t.at() < N]
    obs.cover('precondition', ctx.hyps + hy)
    static = lambda nm, counts: C.modules()[2].specific_scheduler(
      c12.specific(nm, counts).init, lambda s, i, **kw: s, c12.specific(nm, counts).get)
    step, burn = static('step', False), static('burn', True)
    rec = []

    def fn(t, key):
      del rec[:]
      with choice_by_contract(rec):
        if where == 'closure':
          s = sched.random_thinning(step, burn, k, key)
          st, count = s.init(n)
        else:
          s = sched.random_thinning(None, None, 1)
          st, count = s.init(n, step_size_schedule=step, burn_in_schedule=burn,
                             selections=k, key=key)
      if len(rec) != 1 or rec[0]['replace'] is not False or rec[0]['p'] is None:
        raise jx.Unsupported('draw of the iterations')
      r = rec[0]
      later = s.update(st, t, acceptance_ratio=0.5)
      return (s.get(st, t), s.get(later, t), jnp.asarray(count), r['p'],
              jnp.asarray(r['a']), jnp.asarray(r['shape'][0]))

    def weights(t):
      ss = step.init(n)
      bs, _ = burn.init(n)
      w = lambda i: step.get(ss, i) * burn.get(bs, i)
      all_ = jax.vmap(w)(jnp.arange(n))
      return all_, jnp.sum(jnp.where(all_ != 0, 1, 0))
    for m, (cond, out) in enumerate(ctx.trace_paths(fn, t, key)):
      w, count = ctx.trace(weights, t)
      enough = count.at() >= K
      if isinstance(out, Exception):
        obs.prove(ctx, f'accepted if enough iterations can be selected ({m})', z3.Not(cond),
                  hyps=hy + [enough])
        continue
      h = hy + [cond, enough]
      acc, later, cnt, p, a, size = out
      obs.equal(ctx, f'weight of an iteration is step size times burn in ({m})',
                p, w, hyps=h)
      # an integer stands for the range up to it
      whole = a.at() == N if a.shape == () else a.at(t.at()) == t.at()
      total = N if a.shape == () else jx.iv(ctx.zdim(a.shape[0]))
      obs.prove(ctx, f'selected from all iterations ({m})', whole, hyps=h)
      obs.prove(ctx, f'number of selections ({m})', z3.And(
        size.at() == K, cnt.at() == K, jx.iv(ctx.zdim(p.shape[0])) == N,
        total == N), hyps=h)

      def kept(t, key, p):
        c = opaque.call('choice', C.S((k,), 'int32'), key, jnp.arange(n), p)
        return jnp.any(c == t)
      want = ctx.trace(kept, t, key, p)
      obs.equal(ctx, f'kept exactly if selected ({m})', acc, want, hyps=h)
      obs.equal(ctx, f'after updates ({m})', later, want, hyps=h)
  return prove


def prove_total(obs):
  """The announced number is the number of kept iterations for the provided schedules."""
  sched = C.modules()[2]
  ctx = jx.Ctx()
  n, = ctx.dims('n')
  N = ctx.zdim(n)
  b, t = ctx.fresh('b', kind='i'), ctx.fresh('t', kind='i')
  hy = [b.at() >= 0, b.at() <= N, t.at() >= 0, t.at() < N]

  def fn(b):
    init, _, _ = sched.init_scheduler(burn_in=sched.initial_burn_in(b), progress_bar=False)
    return jnp.asarray(init(n)[1].samples_collected)
  for k, (cond, out) in enumerate(ctx.trace_paths(fn, b)):
    if isinstance(out, Exception):
      obs.prove(ctx, f'no exception ({k})', z3.Not(cond), hyps=hy)
    else:
      obs.prove(ctx, f'burn in only ({k})', out.at() == N - b.at(), hyps=hy + [cond])

  def fn2(b, s):
    thin = sched.specific_scheduler(lambda its: (None, s), lambda *a, **kw: None,
                                    lambda *a, **kw: True)
    init, _, _ = sched.init_scheduler(burn_in=sched.initial_burn_in(b), thinning=thin,
                                      progress_bar=False)
    return jnp.asarray(init(n)[1].samples_collected)
  s = ctx.fresh('s', kind='i')
  for k, (cond, out) in enumerate(ctx.trace_paths(fn2, b, s)):
    if isinstance(out, Exception):
      obs.prove(ctx, f'with thinning: no exception ({k})', z3.Not(cond), hyps=hy)
    else:
      # at most as many selections as iterations after the burn in
      obs.prove(ctx, f'thinning after burn in ({k})', out.at() == s.at(),
                hyps=hy + [cond, s.at() >= 0, s.at() <= N - b.at()])


def search(se):
  sched = C.modules()[2]
  rng = se.rng
  i = 0
  while se.more() or i < 8:
    n = se.size([1, 2, 5, 17, 40], 'N', 'n', limit=400)
    b = min(se.size([rng.randrange(0, n + 1)], 'b', low=0), n) if i % 4 else rng.choice([0, n])
    k = (min(se.size([rng.randrange(1, n - b + 1), n - b], 's', limit=400), n - b)
         if n > b and i % 3 != 1 else 0)
    key = jax.random.PRNGKey(rng.randrange(1000)) if rng.random() < 0.7 else None
    late = i % 2 == 1    # parameters passed to the initialization
    i += 1
    case = dict(iterations=n, burn_in=b, selections=k, init_params=late)
    step = (sched.polynomial_step_size(rng.choice([0.5, 1.0]), rng.choice([0.001, 1.0]),
                                       rng.choice([0.0, 0.55, 8.0]))
            if rng.random() < 0.7 else sched.polynomial_step_size_first_last(0.1, 0.01, 0.33))
    burn = sched.initial_burn_in(b)
    kw = {}
    if late:
      thin = sched.random_thinning(step, sched.initial_burn_in(0), 1) if k else None
      kw = {'burn_in': {'n': b}}
      if k:
        kw['thinning'] = dict(burn_in_schedule=burn, selections=k, key=key)
    else:
      thin = sched.random_thinning(step, burn, k, key) if k else None
    init, update, get = sched.init_scheduler(
      step_size=step, burn_in=sched.initial_burn_in() if late else burn, thinning=thin,
      progress_bar=False)
    st, info = init(n, **kw)
    kept = []
    up, gt = jax.jit(lambda s: update(s, acceptance_ratio=1.0)), jax.jit(get)
    for t in range(n):
      g = gt(st)
      if float(g.burn_in) * float(g.accept) != 0.0:
        kept.append(t)
      st = up(st)
    if len(kept) != int(info.samples_collected):
      raise Failure(f'{int(info.samples_collected)} samples announced but {len(kept)} kept',
                    kept=kept, **case)
    if any(t < b for t in kept):
      raise Failure('sample of the burn in is kept', kept=kept, **case)
    if len(kept) != (k or n - b):
      raise Failure(f'{len(kept)} samples kept', kept=kept, **case)
    se.count(case)


def search_thinning(se):
  """Many selections of the random thinning, also for steep step sizes."""
  sched = C.modules()[2]
  rng = se.rng
  i = 0
  while se.more() or i < 8:
    i += 1
    n = se.size([8, 40], 'N', 'n', low=2, limit=70000)
    b = min(se.size([0, n // 8, n // 2], 'b', low=0), n - 1)
    k = max(1, min(se.size([n - b, n - b - 1, 1], 's', limit=400), n - b))
    b0, gamma = rng.choice([(0.001, 8.0), (1.0, 8.0), (1.0, 0.33), (1.0, 0.0)][2 * (n > 400):])
    if n > 400:
      k = max(1, min(k, 200))
    seed = rng.randrange(10000)
    case = dict(iterations=n, burn_in=b, selections=k, b=b0, gamma=gamma, seed=seed)
    thin = sched.random_thinning(sched.polynomial_step_size(1.0, b0, gamma),
                                 sched.initial_burn_in(b), k, jax.random.PRNGKey(seed))
    st, count = thin.init(n)
    acc = onp.asarray(jax.vmap(lambda t: thin.get(st, t))(jnp.arange(n)))
    kept = [t for t in range(n) if acc[t]]
    if int(count) != len(kept) or len(kept) != k:
      raise Failure(f'{len(kept)} iterations selected, {int(count)} announced', kept=kept, **case)
    if any(t < b for t in kept):
      raise Failure('iteration of the burn in selected', kept=kept, **case)
    se.count(case)


def check():
  f = [BI + '.init_fn', BI + '.update_fn', BI + '.get_fn']
  g = [RT + '.init_fn', RT + '.update_fn', RT + '.get_fn']
  return Check('C09', 'Announced number of samples', units=[
    Unit('initial burn in, parameter of the constructor', f, prove_burn_in('closure'), search),
    Unit('initial burn in, parameter of init', f, prove_burn_in('init')),
    Unit('random thinning, parameters of the constructor', g, prove_thinning('closure'),
         search_thinning),
    Unit('random thinning, parameters of init', g, prove_thinning('init')),
    Unit('announced number', [SC], prove_total)],
    assumptions=[
      'jax.random.choice without replacement returns distinct entries of positive weight if '
      'enough of them exist (evaluated on the running code)',
      'random thinning is used with static step size and burn in schedules as documented',
      'the burn in is not longer than the run'])
