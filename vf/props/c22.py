"""C22: the driver runs all iterations in order for every chain."""
import contextlib
import io as stdlib_io
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
from jax import tree_util
import z3

from vf import env, jx, opaque, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C

FN = 'jax_sgmc/solver.py: mcmc'
LP = 'jax_sgmc/util/list_map.py: list_pmap'


# ---------------------------------------------------- components by contract
def make_solver(kind, stats):
  """init, update, get known by contract."""
  def init(*a, **k):
    raise NotImplementedError

  def update(state, *schedules):
    args = (state, [tuple(s) for s in schedules])
    new = tree_util.tree_map_with_path(
      lambda p, l: opaque.call('upd' + tree_util.keystr(p), C.S(l.shape, l.dtype), *args), state)
    st = ({'acceptance_ratio': opaque.call('ratio', C.S(), *args),
           'info': opaque.call('info', C.S((2,)), *args)} if stats else None)
    return new, st

  def get(state):
    return {'variables': tree_util.tree_map_with_path(
      lambda p, l: opaque.call('get' + tree_util.keystr(p), C.S(l.shape, l.dtype), state), state),
            'likelihood': opaque.call('lik', C.S(), state)}
  return init, update, get


def make_scheduler():
  from jax_sgmc.scheduler import schedule, static_information

  def init(iterations, param=0.5):
    return ({'t': jnp.array(0), 's': opaque.call('sinit', C.S(), iterations, param)},
            static_information(samples_collected=5))

  def update(state, **kw):
    return {'t': state['t'] + 1,
            's': opaque.call('supd', C.S(), state['s'], state['t'], [kw[k] for k in sorted(kw)])}

  def get(state, **kw):
    a = (state['s'], state['t'])
    return schedule(step_size=opaque.call('ss', C.S(), *a),
                    temperature=opaque.call('temp', C.S(), *a),
                    burn_in=opaque.call('burn', C.S(), *a),
                    accept=opaque.call('acc', C.S((), 'bool'), *a))
  return init, update, get


def make_saving():
  def init(sample, checkpoint, static):
    return {'v': opaque.call('svinit', C.S(), sample, static.samples_collected)}

  def save(state, keep, sample, scheduler_state=None, solver_state=None):
    return ({'v': opaque.call('sv', C.S(), state['v'], keep, sample)},
            opaque.call('saved', C.S(), state['v'], keep, sample))

  def post(state, saved):
    return {'final': state['v'], 'saved': saved}
  return init, save, post


def machine(kind, stats, n, schedulers, state):
  """Contract: result of one chain."""
  _, upd, get = make_solver(kind, stats)
  si, su, sg = make_scheduler()
  vi, vs, vp = make_saving()
  kws = [{}] + list(schedulers or [])
  sched = [si(n, **k)[0] for k in kws]
  static = si(n)[1]

  def body(carry, _):
    st, sch, sv = carry
    now = [sg(s) for s in sch]
    new, info = upd(st, *now)
    keep = jnp.logical_and(now[0].burn_in != 0, now[0].accept)
    sv, saved = vs(sv, keep, get(new))
    sch = [su(s, **(info or {})) for s in sch]
    return (new, sch, sv), saved
  (st, sch, sv), saved = jax.lax.scan(body, (state, sched, vi(get(state), None, static)),
                                      jnp.arange(n))
  return vp(sv, saved)


def chain_state(ctx, kind, name):
  if kind == 'pair':
    return (C.sym_tree(ctx, 'dict', name), ctx.fresh(name + 'u'))
  return C.sym_tree(ctx, kind, name)


def prove_for(kind, chains, strategy, stats, extra=None):
  def prove(obs):
    solver = C.modules()[1]
    ctx = jx.Ctx()
    n, = ctx.dims('n')
    states = [chain_state(ctx, kind, f's{j}_') for j in range(chains)]
    params = [ctx.fresh(f'par{j}') for j in range(extra or 0)]
    obs.cover('precondition', ctx.hyps)
    sched_kw = lambda ps: [{'param': p} for p in ps] if extra else None

    def fn(states, ps):
      with C.symbolic_lengths(solver):
        run = solver.mcmc(make_solver(kind, stats), make_scheduler(), strategy=strategy,
                          saving=make_saving())
        return run(*states, iterations=n, schedulers=sched_kw(ps))

    def spec(states, ps):
      one = lambda s: machine(kind, stats, n, sched_kw(ps), s)
      return [one(s) for s in states]
    got = ctx.trace(fn, states, params)
    for l in ctx.loops:
      l.used = False
    want = ctx.trace(spec, states, params)
    obs.true('one result for each chain', len(got) == chains, reason=str(len(got)))
    for j, (g, w) in enumerate(zip(got, want)):
      obs.equal(ctx, f'results saved by chain {j}', g['final'], w['final'])
      obs.equal(ctx, f'values returned in each iteration of chain {j}', g['saved'], w['saved'])
  return prove


def prove_sgmc(obs):
  """The solver without correction hands everything to the integrator."""
  solver = C.modules()[1]
  ctx = jx.Ctx()
  x, sch = C.sym_tree(ctx, 'dict', 'x'), C.sym_sched(ctx)
  like = lambda t: tree_util.tree_map(lambda l: C.S(l.shape), t)
  integ = (lambda s, **kw: opaque.call('init', like(s), s, [kw[k] for k in sorted(kw)]),
           lambda s, sc: opaque.call('upd', like(s), s, tuple(sc)),
           lambda s: {'variables': opaque.call('get', like(s), s)})
  f = 'jax_sgmc/solver.py: sgmc'
  key = ctx.fresh('a')
  obs.equal(ctx, 'init', ctx.trace(lambda x, a: solver.sgmc(integ)[0](x, key=a, init_model_state=a), x, key),
            ctx.trace(lambda x, a: integ[0](x, key=a, init_model_state=a), x, key), func=f)
  got = ctx.trace(lambda x, s: solver.sgmc(integ)[1](x, s)[0], x, sch)
  obs.equal(ctx, 'update', got, ctx.trace(integ[1], x, sch), func=f)
  obs.equal(ctx, 'get', ctx.trace(solver.sgmc(integ)[2], x), ctx.trace(integ[2], x), func=f)
  none = []
  ctx.trace(lambda x, s: (none.append(solver.sgmc(integ)[1](x, s)[1]), x)[1], x, sch)
  obs.true('no statistics', none[0] is None, func=f)


# --------------------------------------------------------- running code
def reference(n, state, params, burn, accept):
  """Plain python execution of a run."""
  out = []
  x, u = float(state['x']), float(state['u'])
  sch = [float(p) for p in params]
  for t in range(n):
    steps = [p + 0.1 * t for p in sch]
    x = 0.5 * x + steps[0] + 0.25 * sum(steps[1:]) + 0.01 * u * t
    u = u + 1
    if burn(t) and accept(t):
      out.append((x, u))
    ratio = 0.1 * x
    sch = [p + 0.01 * ratio + 0.003 * j for j, p in enumerate(sch)]
    sch = [p - 0.003 * j for j, p in enumerate(sch)]
  return out


def components(burn, accept, length):
  from jax_sgmc.scheduler import schedule, static_information

  def count(n):
    return sum(1 for t in range(n) if burn(t) and accept(t))

  def s_init(iterations, base=0.0):
    return (jnp.array(0), jnp.array(base, jnp.float32), jnp.array(base, jnp.float32)), static_information(count(iterations))

  def s_next(s, acceptance_ratio=100.0, **kw):
    return s[0] + 1, s[1] + 0.01 * acceptance_ratio, s[2]

  def s_get(s, **kw):
    t, p, base = s  # helper schedules accept other iterations
    table_b = jnp.array([float(burn(k)) for k in range(length)])
    table_a = jnp.array([bool(accept(k)) for k in range(length)])
    return schedule(step_size=p + 0.1 * t, temperature=1.0, burn_in=table_b[t],
                    accept=jnp.logical_xor(table_a[t], base > 0))

  def update(state, *sch):
    x, u, t = state['x'], state['u'], state['t']
    new = 0.5 * x + sch[0].step_size + 0.01 * u * t
    for s in sch[1:]:
      new = new + 0.25 * s.step_size
    return {'x': new, 'u': u + 1, 't': t + 1}, {'acceptance_ratio': 0.1 * new}

  def get(state):
    return {'variables': {'x': state['x'], 'u': state['u']}}
  return (None, update, get), (s_init, s_next, s_get)


def one_run(solver, se, strategy, chains=None):
  rng = se.rng
  n = se.size([1, 2, 5, 9], 'n', limit=2600)
  k = chains or se.size([1, 2, 3], limit=20)
  b, every = se.size([0, 1, 2], low=0, limit=2600), se.size([1, 2, 3])
  burn, accept = (lambda t: t >= b), (lambda t: t % every == 0)
  helpers = rng.choice([0, 0, 1, 2])
  case = dict(iterations=n, chains=k, burn_in=b, every=every, strategy=strategy,
              helper_schedulers=helpers)
  sol, sch = components(burn, accept, n + 2)
  states = [{'x': jnp.array(rng.uniform(-2, 2), jnp.float32), 'u': jnp.array(float(j)),
             't': jnp.array(0)} for j in range(k)]
  bases = [0.3 * (h + 1) for h in range(helpers)]
  if not any(burn(t) and accept(t) for t in range(n)):
    return case
  host = rng.random() < 0.4
  case['saving'] = 'host' if host else 'device'
  from jax_sgmc import io
  run = solver.mcmc(sol, sch, strategy=strategy,
                    saving=io.save(io.MemoryCollector()) if host else None)
  res = run(*states, iterations=n,
            **({'schedulers': [{'base': v} for v in bases]} if helpers else {}))
  if len(res) != k:
    raise Failure(f'{len(res)} results', **case)
  for j, (r, s) in enumerate(zip(res, states)):
    want = reference(n, s, [0.0] + bases, burn, accept)
    if int(r['sample_count']) != len(want):
      raise Failure(f'chain {j}: {int(r["sample_count"])} samples instead of {len(want)}', **case)
    got = r['samples']['variables']
    C.close(onp.stack([onp.asarray(got['x']), onp.asarray(got['u'])], 1)[:len(want)],
            onp.array(want, 'f'), f'chain {j}: samples', rtol=1e-3 if n < 100 else 1e-2, atol=1e-4, **case)
  return case


def search(se):
  solver = C.modules()[1]
  i = 0
  while se.more() or i < 6:
    case = one_run(solver, se, ['map', 'vmap'][i % 2])
    i += 1
    se.count(case)


def search_bar(se):
  """The progress bar changes nothing, for every strategy and number of schedules."""
  from jax_sgmc import scheduler, solver

  def update(state, *sch):
    return state + sum(s.step_size for s in sch), None
  sol = (None, update, lambda s: {'v': s})
  step = scheduler.polynomial_step_size(a=0.1, b=1.0, gamma=0.4)
  for k in itertools.count():
    if not se.more() and k >= 6:
      break
    strategy, chains = ('map', 'vmap')[k % 2], 1 + k % 3
    n, steps = se.size([1, 3, 7, 25], 'n', limit=2600), se.size([1, 2, 20])
    helpers = k // 2 % 3
    case = dict(strategy=strategy, chains=chains, iterations=n, helper_schedulers=helpers,
                progress_bar_steps=steps)
    se.now = case
    out = []
    for bar in (False, True):
      run = solver.mcmc(sol, scheduler.init_scheduler(
        step_size=step, progress_bar=bar, progress_bar_steps=steps), strategy=strategy)
      with contextlib.redirect_stdout(stdlib_io.StringIO()):
        res = run(*[jnp.asarray(float(c)) for c in range(chains)], iterations=n, **(
          {'schedulers': [{'enabled': bool(h)} for h in range(helpers)]} if helpers else {}))
        jax.effects_barrier()
      out.append([onp.asarray(r['samples']['v']) for r in res])
    for a, b in zip(*out):
      C.close(b, a, 'samples with progress bar', rtol=1e-6, atol=1e-6, **case)
    want = onp.cumsum((1 + helpers) * 0.1 * (1. + onp.arange(n)) ** -0.4)
    for c, a in enumerate(out[0]):
      C.close(a, (c + want).astype('f'), 'samples', rtol=1e-4, atol=1e-4, **case)
    se.count(case)


def pmap_main():
  from vf.check import Searcher
  solver = C.modules()[1]
  se = Searcher(env.SEED, 100)
  for _ in range(3):
    one_run(solver, se, 'pmap', chains=se.rng.choice([2, 4]))


def search_pmap(se):
  C.on_devices(se, 'c22')


def check():
  f = [FN + '._uninitialized_update', FN + '._init', FN + '._run', FN + '.run']
  g = f + ['jax_sgmc/util/list_map.py: list_vmap']
  units = [
    Unit('one chain', f, prove_for('pair', 1, 'map', True), search),
    Unit('three chains, sequentially', f, prove_for('pair', 3, 'map', True)),
    Unit('two chains, vectorized', g + ['jax_sgmc/scheduler.py: _progress_bar'],
         prove_for('pair', 2, 'vmap', True), search_bar),
    Unit('one chain, vectorized', g, prove_for('leaf', 1, 'vmap', True)),
    Unit('solver without statistics', f, prove_for('nested', 2, 'map', False)),
    Unit('two schedules', g, prove_for('pair', 1, 'map', False, extra=1)),
    Unit('three schedules with statistics', g, prove_for('pair', 2, 'map', True, extra=2)),
    Unit('two schedules, vectorized', g, prove_for('leaf', 2, 'vmap', True, extra=1)),
    Unit('solver without correction', ['jax_sgmc/solver.py: sgmc'], prove_sgmc),
    Unit('two chains on two devices', f + [LP], prove_for('pair', 2, 'pmap', True), search_pmap),
    Unit('three chains on devices, two schedules', f + [LP],
         prove_for('leaf', 3, 'pmap', True, extra=1))]
  return Check('C22', 'Driver', units=units, assumptions=[
    'solver, schedule and saving enter by contract (functions of their arguments)',
    'jax.vmap and jax.jit do not change the meaning of a function',
    'number of chains up to three'])
