"""C12: the scheduler composes the specific schedules."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
import z3

from vf import jx, opaque, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C

FN = 'jax_sgmc/scheduler.py: init_scheduler'
PARTS = ('step_size', 'temperature', 'burn_in', 'thinning')


def specific(name, counts=False, kind='float32'):
  """A specific schedule known by its contract."""
  from jax_sgmc.scheduler import specific_scheduler
  info = lambda kw: [kw[k] for k in sorted(kw)]

  def init(iterations, param=0.25, **kw):
    st = opaque.call(name + '_init', C.S(), iterations, param)
    if counts:
      return st, opaque.call(name + '_count', C.S((), 'int32'), iterations, param)
    return st

  def update(state, iteration, **kw):
    return opaque.call(name + '_upd', C.S(), state, iteration, *info(kw))

  def get(state, iteration, **kw):
    return opaque.call(name + '_get', C.S((), kind), state, iteration, *info(kw))
  return specific_scheduler(init, update, get)


def parts(given):
  out = {}
  for p in PARTS:
    if p in given:
      out[p] = specific(p, p in ('burn_in', 'thinning'),
                        'bool' if p == 'thinning' else 'float32')
  return out


DEFAULTS = {'step_size': 1.0, 'temperature': 1.0, 'burn_in': 1.0, 'thinning': True}


def machine(given, n, params, acc, extra):
  """Contract: independent evolution of the given schedules."""
  subs = parts(given)
  init = {p: subs[p].init(n, **({'param': params[p]} if p in params else {}))
          for p in given}
  counts = [jnp.asarray(n)] + [init[p][1] for p in ('burn_in', 'thinning') if p in given]
  if 'burn_in' in given and 'thinning' in given:
    counts = counts[1:]
  total = counts[0]
  for c in counts[1:]:
    total = jnp.minimum(total, c)
  st = {p: (init[p][0] if p in ('burn_in', 'thinning') else init[p]) for p in given}

  def get(st, t, kw):
    return {p: (subs[p].get(st[p], t, **kw) if p in given else DEFAULTS[p])
            for p in PARTS}

  def body(carry, x):
    t, st = carry
    a, e = x
    now = get(st, t, {}), get(st, t, {'temp': e})
    kw = {'acceptance_ratio': a, 'zz': e}
    return (t + 1, {p: subs[p].update(st[p], t, **kw) for p in given}), now
  (t, st), out = jax.lax.scan(body, (jnp.array(0), st), (acc, extra))
  return out, get(st, t, {}), total


def prove_for(given, bar, params=()):
  def prove(obs):
    sched = C.modules()[2]
    ctx = jx.Ctx()
    n, = ctx.dims('n')
    acc = ctx.fresh('acc', (n,))
    extra = ctx.fresh('extra', (n,))
    par = {p: ctx.fresh('par_' + p) for p in params}
    obs.cover('precondition', ctx.hyps)
    as_dict = lambda s: dict(step_size=s.step_size, temperature=s.temperature,
                             burn_in=s.burn_in, thinning=s.accept)

    def fn(par, acc, extra):
      init, update, get = sched.init_scheduler(
        **parts(given), progress_bar=bar)
      kw = {p: {'param': v} for p, v in par.items()}
      state, static = init(n, **kw)

      def body(st, x):
        a, e = x
        now = as_dict(get(st)), as_dict(get(st, temp=e))
        return update(st, acceptance_ratio=a, zz=e), now
      st, out = jax.lax.scan(body, jax.tree_map(jnp.asarray, state), (acc, extra))
      return out, as_dict(get(st)), static.samples_collected
    for k, (cond, got) in enumerate(ctx.trace_paths(fn, par, acc, extra)):
      if isinstance(got, Exception):
        obs.prove(ctx, f'no exception ({k})', z3.Not(cond))
        continue
      for l in ctx.loops:
        l.used = False
      del ctx.loops[k + 1:]
      want = ctx.trace(lambda *a: machine(given, n, *a), par, acc, extra)
      hy = [cond]
      for p in PARTS:
        obs.equal(ctx, f'{p} of every iteration ({k})', got[0][0][p], want[0][0][p], hyps=hy)
        obs.equal(ctx, f'{p} with information ({k})', got[0][1][p], want[0][1][p], hyps=hy)
        obs.equal(ctx, f'{p} after the run ({k})', got[1][p], want[1][p], hyps=hy)
      obs.equal(ctx, f'announced number of samples ({k})', got[2], want[2], hyps=hy)
  return prove


def search(se):
  from jax_sgmc import scheduler as sched
  import contextlib
  import io
  rng = se.rng
  i = 0
  subsets = [c for k in range(5) for c in itertools.combinations(PARTS, k)]
  while se.more() or i < 10:
    given = PARTS if i % 3 == 0 else rng.choice(subsets)
    bar = bool(i % 2)
    n = se.size([1, 5, 23, 60], 'N', 'n', limit=300)
    enabled = rng.random() < 0.5
    jit = rng.random() < 0.5
    case = dict(given=list(given), progress_bar=bar, iterations=n, jit=jit, enabled=enabled)
    i += 1
    log = []

    def make(p):
      def init(iterations, start=2.0):
        st = jnp.array([start, 0.0])
        cnt = int(iterations) - {'burn_in': 1, 'thinning': 2}.get(p, 0)
        return (st, cnt) if p in ('burn_in', 'thinning') else st

      def update(state, iteration, acceptance_ratio=-7.0, other=-3.0, **kw):
        return jnp.stack([state[0] + acceptance_ratio + 10 * other + iteration, state[1] + 1])

      def get(state, iteration, boost=0.0, **kw):
        v = state[0] + 0.5 * state[1] + 3 * iteration + boost
        if p == 'burn_in':
          return jnp.where(jnp.mod(jnp.floor(v), 2) == 0, 1.0, 0.0)
        return jnp.mod(jnp.floor(v), 3) == 0 if p == 'thinning' else v
      return sched.specific_scheduler(init, update, get)
    init, update, get = sched.init_scheduler(
      **{p: make(p) for p in given}, progress_bar=bar, progress_bar_steps=se.size([1, 5, 20]))
    kw = {p: {'start': 3.0 + k} for k, p in enumerate(given) if rng.random() < 0.5}
    if bar:
      kw['enabled'] = jnp.array(enabled)
    with contextlib.redirect_stdout(io.StringIO()):
      st, static = init(n, **kw)
      want_n = min([n - 1] * ('burn_in' in given) + [n - 2] * ('thinning' in given) + [n])
      if int(static.samples_collected) != want_n:
        raise Failure(f'{static.samples_collected} samples announced', expected=want_n, **case)
      ref = {p: [kw.get(p, {}).get('start', 2.0), 0.0] for p in given}
      up = jax.jit(lambda s, a, o: update(s, acceptance_ratio=a, other=o)) if jit else (
        lambda s, a, o: update(s, acceptance_ratio=a, other=o))
      for t in range(min(n, 6 if rng.random() < 0.8 else 120)):
        b = rng.choice([0.0, 1.5])
        got = get(st, boost=b) if b else get(st)
        for p in PARTS:
          if p not in given:
            w = DEFAULTS[p]
          else:
            v = ref[p][0] + 0.5 * ref[p][1] + 3 * t + b
            w = (float(onp.floor(v) % 2 == 0) if p == 'burn_in' else
                 bool(onp.floor(v) % 3 == 0) if p == 'thinning' else v)
          g = getattr(got, 'accept' if p == 'thinning' else p)
          C.close(onp.ravel(g)[:1].astype('f'), onp.array([w], 'f'), f'{p} of iteration {t}', **case)
        a, o = float(rng.choice([0, 1, 2])), float(rng.choice([1, 2]))
        st = up(st, jnp.array(a), jnp.array(o))
        for p in given:
          ref[p] = [ref[p][0] + a + 10 * o + t, ref[p][1] + 1]
    se.count(case)


def check():
  f = [FN + '.init_fn', FN + '.update_fn', FN + '.get_fn',
       'jax_sgmc/scheduler.py: _progress_bar', 'jax_sgmc/scheduler.py: constant_temperature',
       'jax_sgmc/scheduler.py: initial_burn_in', 'jax_sgmc/scheduler.py: polynomial_step_size']
  units = [Unit('all schedules given', f, prove_for(PARTS, False, PARTS), search),
           Unit('all schedules given, with progress bar', f, prove_for(PARTS, True, PARTS)),
           Unit('only defaults', f, prove_for((), False)),
           Unit('only defaults, with progress bar', f, prove_for((), True))]
  for p in PARTS:
    units.append(Unit(f'only {p} given', f, prove_for((p,), False, (p,))))
    units.append(Unit(f'default {p}, with progress bar', f,
                      prove_for(tuple(q for q in PARTS if q != p), True)))
  return Check('C12', 'Composed schedule', units=units, assumptions=[
    'specific schedules enter by contract (functions of state, iteration and information)',
    'printing the progress returns the value passed through the host (id_tap)'])
