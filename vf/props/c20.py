"""C20: replica exchange swaps configurations with the corrected probability."""
from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
from jax import tree_util

from vf import jx, opaque, terms as T
from vf.check import Check, Failure, Unit
from vf.props import common as C
from vf.props.c19 import like, _key_sv

S = opaque.S
tm = tree_util.tree_map
FN = 'jax_sgmc/solver.py: parallel_tempering'
CONFIG = ('latent_variables', 'model_state', 'potential')
OTHER = ('key', 'data_state', 'adapt_state', 'variance')


def integrator():
  """Langevin integrator by contract."""
  integ = C.modules()[0]

  def init(sample, key=None, init_model_state=None, **kwargs):
    return integ.LangevinState(
      latent_variables=sample, key=key, model_state=init_model_state,
      adapt_state=like('A0', sample, sample), data_state=opaque.call('D0', S(), key),
      potential=jnp.array(0.0), variance=jnp.array(1.0))

  def update(st, schedule):
    args = (st, schedule.step_size, schedule.temperature, schedule.burn_in)
    return st._replace(
      latent_variables=like('PX', st.latent_variables, *args),
      key=opaque.call('PK', S((2,), 'uint32'), *args),
      adapt_state=like('PA', st.adapt_state, *args),
      data_state=opaque.call('PD', S(), *args),
      potential=opaque.call('PU', S(), *args),
      variance=opaque.call('PV', S(), *args),
      model_state=opaque.call('PM', S(), *args))

  def get(st):
    return {'variables': st.latent_variables, 'likelihood': st.potential,
            'model_state': st.model_state}
  return init, update, get


def chain(x, a, sc, key):
  integ = C.modules()[0]
  return integ.LangevinState(latent_variables=x, key=key, model_state=sc['m'],
                             adapt_state=a, data_state=sc['d'], potential=sc['u'],
                             variance=sc['v'])


SC = ('m', 'd', 'u', 'v')
SA = lambda n: opaque.call('SA', S(), n)


def spec(cold, hot, ssq, F, step, cs, hs, u, sa):
  _, upd, _ = integrator()
  cold, hot = upd(cold, cs), upd(hot, hs)
  w = sa(step + 1)
  ssq = (1 - w) * ssq + w * cold.variance
  beta = 1 / cs.temperature - 1 / hs.temperature
  log_s = beta * (cold.potential - hot.potential - beta * ssq / F)
  swap = jnp.log(u) < log_s
  sel = lambda a, b: tm(lambda x, y: jnp.where(swap, x, y), a, b)
  out = dict(ssq=ssq)
  for k in CONFIG:
    out['cold ' + k] = sel(getattr(hot, k), getattr(cold, k))
    out['hot ' + k] = sel(getattr(cold, k), getattr(hot, k))
  alt = {k: ((getattr(cold, k), getattr(hot, k)),
             (sel(getattr(hot, k), getattr(cold, k)), sel(getattr(cold, k), getattr(hot, k))))
         for k in OTHER}
  return out, alt, log_s


def make(kind, default_sa):
  solver = C.modules()[1]

  def prove(obs):
    ctx = jx.Ctx()
    kw = {} if default_sa else {'sa_schedule': SA}
    init, update, get = solver.parallel_tempering(integrator(), **kw)
    x1 = C.sym_tree(ctx, kind, 'x')
    mk = lambda n: C.shape_like(ctx, x1, n)
    x2, a1, a2 = mk('y'), mk('ax'), mk('ay')
    s1 = {k: ctx.fresh('c_' + k) for k in SC}
    s2 = {k: ctx.fresh('h_' + k) for k in SC}
    k1, k2, k = ctx.key('k1'), ctx.key('k2'), ctx.key('k0')
    ssq, F, step = ctx.fresh('ssq'), ctx.fresh('F'), ctx.fresh('step', kind='i')
    cs, hs = C.sym_sched(ctx, 'c'), C.sym_sched(ctx, 'h')
    ctx.hyps += [cs.temperature.at() > 0, hs.temperature.at() > 0, F.at() > 0,
                 step.at() >= 0]
    obs.cover('schedules', ctx.hyps)
    args = (x1, x2, a1, a2, s1, s2, k1, k2, k, ssq, F, step, cs, hs)

    def fun(x1, x2, a1, a2, s1, s2, k1, k2, k, ssq, F, step, cs, hs):
      st = (chain(x1, a1, s1, k1), chain(x2, a2, s2, k2), ssq, F, step, k)
      new, stats = update(st, cs, hs)
      assert stats is None
      out = dict(ssq=new[2])
      for q in CONFIG:
        out['cold ' + q], out['hot ' + q] = getattr(new[0], q), getattr(new[1], q)
      return out, {q: (getattr(new[0], q), getattr(new[1], q)) for q in OTHER}, \
          new[3], new[4], new[5], get(new)
    out, other, F2, step2, nk, rep = ctx.trace(fun, *args)
    draws = list(ctx.rng_used)
    if not obs.true('one uniform draw decides',
                    len(draws) == 1 and draws[0][0] == 'uniform' and draws[0][2] == (),
                    FN + '.update', f'draws: {[(d[0], d[2]) for d in draws]}'):
      return
    used = draws[0][1]
    u = ctx.trace(jax.random.uniform, _key_sv(used))
    sa = (lambda n: 1 / n) if default_sa else SA

    def sp(x1, x2, a1, a2, s1, s2, k1, k2, k, ssq, F, step, cs, hs, u):
      o, alt, _ = spec(chain(x1, a1, s1, k1), chain(x2, a2, s2, k2), ssq, F, step, cs, hs,
                       u, sa)
      return o, alt
    want, alt = ctx.trace(sp, *args, u)
    for q, v in want.items():
      obs.equal(ctx, q, out[q], v, FN + '.update')
    for q in OTHER:
      stay, move = alt[q]
      if all(ctx.same_array(a, b) for a, b in zip(C.tleaves(other[q]), C.tleaves(stay))):
        obs.equal(ctx, f'{q} stays with the temperature', other[q], stay, FN + '.update')
      else:
        obs.equal(ctx, f'{q} moves with the configuration', other[q], move, FN + '.update')
    obs.equal(ctx, 'correction factor', F2, F, FN + '.update')
    obs.prove(ctx, 'number of steps', step2.at() == step.at() + 1, func=FN + '.update')
    obs.equal(ctx, 'reported sample', rep['variables'], want['cold latent_variables'], FN + '.get')
    obs.equal(ctx, 'reported model state', rep['model_state'], want['cold model_state'],
              FN + '.get')
    nkt = ctx.key_at(nk)
    C.fresh_keys(ctx, obs, 'uniform draw', [used], nkt, FN + '.update')
    obs.add('random state advances', ctx.prove(nkt != ctx.key_at(k)), FN + '.update')
  return prove


def prove_init(obs):
  solver = C.modules()[1]
  ctx = jx.Ctx()
  init, _, _ = solver.parallel_tempering(integrator())
  x1 = C.sym_tree(ctx, 'dict', 'x')
  x2 = C.shape_like(ctx, x1, 'y')
  k, m, ssq, F = ctx.key('k0'), ctx.fresh('m'), ctx.fresh('ssq'), ctx.fresh('F')
  cold, hot, ssq2, F2, step, key = ctx.trace(
    lambda x, y, k, m, s, F: init(x, y, ssq_init=s, key=k, F=F, init_model_state=m),
    x1, x2, k, m, ssq, F)
  f = FN + '.init'
  obs.equal(ctx, 'initial cold sample', cold.latent_variables, x1, f)
  obs.equal(ctx, 'initial hot sample', hot.latent_variables, x2, f)
  obs.equal(ctx, 'initial model state', [cold.model_state, hot.model_state], [m, m], f)
  obs.equal(ctx, 'initial variance', ssq2, ssq, f)
  obs.equal(ctx, 'correction factor', F2, F, f)
  obs.prove(ctx, 'no steps yet', step.at() == 0, func=f)
  ks = [ctx.key_at(q) for q in (cold.key, hot.key, key)]
  for n, m_ in ((0, 1), (0, 2), (1, 2)):
    obs.add(f'keys {n} and {m_} are unrelated', C.keys_incomparable(ctx, ks[n], ks[m_]), f)


def search(se):
  solver = C.modules()[1]
  n = 0
  while se.more() or n < 6:
    n += 1
    rng = se.rng
    kind = C.KINDS[n % 4]
    default = n % 2
    sa = (lambda k: 1 / k) if default else (lambda k: 0.5 / (1 + 0.1 * k))
    init, update, get = solver.parallel_tempering(
      integrator(), **({} if default else {'sa_schedule': sa}))
    mk = lambda: C.num_tree(rng, kind, sizes=(2, 2))
    F = se.value([1.0, 2.0, 0.01, 30.0], 0, 100)
    cs = C.sched(jnp.array(0.1), jnp.array(1.0))
    hs = C.sched(jnp.array(0.3), jnp.array(se.value([3.0, 10.0, 1.0, 0.5, 200.0], 0.1, 1000)))
    case = dict(kind=kind, F=F, hot=float(hs.temperature))
    st = init(mk(), mk(), key=jax.random.PRNGKey(n), F=jnp.array(F),
              ssq_init=jnp.array(0.7), init_model_state=jnp.array(0.2))
    keys = {tuple(C.onp.asarray(k).tolist()) for k in (st[0].key, st[1].key, st[5])}
    if len(keys) != 3:
      raise Failure('the replicas start with the same random state', **case)
    for step in range(3):
      _, _, log_s = spec(st[0], st[1], st[2], F, jnp.asarray(step), cs, hs, 0.5, sa)
      s_ = float(jnp.exp(log_s))
      # draws on both sides of the threshold
      u = s_ * rng.choice([0.9, 0.97, 1.03, 1.1])
      u = u if 0.001 < u < 0.99 else rng.choice([0.05, 0.5, 0.99])
      swap = u < s_
      with C.constant_noise(0.0, uniform=u):
        new, stats = update(st, cs, hs)
      want, alt, _ = spec(st[0], st[1], st[2], F, jnp.asarray(step), cs, hs, u, sa)
      got = dict(ssq=new[2])
      for q in CONFIG:
        got['cold ' + q], got['hot ' + q] = getattr(new[0], q), getattr(new[1], q)
      c = dict(case, step=step, draw=u, swap=bool(swap))
      for q, v in want.items():
        C.close(got[q], v, q, **c)
      for q in OTHER:
        g = (getattr(new[0], q), getattr(new[1], q))
        try:
          C.close(g, alt[q][0], q, **c)
        except Failure:
          C.close(g, alt[q][1], q, **c)
      C.close(get(new)['variables'], want['cold latent_variables'], 'reported sample', **c)
      st = new
    with jax.disable_jit(), C.recorded_keys() as used:
      s = st
      for _ in range(2):
        s, _ = update(s, cs, hs)
    C.check_keys_distinct(used, 'two updates', **case)
    se.count(case)


def check():
  units = [
    Unit('exchange step', [FN + '.update', FN + '.get'], make('dict', False), search),
    Unit('exchange step, default averaging', [FN + '.update', FN + '.get'],
         make('nested', True)),
    Unit('initial state', FN + '.init', prove_init)]
  return Check('C20', 'Replica exchange', units=units,
               assumptions=['the integrator enters by contract', 'log(u) < a iff u < exp(a)'])
