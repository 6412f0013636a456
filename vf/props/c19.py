"""C19: Metropolis-Hastings steps accept with the right probability and state."""
from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
from jax import tree_util

from vf import jx, opaque
from vf.check import Check, Failure, Unit
from vf.props import common as C

S = opaque.S
tm = tree_util.tree_map


def like(name, tree, *args):
  """Opaque tree of the structure and the shapes of tree."""
  return tm_idx(lambda n, l: opaque.call(f'{name}{n}', S(jnp.shape(l)), *args), tree)


def tm_idx(f, tree):
  ls, td = tree_util.tree_flatten(tree)
  return tree_util.tree_unflatten(td, [f(n, l) for n, l in enumerate(ls)])


class MH:
  """Solver with integrator, full potential and mass adaption by contract."""

  def __init__(self, which, mass):
    self.which, self.mass = which, mass
    self.seen = {}

  def integrator(self):
    integ = C.modules()[0]
    seen = self.seen

    def init(sample, key=None, init_model_state=None, **kwargs):
      seen['init_key'] = key
      seen['init_kwargs'] = kwargs
      m = opaque.call('IMS', S(), init_model_state)
      if self.which == 'amagold':
        return integ.LeapfrogState(
          positions=sample, momentum=like('IP', sample, key, kwargs.get('mass')),
          potential=jnp.array(0.), model_state=m,
          data_state=opaque.call('IDS', S(), kwargs.get('tag', 0.)), key=key)
      return integ.ObaboState(
        positions=sample, momentum=like('IP', sample, key), potential=jnp.array(0.),
        model_state=m, data_state=opaque.call('IDS', S(), kwargs.get('tag', 0.)), key=key,
        kinetic_energy_start=jnp.array(0.), kinetic_energy_end=jnp.array(0.))

    def update(st, schedule, mass=None):
      return self.propose(st, schedule, mass)

    def get(st):
      return {'variables': st.positions, 'model_state': st.model_state}
    return init, update, get

  def propose(self, st, schedule, mass):
    args = (st, schedule.step_size, schedule.temperature, mass)
    new = dict(
      positions=like('PX', st.positions, *args),
      momentum=like('PP', st.momentum, *args),
      potential=opaque.call('PU', S(), *args),
      model_state=opaque.call('PM', S(), *args),
      data_state=opaque.call('PD', S(), *args),
      key=opaque.call('PK', S((2,), 'uint32'), *args))
    if self.which == 'sggmc':
      new.update(kinetic_energy_start=opaque.call('PKS', S(), *args),
                 kinetic_energy_end=opaque.call('PKE', S(), *args))
    return st._replace(**new)

  diverged = None  # running code: potential of all proposals

  def full_potential(self):
    def fpot(sample, data_state, full_data_map_fn=None, state=None):
      if full_data_map_fn is not MAPPER:
        raise Failure('the full potential does not receive the mapping function')
      u = opaque.call('FU', S(), sample, state)
      if self.diverged is not None:
        u = jnp.array(self.diverged)
      m = None if state is None else opaque.call('FM', S(), sample, state)
      return u, (opaque.call('Fnext', S(), data_state), m)
    return fpot

  def adaption(self):
    if not self.mass:
      return None

    def init(sample, init_cov=None, **kwargs):
      z = (tm(jnp.zeros_like, sample) if init_cov is None else init_cov)
      return like('AI', sample, sample, z)

    def update(st, sample, *args, **kwargs):
      return like('AU', st, st, sample)

    def get(st, *args, **kwargs):
      return like('AG', st, st)
    return init, update, get

  def full_data(self):
    return (lambda **kw: opaque.call('FD', S(), kw.get('seed', jnp.array(0.))),
            MAPPER, lambda: None)

  def build(self):
    solver = C.modules()[1]
    f = solver.amagold if self.which == 'amagold' else solver.sggmc
    kw = {}
    if self.mass:
      kw['mass_adaption'] = self.adaption()
    return f(self.integrator(), self.full_potential(), self.full_data(), **kw)

  # the contract
  def spec(self, st, schedule, u):
    mass = self.adaption()[2](st.mass_state) if self.mass else None
    old = st.integrator_state
    p = self.propose(old, schedule, mass)
    new_u, (fds, new_m) = self.full_potential()(p.positions, st.full_data_state, MAPPER,
                                                state=p.model_state)
    if self.which == 'amagold':
      balance = st.potential - new_u + p.potential
      flip = -1.0
    else:
      balance = -(new_u - st.potential + p.kinetic_energy_end
                  - p.kinetic_energy_start) / schedule.temperature
      flip = 1.0
    log_alpha = jnp.minimum(balance, 0.0)
    acc = jnp.log(u) < log_alpha
    sel = lambda a, b: tm(lambda x, y: jnp.where(acc, x, y), a, b)
    x = sel(p.positions, old.positions)
    out = dict(
      positions=x,
      momentum=sel(p.momentum, tm(lambda l: flip * l, old.momentum)),
      model_state=sel(new_m, old.model_state),
      full_potential=sel(new_u, st.potential),
      data_state=p.data_state, integrator_key=p.key,
      full_data_state=fds,
      acceptance_ratio=jnp.exp(log_alpha), statistics=jnp.exp(log_alpha))
    if self.which == 'sggmc':
      out['kinetic_energy_start'] = jnp.array(0.0)
      out['kinetic_energy_end'] = jnp.array(0.0)
    if self.mass:
      out['mass_state'] = self.adaption()[1](st.mass_state, x)
    return out

  def observe(self, new, stats, get):
    i = new.integrator_state
    out = dict(
      positions=i.positions, momentum=i.momentum, model_state=i.model_state,
      full_potential=new.potential, data_state=i.data_state, integrator_key=i.key,
      full_data_state=new.full_data_state,
      acceptance_ratio=get(new)['acceptance_ratio'], statistics=stats['acceptance_ratio'])
    if self.which == 'sggmc':
      out['kinetic_energy_start'] = i.kinetic_energy_start
      out['kinetic_energy_end'] = i.kinetic_energy_end
    if self.mass:
      out['mass_state'] = new.mass_state
    return out

  def state(self, x, p, sc, key, ikey, ms):
    """Any state of a chain; sc: scalars."""
    solver, integ = C.modules()[1], C.modules()[0]
    kw = {}
    if self.which == 'sggmc':
      i = integ.ObaboState(positions=x, momentum=p, potential=sc['ip'], model_state=sc['m'],
                           data_state=sc['ds'], key=ikey, kinetic_energy_start=sc['ks'],
                           kinetic_energy_end=sc['ke'])
      ar = (sc['ar'], sc['ss'], sc['kk'])
      cls = solver.SGGMCState
    else:
      i = integ.LeapfrogState(positions=x, momentum=p, potential=sc['ip'],
                              model_state=sc['m'], data_state=sc['ds'], key=ikey)
      ar = (sc['ar'], sc['ss'])
      cls = solver.AMAGOLDState
    return cls(full_data_state=sc['fds'], potential=sc['u'], integrator_state=i, key=key,
               acceptance_ratio=ar, mass_state=ms)


def MAPPER(*args, **kwargs):
  raise AssertionError('opaque')


SC = ('ip', 'm', 'ds', 'fds', 'u', 'ar', 'ss', 'ks', 'ke', 'kk')


def make(which, mass, kind):
  fn = f'jax_sgmc/solver.py: {which}.update'

  def prove(obs):
    w = MH(which, mass)
    ctx = jx.Ctx()
    init, update, get = w.build()
    x = C.sym_tree(ctx, kind, 'x')
    p = C.shape_like(ctx, x, 'p')
    ms = C.shape_like(ctx, x, 'mass') if mass else None
    sc = {k: ctx.fresh('s_' + k) for k in SC}
    key, ikey = ctx.key('k0'), ctx.key('k1')
    sch = C.sym_sched(ctx)
    ctx.hyps.append(sch.temperature.at() > 0)

    def fun(x, p, sc, key, ikey, ms, sch):
      new, stats = update(w.state(x, p, sc, key, ikey, ms), sch)
      return w.observe(new, stats, get), new.key, get(new), sch.step_size
    out, nk, rep, ss = ctx.trace(fun, x, p, sc, key, ikey, ms, sch)
    draws = list(ctx.rng_used)
    if not obs.true('one uniform draw decides',
                    len(draws) == 1 and draws[0][0] == 'uniform' and draws[0][2] == (),
                    fn, f'draws: {[(d[0], d[2]) for d in draws]}'):
      return
    used = draws[0][1]
    # the draw as it enters the code
    def draw(k):
      return jax.random.uniform(k)
    u = ctx.trace(draw, _key_sv(used))
    obs.cover('schedule', ctx.hyps)
    spec = ctx.trace(lambda x, p, sc, key, ikey, ms, sch, u: w.spec(
      w.state(x, p, sc, key, ikey, ms), sch, u), x, p, sc, key, ikey, ms, sch, u)
    for k, v in spec.items():
      obs.equal(ctx, k, out[k], v, fn)
    obs.equal(ctx, 'reported step size', rep['step_size'], ss, fn)
    obs.equal(ctx, 'reported sample', rep['variables'], spec['positions'], fn)
    obs.equal(ctx, 'reported model state', rep['model_state'], spec['model_state'], fn)
    nkt = ctx.key_at(nk)
    C.fresh_keys(ctx, obs, 'uniform draw', [used], nkt, fn)
    k0 = ctx.key_at(key)
    obs.add('random state advances', ctx.prove(nkt != k0), fn)
    import z3
    obs.add('random state is derived from the state of the chain', ctx.prove(
      z3.Or([k0 == a for a in C.key_chain(nkt)[1:]])), fn)
  return prove


def _key_sv(k):
  from vf import terms as T
  return jx.SV((2,), 'i', lambda j: T.kword(k, jx.iv(j)))


def prove_init(which, mass, given=True):
  fn = f'jax_sgmc/solver.py: {which}.init'

  def prove(obs):
    w = MH(which, mass)
    ctx = jx.Ctx()
    init, update, get = w.build()
    x = C.sym_tree(ctx, 'dict', 'x')
    im = C.shape_like(ctx, x, 'im') if mass else None
    key, m0, seed, tag = ctx.key('k0'), ctx.fresh('m0'), ctx.fresh('seed'), ctx.fresh('tag')
    st = ctx.trace(lambda x, im, k, m, s, t: init(
      x, key=k, init_model_state=m, full_data_kwargs={'seed': s}, tag=t,
      **({'initial_mass': im} if mass and given else {})),
      x, im, key, m0, seed, tag)

    def spec(x, im, k, m, s, t):
      fds = w.full_data()[0](seed=s)
      u, (fds, m1) = w.full_potential()(x, fds, MAPPER, state=m)
      out = dict(potential=u, full_data_state=fds, positions=x,
                 model_state=opaque.call('IMS', S(), m1),
                 data_state=opaque.call('IDS', S(), t))
      if mass:
        out['mass_state'] = w.adaption()[0](x, im if given else None)
      return out
    want = ctx.trace(spec, x, im, key, m0, seed, tag)
    i = st.integrator_state
    if which == 'amagold':
      want['momentum'] = ctx.trace(lambda x, im, k: like('IP', x, k, (
        w.adaption()[2](w.adaption()[0](x, im if given else None)) if mass else None)),
        x, im, i.key)
    got = dict(potential=st.potential, full_data_state=st.full_data_state,
               positions=i.positions, model_state=i.model_state, data_state=i.data_state,
               mass_state=st.mass_state, momentum=i.momentum)
    for k, v in want.items():
      obs.equal(ctx, 'initial ' + k, got[k], v, fn)
    kk, ki = ctx.key_at(st.key), ctx.key_at(i.key)
    obs.add('keys of solver and integrator are unrelated', C.keys_incomparable(ctx, kk, ki), fn)
    obs.add('key of the momenta is not the key of the solver', ctx.prove(kk != ki), fn)
  return prove


def divergence(which, mass, se):
  """Proposals with a potential which is no finite number have probability 0."""
  for n, bad in enumerate((float('nan'), float('inf'))):
    w = MH(which, mass)
    init, update, get = w.build()
    kind = C.KINDS[n]
    x, p = (C.num_tree(se.rng, kind, sizes=(2, 2)) for _ in range(2))
    st = init(x, key=jax.random.PRNGKey(n), init_model_state=jnp.array(0.3))
    sc = {k: jnp.array(se.rng.uniform(-1, 1)) for k in SC}
    ms = C.num_tree(se.rng, kind, sizes=(2, 2)) if mass else None
    full = w.state(x, p, sc, st.key, st.integrator_state.key, ms)
    sch = C.sched(jnp.array(0.1), jnp.array(1.0))
    u = 0.4
    case = dict(kind=kind, draw=u, mass=mass, potential_of_the_proposal=str(bad))
    w.diverged = bad
    with C.constant_noise(0.0, uniform=u):
      new, stats = update(full, sch)
    w.diverged = None
    got = w.observe(new, stats, get)
    prop = w.propose(full.integrator_state, sch, w.adaption()[2](ms) if mass else None)
    flip = -1.0 if which == 'amagold' else 1.0
    want = dict(positions=x, momentum=tm(lambda l: flip * l, p), model_state=sc['m'],
                full_potential=sc['u'], data_state=prop.data_state, integrator_key=prop.key,
                acceptance_ratio=jnp.array(0.0), statistics=jnp.array(0.0))
    for k, v in want.items():
      C.close(got[k], v, k, **case)
    se.count(case)


def search(which, mass):
  def run(se):
    divergence(which, mass, se)
    sols = {}
    n = 0
    while se.more() or n < 6:
      n += 1
      rng = se.rng
      kind = C.KINDS[n % 4]
      w = MH(which, mass)
      init, update, get = w.build()
      x = C.num_tree(rng, kind, sizes=(2, 2))
      st = init(x, key=jax.random.PRNGKey(n), init_model_state=jnp.array(rng.uniform(-1, 1)))
      sc = {k: jnp.array(rng.uniform(-1, 1)) for k in SC}
      ms = C.num_tree(rng, kind, sizes=(2, 2)) if mass else None
      full = w.state(x, C.num_tree(rng, kind, sizes=(2, 2)), sc, st.key,
                     st.integrator_state.key, ms)
      u = se.value([0.02, 0.2, 0.5, 0.8, 0.999], 1e-6, 0.999)
      sch = C.sched(jnp.array(rng.uniform(0.01, 0.5)), jnp.array(se.value([1.0, 0.4, 3.0, 100.0], 0.05, 100)))
      case = dict(kind=kind, draw=u, temperature=float(sch.temperature), mass=mass,
                  **{k: float(v) for k, v in sc.items()})
      a0 = float(w.spec(full, sch, jnp.array(0.5))['acceptance_ratio'])
      if a0 < 0.98 and n % 3:
        u = max(1e-3, a0 * rng.choice([0.97, 1.02]))   # both sides of the threshold
        case['draw'] = u
      with C.constant_noise(0.0, uniform=u), C.recorded_keys():
        new, stats = update(full, sch)
      want = w.spec(full, sch, jnp.array(u))
      la = float(jnp.log(want['acceptance_ratio']))
      if abs(la - float(jnp.log(jnp.array(u)))) < 1e-3:
        continue
      got = w.observe(new, stats, get)
      for k, v in want.items():
        C.close(got[k], v, k, **case)
      r = get(new)
      C.close(r['variables'], want['positions'], 'reported sample', **case)
      C.close(r['step_size'], sch.step_size, 'reported step size', **case)
      if (C.onp.asarray(new.key) == C.onp.asarray(full.key)).all():
        raise Failure('the random state does not advance', **case)
      # two steps, no key twice
      with jax.disable_jit(), C.recorded_keys() as used:
        s = full
        for _ in range(2):
          s, _ = update(s, sch)
      C.check_keys_distinct(used, 'two updates', **case)
      # initial state
      i = st.integrator_state
      fu, (_, m1) = w.full_potential()(x, jnp.array(0.), MAPPER, state=None)
      if (C.onp.asarray(st.key) == C.onp.asarray(i.key)).all():
        raise Failure('solver and integrator start with the same key', **case)
      se.count(case)
  return run


def check():
  units = []
  for which in ('amagold', 'sggmc'):
    f = f'jax_sgmc/solver.py: {which}'
    units += [
      Unit(f'{which} step', [f + '.update', f + '.get', 'jax_sgmc/util/tree_util.py: tree_scale'],
           make(which, False, 'dict'), search(which, False)),
      Unit(f'{which} step with mass adaption', [f + '.update', f + '.get'],
           make(which, True, 'nested'), search(which, True)),
      Unit(f'{which} initial state', f + '.init', prove_init(which, False)),
      Unit(f'{which} initial state with mass adaption', f + '.init', prove_init(which, True)),
      Unit(f'{which} initial state with mass adaption and the default mass', f + '.init',
           prove_init(which, True, False))]
  return Check('C19', 'Metropolis-Hastings acceptance', units=units,
               assumptions=['integrator, full potential and mass adaption enter by contract',
                            'log(u) < a iff u < exp(a)',
                            'proposals with an undefined or infinite potential: bounded, on the '
                            'running code (the obligations are over the reals)'])
