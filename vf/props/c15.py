"""C15: one update of the Langevin diffusion integrator is one Euler-Maruyama step."""
from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
from jax import tree_util

from vf import jx, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C

FN = 'jax_sgmc/integrator.py: langevin_diffusion.update_fn'


def spec_step(world, x, model_state, data_state, eps, temp, noise, manifold=None):
  """Contract: result of an update as a function of state, schedule and noise."""
  pot = world.potential()
  _, get, _ = world.batch_fn()
  new_ds, mb = get(data_state, information=True)
  (u, (ls, new_ms)), g = jax.value_and_grad(pot, has_aux=True)(
    x, mb, state=model_state, likelihoods=True)
  info = mb[1]
  n, big_n = info.batch_size, info.observation_count
  # variance of N * mean(l) = N^2 / n * var(l)
  mean = jnp.sum(ls) / n
  var = jnp.sum((ls - mean) ** 2) / n * big_n ** 2 / n
  s = jnp.sqrt(2 * temp * eps)
  if manifold is None:
    new_x = tree_util.tree_map(lambda p, q, z: p - eps * q + s * z, x, g, noise)
  else:
    g_inv, sqrt_g_inv, gamma = manifold(x, g)
    new_x = tree_util.tree_map(
      lambda p, q, z, m, r, h: p - eps * (m * q) + r * (s * z) + eps * h,
      x, g, noise, g_inv, sqrt_g_inv, gamma)
  return dict(x=new_x, ds=new_ds, ms=new_ms, u=u, var=var)


def make_adaption(state_dep=True):
  """Adaption strategy known by its contract (diagonal manifold)."""
  from jax_sgmc.adaption import Manifold
  from jax_sgmc.util import Tensor
  from vf import opaque

  def init(sample):
    return jnp.array(0.5)

  def upd(state, sample, grad, mb, **kw):
    return opaque.call('A', C.S(), state, sample, grad)

  def get(state, sample, grad, mb, **kw):
    def t(nm):
      return Tensor(ndim=1, tensor=opaque.call(
        nm, tree_util.tree_map(lambda l: C.S(l.shape), sample), state, sample, grad))
    return Manifold(g_inv=t('ginv'), sqrt_g_inv=t('sqrtg'), gamma=t('gamma'))
  return init, upd, get


def prove_for(kind, adapt=False, model_state=True):
  def prove(obs):
    integ = C.modules()[0]
    ctx = jx.Ctx()
    w = C.World(n_batch=ctx.dims('n')[0])
    ad = make_adaption() if adapt else None
    _, upd, getf = integ.langevin_diffusion(w.potential(), w.batch_fn(), ad)
    x = C.sym_tree(ctx, kind, 'x')
    ms = ctx.fresh('ms') if model_state else None
    st = integ.LangevinState(
      latent_variables=x, model_state=ms, key=ctx.key('k0'),
      adapt_state=ctx.fresh('ad') if adapt else None, data_state=ctx.fresh('ds'),
      potential=ctx.fresh('p0'), variance=ctx.fresh('v0'))
    sch = C.sym_sched(ctx)
    obs.cover('precondition', ctx.hyps)
    out = ctx.trace(upd, st, sch)
    used = list(ctx.rng_used)
    # the noise: exactly one standard normal draw of the shape of each leaf
    draws, shapes, noise = [], [], []
    ok = True
    for n, (l, o) in enumerate(zip(C.tleaves(x), C.tleaves(out.latent_variables))):
      ds = C.draws_in(o, ctx)
      one = len(ds) == 1 and ds[0].name.startswith('rng_normal_')
      ok = obs.true(f'noise leaf {n}: exactly one standard normal draw', one,
                    reason=str([d.name for d in ds])) and ok
      if one:
        draws.append(ds[0])
        shapes.append(l.shape)
        noise.append(ds[0].sv(l.shape))
    if not ok:
      return
    C.independent(ctx, obs, 'noise', draws, shapes)
    C.fresh_keys(ctx, obs, 'noise', [u[1] for u in used], ctx.key_at(out.key))
    td = tree_util.tree_structure(x, is_leaf=C.is_sv)
    manifold = None
    if adapt:
      from vf import opaque

      def spec(x_, ms_, ds_, eps, temp, z, a):
        def manifold(xx, g):
          a2 = opaque.call('A', C.S(), a, xx, g)
          return tuple(opaque.call(nm, tree_util.tree_map(lambda l: C.S(l.shape), xx),
                                   a2, xx, g) for nm in ('ginv', 'sqrtg', 'gamma'))
        r = spec_step(w, x_, ms_, ds_, eps, temp, z, manifold)
        _, get, _ = w.batch_fn()
        _, mb = get(ds_, information=True)
        g = jax.grad(w.potential(), has_aux=True)(x_, mb, state=ms_, likelihoods=True)[0]
        r['ad'] = opaque.call('A', C.S(), a, x_, g)
        return r
      want = ctx.trace(spec, x, ms, st.data_state, sch.step_size, sch.temperature,
                       tree_util.tree_unflatten(td, noise), st.adapt_state)
    else:
      want = ctx.trace(lambda *a: spec_step(w, *a), x, ms, st.data_state,
                       sch.step_size, sch.temperature, tree_util.tree_unflatten(td, noise))
    obs.equal(ctx, 'new sample', out.latent_variables, want['x'])
    obs.equal(ctx, 'data state advanced once', out.data_state, want['ds'])
    if model_state:
      obs.equal(ctx, 'model state of the batch', out.model_state, want['ms'])
    obs.equal(ctx, 'potential of the batch', out.potential, want['u'])
    obs.equal(ctx, 'variance of the potential', out.variance, want['var'])
    if adapt:
      obs.equal(ctx, 'adaption state', out.adapt_state, want['ad'])
    # the reported quantities belong to the same state
    got = ctx.trace(getf, out)
    obs.equal(ctx, 'reported sample', got['variables'], out.latent_variables)
    obs.prove(ctx, 'reported likelihood is minus the potential',
              got['likelihood'].at() == -out.potential.at())
  return prove


def prove_init(obs):
  integ = C.modules()[0]
  ctx = jx.Ctx()
  w = C.World()
  init, _, _ = integ.langevin_diffusion(w.potential(), w.batch_fn())
  x = C.sym_tree(ctx, 'dict', 'x')
  key, ms = ctx.key('k0'), ctx.fresh('ms')
  out = ctx.trace(lambda x, k, m: init(x, key=k, init_model_state=m), x, key, ms)
  obs.equal(ctx, 'initial sample', out.latent_variables, x)
  obs.equal(ctx, 'initial key', out.key, key)
  obs.equal(ctx, 'initial model state', out.model_state, ms)


def search_for(adapt):
  def search(se):
    integ = C.modules()[0]
    n = 0
    while se.more() or n < 3:
      n += 1
      rng = se.rng
      kind = C.KINDS[n % len(C.KINDS)]
      w = C.World(n_batch=se.size([1, 2, 3]), n_obs=se.size([3, 7, 10], limit=10**6))
      ad = make_adaption() if adapt else None
      init, upd, getf = integ.langevin_diffusion(w.potential(), w.batch_fn(), ad)
      x = C.num_tree(rng, kind)
      eps, temp = se.value([rng.uniform(0.01, 0.7), 1e-3, 2.0], 1e-4, 5), se.value([0.0, 0.3, 1.0, 2.5, 40.0], 0, 100)
      z = se.value([0.0, 1.0, -0.75, 3.5], -5, 5)
      case = dict(kind=kind, eps=eps, temp=temp, noise=z, adapt=adapt,
                  n=w.n_batch, N=w.n_obs, seed=rng.randrange(1000))
      key = jax.random.PRNGKey(case['seed'])
      st = init(x, key=key, init_model_state=jnp.array(rng.uniform(-1, 1)))
      for step in range(2):
        with C.constant_noise(z) as cnt:
          out = upd(st, C.sched(jnp.array(eps), jnp.array(temp)))
        if cnt[0] == 0:
          z_used = None
        else:
          z_used = z
        from vf import opaque

        def manifold(xx, g, a=st.adapt_state):
          a2 = opaque.call('A', C.S(), a, xx, g)
          return tuple(opaque.call(nm, tree_util.tree_map(lambda l: C.S(l.shape), xx),
                                   a2, xx, g) for nm in ('ginv', 'sqrtg', 'gamma'))
        zt = tree_util.tree_map(lambda l: jnp.full_like(l, 0. if z_used is None else z),
                                st.latent_variables)
        want = spec_step(w, st.latent_variables, st.model_state, st.data_state,
                         eps, temp, zt, manifold if adapt else None)
        if z_used is not None or temp == 0.0:
          C.close(out.latent_variables, want['x'], 'new sample', step=step, **case)
        C.close(out.data_state, want['ds'], 'data state', step=step, **case)
        C.close(out.model_state, want['ms'], 'model state', step=step, **case)
        C.close(out.potential, want['u'], 'potential', step=step, **case)
        C.close(out.variance, want['var'], 'variance', step=step, **case)
        C.close(getf(out)['likelihood'], -want['u'], 'reported likelihood', step=step, **case)
        st = out
      # noise: real draws, differences between temperatures
      st0 = init(x, key=key, init_model_state=jnp.array(0.1))
      a = upd(st0, C.sched(jnp.array(0.5), jnp.array(0.0))).latent_variables
      b = upd(st0, C.sched(jnp.array(0.5), jnp.array(1.0))).latent_variables
      flat = jnp.concatenate([jnp.ravel(q - p) for p, q in zip(
        tree_util.tree_leaves(a), tree_util.tree_leaves(b))])
      if flat.size > 1 and len(set(map(float, jnp.round(flat, 4)))) < flat.size * 0.6:
        raise Failure('noise of different entries coincides', values=flat.tolist(), **case)
      with jax.disable_jit(), C.recorded_keys() as used:
        s = st0
        for _ in range(2):
          s = upd(s, C.sched(jnp.array(0.1), jnp.array(1.0)))
      C.check_keys_distinct(used, 'two updates', **case)
      se.count(case)
  return search


def check():
  units = [
    Unit('step without adaption, tree of symbolic leaves', [FN, 'jax_sgmc/integrator.py: random_tree',
         'jax_sgmc/util/tree_util.py: tree_scale', 'jax_sgmc/util/tree_util.py: tree_add'],
         prove_for('dict'), search_for(False)),
    Unit('step without adaption, single leaf', FN, prove_for('leaf', model_state=False)),
    Unit('step without adaption, nested tree', FN, prove_for('nested')),
    Unit('step without adaption, many leaves', FN, prove_for('wide')),
    Unit('step with adaption', [FN, 'jax_sgmc/util/tree_util.py: tensor_matmul'],
         prove_for('dict', adapt=True), search_for(True)),
    Unit('initial state', 'jax_sgmc/integrator.py: langevin_diffusion.init_fn', prove_init),
  ]
  return Check('C15', 'Langevin diffusion performs the Euler-Maruyama step', units=units,
               assumptions=[
                 'potential, loader and adaption strategy enter by contract: total '
                 'functions of their arguments',
                 'four tree structures with leaves of arbitrary (symbolic) size stand '
                 'for all trees'])
