"""C18: the friction leapfrog integrator implements SGHMC."""
from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
from jax import tree_util, lax

from vf import jx, opaque
from vf.check import Check, Unit
from vf.props import common as C
from vf.props.c16 import matvec, ones, tm

FN = 'jax_sgmc/integrator.py: friction_leapfrog.integrate'


def noise_model():
  """Noise model known by its contract: functions of state, sample, gradient ..."""
  from jax_sgmc.adaption import NoiseModel
  from jax_sgmc.util import Tensor

  def init(sample):
    return jnp.array(0.1)

  def upd(state, x, g, friction, mini_batch=None, step_size=None, **kw):
    return opaque.call('NM', C.S(), state, x, g, friction, mini_batch[0], step_size)

  def get(state, x, g, friction, mini_batch=None, step_size=None, model_state=None, **kw):
    def t(nm):
      return Tensor(ndim=1, tensor=opaque.call(
        nm, tree_util.tree_map(lambda l: C.S(l.shape), x), state, x, g, friction,
        mini_batch[0], step_size, model_state))
    return NoiseModel(cb_diff_sqrt=t('cb'), b_sqrt=t('b'))
  return init, upd, get


def spec(world, steps, with_noise_model=False):
  pot = world.potential()
  _, get, _ = world.batch_fn()
  nm = noise_model() if with_noise_model else None

  def run(args, noise, pre):
    st, sch, fr, inv, sqrt = args
    eps = sch.step_size
    p0 = matvec(sqrt, pre)

    def body(c, z):
      x, p, u, m, ds, e = c
      v = matvec(inv, p)
      x = tm(lambda a, b: a + eps * b, x, v)
      ds, mb = get(ds, information=True)
      (u, m2), g = jax.value_and_grad(pot, has_aux=True)(x, mb, state=m)
      if nm:
        e = nm[1](e, x, g, fr, mini_batch=mb, step_size=eps)
        cb = nm[2](e, x, g, fr, mini_batch=mb, step_size=eps, model_state=m)
        force = tm(lambda s, q: jnp.sqrt(2 * eps) * s * q, cb.cb_diff_sqrt.tensor, z)
      else:
        force = tm(lambda f, q: jnp.sqrt(2 * eps) * jnp.sqrt(f) * q, fr, z)
      p = tm(lambda a, f, b, q, n: a - eps * f * b - eps * q + n, p, fr, v, g, force)
      return (x, p, u, m2, ds, e), None
    c = (st['x'], p0, jnp.array(0.0), st['m'], st['ds'], st['e'] if nm else None)
    (x, p, u, m, ds, e), _ = lax.scan(body, c, noise[0])
    r = dict(positions=x, momentum=p, potential=u, model_state=m, data_state=ds)
    if nm:
      r['extra_fields'] = e
    return r
  return run


def make(mass, kind, tree_friction=False, nmodel=False):
  w = C.World(n_batch=2)

  def build(ctx, steps):
    integ = C.modules()[0]
    from jax_sgmc.adaption import MassMatrix
    from jax_sgmc.util import Tensor
    x = C.sym_tree(ctx, kind, 'x')
    fr = C.shape_like(ctx, x, 'friction') if tree_friction else ctx.fresh('friction')
    sch = C.sym_sched(ctx)
    shapes = [l.shape for l in C.tleaves(x)]
    td = tree_util.tree_structure(x, is_leaf=C.is_sv)
    d = shapes[0][0]
    if mass == 'full':
      inv = {'__full__': ctx.fresh('minv', (d, d))}
      sq = {'__full__': ctx.fresh('msqrt', (d, d))}
    else:
      inv = C.shape_like(ctx, x, 'minv')
      sq = C.shape_like(ctx, x, 'mass' if mass == 'const' else 'msqrt')
    st = dict(x=x, p=C.shape_like(ctx, x, 'p'), m=ctx.fresh('ms'), ds=ctx.fresh('ds'),
              key=ctx.key('k0'), e=ctx.fresh('e0'))

    def fn(st, sch, fr, inv, sq):
      kw = (dict(const_mass=sq) if mass == 'const' else
            dict(const_mass=tm(lambda l: 3.0 + jnp.zeros_like(l), sq)) if mass == 'both' else {})
      if nmodel:
        kw['noise_model'] = noise_model()
      _, integrate, _ = integ.friction_leapfrog(
        w.potential(), w.batch_fn(), steps=steps, friction=fr, **kw)
      s0 = integ.LeapfrogState(
        positions=st['x'], momentum=st['p'], potential=jnp.array(0.3),
        model_state=st['m'], data_state=st['ds'], key=st['key'],
        extra_fields=st['e'] if nmodel else None)
      if mass in ('arg', 'full', 'both'):
        nd, a, b = ((2, inv['__full__'], sq['__full__']) if mass == 'full'
                    else (1, inv, sq))
        o = integrate(s0, sch, mass=MassMatrix(inv=Tensor(nd, a), sqrt=Tensor(nd, b)))
      else:
        o = integrate(s0, sch)
      return {k: getattr(o, k) for k in (
        'positions', 'momentum', 'potential', 'model_state', 'data_state', 'extra_fields')}
    return fn, (st, sch, fr, inv, sq), shapes, td

  def spec_(steps):
    run = spec(w, steps, nmodel)

    def f(args, noise, pre):
      st, sch, fr, inv, sq = args
      if mass == 'none':
        inv = sq = ones(st['x'])
      elif mass == 'const':
        inv, sq = tm(lambda l: 1 / l, sq), tm(jnp.sqrt, sq)
      if not tree_friction:
        fr = tm(lambda l: jnp.full_like(l, fr), st['x'])
      return run((st, sch, fr, inv, sq), noise, pre)
    return f

  def prove(obs):
    C.prove_integration(obs, build, None, spec_, 1, FN, kind=kind, pre_draws=1)
  return prove


def prove_init(obs):
  integ = C.modules()[0]
  ctx = jx.Ctx()
  w = C.World(n_batch=2)
  x = C.sym_tree(ctx, 'dict', 'x')
  key, ms = ctx.key('k0'), ctx.fresh('ms')
  init, _, _ = integ.friction_leapfrog(w.potential(), w.batch_fn())
  out = ctx.trace(lambda x, k, m: init(x, key=k, init_model_state=m), x, key, ms)
  obs.equal(ctx, 'initial sample', out.positions, x)
  obs.equal(ctx, 'initial model state', out.model_state, ms)
  obs.equal(ctx, 'initial key', out.key, key)


def search(se):
  integ = C.modules()[0]
  from jax_sgmc.adaption import MassMatrix
  from jax_sgmc.util import Tensor
  n = 0
  while se.more() or n < 5:
    n += 1
    rng = se.rng
    mass = ['none', 'const', 'arg', 'full', 'both'][n % 5]
    nmodel = n % 6 == 4 and mass != 'full'
    kind = 'leaf' if mass == 'full' else rng.choice(C.KINDS)
    w = C.World(n_batch=2, n_obs=5)
    steps = se.size([1, 2, 3, 4], 'n', limit=120)
    x = C.num_tree(rng, kind, sizes=(3, 2))
    tree_friction = rng.random() < 0.5
    fr0, eps, z = C.settings(se, steps, 0.1, 2.5)
    frs = (C.num_tree(rng, kind, sizes=(3, 2), lo=0.1, hi=2.5) if tree_friction
           else fr0)
    case = dict(kind=kind, mass=mass, steps=steps, eps=eps, noise=z,
                friction='tree' if tree_friction else frs, noise_model=nmodel)
    if mass == 'full':
      a = jnp.asarray(C.onp.random.default_rng(n).normal(size=(3, 3)), jnp.float32)
      inv, sq = {'__full__': a}, {'__full__': a.T + 1}
      marg = MassMatrix(inv=Tensor(2, a), sqrt=Tensor(2, a.T + 1))
    else:
      inv = C.num_tree(rng, kind, sizes=(3, 2), lo=0.3, hi=2)
      sq = C.num_tree(rng, kind, sizes=(3, 2), lo=0.3, hi=2)
      marg = MassMatrix(inv=Tensor(1, inv), sqrt=Tensor(1, sq))
    kw = (dict(const_mass=sq) if mass == 'const' else
          dict(const_mass=C.num_tree(rng, kind, sizes=(3, 2), lo=0.3, hi=2))
          if mass == 'both' else {})
    if nmodel:
      kw['noise_model'] = noise_model()
    init, integrate, getf = integ.friction_leapfrog(
      w.potential(), w.batch_fn(), steps=steps, friction=frs, **kw)
    st = init(x, key=jax.random.PRNGKey(n), init_model_state=jnp.array(0.3))
    sch = C.sched(jnp.array(eps), jnp.array(1.0))
    with C.constant_noise(z) as cnt:
      out = integrate(st, sch, **({'mass': marg} if mass in ('arg', 'full', 'both') else {}))
    if mass == 'none':
      inv = sq = ones(x)
    elif mass == 'const':
      inv, sq = tm(lambda l: 1 / l, sq), tm(jnp.sqrt, sq)
    fr = frs if tree_friction else tm(lambda l: jnp.full_like(l, frs), x)
    z0 = tm(lambda l: jnp.full(l.shape, z), x)
    zz = tm(lambda l: jnp.full((steps,) + l.shape, z), x)
    want = spec(w, steps, nmodel)(
      (dict(x=x, m=st.model_state, ds=st.data_state, e=st.extra_fields),
       sch, fr, inv, sq), [zz], z0)
    if cnt[0]:
      for k, v in want.items():
        C.close(getattr(out, k), v, k, rtol=1e-3, atol=1e-4, **case)
    C.close(getf(out)['variables'], out.positions, 'reported sample', **case)
    if steps <= 8:
      with jax.disable_jit(), C.recorded_keys() as used:
        s = st
        for _ in range(2):
          s = integrate(s, sch)
      C.check_keys_distinct(used, 'two integrations', **case)
    se.count(case)


def check():
  U = ['jax_sgmc/integrator.py: random_tree', 'jax_sgmc/integrator.py: init_mass',
       'jax_sgmc/util/tree_util.py: tensor_matmul',
       'jax_sgmc/util/tree_util.py: tree_multiply', 'jax_sgmc/util/tree_util.py: tree_matmul']
  units = [Unit('integration, scalar friction', [FN] + U, make('none', 'dict'), search),
           Unit('integration, friction per parameter, constant mass', FN,
                make('const', 'nested', True)),
           Unit('integration, adapted diagonal mass', FN, make('arg', 'dict')),
           Unit('integration, adapted mass instead of the constant one', FN,
                make('both', 'nested')),
           Unit('integration, many leaves', FN, make('arg', 'wide')),
           Unit('integration, full mass matrix', FN, make('full', 'leaf')),
           Unit('integration with noise model', FN, make('none', 'dict', nmodel=True)),
           Unit('initial state', 'jax_sgmc/integrator.py: friction_leapfrog.init_fn', prove_init)]
  return Check('C18', 'Friction leapfrog implements SGHMC', units=units,
               assumptions=['potential, noise model and loader enter by contract',
                            'four tree structures with leaves of symbolic size stand for all trees'])
