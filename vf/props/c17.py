"""C17: the OBABO integrator implements the documented splitting."""
from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
from jax import tree_util, lax

from vf import jx
from vf.check import Check, Unit
from vf.props import common as C
from vf.props.c16 import matvec, dot, ones, tm

FN = 'jax_sgmc/integrator.py: obabo.integrate'


def spec(world, steps):
  pot = world.potential()
  _, get, _ = world.batch_fn()

  def run(args, noise, pre):
    st, sch, fr, inv, sqrt = args
    eps, temp = sch.step_size, sch.temperature
    keep = jnp.exp(-fr * eps)

    def kin(p):
      return 0.5 * dot(p, matvec(inv, p))

    def refresh(p, z):
      # leaves N(0, temperature * mass) invariant: keep + (1 - keep) = 1
      return tm(lambda a, s: jnp.sqrt(keep) * a + jnp.sqrt((1 - keep) * temp) * s,
                p, matvec(sqrt, z))

    def grad(x, mb, m):
      return jax.value_and_grad(pot, has_aux=True)(x, mb, state=m)

    def body(c, z):
      x, p, u, m, ds, ks, ke = c
      z1, z2 = z
      p = refresh(p, z1)
      ks = ks + kin(p)
      ds, mb = get(ds, information=True)
      (u1, m), g = grad(x, mb, m)
      p = tm(lambda a, b: a - 0.5 * eps * b, p, g)
      x = tm(lambda a, b: a + eps * b, x, matvec(inv, p))
      ds, mb = get(ds, information=True)
      (u2, m), g = grad(x, mb, m)
      p = tm(lambda a, b: a - 0.5 * eps * b, p, g)
      ke = ke + kin(p)
      p = refresh(p, z2)
      return (x, p, 0.5 * (u1 + u2), m, ds, ks, ke), None
    c = (st['x'], st['p'], st['u'], st['m'], st['ds'], st['ks'], st['ke'])
    (x, p, u, m, ds, ks, ke), _ = lax.scan(body, c, (noise[0], noise[1]))
    return dict(positions=x, momentum=p, potential=u, model_state=m, data_state=ds,
                kinetic_energy_start=ks, kinetic_energy_end=ke)
  return run


def make(mass, kind):
  w = C.World(n_batch=2)

  def build(ctx, steps):
    integ = C.modules()[0]
    from jax_sgmc.adaption import MassMatrix
    from jax_sgmc.util import Tensor
    x = C.sym_tree(ctx, kind, 'x')
    p = C.shape_like(ctx, x, 'p')
    fr = ctx.fresh('friction')
    ctx.hyps.append(fr.at() >= 0)
    sch = C.sym_sched(ctx)
    shapes = [l.shape for l in C.tleaves(x)]
    td = tree_util.tree_structure(x, is_leaf=C.is_sv)
    d = shapes[0][0]
    if mass == 'full':
      inv = {'__full__': ctx.fresh('minv', (d, d))}
      sq = {'__full__': ctx.fresh('msqrt', (d, d))}
    else:
      inv = C.shape_like(ctx, x, 'minv')
      sq = C.shape_like(ctx, x, 'mass' if mass == 'const' else 'msqrt')
    st = dict(x=x, p=p, m=ctx.fresh('ms'), ds=ctx.fresh('ds'), key=ctx.key('k0'),
              u=ctx.fresh('u0'), ks=ctx.fresh('ks0'), ke=ctx.fresh('ke0'))

    def fn(st, sch, fr, inv, sq):
      kw = (dict(const_mass=sq) if mass == 'const' else
            dict(const_mass=tm(lambda l: 3.0 + jnp.zeros_like(l), sq)) if mass == 'both' else {})
      _, integrate, _ = integ.obabo(
        w.potential(), w.batch_fn(), steps=steps, friction=fr, **kw)
      s0 = integ.ObaboState(
        positions=st['x'], momentum=st['p'], potential=st['u'],
        model_state=st['m'], data_state=st['ds'], key=st['key'],
        kinetic_energy_start=st['ks'], kinetic_energy_end=st['ke'])
      if mass in ('arg', 'full', 'both'):
        nd, a, b = ((2, inv['__full__'], sq['__full__']) if mass == 'full'
                    else (1, inv, sq))
        o = integrate(s0, sch, mass=MassMatrix(inv=Tensor(nd, a), sqrt=Tensor(nd, b)))
      else:
        o = integrate(s0, sch)
      return {k: getattr(o, k) for k in (
        'positions', 'momentum', 'potential', 'model_state', 'data_state',
        'kinetic_energy_start', 'kinetic_energy_end')}
    return fn, (st, sch, fr, inv, sq), shapes, td

  def spec_(steps):
    run = spec(w, steps)

    def f(args, noise, pre):
      st, sch, fr, inv, sq = args
      if mass == 'none':
        inv = sq = ones(st['x'])
      elif mass == 'const':
        inv, sq = tm(lambda l: 1 / l, sq), tm(jnp.sqrt, sq)
      return run((st, sch, fr, inv, sq), noise, pre)
    return f

  def prove(obs):
    C.prove_integration(obs, build, None, spec_, 2, FN, kind=kind)
  return prove


def prove_init(obs):
  integ = C.modules()[0]
  ctx = jx.Ctx()
  w = C.World(n_batch=2)
  x = C.sym_tree(ctx, 'dict', 'x')
  key, ms = ctx.key('k0'), ctx.fresh('ms')
  init, _, _ = integ.obabo(w.potential(), w.batch_fn())
  out = ctx.trace(lambda x, k, m: init(x, key=k, init_model_state=m), x, key, ms)
  obs.equal(ctx, 'initial sample', out.positions, x)
  obs.equal(ctx, 'initial model state', out.model_state, ms)
  obs.equal(ctx, 'initial key', out.key, key)
  zero = jx.from_concrete(jnp.array(0.0))
  obs.equal(ctx, 'initial kinetic energy before', out.kinetic_energy_start, zero)
  obs.equal(ctx, 'initial kinetic energy after', out.kinetic_energy_end, zero)


def search(se):
  integ = C.modules()[0]
  from jax_sgmc.adaption import MassMatrix
  from jax_sgmc.util import Tensor
  n = 0
  while se.more() or n < 4:
    n += 1
    rng = se.rng
    mass = ['none', 'const', 'arg', 'full', 'both'][n % 5]
    kind = 'leaf' if mass == 'full' else rng.choice(C.KINDS)
    w = C.World(n_batch=2, n_obs=5)
    steps = se.size([1, 2, 3, 4], 'n', limit=120)
    x = C.num_tree(rng, kind, sizes=(3, 2))
    p = C.num_tree(rng, kind, sizes=(3, 2))
    fr, eps, z = C.settings(se, steps, 0.1, 2.0)
    temp = se.value([1.0, 0.4, 2.0], 0.01, 20)
    case = dict(kind=kind, mass=mass, steps=steps, friction=fr, eps=eps, noise=z, temp=temp)
    if mass == 'full':
      a = jnp.asarray(C.onp.random.default_rng(n).normal(size=(3, 3)), jnp.float32)
      inv, sq = {'__full__': a}, {'__full__': a.T + 1}
      marg = MassMatrix(inv=Tensor(2, a), sqrt=Tensor(2, a.T + 1))
    else:
      inv = C.num_tree(rng, kind, sizes=(3, 2), lo=0.3, hi=2)
      sq = C.num_tree(rng, kind, sizes=(3, 2), lo=0.3, hi=2)
      marg = MassMatrix(inv=Tensor(1, inv), sqrt=Tensor(1, sq))
    kw = (dict(const_mass=sq) if mass == 'const' else
          dict(const_mass=C.num_tree(rng, kind, sizes=(3, 2), lo=0.3, hi=2))
          if mass == 'both' else {})
    init, integrate, getf = integ.obabo(
      w.potential(), w.batch_fn(), steps=steps, friction=fr, **kw)
    st = init(x, key=jax.random.PRNGKey(n), init_model_state=jnp.array(0.3))
    st = st._replace(momentum=p, kinetic_energy_start=jnp.array(0.4),
                     kinetic_energy_end=jnp.array(-0.3))
    sch = C.sched(jnp.array(eps), jnp.array(temp))
    with C.constant_noise(z) as cnt:
      out = integrate(st, sch, **({'mass': marg} if mass in ('arg', 'full', 'both') else {}))
    if mass == 'none':
      inv = sq = ones(x)
    elif mass == 'const':
      inv, sq = tm(lambda l: 1 / l, sq), tm(jnp.sqrt, sq)
    zz = tm(lambda l: jnp.full((steps,) + l.shape, z), x)
    want = spec(w, steps)((dict(x=x, p=p, m=st.model_state, ds=st.data_state,
                                u=jnp.array(0.), ks=jnp.array(0.4), ke=jnp.array(-0.3)),
                           sch, fr, inv, sq), [zz, zz], None)
    if cnt[0]:
      for k, v in want.items():
        C.close(getattr(out, k), v, k, rtol=1e-3, atol=1e-4, **case)
    C.close(getf(out)['variables'], out.positions, 'reported sample', **case)
    if steps <= 8:
      with jax.disable_jit(), C.recorded_keys() as used:
        s = st
        for _ in range(2):
          s = integrate(s, sch)
      C.check_keys_distinct(used, 'two integrations', **case)
    se.count(case)


def check():
  U = ['jax_sgmc/integrator.py: random_tree', 'jax_sgmc/integrator.py: init_mass',
       'jax_sgmc/util/tree_util.py: tensor_matmul', 'jax_sgmc/util/tree_util.py: tree_dot',
       'jax_sgmc/util/tree_util.py: tree_multiply', 'jax_sgmc/util/tree_util.py: tree_matmul']
  units = [Unit('integration, unit mass', [FN] + U, make('none', 'dict'), search),
           Unit('integration, constant mass', FN, make('const', 'nested')),
           Unit('integration, adapted diagonal mass', FN, make('arg', 'dict')),
           Unit('integration, adapted mass instead of the constant one', FN,
                make('both', 'nested')),
           Unit('integration, many leaves', FN, make('arg', 'wide')),
           Unit('integration, full mass matrix', FN, make('full', 'leaf')),
           Unit('initial state', 'jax_sgmc/integrator.py: obabo.init_fn', prove_init)]
  return Check('C17', 'OBABO implements the documented splitting', units=units,
               assumptions=['potential and loader enter by contract',
                            'four tree structures with leaves of symbolic size stand for all trees'])
