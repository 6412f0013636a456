"""C16: the reversible leapfrog integrator implements the AMAGOLD recursion."""
from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
from jax import tree_util, lax

from vf import jx
from vf.check import Check, Unit
from vf.props import common as C

FN = 'jax_sgmc/integrator.py: reversible_leapfrog.integrate'
tm = tree_util.tree_map


def matvec(mat, v):
  """Product of a scalar, diagonal or full matrix and a tree."""
  if isinstance(mat, dict) and '__full__' in mat:
    return jnp.matmul(mat['__full__'], v)
  return tm(lambda a, b: a * b, mat, v)


def dot(a, b):
  return sum(jnp.sum(x * y) for x, y in zip(tree_util.tree_leaves(a),
                                            tree_util.tree_leaves(b)))


def spec(world, steps):
  pot = world.potential()
  _, get, _ = world.batch_fn()

  def run(args, noise, pre):
    st, sch, fr, inv, sqrt = args
    x, p, m, ds = st['x'], st['p'], st['m'], st['ds']
    eps = sch.step_size
    x = tm(lambda a, v: a + 0.5 * eps * v, x, matvec(inv, p))

    def body(c, tz):
      x, p, m, ds, e = c
      t, z = tz
      x = tm(lambda a, v: jnp.where(t == 0, a, a + eps * v), x, matvec(inv, p))
      ds, mb = get(ds, information=True)
      g, m = jax.grad(pot, has_aux=True)(x, mb, state=m)
      p2 = tm(lambda a, q, s: ((1 - eps * fr) * a - eps * q
                               + jnp.sqrt(4 * fr * eps) * s) / (1 + eps * fr),
              p, g, matvec(sqrt, z))
      e = e + 0.5 * eps * dot(tm(lambda a, b: a + b, p, p2), matvec(inv, g))
      return (x, p2, m, ds, e), None
    (x, p, m, ds, e), _ = lax.scan(body, (x, p, m, ds, jnp.array(0.0)),
                                   (jnp.arange(steps), noise[0]))
    x = tm(lambda a, v: a + 0.5 * eps * v, x, matvec(inv, p))
    return dict(positions=x, momentum=p, potential=e, model_state=m, data_state=ds)
  return run


def ones(x):
  return tm(jnp.ones_like, x)


def make(mass, kind):
  """mass: 'none' | 'const' | 'arg' | 'full'."""
  w = C.World(n_batch=2)

  def build(ctx, steps):
    integ = C.modules()[0]
    from jax_sgmc.adaption import MassMatrix
    from jax_sgmc.util import Tensor
    x = C.sym_tree(ctx, kind, 'x')
    p = C.shape_like(ctx, x, 'p')
    fr = ctx.fresh('friction')
    ctx.hyps.append(fr.at() >= 0)
    sch = C.sym_sched(ctx)
    shapes = [l.shape for l in C.tleaves(x)]
    td = tree_util.tree_structure(x, is_leaf=C.is_sv)
    d = shapes[0][0]
    if mass == 'full':
      inv = {'__full__': ctx.fresh('minv', (d, d))}
      sq = {'__full__': ctx.fresh('msqrt', (d, d))}
    else:
      inv = C.shape_like(ctx, x, 'minv')
      sq = C.shape_like(ctx, x, 'msqrt')
      if mass == 'const':
        sq = C.shape_like(ctx, x, 'mass')   # the mass itself

    st = dict(x=x, p=p, m=ctx.fresh('ms'), ds=ctx.fresh('ds'), key=ctx.key('k0'))

    def fn(st, sch, fr, inv, sq):
      kw = (dict(const_mass=sq) if mass == 'const' else
            dict(const_mass=tm(lambda l: 3.0 + jnp.zeros_like(l), sq)) if mass == 'both' else {})
      _, integrate, _ = integ.reversible_leapfrog(
        w.potential(), w.batch_fn(), steps=steps, friction=fr, **kw)
      s0 = integ.LeapfrogState(
        positions=st['x'], momentum=st['p'], potential=jnp.array(0.7),
        model_state=st['m'], data_state=st['ds'], key=st['key'])
      if mass in ('arg', 'full', 'both'):
        nd, a, b = ((2, inv['__full__'], sq['__full__']) if mass == 'full'
                    else (1, inv, sq))
        o = integrate(s0, sch, mass=MassMatrix(inv=Tensor(nd, a), sqrt=Tensor(nd, b)))
      else:
        o = integrate(s0, sch)
      return dict(positions=o.positions, momentum=o.momentum, potential=o.potential,
                  model_state=o.model_state, data_state=o.data_state)
    return fn, (st, sch, fr, inv, sq), shapes, td

  def spec_(steps):
    run = spec(w, steps)

    def f(args, noise, pre):
      st, sch, fr, inv, sq = args
      if mass == 'none':
        inv = sq = ones(st['x'])
      elif mass == 'const':
        inv, sq = tm(lambda l: 1 / l, sq), tm(jnp.sqrt, sq)
      return run((st, sch, fr, inv, sq), noise, pre)
    return f

  def prove(obs):
    C.prove_integration(obs, build, None, spec_, 1, FN, kind=kind)
  return prove


def prove_init(obs):
  """Initial momentum: Gaussian with the mass as covariance."""
  integ = C.modules()[0]
  for mass in ('const', 'none'):
    ctx = jx.Ctx()
    w = C.World(n_batch=2)
    x = C.sym_tree(ctx, 'dict', 'x')
    key, ms = ctx.key('k0'), ctx.fresh('ms')
    mt = C.shape_like(ctx, x, 'mass')

    def f(x, key, ms, mt):
      kw = dict(const_mass=mt) if mass == 'const' else {}
      init, _, _ = integ.reversible_leapfrog(w.potential(), w.batch_fn(), **kw)
      return init(x, key=key, init_model_state=ms)
    out = ctx.trace(f, x, key, ms, mt)
    used = list(ctx.rng_used)
    nm = f'init ({mass} mass)'
    obs.equal(ctx, f'{nm}: sample', out.positions, x)
    obs.equal(ctx, f'{nm}: model state', out.model_state, ms)
    shapes = [l.shape for l in C.tleaves(x)]
    for n, (o, s) in enumerate(zip(C.tleaves(out.momentum), shapes)):
      ds = C.draws_in(o, ctx)
      if not obs.true(f'{nm}: one draw in momentum {n}', len(ds) == 1):
        return
      z = ds[0].sv(s)
      m = C.tleaves(mt)[n]
      want = (jx.SV(s, 'f', lambda *i, z=z, m=m: jx.T.sqrt(m.at(*i)) * z.at(*i))
              if mass == 'const' else z)
      obs.equal(ctx, f'{nm}: momentum {n}', o, want)
    C.check_noise_keys(ctx, obs, used, None, ctx.key_at(out.key), nm)


def search(se):
  integ = C.modules()[0]
  from jax_sgmc.adaption import MassMatrix
  from jax_sgmc.util import Tensor
  n = 0
  while se.more() or n < 4:
    n += 1
    rng = se.rng
    mass = ['none', 'const', 'arg', 'full', 'both'][n % 5]
    kind = 'leaf' if mass == 'full' else rng.choice(C.KINDS)
    w = C.World(n_batch=2, n_obs=5)
    steps = se.size([1, 2, 3, 5], 'n', limit=120)
    x = C.num_tree(rng, kind, sizes=(3, 2))
    p = C.num_tree(rng, kind, sizes=(3, 2))
    fr, eps, z = C.settings(se, steps, 0.05, 1.0)
    case = dict(kind=kind, mass=mass, steps=steps, friction=fr, eps=eps, noise=z)
    if mass == 'full':
      a = jnp.asarray(C.onp.random.default_rng(n).normal(size=(3, 3)), jnp.float32)
      inv, sq = {'__full__': a}, {'__full__': a.T + 1}
      marg = MassMatrix(inv=Tensor(2, a), sqrt=Tensor(2, a.T + 1))
    else:
      inv = C.num_tree(rng, kind, sizes=(3, 2), lo=0.3, hi=2)
      sq = C.num_tree(rng, kind, sizes=(3, 2), lo=0.3, hi=2)
      marg = MassMatrix(inv=Tensor(1, inv), sqrt=Tensor(1, sq))
    kw = (dict(const_mass=sq) if mass == 'const' else
          dict(const_mass=C.num_tree(rng, kind, sizes=(3, 2), lo=0.3, hi=2))
          if mass == 'both' else {})
    init, integrate, getf = integ.reversible_leapfrog(
      w.potential(), w.batch_fn(), steps=steps, friction=fr, **kw)
    st = init(x, key=jax.random.PRNGKey(n), init_model_state=jnp.array(0.3))
    st = st._replace(momentum=p, potential=jnp.array(0.4))
    with C.constant_noise(z) as cnt:
      out = integrate(st, C.sched(jnp.array(eps)), **({'mass': marg} if mass in ('arg', 'full', 'both') else {}))
    if mass == 'none':
      inv = sq = ones(x)
    elif mass == 'const':
      inv, sq = tm(lambda l: 1 / l, sq), tm(jnp.sqrt, sq)
    zz = tm(lambda l: jnp.full((steps,) + l.shape, z), x)
    want = spec(w, steps)((dict(x=x, p=p, m=st.model_state, ds=st.data_state),
                           C.sched(jnp.array(eps)), fr, inv, sq), [zz], None)
    if cnt[0]:
      for k, v in want.items():
        C.close(getattr(out, k), v, k, rtol=1e-3, atol=1e-4, **case)
    C.close(getf(out)['variables'], out.positions, 'reported sample', **case)
    if steps <= 8:
      with jax.disable_jit(), C.recorded_keys() as used:
        s = init(x, key=jax.random.PRNGKey(n), init_model_state=jnp.array(0.3))
        for _ in range(2):
          s = integrate(s, C.sched(jnp.array(eps)))
      C.check_keys_distinct(used, 'initialisation and two integrations', **case)
    se.count(case)


def check():
  U = ['jax_sgmc/integrator.py: random_tree', 'jax_sgmc/integrator.py: init_mass',
       'jax_sgmc/util/tree_util.py: tensor_matmul', 'jax_sgmc/util/tree_util.py: tree_dot',
       'jax_sgmc/util/tree_util.py: tree_multiply', 'jax_sgmc/util/tree_util.py: tree_matmul']
  units = [Unit('integration, unit mass', [FN] + U, make('none', 'dict'), search),
           Unit('integration, constant mass', FN, make('const', 'nested')),
           Unit('integration, adapted diagonal mass', FN, make('arg', 'dict')),
           Unit('integration, adapted mass instead of the constant one', FN,
                make('both', 'nested')),
           Unit('integration, many leaves', FN, make('arg', 'wide')),
           Unit('integration, full mass matrix', FN, make('full', 'leaf')),
           Unit('initial state', 'jax_sgmc/integrator.py: reversible_leapfrog.init_fn', prove_init)]
  return Check('C16', 'Reversible leapfrog implements the AMAGOLD recursion', units=units,
               assumptions=['potential and loader enter by contract',
                            'four tree structures with leaves of symbolic size stand for all trees'])
