"""Shared pieces of the contracts on integrators and solvers."""
import contextlib
import itertools
import os
import random as pyrandom
import subprocess
import sys

from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
import numpy as onp
from jax import tree_util
import z3

from vf import jx, opaque, terms as T
from vf.check import Failure

S = opaque.S


def modules():
  from jax_sgmc import integrator, solver, scheduler, potential, adaption
  from jax_sgmc.data import core
  return integrator, solver, scheduler, potential, adaption, core


# ------------------------------------------------------------ opaque callees
class World:
  """Loader and potential known only by their contracts.

  ``get_data`` maps a data state to the next data state and a batch, the
  potential maps (sample, batch, model state) to potential, likelihoods and new
  model state. Nothing else is known about them.
  """

  def __init__(self, n_batch=3, n_obs=None, model_state='scalar', mask=None):
    self.n_batch = n_batch
    self.n_obs = n_obs
    self.model_state = model_state
    self.mask = mask

  def batch_fn(self):
    from jax_sgmc.data.core import MiniBatchInformation

    def init(**kwargs):
      return jnp.array(0.25)

    def get(state, information=False):
      new = opaque.call('next', S(), state)
      b = {'x': opaque.call('batch_x', S((self.n_batch,)), state),
           'y': opaque.call('batch_y', S((self.n_batch, 2)), state)}
      n_obs = opaque.call('N', S()) if self.n_obs is None else self.n_obs
      info = MiniBatchInformation(
        observation_count=n_obs, batch_size=self.n_batch,
        mask=jnp.ones(self.n_batch, dtype=bool) if self.mask is None else self.mask)
      if information:
        return new, (b, info)
      return new, b

    def release():
      pass
    return init, get, release

  def potential(self):
    def pot(sample, reference_data, state=None, mask=None, likelihoods=False):
      b, info = reference_data
      args = (sample, b, info.mask, state)
      u = opaque.call('U', S(), *args)
      new = (None if state is None else tree_util.tree_map(
        lambda l: opaque.call('M', S(jnp.shape(l)), *args), state))
      if likelihoods:
        return u, (opaque.call('L', S((self.n_batch,)), *args), new)
      return u, new
    return pot

  def full_potential(self):
    def fpot(sample, data_state, full_data_map_fn=None, state=None):
      u = opaque.call('FU', S(), sample, state)
      new = (None if state is None else tree_util.tree_map(
        lambda l: opaque.call('FM', S(jnp.shape(l)), sample, state), state))
      return u, (opaque.call('Fnext', S(), data_state), new)
    return fpot


# --------------------------------------------------------------------- samples
def sym_tree(ctx, kind, name):
  """Trees with leaves of symbolic size; ``kind`` selects the structure."""
  if kind == 'leaf':
    d, = ctx.dims('d')
    return ctx.fresh(name, (d,))
  if kind == 'dict':
    d, m = ctx.dims('d, m')
    return {'a': ctx.fresh(name + 'a', (d,)), 'b': ctx.fresh(name + 'b'),
            'w': ctx.fresh(name + 'w', (m, 2))}
  if kind == 'nested':
    d, = ctx.dims('d')
    return {'l': [ctx.fresh(name + 'l0', (d,)), ctx.fresh(name + 'l1', (d,))],
            't': (ctx.fresh(name + 't0'),)}
  if kind == 'wide':
    d, = ctx.dims('d')
    return {'h': ctx.fresh(name + 'h', (2, d, 1, 3)), 'v': ctx.fresh(name + 'v', (d,)),
            's': [ctx.fresh(f'{name}s{k}') for k in range(10)],
            'z': ctx.fresh(name + 'z', (d, 2))}
  raise ValueError(kind)


def num_tree(rng, kind, sizes=None, lo=-1.5, hi=1.5, dyadic=False):
  g = onp.random.default_rng(rng.randrange(1 << 30))
  d, m = sizes or (rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3]))

  def leaf(*s):
    v = g.uniform(lo, hi, size=s)
    if dyadic:
      v = onp.round(v * 8) / 8
    return jnp.asarray(v, dtype=jnp.float32)
  if kind == 'leaf':
    return leaf(d)
  if kind == 'dict':
    return {'a': leaf(d), 'b': leaf(), 'w': leaf(m, 2)}
  if kind == 'nested':
    return {'l': [leaf(d), leaf(d)], 't': (leaf(),)}
  if kind == 'wide':
    return {'h': leaf(2, d, 1, 3), 'v': leaf(d), 's': [leaf() for _ in range(10)],
            'z': leaf(d, 2)}
  raise ValueError(kind)


KINDS = ('dict', 'leaf', 'nested', 'wide')
is_sv = lambda x: isinstance(x, jx.SV)


def tleaves(tree):
  return tree_util.tree_leaves(tree, is_leaf=is_sv)


def shape_like(ctx, tree, name):
  """A fresh symbolic tree with the structure of tree."""
  ls, td = tree_util.tree_flatten(tree, is_leaf=is_sv)
  return tree_util.tree_unflatten(
    td, [ctx.fresh(f'{name}{n}', _dims(ctx, l.shape), l.kind) for n, l in enumerate(ls)])


def _dims(ctx, shape):
  return tuple(s for s in shape)


def settings(se, steps, low, high):
  """Friction, step size and noise; small steps for long integrations."""
  if steps > 8:
    return se.rng.uniform(low, 0.5 * high), se.rng.uniform(1e-3, 0.02), se.rng.choice([0., 1., -0.5])
  return (se.value([se.rng.uniform(low, high)], low, 5 * high),
          se.value([se.rng.uniform(0.01, 0.3)], 1e-4, 0.6),
          se.value([0., 1., -0.5], -4, 4))


# ------------------------------------------------------------ noise as witness
class Draw:
  """One array of random numbers that enters a symbolic array."""

  def __init__(self, app, g):
    self.app, self.g = app, g
    self.name = app.decl().name()
    self.key = app.arg(0)

  def sv(self, shape):
    return jx.SV(shape, 'f', lambda *i: z3.substitute(
      self.app, *[(a, jx.iv(b)) for a, b in zip(self.g, i)]) if self.g else self.app)


def draws_in(sv, ctx):
  """Random numbers in the entries of a symbolic array at a generic index."""
  g = ctx._gen('w', sv.ndim)
  t = T.norm(sv.at(*g))
  out = []
  for a in T.apps([t]):
    n = a.decl().name()
    if n.startswith('rng_') and not z3.is_const(a):
      out.append(Draw(a, g))
  return out


def key_chain(k):
  """A key and its ancestors."""
  out = [k]
  while z3.is_app(k) and k.decl().name() in ('split', 'fold'):
    k = k.arg(0)
    out.append(k)
  return out


def keys_incomparable(ctx, k1, k2, hyps=()):
  """Neither key is the other one nor derived from it."""
  goals = [k2 != a for a in key_chain(k1)] + [k1 != a for a in key_chain(k2)]
  return ctx.prove(z3.And(goals), hyps)


def independent(ctx, obs, name, draws, shapes, func=None):
  """All entries of all draws are different elements of the random stream."""
  for (n1, d1), (n2, d2) in itertools.combinations_with_replacement(
          list(enumerate(draws)), 2):
    g2 = [z3.Int(f'h!{k}') for k in range(len(d2.g))]
    app2 = z3.substitute(d2.app, *zip(d2.g, g2)) if d2.g else d2.app
    same = (z3.And([x == y for x, y in zip(d1.app.children(), app2.children())])
            if d1.app.decl().eq(app2.decl()) else z3.BoolVal(False))
    hy = ctx._rng_hyps(d1.g, shapes[n1]) + ctx._rng_hyps(g2, shapes[n2])
    if n1 == n2:
      if not d1.g:
        continue
      goal = z3.Implies(same, z3.And([x == y for x, y in zip(d1.g, g2)]))
    else:
      goal = z3.Not(same)
      if not d1.app.decl().eq(app2.decl()):
        # other shape or distribution: the keys must differ
        goal = d1.key != app2.arg(0)
    obs.prove(ctx, f'{name}: independent draws {n1},{n2}', goal, hyps=hy, func=func)


def fresh_keys(ctx, obs, name, used, next_key, func=None):
  """Consumed keys and the key of the next state are unrelated."""
  keys = []
  for k in used:
    if not any(k.eq(x) for x in keys):
      keys.append(k)
  for n, k in enumerate(keys):
    obs.add(f'{name}: key {n} is not the key of the next state',
            keys_incomparable(ctx, k, next_key), func)
  for (n, k), (m, l) in itertools.combinations(list(enumerate(keys)), 2):
    obs.add(f'{name}: keys {n} and {m} are unrelated',
            keys_incomparable(ctx, k, l), func)


# ----------------------------------------------------------- concrete replays
@contextlib.contextmanager
def constant_noise(value, uniform=None):
  """Standard normal draws return a constant; counts the draws."""
  orig_n, orig_u = jax.random.normal, jax.random.uniform
  count = [0]

  def normal(key, shape=(), dtype=jnp.float32):
    count[0] += 1
    return jnp.full(shape, value, dtype)

  def unif(key, shape=(), dtype=jnp.float32, minval=0., maxval=1.):
    return jnp.full(shape, uniform, dtype)
  jax.random.normal = normal
  if uniform is not None:
    jax.random.uniform = unif
  try:
    yield count
  finally:
    jax.random.normal, jax.random.uniform = orig_n, orig_u


DRAWS = ('normal', 'uniform', 'bernoulli', 'choice', 'randint', 'permutation',
         'exponential', 'gamma', 'categorical', 'gumbel', 'bits')


@contextlib.contextmanager
def recorded_keys():
  """Records the key of every random draw (use with jax.disable_jit)."""
  used = []
  orig = {}
  depth = [0]

  def wrap(nm, fn):
    def f(key, *args, **kwargs):
      if depth[0] == 0 and not isinstance(key, jax.core.Tracer):
        raw = onp.asarray(jax.random.key_data(key) if str(getattr(key, 'dtype', '')).startswith('key') else key)
        used.append((nm, raw.copy()))
      depth[0] += 1
      try:
        return fn(key, *args, **kwargs)
      finally:
        depth[0] -= 1
    return f
  for nm in DRAWS + ('split',):
    if hasattr(jax.random, nm):
      orig[nm] = getattr(jax.random, nm)
      setattr(jax.random, nm, wrap(nm, orig[nm]))
  try:
    yield used
  finally:
    for nm, fn in orig.items():
      setattr(jax.random, nm, fn)


def check_keys_distinct(used, what, **inputs):
  seen = {}
  parents = {tuple(int(v) for v in r): n for n, (nm, k) in enumerate(used) if nm == 'split'
             for r in k.reshape(-1, k.shape[-1])}
  for n, (nm, k) in enumerate(used):
    if nm == 'split':
      continue
    rows = k.reshape(-1, k.shape[-1])
    for r in rows:
      key = tuple(int(v) for v in r)
      if key in seen:
        raise Failure(f'{what}: two random draws use the same key',
                      first=seen[key], second=f'{nm} #{n}', key=list(key), **inputs)
      if key in parents:
        raise Failure(f'{what}: a key is used for a random draw and split for further ones',
                      draw=f'{nm} #{n}', split=parents[key], key=list(key), **inputs)
      seen[key] = f'{nm} #{n}'


def close(a, b, what, rtol=2e-4, atol=2e-5, **inputs):
  la, ta = tree_util.tree_flatten(a)
  lb, tb = tree_util.tree_flatten(b)
  if ta != tb:
    raise Failure(f'{what}: structure {ta} instead of {tb}', **inputs)
  for n, (x, y) in enumerate(zip(la, lb)):
    x, y = onp.asarray(x), onp.asarray(y)
    if x.shape != y.shape:
      raise Failure(f'{what}: shape {x.shape} instead of {y.shape}', **inputs)
    if x.dtype.kind in 'biu' and y.dtype.kind in 'biu':
      if not (x == y).all():
        raise Failure(f'{what}: {x.tolist()} instead of {y.tolist()}', **inputs)
      continue
    scale = max(1.0, float(onp.max(onp.abs(y))) if y.size else 1.0)
    if not onp.allclose(x, y, rtol=rtol, atol=atol * scale, equal_nan=True):
      raise Failure(f'{what}: leaf {n} is {onp.ravel(x)[:6].tolist()} instead of '
                    f'{onp.ravel(y)[:6].tolist()}', **inputs)


def eq_state(a, b, what, **inputs):
  close(a, b, what, rtol=0, atol=0, **inputs)


def sched(ss, temp=1.0, burn_in=1.0, accept=True):
  from jax_sgmc.scheduler import schedule
  return schedule(step_size=ss, temperature=temp, burn_in=burn_in, accept=accept)


def sym_sched(ctx, suffix=''):
  from jax_sgmc.scheduler import schedule
  eps, temp = ctx.fresh('eps' + suffix), ctx.fresh('temp' + suffix)
  ctx.hyps += [eps.at() > 0, temp.at() >= 0]
  return schedule(step_size=eps, temperature=temp,
                  burn_in=ctx.fresh('burn' + suffix), accept=ctx.fresh('acc' + suffix))


# -------------------------------------------------------------- integrators
class _OnpProxy:
  """numpy with an arange that accepts symbolic lengths (only while tracing)."""

  def __getattr__(self, name):
    return getattr(onp, name)

  @staticmethod
  def arange(*a, **k):
    if all(isinstance(x, (int, float, onp.number)) for x in a):
      return onp.arange(*a, **k)
    return jnp.arange(*a, **k)


def _ravel(tree):
  """Contract of jax.flatten_util.ravel_pytree that accepts symbolic sizes."""
  leaves, td = tree_util.tree_flatten(tree)
  leaves = [jnp.asarray(l) for l in leaves]
  sizes = []
  for l in leaves:
    n = 1
    for s in l.shape:
      n = n * s
    sizes.append(n)
  flat = jnp.concatenate([jnp.reshape(l, (n,)) for l, n in zip(leaves, sizes)])

  def unravel(vec):
    out, off = [], 0
    for l, n in zip(leaves, sizes):
      out.append(jnp.reshape(jax.lax.slice(vec, (off,), (off + n,)), l.shape))
      off = off + n
    return tree_util.tree_unflatten(td, out)
  return flat, unravel


@contextlib.contextmanager
def symbolic_lengths(*mods):
  from jax import flatten_util
  saved = [(m, m.onp) for m in mods if hasattr(m, 'onp')]
  for m, _ in saved:
    m.onp = _OnpProxy()
  orig = flatten_util.ravel_pytree
  flatten_util.ravel_pytree = _ravel
  try:
    yield
  finally:
    flatten_util.ravel_pytree = orig
    for m, o in saved:
      m.onp = o


def rng_term(name, key, shape, idx):
  tag = f'rng_{name}_{len(shape)}'
  uf = z3.Function(tag, T.Key, *([T.I] * (2 * len(shape))), T.R)
  return uf(key, *[jx.iv(s) for s in shape], *[jx.iv(i) for i in idx])


def noise_assignments(ctx, used, leaf_shapes, roles, steps, loop_t, limit=6):
  """Candidate witnesses: which draw is the noise of which leaf in which role.

  Yields lists over roles of lists over leaves of symbolic arrays of the shape
  (steps, *leaf shape).
  """
  normal = [u for u in used if u[0] == 'normal']
  classes = []
  for n, s in enumerate(leaf_shapes):
    for c in classes:
      if ctx.same_shape(leaf_shapes[c[0]], s):
        c.append(n)
        break
    else:
      classes.append([n])
  per = {}
  n_it = 1 if loop_t is not None else steps
  for ci, c in enumerate(classes):
    ent = [u for u in normal if ctx.same_shape(u[2], leaf_shapes[c[0]])]
    if len(ent) != len(c) * roles * n_it:
      return
    per[ci] = ent

  def build(perm_roles, perms):
    out = [[None] * len(leaf_shapes) for _ in range(roles)]
    for ci, c in enumerate(classes):
      ent = per[ci]
      k = len(c)
      for r in range(roles):
        for q, leaf in enumerate(c):
          pos = perm_roles[r] * k + perms[ci][q]
          keys = [ent[t * roles * k + pos][1] for t in range(n_it)]
          shape = leaf_shapes[leaf]
          if loop_t is not None:
            fn = (lambda t, *i, key=keys[0], shape=shape:
                  z3.substitute(rng_term('normal', key, shape, i), (loop_t, jx.iv(t))))
          else:
            def fn(t, *i, keys=keys, shape=shape):
              c_ = jx.conc(t)
              if c_ is not None:
                return rng_term('normal', keys[c_], shape, i)
              v = rng_term('normal', keys[-1], shape, i)
              for m in reversed(range(len(keys) - 1)):
                v = T.ite(jx.iv(t) == m, rng_term('normal', keys[m], shape, i), v)
              return v
          out[r][leaf] = jx.SV((ctx.zdim(steps),) + tuple(shape), 'f', fn)
    return out
  count = 0
  for pr in itertools.permutations(range(roles)):
    for perms in itertools.product(*[list(itertools.islice(itertools.permutations(range(len(c))), limit))
                                     for c in classes]):
      yield build(pr, perms)
      count += 1
      if count >= limit:
        return


def check_noise_keys(ctx, obs, used, leaf_shapes, next_key, name='noise', loop=None):
  """Independence of all draws of a step and freshness of the next key."""
  ent = [(u[1], u[2]) for u in used]
  for (n, (k1, _)), (m, (k2, _)) in itertools.combinations(list(enumerate(ent)), 2):
    obs.add(f'{name}: draws {n} and {m} use unrelated keys', keys_incomparable(ctx, k1, k2))
  if next_key is not None:
    for n, (k, _) in enumerate(ent):
      obs.add(f'{name}: key of draw {n} is unrelated to the next key',
              keys_incomparable(ctx, k, next_key))


def loop_key(ctx, lp):
  """Key of the next iteration of a loop of the code."""
  out = []
  for c in lp.next:
    if c.kind == 'i' and c.ndim == 1 and isinstance(c.shape[-1], int) and c.shape[-1] == 2:
      k = ctx.key_at(c)
      if not (z3.is_app(k) and k.decl().name() == 'mk'):
        out.append(k)
  return out


def prove_integration(obs, build, inputs, spec, roles, func, extra_outputs=(),
                      kind='dict', pre_draws=0, bounded_steps=(1, 2)):
  """Relational proof of an integrator for all numbers of steps.

  build(ctx, steps): (fn, args): the function of the code and symbolic inputs.
  spec(steps) -> function(args, noise, pre): the contract in closed recursive form.
  pre_draws: number of draws per leaf made before the loop.
  """
  def attempt(ctx, steps, bounded):
    fn, args, leaf_shapes, td = build(ctx, steps)
    integ = modules()[0]
    with symbolic_lengths(integ):
      out = ctx.trace(fn, *args)
    used = list(ctx.rng_used)
    npre = pre_draws * len(leaf_shapes)
    pre, inloop = used[:npre], used[npre:]
    lp = ctx.loops[0] if ctx.loops else None
    loop_t = lp.t if lp is not None else None
    pre_sv = [jx.SV(sh, 'f', lambda *i, k=k, sh=sh: rng_term('normal', k, sh, i))
              for _, k, sh in pre]
    if any(not ctx.same_shape(p.shape, s) for p, s in zip(pre_sv, leaf_shapes * 4)):
      return None
    best = None
    for noise in noise_assignments(ctx, inloop, leaf_shapes, roles, steps, loop_t):
      trial = obs.trial()
      nz = [tree_util.tree_unflatten(td, x) for x in noise]
      pz = tree_util.tree_unflatten(td, pre_sv) if pre_draws else None
      for l in ctx.loops:
        l.used = False
      del ctx.loops[1:]
      want = ctx.trace(spec(steps), args, nz, pz)
      for name, val in out.items():
        if name in want:
          trial.equal(ctx, name, val, want[name], func=func, bounded=bounded)
      res = trial.items
      good = sum(o.result.status == 'proved' for o in res)
      if best is None or good > best[0]:
        best = (good, res)
      if good == len(res):
        break
    if best is None:
      return None
    return best, used, lp, out

  ctx = jx.Ctx()
  n, = ctx.dims('n')
  r = None
  err = None
  try:
    r = attempt(ctx, n, None)
  except jx.Unsupported as e:
    err = e
  if r is not None and all(o.result.status == 'proved' for o in r[0][1]):
    obs.items += r[0][1]
    _, used, lp, out = r
    if lp is not None:
      # hypotheses: within one iteration, and from one iteration to the next
      nk = loop_key(ctx, lp)
      check_noise_keys(ctx, obs, [u for u in used[pre_draws * _nleaves(out):]], None,
                       nk[0] if nk else None, 'noise of a step')
    return True
  # not coupled: bounded numbers of steps, unrolled
  done = []
  case = jx._CASE[0]
  if case is not None and case.label() and all(s.get('n', 0) > 3 for s in case.sizes()):
    if r is not None:
      obs.items += [o for o in r[0][1] if o.result.status == 'proved']
    bounded_steps = ()       # the case is about long integrations
  for steps in bounded_steps:
    c2 = jx.Ctx(unroll=8)
    r2 = attempt(c2, steps, f'{steps} steps')
    if r2 is None:
      obs.add('witness of the noise', T.Result('unknown', '', reason=str(err or 'no witness')), func)
      return False
    done.append(r2)
    obs.items += r2[0][1]
    check_noise_keys(c2, obs, r2[1], None, None, f'noise, {steps} steps')
    if any(o.result.status != 'proved' for o in r2[0][1]):
      break
  obs.add('induction over the steps', T.Result(
    'unknown', '', reason=str(err or 'no inductive invariant found')), func)
  return False


def _nleaves(out):
  return len(tleaves(out['positions']))


def on_devices(se, module):
  """Evaluates pmap_main of a check in a process with four devices."""
  e = {**os.environ, 'XLA_FLAGS': '--xla_force_host_platform_device_count=4',
       'JAX_PLATFORMS': 'cpu', 'PYTHONPATH': env.VERIF}
  code = f'from vf import env\nfrom vf.props import {module}\n{module}.pmap_main()\nprint("pmap ok")'
  r = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, env=e,
                     timeout=300, check=False, cwd=env.VERIF)
  if 'pmap ok' not in r.stdout:
    err = r.stderr.strip().splitlines()
    if any('jax_sgmc' in l and 'File' in l for l in err) or any(
        k in (err or [''])[-1] for k in ('Failure', 'AssertionError')):
      raise Failure(f'on several devices: {err[-1][:300]}', stderr=r.stderr[-2000:])
    raise RuntimeError('no result: ' + r.stderr[-500:])
  se.count('four devices')
