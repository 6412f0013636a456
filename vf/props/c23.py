"""C23: adaption strategies compute the documented estimators."""
import jax
import jax.numpy as jnp
import numpy as onp
from jax import tree_util
import z3

from vf import jx, opaque, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C

F = 'jax_sgmc/adaption.py: '
WRAP = [F + '_adaption.new_init', F + '_adaption.new_update', F + '_adaption.new_get',
        F + 'get_unravel_fn']
tm = tree_util.tree_map


def flat(tree):
  return C._ravel(tree)[0]


def like(vec, tree):
  return C._ravel(tree)[1](vec)


def series(ctx, x, n, name):
  """A tree of the same structure with one entry per iteration."""
  leaves, td = tree_util.tree_flatten(x, is_leaf=lambda l: isinstance(l, jx.SV))
  return tree_util.tree_unflatten(td, [
    ctx.fresh(f'{name}{j}', (ctx.zdim(n),) + tuple(l.shape)) for j, l in enumerate(leaves)])


def run_code(strategy, x0, xs, gs, n, init_args=(), init_kw=None, two=True, kw=None):
  """init, n updates with the given samples and gradients, get."""
  init, update, get = strategy
  st = init(x0, *init_args, **(init_kw or {}))
  st = tm(jnp.asarray, st)
  kw = kw or {}

  def body(s, inp):
    s = update(s, *inp, **kw) if two else update(s, inp[0], **kw)
    return tm(lambda a: jnp.asarray(a), s), None
  st, _ = jax.lax.scan(body, st, (xs, gs) if two else (xs,))
  return st


def tensor(t):
  """Value and kind of a returned quantity."""
  return t.tensor, t.ndim


# ---------------------------------------------------------------- decorator
def prove_wrapper(kind, fields):
  """Strategies on flat vectors act on trees through the flattened vector."""
  def prove(obs):
    ad = C.modules()[4]
    ctx = jx.Ctx()
    x = C.sym_tree(ctx, kind, 'x')
    g = C.shape_like(ctx, x, 'g')
    a, s = ctx.fresh('alpha'), ctx.fresh('st')
    obs.cover('inputs', ctx.hyps)

    def strategy():
      def init(sample, *args, alpha=0.5):
        return opaque.call('i', C.S(), sample, args, alpha)

      def update(state, *args, beta=0.0):
        return opaque.call('u', C.S(), state, args, beta)

      def get(state, *args, gamma=0.0):
        d = args[0].shape[0]
        q = lambda nm, sh: opaque.call(nm, C.S(sh), state, args, gamma)
        return (q('v', (d,)), q('w', (d,))) if fields == 1 else (q('m', (d, d)), q('w', (d,)))
      return init, update, get
    from jax_sgmc.adaption import MassMatrix
    init, update, get = ad.adaption(quantity=MassMatrix)(strategy)()
    si, su, sg = strategy()
    with C.symbolic_lengths():
      def code(x, g, a):
        st = init(x, g, alpha=a)
        st = update(st, x, g, beta=a)
        q = get(st, x, g, gamma=a)
        return st.state, q.inv.tensor, q.sqrt.tensor
      got = ctx.trace(code, x, g, a)

      def want_fn(x, g, a):
        st = si(flat(x), flat(g), alpha=a)
        st = su(st, flat(x), flat(g), beta=a)
        q = sg(st, flat(x), flat(g), gamma=a)
        return st, (like(q[0], x) if fields == 1 else q[0]), like(q[1], x)
      want = ctx.trace(want_fn, x, g, a)
      dims = []
      ctx.trace(lambda x, g, a: (dims.append([t.ndim for t in get(
        update(init(x, g, alpha=a), x, g), x, g)]), x)[1], x, g, a)
    obs.equal(ctx, 'state', got[0], want[0])
    obs.equal(ctx, 'first quantity', got[1], want[1])
    obs.equal(ctx, 'second quantity', got[2], want[2])
    obs.true('kinds of the quantities', dims[0] == [fields, 1], reason=str(dims))
  return prove


def prove_wrapper_none(obs):
  """Arguments which are not given stay absent."""
  ad = C.modules()[4]
  ctx = jx.Ctx()
  x = C.sym_tree(ctx, 'nested', 'x')
  seen = []

  def strategy():
    def init(sample, *args):
      seen.append([a is None for a in args])
      return sample * 2.0
    return init, None, lambda s: (s,)
  from jax_sgmc.adaption import Manifold  # pylint: disable=unused-import
  with C.symbolic_lengths():
    got = ctx.trace(lambda x: ad.adaption()(strategy)()[0](x, None, x).state, x)
    want = ctx.trace(lambda x: flat(x) * 2.0, x)
  obs.equal(ctx, 'state', got, want)
  obs.true('absent arguments', seen == [[True, False]], reason=str(seen))


# ---------------------------------------------------------------- RMSprop
def rms_spec(x0, gs, alpha, lmbd, n):
  """Exponential moving average of the squared gradients, started at one."""
  v = jnp.ones_like(flat(x0))

  def body(v, g):
    return alpha * v + (1 - alpha) * flat(g) * flat(g), None
  v, _ = jax.lax.scan(body, v, gs)
  g = 1 / (lmbd + jnp.sqrt(v))
  return g, jnp.sqrt(g), jnp.zeros_like(g)


def prove_rms(kind, defaults):
  def prove(obs):
    ad = C.modules()[4]
    ctx = jx.Ctx()
    n, = ctx.dims('n')
    x = C.sym_tree(ctx, kind, 'x')
    xs, gs = series(ctx, x, n, 'xs'), series(ctx, x, n, 'gs')
    al, lm = ctx.fresh('alpha'), ctx.fresh('lmbd')
    ctx.hyps += [al.at() >= 0, al.at() <= 1, lm.at() > 0]
    obs.cover('inputs', ctx.hyps)
    kw = lambda a, l: {} if defaults else {'alpha': a, 'lmbd': l}

    def code(x, xs, gs, a, l):
      s = ad.rms_prop()
      st = run_code(s, x, xs, gs, n, init_kw=kw(a, l))
      q = s[2](st, x, x)
      assert [t.ndim for t in q] == [1, 1, 1]
      return [t.tensor for t in q]

    def spec(x, xs, gs, a, l):
      a, l = (0.9, 1e-5) if defaults else (a, l)
      return [like(q, x) for q in rms_spec(x, gs, a, l, n)]
    with C.symbolic_lengths():
      got = ctx.trace(code, x, xs, gs, al, lm)
      for l in ctx.loops:
        l.used = False
      want = ctx.trace(spec, x, xs, gs, al, lm)
    for nm, g, w in zip(('inverse metric', 'square root', 'drift'), got, want):
      obs.equal(ctx, nm, g, w)
  return prove


# ------------------------------------------------------------- mass matrix
def welford(x0, xs, n, full, burn_in, cov):
  """Mean and scatter of the samples, matrix fixed after burn_in samples."""
  f0 = flat(x0)
  d = f0.shape[0]
  zero = jnp.zeros((d, d)) if full else jnp.zeros_like(f0)
  cov = jnp.ones_like(f0) if cov is None else flat(cov)
  if full:
    eye = jnp.arange(d)[:, None] == jnp.arange(d)[None, :]
    diag = lambda v: jnp.where(eye, v[:, None], 0.0)
    inv0, sq0 = diag(cov), diag(1 / jnp.sqrt(cov))
  else:
    inv0, sq0 = cov, 1 / jnp.sqrt(cov)

  def body(c, x):
    t, mean, ssq, inv, sq = c
    x = flat(x)
    t = t + 1
    new = (t - 1) / t * mean + 1 / t * x
    ssq = ssq + ((x - mean)[:, None] * (x - new)[None, :] if full
                 else (x - mean) * (x - new))
    a, b = matrices(ssq / t, full)
    now = t == burn_in
    return (t, new, ssq, jnp.where(now, a, inv), jnp.where(now, b, sq)), None
  c, _ = jax.lax.scan(body, (jnp.array(0), jnp.zeros_like(f0), zero, inv0, sq0), xs)
  return c[3], c[4]


def matrices(cov, full):
  """Inverse mass is the covariance, the mass its inverse, with square root."""
  if not full:
    return cov, jnp.sqrt(1 / cov)
  w, v = jnp.linalg.eigh(cov)
  return cov, jnp.matmul(v, jnp.matmul(jnp.diag(1 / jnp.sqrt(w)), jnp.transpose(v)))


def prove_mass(kind, full, init):
  def prove(obs):
    ad = C.modules()[4]
    ctx = jx.Ctx()
    n, = ctx.dims('n')
    x = C.sym_tree(ctx, kind, 'x')
    cov = C.shape_like(ctx, x, 'cov')
    xs = series(ctx, x, n, 'xs')
    b = ctx.fresh('burn', kind='i')
    ctx.hyps += [b.at() >= 2]
    for l in C.tleaves(cov):
      g = [z3.Int(f'q!{j}') for j in range(l.ndim)]
      ctx.hyps.append(z3.ForAll(g, l.at(*g) > 0) if g else l.at() > 0)
    obs.cover('inputs', [b.at() >= 2])

    def code(x, cov, xs, b):
      s = ad.mass_matrix(diagonal=not full, burn_in=b)
      st = run_code(s, x, xs, None, n, init_args=(cov if init else None,), two=False)
      q = s[2](st)
      assert [t.ndim for t in q] == [2 if full else 1] * 2
      return [t.tensor for t in q]

    def spec(x, cov, xs, b):
      q = welford(x, xs, n, full, b, cov if init else None)
      return list(q) if full else [like(v, x) for v in q]
    with C.symbolic_lengths():
      got = ctx.trace(code, x, cov, xs, b)
      for l in ctx.loops:
        l.used = False
      want = ctx.trace(spec, x, cov, xs, b)
    f = F + 'mass_matrix'
    obs.equal(ctx, 'inverse mass matrix', got[0], want[0], func=f)
    obs.equal(ctx, 'square root of the mass matrix', got[1], want[1], func=f)
  return prove


def prove_mass_lemmas(obs):
  """The recursion yields the covariance; the square root squares to the inverse."""
  f = F + 'mass_matrix.update'
  t, s1, s2, x, s1b, s2ab, xb = z3.Reals('t s1 s2 x s1b s2ab xb')
  # induction step: mean = s1 / t and ssq = s2 - s1 s1b / t for t > 0, else zero
  mean = lambda t, s: z3.If(t > 0, s / t, 0)
  ssq = lambda t, s2, a, b: z3.If(t > 0, s2 - a * b / t, 0)
  tn = t + 1
  new = (tn - 1) / tn * mean(t, s1) + 1 / tn * x
  newb = (tn - 1) / tn * mean(t, s1b) + 1 / tn * xb
  first = z3.And(t == 0, s1 == 0, s1b == 0, s2ab == 0)
  for nm, hy in (('first sample', [first]), ('further samples', [t >= 1])):
    obs.add(f'lemma, {nm}: mean of the samples', T.prove(hy, new == (s1 + x) / tn), f)
    obs.add(f'lemma, {nm}: covariance of the samples', T.prove(
      hy, ssq(t, s2ab, s1, s1b) + (x - mean(t, s1)) * (xb - newb)
      == (s2ab + x * xb) - (s1 + x) * (s1b + xb) / tn), f)
  # A = V L V', S = V E V', R = V D V' with D D = L, D E = E D = 1, V V' = V' V = 1,
  # in any ring (matrices of any size)
  M = z3.DeclareSort('Matrix')
  mul, one = z3.Function('mm', M, M, M), z3.Const('one', M)
  V, W, L, D, E = z3.Consts('V W L D E', M)
  a, b, c = z3.Consts('a b c', M)
  hy = [z3.ForAll([a, b, c], mul(mul(a, b), c) == mul(a, mul(b, c)),
                  patterns=[mul(mul(a, b), c)]),
        z3.ForAll([a, b, c], mul(mul(a, b), c) == mul(a, mul(b, c)),
                  patterns=[mul(a, mul(b, c))]),
        z3.ForAll([a], mul(a, one) == a), z3.ForAll([a], mul(one, a) == a)]
  orth, inv, root = [mul(V, W) == one, mul(W, V) == one], [mul(D, E) == one, mul(E, D) == one], [
    mul(D, D) == L]
  sand = lambda x: mul(V, mul(x, W))
  A, S, R = sand(L), sand(E), sand(D)
  for nm, goal, hs in (
      ('root times inverse root', mul(S, R) == one, orth + inv),
      ('inverse root times root', mul(R, S) == one, orth + inv),
      ('square of the root', mul(R, R) == A, orth + root),
      ('square of the inverse root times the matrix', mul(mul(S, S), A) == one,
       orth + inv + root)):
    obs.add(f'lemma: {nm}', T.prove(hy + hs, goal), f)


# ------------------------------------------------------------------ fisher
def minibatch(n):
  from jax_sgmc.data.core import MiniBatchInformation

  def pot(sample, reference_data, state=None, mask=None, likelihoods=False):
    b, info = reference_data
    args = (sample, b, state)
    u = opaque.call('U', C.S(), *args)
    if likelihoods:
      return u, (opaque.call('L', C.S((n,)), *args), state)
    return u, state

  def batch(bx, big_n):
    return {'x': bx}, MiniBatchInformation(observation_count=big_n, batch_size=n,
                                           mask=jnp.ones(n, dtype=bool))
  return pot, batch


def fisher_diag(grads, mean, friction, eps, n):
  """Noise model from the gradients of the likelihoods of all observations."""
  v = jnp.sum((grads - mean[None, :]) ** 2, axis=0) / (n - 1)
  b = 0.5 * eps * v
  rest = friction - b
  smallest = jnp.min(jnp.where(rest <= 0, jnp.inf, rest))
  rest = jnp.where(rest <= 0, smallest, rest)
  return jnp.sqrt(rest), jnp.sqrt(friction - rest)


def fisher_full(grads, mean, friction, eps, n):
  diff = grads - mean[None, :]
  v = jnp.sum(diff[:, :, None] * diff[:, None, :], axis=0) / (n - 1)
  b = 0.5 * eps * v
  d = friction.shape[0]
  eye = jnp.arange(d)[:, None] == jnp.arange(d)[None, :]
  out = []
  for m in (jnp.where(eye, friction[:, None], 0.0) - b, b):
    u, s, _ = jnp.linalg.svd(m)
    out.append(jnp.dot(u, jnp.diag(jnp.sqrt(s))))
  return tuple(out)


def prove_fisher(kind, full, model_state, nb=3):
  def prove(obs):
    ad = C.modules()[4]
    ctx = jx.Ctx()
    n = ctx.dims('m')[0] if nb is None else nb
    x = C.sym_tree(ctx, kind, 'x')
    g, fr = C.shape_like(ctx, x, 'g'), C.shape_like(ctx, x, 'f')
    bx = ctx.fresh('bx', (ctx.zdim(n),))
    eps, big = ctx.fresh('eps'), ctx.fresh('N')
    ms = ctx.fresh('ms')
    ctx.hyps += [eps.at() > 0, big.at() >= 1]
    if nb is None:
      ctx.hyps.append(ctx.zdim(n) >= 2)
    obs.cover('inputs', ctx.hyps)
    pot, batch = minibatch(n)

    def code(x, g, fr, bx, eps, big, ms):
      init, update, get = ad.fisher_information(minibatch_potential=pot, diagonal=not full)
      mb = batch(bx, big)
      st = init(x)
      st = update(st, x, g, fr, mini_batch=mb, step_size=eps)
      q = get(st, x, g, fr, mini_batch=mb, step_size=eps,
              model_state=ms if model_state else None)
      assert [t.ndim for t in q] == [2 if full else 1] * 2
      return [t.tensor for t in q]

    def spec(x, g, fr, bx, eps, big, ms):
      mb = batch(bx, big)
      un = C._ravel(x)[1]
      ls = lambda v: pot(un(v), mb, state=ms if model_state else None, likelihoods=True)[1][0]
      grads = jax.vmap(lambda k: jax.grad(lambda v: ls(v)[k])(flat(x)))(jnp.arange(n))
      mean = flat(g) / -big
      r = (fisher_full if full else fisher_diag)(grads, mean, flat(fr), eps, n)
      return list(r) if full else [like(q, x) for q in r]
    with C.symbolic_lengths():
      got = ctx.trace(code, x, g, fr, bx, eps, big, ms)
      want = ctx.trace(spec, x, g, fr, bx, eps, big, ms)
    f = F + 'fisher_information.get'
    obs.equal(ctx, 'root of the reduced noise', got[0], want[0], func=f)
    obs.equal(ctx, 'root of the noise', got[1], want[1], func=f)
  return prove


# ----------------------------------------------------------- running code
def rand_tree(rng, kind):
  return C.num_tree(rng, kind, sizes=(2, 3))


def nflat(tree):
  return onp.concatenate([onp.asarray(l, 'float64').ravel() for l in C.tleaves(tree)])


def search_rms(se):
  ad = C.modules()[4]
  i = 0
  while se.more() or i < 4:
    i += 1
    rng = se.rng
    kind = rng.choice(C.KINDS)
    n = se.size([0, 1, 2, 6], 'n', low=0, limit=300)
    kw = {} if i % 3 == 0 else dict(alpha=se.value([0.1, 0.5, 0.99], 0, 1),
                                    lmbd=se.value([1e-5, 0.1, 3.0], 1e-6, 10))
    scale = se.value([1.0, 1.0, 1e-3, 1e5], 1e-4, 1e6)
    case = dict(kind=kind, updates=n, **kw)
    init, update, get = ad.rms_prop()
    x = rand_tree(rng, kind)
    st = init(x, **kw)
    al, lm = kw.get('alpha', 0.9), kw.get('lmbd', 1e-5)
    v = onp.ones_like(nflat(x))
    for _ in range(n):
      g = tm(lambda l: scale * l, rand_tree(rng, kind))
      st = update(st, rand_tree(rng, kind), g, mini_batch=None)
      v = al * v + (1 - al) * nflat(g) ** 2
    m = get(st, x, x, mini_batch=None)
    want = 1 / (lm + onp.sqrt(v))
    for nm, q, w in (('g_inv', m.g_inv, want), ('sqrt_g_inv', m.sqrt_g_inv, want ** 0.5),
                     ('gamma', m.gamma, 0 * want)):
      if tree_util.tree_structure(q.tensor) != tree_util.tree_structure(x):
        raise Failure(f'{nm}: structure', **case)
      C.close(nflat(q.tensor).astype('f'), w.astype('f'), nm, rtol=1e-3, **case)
    se.count(case)


def search_mass(se):
  ad = C.modules()[4]
  i = 0
  while se.more() or i < 6:
    i += 1
    rng = se.rng
    full = i % 2 == 0
    kind = rng.choice(C.KINDS[:3] if full else C.KINDS)
    x = rand_tree(rng, kind)
    d = nflat(x).size
    burn = (max(d + 2, se.size([d + 2, d + 5, 2 * d + 6])) if full
            else se.size([2, 3, 7], 'burn', low=2, limit=400))
    after = rng.choice([-1, 0, 1, 4])
    scale, mean = se.value([1.0, 1.0, 1e-2, 50.0], 1e-2, 50), rng.choice([0.0, 0.0, 3.0])
    cov = rng.choice([None, rand_tree(rng, kind)])
    if cov is not None:
      cov = tm(lambda l: jnp.abs(l) + 0.3, cov)
    case = dict(kind=kind, diagonal=not full, burn_in=burn, updates=burn + after,
                init_cov=cov is not None)
    init, update, get = ad.mass_matrix(diagonal=not full, burn_in=burn)
    st = init(x, cov)
    xs = []
    for _ in range(burn + after):
      s = tm(lambda l: scale * (l + mean), rand_tree(rng, kind))
      st = update(st, s)
      xs.append(nflat(s))
    m = get(st)
    if after < 0:
      c = onp.ones(d) if cov is None else nflat(cov)
      inv = onp.diag(c) if full else c
    else:
      y = onp.array(xs[:burn])
      y = y - y.mean(0)
      inv = y.T @ y / burn if full else (y * y).mean(0)
    if full:
      C.close(onp.asarray(m.inv.tensor), inv.astype('f'), 'inverse', rtol=2e-3, atol=1e-3, **case)
      s = onp.asarray(m.sqrt.tensor, 'float64')
      C.close((s @ s.T @ inv).astype('f'), onp.eye(d, dtype='f'),
              'square of the root times inverse', rtol=2e-2, atol=2e-2, **case)
    else:
      C.close(nflat(m.inv.tensor).astype('f'), inv.astype('f'), 'inverse', rtol=2e-3, atol=1e-4, **case)
      C.close(nflat(m.sqrt.tensor).astype('f'), (inv ** -0.5).astype('f'), 'root', rtol=2e-3,
              atol=1e-3, **case)
      if tree_util.tree_structure(m.inv.tensor) != tree_util.tree_structure(x):
        raise Failure('structure', **case)
    se.count(case)


def search_fisher(se):
  ad = C.modules()[4]
  pm = C.modules()[3]
  from jax_sgmc.data.core import MiniBatchInformation
  i = 0
  while se.more() or i < 6:
    i += 1
    rng = se.rng
    full = i % 2 == 0
    kind = rng.choice(C.KINDS[:3] if full else C.KINDS)
    x = rand_tree(rng, kind)
    d = nflat(x).size
    n, big = se.size([2, 3, 5], 'm', low=2), se.size([5, 20], limit=1000)
    state = rng.random() < 0.5
    data = onp.random.default_rng(i).normal(size=(n, d)).astype('f')
    strategy = rng.choice(['vmap', 'map'])
    case = dict(kind=kind, diagonal=not full, batch=n, observations=big, model_state=state,
                strategy=strategy)
    vec = lambda t: jnp.concatenate([jnp.ravel(l) for l in C.tleaves(t)])
    if state:
      like_fn = lambda st, s, o: (st['a'] * jnp.sum(jnp.sin(vec(s) * o['z'])), st)
    else:
      like_fn = lambda s, o: 2.0 * jnp.sum(jnp.sin(vec(s) * o['z']))
    pot = pm.minibatch_potential(lambda s: 0.0, like_fn, strategy=strategy, has_state=state)
    ms = {'a': jnp.array(2.0)} if state else None
    info = MiniBatchInformation(observation_count=big, batch_size=n, mask=jnp.ones(n, bool))
    mb = ({'z': jnp.asarray(data)}, info)
    g = jax.grad(lambda s: pot(s, mb, state=ms)[0])(x)
    eps = 0.05
    fr = tm(lambda l: jnp.abs(l) + 1.0, rand_tree(rng, kind))
    xv = nflat(x)
    grads = 2.0 * data * onp.cos(xv * data)
    diff = grads - grads.mean(0)
    b = 0.5 * eps * diff.T @ diff / (n - 1)
    low = not full and rng.random() < 0.4
    if low:    # the estimate exceeds some of the friction
      f = onp.diag(b) * onp.array([2.0] + [rng.choice([0.5, 0.9, 0.99, 1.1, 3.0]) for _ in range(d - 1)])
      fr = tm(lambda l: l.astype(jnp.float32), C._ravel(x)[1](jnp.asarray(f)))
      case['friction'] = f.tolist()
    init, update, get = ad.fisher_information(minibatch_potential=pot, diagonal=not full)
    st = update(init(x), x, g, fr, mini_batch=mb)
    q = get(st, x, g, fr, mini_batch=mb, step_size=eps, model_state=ms)
    if low:
      rest = f - onp.diag(b)
      rest = onp.where(rest > 0, rest, rest[rest > 0].min())
      C.close(nflat(q.cb_diff_sqrt.tensor).astype('f'), onp.sqrt(rest).astype('f'),
              'root of the reduced noise', rtol=5e-3, atol=1e-5, **case)
    elif full:
      for nm, got, want in (('reduced noise', q.cb_diff_sqrt, onp.diag(nflat(fr)) - b),
                            ('noise', q.b_sqrt, b)):
        s = onp.asarray(got.tensor, 'float64')
        C.close((s @ s.T).astype('f'), want.astype('f'), f'square of the root of the {nm}',
                rtol=1e-2, atol=1e-3, **case)
    else:
      C.close(nflat(q.cb_diff_sqrt.tensor).astype('f'), (onp.sqrt(nflat(fr) - onp.diag(b))).astype('f'),
              'root of the reduced noise', rtol=2e-3, atol=1e-4, **case)
      C.close(nflat(q.b_sqrt.tensor).astype('f') ** 2, onp.diag(b).astype('f'),
              'noise', rtol=1e-2, atol=1e-3, **case)
    se.count(case)


def check():
  R = [F + 'rms_prop'] + WRAP
  M = [F + 'mass_matrix'] + WRAP
  I = [F + 'fisher_information'] + WRAP
  units = [
    Unit('strategies on trees, diagonal quantities', WRAP, prove_wrapper('nested', 1)),
    Unit('strategies on trees, matrices', WRAP, prove_wrapper('dict', 2)),
    Unit('strategies on trees, absent arguments', WRAP, prove_wrapper_none),
    Unit('RMSprop', R, prove_rms('dict', False), search_rms),
    Unit('RMSprop, defaults', R, prove_rms('nested', True)),
    Unit('mass matrix, diagonal', M, prove_mass('dict', False, True), search_mass),
    Unit('RMSprop, many leaves', R, prove_rms('wide', False)),
    Unit('mass matrix, diagonal, many leaves', M, prove_mass('wide', False, True)),
    Unit('strategies on trees, many leaves', WRAP, prove_wrapper('wide', 1)),
    Unit('mass matrix, diagonal, no initial covariance', M, prove_mass('leaf', False, False)),
    Unit('mass matrix, full', M, prove_mass('dict', True, True)),
    Unit('mass matrix, full, no initial covariance', M, prove_mass('leaf', True, False)),
    Unit('mass matrix, estimator', M, prove_mass_lemmas),
    Unit('Fisher information, diagonal', I, prove_fisher('dict', False, False), search_fisher),
    Unit('Fisher information, diagonal, model state', I, prove_fisher('leaf', False, True)),
    Unit('Fisher information, diagonal, any batch size', I, prove_fisher('leaf', False, False, None)),
    Unit('Fisher information, many leaves', I, prove_fisher('wide', False, False)),
    Unit('Fisher information, full', I, prove_fisher('leaf', True, False))]
  return Check('C23', 'Adaption strategies', units=units, assumptions=[
    'jnp.linalg.eigh and svd return the decompositions of their argument (evaluated on the '
    'running code)',
    'jax.flatten_util.ravel_pytree concatenates the leaves in order',
    'at least two samples in the burn in',
    'four tree structures with leaves of symbolic size stand for all trees'])
