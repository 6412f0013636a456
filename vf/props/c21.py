"""C21: every random draw and every batch is used exactly once."""
import itertools

import jax
import jax.numpy as jnp
from jax import tree_util
import z3

from vf import jx, opaque, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C

tm = tree_util.tree_map
SOL = 'jax_sgmc/solver.py: '
INT = 'jax_sgmc/integrator.py: '


# ------------------------------------------------------------ components
class Loader:
  """Loader by contract: state s serves batch(s) and leaves s + 1."""

  def __init__(self, n_batch=2):
    self.n = n_batch
    self.chains = 0

  def fns(self):
    from jax_sgmc.data.core import MiniBatchInformation

    def init(**kw):
      self.chains += 1
      return opaque.call(f'serve{self.chains}', C.S((), 'int32'), jnp.array(0))

    def get(state, information=False):
      opaque.request('batch', state)
      b = {'x': opaque.call('batch_x', C.S((self.n,)), state)}
      info = MiniBatchInformation(observation_count=7, batch_size=self.n,
                                  mask=jnp.ones(self.n, dtype=bool))
      return state + 1, ((b, info) if information else b)
    return init, get, lambda: None

  def full(self):
    def init(**kw):
      return opaque.call('serve_full', C.S((), 'int32'), jnp.array(0))
    return init, None, lambda: None


def potential(ms):
  def pot(sample, reference_data, state=None, mask=None, likelihoods=False):
    args = (sample, reference_data[0], state)
    u = opaque.call('U', C.S(), *args)
    new = None if state is None else opaque.call('M', C.S(), *args)
    return u, ((opaque.call('L', C.S((2,)), *args), new) if likelihoods else new)
  return pot


def full_potential(sample, data_state, full_data_map_fn=None, state=None):
  opaque.request('full pass', data_state)
  u = opaque.call('FU', C.S(), sample, state)
  new = None if state is None else opaque.call('FM', C.S(), sample, state)
  return u, (data_state + 1, new)


def mass_adaption():
  """Adaption by contract."""
  from jax_sgmc.adaption import MassMatrix
  from jax_sgmc.util import Tensor
  ap = lambda nm, like, *a: tree_util.tree_map_with_path(
    lambda p, l: opaque.call(nm + tree_util.keystr(p), C.S(jnp.shape(l)), *a), like)

  def init(sample, *args):
    return ap('mi', sample, sample)

  def update(state, sample):
    return ap('mu', state, state, sample)

  def get(state):
    return MassMatrix(inv=Tensor(1, ap('mg', state, state)),
                      sqrt=Tensor(1, ap('ms', state, state)))
  return init, update, get


def build(method, steps, adapt=False, **kw):
  """The composed solver and the function which runs one update."""
  integ, solver = C.modules()[:2]
  ld = Loader()
  pot, batch = potential(True), ld.fns()
  mk = {'mass_adaption': mass_adaption()} if adapt else {}
  if method == 'sgld':
    s = solver.sgmc(integ.langevin_diffusion(pot, batch))
  elif method == 'sghmc':
    s = solver.sgmc(integ.friction_leapfrog(pot, batch, steps=steps))
  elif method == 'obabo':
    s = solver.sgmc(integ.obabo(pot, batch, steps=steps))
  elif method == 'leapfrog':
    s = solver.sgmc(integ.reversible_leapfrog(pot, batch, steps=steps))
  elif method == 'resgld':
    s = solver.parallel_tempering(integ.langevin_diffusion(pot, batch))
  elif method == 'amagold':
    s = solver.amagold(integ.reversible_leapfrog(pot, batch, steps=steps),
                       full_potential, ld.full(), **mk)
  elif method == 'sggmc':
    s = solver.sggmc(integ.obabo(pot, batch, steps=steps), full_potential, ld.full(), **mk)
  return s


# ------------------------------------------------------------ key algebra
class Keys:
  """Decides whether keys are unrelated (neither is derived from the other)."""

  def __init__(self, ctx, obs, func, bounded=None):
    self.ctx, self.obs, self.func, self.bounded = ctx, obs, func, bounded

  @staticmethod
  def alternatives(k, hyps=()):
    """[(hypotheses, root, path)] of a key term."""
    if not z3.is_app(k):
      return None
    n, kind = k.decl().name(), k.decl().kind()
    if kind == z3.Z3_OP_ITE:
      a = Keys.alternatives(k.arg(1), tuple(hyps) + (k.arg(0),))
      b = Keys.alternatives(k.arg(2), tuple(hyps) + (z3.Not(k.arg(0)),))
      return None if a is None or b is None else a + b
    if n in ('split', 'fold'):
      r = Keys.alternatives(k.arg(0), hyps)
      step = ('split', k.arg(1), k.arg(2)) if n == 'split' else ('fold', k.arg(1))
      return None if r is None else [(h, root, path + (step,)) for h, root, path in r]
    return [(tuple(hyps), k, ())]

  def loop_of(self, root):
    """(loop, its initial keys) if the root is the key carried by a loop."""
    nm = root.decl().name()
    if nm not in self.ctx.loop_uf:
      return None
    lp, _, role = self.ctx.loop_uf[nm]
    init = []
    for j, c in enumerate(lp.init):
      if lp.is_key[j]:
        init.append(self.ctx.key_at(c))
    return lp, role, init

  def base(self, alt):
    """Roots outside of all loops from which the key is derived."""
    _, root, _ = alt
    l = self.loop_of(root)
    if l is None:
      return [root]
    out = []
    for k in l[2]:
      for a in self.alternatives(k) or [((), k, ())]:
        out += self.base(a)
    return out

  def unrelated(self, k1, k2, hyps=()):
    """Result of the obligation: k1 and k2 are unrelated."""
    a1, a2 = self.alternatives(k1), self.alternatives(k2)
    for x, y in itertools.product(a1, a2):
      r = self._unrelated(x, y, list(hyps) + list(x[0]) + list(y[0]))
      if r.status != 'proved':
        return r
    return T.Result('proved', 'z3', reason='')

  def _unrelated(self, x, y, hyps):
    r1, r2 = x[1], y[1]
    l1, l2 = self.loop_of(r1), self.loop_of(r2)
    if l1 and l2 and l1[0] is l2[0]:
      if l1[1] != l2[1] or not r1.eq(r2):
        # same loop: induction, from the obligations on one iteration
        return T.Result('proved', 'lemma')
    elif l1 or l2:
      # a key of the loop is derived from one of the keys it started with
      (lo, ot) = (l1, y) if l1 and not (l2 and self._inside(l2, l1)) else (l2, x)
      for k in lo[2]:
        for a in self.alternatives(k):
          r = self._unrelated(a, ot, hyps + list(a[0]))
          if r.status != 'proved':
            return r
      return T.Result('proved', 'lemma')
    elif not r1.eq(r2):
      return T.Result('proved', 'structural')    # invariant of the initial keys
    goal = []
    for s1, s2 in zip(x[2], y[2]):
      goal.append(z3.BoolVal(True) if s1[0] != s2[0] else
                  z3.Or([a != b for a, b in zip(s1[1:], s2[1:])]))
    return self.ctx.prove(z3.Or(goal) if goal else z3.BoolVal(False), hyps)

  @staticmethod
  def _inside(a, b):
    return a[0].id < b[0].id


def check_keys(ctx, obs, roots, draws, live, func, what):
  """Draws and keys handed on are pairwise unrelated and stem from the state."""
  K = Keys(ctx, obs, func)
  ent = []
  for n, (nm, k, ix, rg, active) in enumerate(draws):
    ent.append((f'draw {n} ({nm})', k, ix, rg, active))
  for n, k in enumerate(live):
    ent.append((f'handed key {n}', k, [], [], []))
  for name, k, *_ in ent:
    alts = K.alternatives(k)
    if alts is None:
      obs.add(f'{what}: origin of {name}', T.Result('unknown', '', reason=str(k)[:100]), func)
      return
    bad = [r for a in alts for r in K.base(a) if not any(r.eq(q) for q in roots)]
    if any(z3.is_app(r) and r.decl().name() in ('mk',) and not all(
        z3.is_int_value(c) for c in r.children()) for r in bad):
      obs.add(f'{what}: origin of {name}', T.Result('unknown', '', reason=str(bad)[:200]), func)
      return
    obs.true(f'{what}: {name} stems from the keys of the state', not bad, func,
             f'derived from {[str(b)[:60] for b in bad]}')
  # within an iteration / a step
  for (n1, k1, i1, h1, a1), (n2, k2, i2, h2, a2) in itertools.combinations(ent, 2):
    # independent iterations unless both are in the same one: keys which do not
    # stem from the carried key are compared for all pairs of iterations
    hy = list(h1) + list(h2)
    k2s = k2
    same = [t for t, _ in a1 if any(t.eq(u) for u, _ in a2)]
    obs.add(f'{what}: {n1} and {n2} are unrelated', K.unrelated(k1, k2s, hy), func)
    if same and not carried(ctx, K, k1) and not carried(ctx, K, k2):
      sub, hy2 = fresh_iterations(a2, same)
      obs.add(f'{what}: {n1} and {n2} are unrelated in other iterations',
              K.unrelated(k1, z3.substitute(k2, *sub), hy + hy2), func)
  # a draw is repeated in every iteration and for every entry
  for n1, k1, i1, h1, a1 in ent:
    if i1:
      i2 = [z3.Int(f'{i}!b') for i in i1]
      sub = list(zip(i1, i2))
      hy = h1 + [z3.substitute(h, *sub) for h in h1] + [z3.Or([x != y for x, y in sub])]
      obs.add(f'{what}: entries of {n1} use unrelated keys',
              K.unrelated(k1, z3.substitute(k1, *sub), hy), func)
    if a1 and not carried(ctx, K, k1):
      sub, hy = fresh_iterations(a1, [t for t, _ in a1])
      hy.append(z3.Or([x != y for x, y in sub]))
      obs.add(f'{what}: {n1} uses unrelated keys in all iterations',
              K.unrelated(k1, z3.substitute(k1, *sub), list(h1) + hy), func)
  # carried keys of loops: hypotheses of the induction
  for lp in ctx.loops:
    keys = [ctx.key_at(lp.next[j]) for j in range(len(lp.init)) if lp.is_key[j]]
    inner = [e for e in ent if any(t.eq(lp.t) for t, _ in e[4])]
    for n, k in enumerate(keys):
      if K.alternatives(k) is None:
        obs.add(f'{what}: key handed to the next iteration', T.Result('unknown', ''), func)
        continue
      ok = all(any(a[1].eq(ctx.key_at(c)) for c, y in zip(lp.carry, lp.is_key) if y)
               for a in K.alternatives(k))
      obs.add(f'{what}: key {n} of the next iteration stems from the current one',
              T.Result('proved' if ok else 'unknown', 'structural'), func)
      for name, dk, ix, hy, act in inner:
        obs.add(f'{what}: {name} is unrelated to key {n} of the next iteration',
                K.unrelated(dk, k, hy), func)
    for (n, k), (m, l) in itertools.combinations(enumerate(keys), 2):
      obs.add(f'{what}: keys {n}, {m} of the next iteration', K.unrelated(k, l), func)


def carried(ctx, K, k):
  return all(K.loop_of(a[1]) is not None for a in K.alternatives(k) or [])


def fresh_iterations(active, ts):
  sub, hy = [], []
  for t, length in active:
    if any(t.eq(x) for x in ts):
      u = z3.Int(f'{t}!b')
      sub.append((t, u))
      hy += [u >= 0, u < jx.iv(length)]
  return sub, hy


def check_requests(ctx, obs, before, after, effects, func, what, kind):
  """Requests continue each other; none is repeated, none is skipped."""
  reqs = [(z3.simplify(a[0].at()), act) for nm, a, act in effects if nm == kind]
  if not before:
    obs.true(f'{what}: {kind} requests', not reqs, func)
    return
  obs.true(f'{what}: a {kind} is requested', bool(reqs), func, 'no request')
  # each request belongs to the chain whose state it continues
  total = [z3.IntVal(0)] * len(before)
  own = []
  for n, (c, act) in enumerate(reqs):
    mine = [j for j, b in enumerate(before) if jx._mentions(c, [b])]
    if len(mine) != 1:
      obs.add(f'{what}: {kind} {n} belongs to a chain', T.Result(
        'unknown', '', reason=str(c)[:200]), func)
      return
    j, = mine
    own.append(j)
    m = z3.IntVal(1)
    for _, length in act:
      m = m * jx.iv(length)
    total[j] = total[j] + m
  hy = lambda act: []
  for (n, (c1, a1)), (m, (c2, a2)) in itertools.combinations_with_replacement(
      list(enumerate(reqs)), 2):
    if own[n] != own[m]:
      continue
    sub, rg = fresh_iterations(a2, [t for t, _ in a2])
    if n == m and not a1:
      continue
    other = [z3.Or([x != y for x, y in sub])] if n == m else []
    c2b = z3.substitute(c2, *sub) if sub else c2
    obs.prove(ctx, f'{what}: {kind} {n} and {m} are different', c1 != c2b,
              hyps=rg + other, func=func)
  for n, (c, act) in enumerate(reqs):
    b = before[own[n]]
    obs.prove(ctx, f'{what}: {kind} {n} continues the chain',
              z3.And(c >= b, c < b + total[own[n]]), func=func)
  # handed on: all states, in any order
  alts = []
  for p in itertools.permutations(range(len(before))):
    alts.append(z3.And([after[q] == before[p[q]] + total[p[q]] for q in range(len(before))]))
  obs.prove(ctx, f'{what}: the state after the last {kind} is handed on', z3.Or(alts), func=func)


# ------------------------------------------------------------ proofs
def classify(ctx, leaf):
  """Role of a leaf of the solver state."""
  if leaf.kind == 'i' and leaf.ndim == 1 and leaf.shape[0] == 2 and isinstance(leaf.shape[0], int):
    k = ctx.key_at(leaf)
    if not (z3.is_app(k) and k.decl().name() == 'mk') or True:
      w = z3.simplify(leaf.at(0))
      if z3.is_app(w) and (w.decl().eq(T.kword) or w.decl().kind() == z3.Z3_OP_ITE):
        return 'key'
      if z3.is_int_value(w):
        return 'constant key'
  if leaf.kind == 'i' and leaf.ndim == 0:
    names = [a.decl().name() for a in T.apps([leaf.at()])]
    if any(n.startswith('U_serve_full') for n in names):
      return 'full pass'
    if any(n.startswith('U_serve') for n in names):
      return 'batch'
  return None


def make(method, kind, adapt=False):
  def prove(obs):
    ctx = jx.Ctx()
    n, = ctx.dims('n')
    solver = build(method, n, adapt)
    init, update, _ = solver
    x = C.sym_tree(ctx, kind, 'x')
    x2 = C.shape_like(ctx, x, 'y')
    key, ms = ctx.key('k0'), ctx.fresh('ms')
    fi = {'sgld': INT + 'langevin_diffusion', 'sghmc': INT + 'friction_leapfrog',
          'obabo': INT + 'obabo', 'leapfrog': INT + 'reversible_leapfrog',
          'resgld': SOL + 'parallel_tempering', 'amagold': SOL + 'amagold',
          'sggmc': SOL + 'sggmc'}[method]
    integ = C.modules()[0]
    with C.symbolic_lengths(integ):
      first = (lambda x, y, k, m: init(x, y, key=k, init_model_state=m)) if method == 'resgld' \
        else (lambda x, y, k, m: init(x, key=k, init_model_state=m))
      st = ctx.trace(first, x, x2, key, ms)
    leaves, td = tree_util.tree_flatten(st, is_leaf=lambda l: isinstance(l, jx.SV))
    roles = [classify(ctx, l) for l in leaves]
    obs.true('initial state: all keys stem from the given key', 'constant key' not in roles,
             fi, 'constant key in the state')
    live = [ctx.key_at(l) for l, r in zip(leaves, roles) if r == 'key']
    obs.true('the state holds random state', bool(live), fi, 'no key')
    check_keys(ctx, obs, [ctx.key_at(key)], ctx.draws, live, fi, 'initial state')
    nd = sum(r == 'batch' for r in roles)
    obs.true('the state holds the data state of every chain', nd == (
      2 if method == 'resgld' else 1), fi, f'{nd} data states')
    # an arbitrary state: unrelated keys, any data state
    ctx2 = jx.Ctx()
    n, = ctx2.dims('n')
    C.sym_tree(ctx2, kind, 'x')
    init, update, _ = build(method, n, adapt)
    new, keys, count = [], [], {'batch': [], 'full pass': []}
    for j, (l, r) in enumerate(zip(leaves, roles)):
      if r in ('key', 'constant key'):
        new.append(ctx2.key(f'key{j}'))
        keys.append(ctx2.key_at(new[-1]))
      else:
        new.append(ctx2.fresh(f'leaf{j}', l.shape, l.kind))
        if r in count:
          count[r].append(new[-1].at())
    for c in count['batch'] + count['full pass']:
      ctx2.hyps.append(c >= 0)
    state = tree_util.tree_unflatten(td, new)
    sch = [C.sym_sched(ctx2, s) for s in (('c', 'h') if method == 'resgld' else ('',))]
    for s in sch:
      ctx2.hyps.append(s.temperature.at() > 0)
    obs.cover('state', ctx2.hyps)
    with C.symbolic_lengths(integ):
      out = ctx2.trace(lambda s, *sc: update(s, *sc)[0], state, *sch)
    lo, tdo = tree_util.tree_flatten(out, is_leaf=lambda l: isinstance(l, jx.SV))
    if not obs.true('structure of the state', tdo == td, fi, f'{tdo} {td}'):
      return
    live = [ctx2.key_at(l) for l, r in zip(lo, roles) if r in ('key', 'constant key')]
    check_keys(ctx2, obs, keys, ctx2.draws, live, fi, 'update')
    for kd, before in count.items():
      after = [l.at() for l, r in zip(lo, roles) if r == kd]
      check_requests(ctx2, obs, before, after, ctx2.effects, fi, 'update', kd)
  return prove


# ------------------------------------------------------------ running code
class Counting:
  """Loader which records the requests of the running code."""

  def __init__(self):
    self.log = []
    self.chains = 0

  def fns(self, kind='batch'):
    from jax_sgmc.data.core import MiniBatchInformation

    def init(**kw):
      self.chains += 1
      return {'chain': jnp.array(self.chains), 'served': jnp.array(0)}

    def get(state, information=False):
      self.log.append((kind, int(state['chain']), int(state['served'])))
      b = {'x': jnp.array([0.3, -0.2]) + 0.01 * state['served']}
      info = MiniBatchInformation(observation_count=7, batch_size=2,
                                  mask=jnp.ones(2, dtype=bool))
      return {**state, 'served': state['served'] + 1}, ((b, info) if information else b)
    return init, get, lambda: None


def search_for(method, adapt=False):
  def search(se):
    integ, solver = C.modules()[:2]
    i = 0
    while se.more() or i < 3:
      i += 1
      rng = se.rng
      steps = se.size([1, 2, 3], 'n', 'steps', limit=25)
      cnt = Counting()
      batch, full = cnt.fns(), cnt.fns('full pass')

      def pot(sample, reference_data, state=None, mask=None, likelihoods=False):
        b = reference_data[0]['x']
        u = sum(jnp.sum((l - jnp.sum(b)) ** 2) for l in C.tleaves(sample))
        new = None if state is None else state + 1
        return u, ((-b, new) if likelihoods else new)

      def fpot(sample, data_state, full_data_map_fn=None, state=None):
        data_state, _ = full[1](data_state)
        return (sum(jnp.sum(l ** 2) for l in C.tleaves(sample)) * 0.1,
                (data_state, None if state is None else state + 1))
      from jax_sgmc import adaption
      mk = {'mass_adaption': adaption.mass_matrix(diagonal=True, burn_in=2)} if adapt else {}
      fl = (full[0], None, full[2])
      s = {'sgld': lambda: solver.sgmc(integ.langevin_diffusion(pot, batch)),
           'sghmc': lambda: solver.sgmc(integ.friction_leapfrog(pot, batch, steps=steps)),
           'obabo': lambda: solver.sgmc(integ.obabo(pot, batch, steps=steps)),
           'leapfrog': lambda: solver.sgmc(integ.reversible_leapfrog(pot, batch, steps=steps)),
           'resgld': lambda: solver.parallel_tempering(integ.langevin_diffusion(pot, batch)),
           'amagold': lambda: solver.amagold(
             integ.reversible_leapfrog(pot, batch, steps=steps), fpot, fl, **mk),
           'sggmc': lambda: solver.sggmc(integ.obabo(pot, batch, steps=steps), fpot, fl, **mk),
           }[method]()
      kind = rng.choice(C.KINDS)
      x = C.num_tree(rng, kind, sizes=(2, 3))
      case = dict(method=method, steps=steps, kind=kind, updates=4, seed=i)
      ms = rng.choice([None, jnp.array(0)])
      with jax.disable_jit(), C.recorded_keys() as used:
        k = dict(key=jax.random.PRNGKey(i), init_model_state=ms)
        st = s[0](x, tm(lambda l: l + 0.5, x), **k) if method == 'resgld' else s[0](x, **k)
        for _ in range(4):
          sc = [C.sched(jnp.array(0.05), jnp.array(1.0)), C.sched(jnp.array(0.05), jnp.array(2.0))]
          st, _ = s[1](st, *(sc if method == 'resgld' else sc[:1]))
      C.check_keys_distinct(used, 'random draws', **case)
      for ch in sorted({(a, b) for a, b, _ in cnt.log}):
        served = [c for a, b, c in cnt.log if (a, b) == ch]
        if served != list(range(len(served))):
          raise Failure(f'{ch[0]} requests of a chain: {served[:8]}', **case)
      per = {'sgld': 1, 'sghmc': steps, 'obabo': 2 * steps, 'leapfrog': steps, 'resgld': 1,
             'amagold': steps, 'sggmc': 2 * steps}[method]
      want = 4 * per * (2 if method == 'resgld' else 1)
      got = sum(a == 'batch' for a, _, _ in cnt.log)
      if got != want:
        raise Failure(f'{got} batches were requested instead of {want}', **case)
      se.count(case)
  return search


# ------------------------------------------------------------ device loader
def prove_device(obs):
  """Random batches of the device loader: one draw per request."""
  from jax_sgmc.data import numpy_loader
  import numpy as onp
  f = 'jax_sgmc/data/numpy_loader.py: DeviceNumpyDataLoader.get_random_data'
  ctx = jx.Ctx()
  dl = numpy_loader.DeviceNumpyDataLoader(x=onp.arange(6.0))
  from jax_sgmc import data
  init, get, _ = data.random_reference_data(dl, 1, 2)
  key = ctx.key('k0')
  st = ctx.trace(lambda k: init(key=k), key)
  leaves, td = tree_util.tree_flatten(st, is_leaf=lambda l: isinstance(l, jx.SV))
  roles = [classify(ctx, l) for l in leaves]
  check_keys(ctx, obs, [ctx.key_at(key)], ctx.draws,
             [ctx.key_at(l) for l, r in zip(leaves, roles) if r == 'key'], f, 'initial state')
  obs.true('the state holds random state', 'key' in roles, f, str(roles))
  ctx = jx.Ctx()
  new = [ctx.key(f'key{j}') if r == 'key' else ctx.fresh(f'l{j}', l.shape, l.kind)
         for j, (l, r) in enumerate(zip(leaves, roles))]
  out = ctx.trace(lambda s: get(s)[0], tree_util.tree_unflatten(td, new))
  lo = tree_util.tree_leaves(out, is_leaf=lambda l: isinstance(l, jx.SV))
  check_keys(ctx, obs, [ctx.key_at(l) for l, r in zip(new, roles) if r == 'key'], ctx.draws,
             [ctx.key_at(l) for l, r in zip(lo, roles) if r == 'key'], f, 'request')


def search_device(se):
  from jax_sgmc.data import numpy_loader
  from jax_sgmc import data
  import numpy as onp
  i = 0
  while se.more() or i < 2:
    i += 1
    dl = numpy_loader.DeviceNumpyDataLoader(x=onp.arange(6.0))
    init, get, _ = data.random_reference_data(dl, 1, 2)
    with jax.disable_jit(), C.recorded_keys() as used:
      st = init(key=jax.random.PRNGKey(i))
      for _ in range(5):
        st, _ = get(st)
    C.check_keys_distinct(used, 'random batches on the device', seed=i)
    se.count(dict(seed=i))


def check():
  R = [INT + 'random_tree']
  one = lambda m, f, kinds, **k: [
    Unit(f'{m}, {kd}', [f] + R, make(m, kd, **k), search_for(m, **k) if j == 0 else None)
    for j, kd in enumerate(kinds)]
  units = (one('sgld', INT + 'langevin_diffusion.update_fn', ['dict', 'nested', 'wide'])
           + one('sghmc', INT + 'friction_leapfrog.integrate', ['dict'])
           + one('obabo', INT + 'obabo.integrate', ['dict', 'leaf'])
           + one('leapfrog', INT + 'reversible_leapfrog.integrate', ['dict'])
           + one('resgld', SOL + 'parallel_tempering.update', ['dict', 'leaf'])
           + one('amagold', SOL + 'amagold.update', ['dict'])
           + one('sggmc', SOL + 'sggmc.update', ['dict']))
  units += [
    Unit('amagold with mass adaption', SOL + 'amagold.update', make('amagold', 'leaf', True),
         search_for('amagold', True)),
    Unit('sggmc with mass adaption', SOL + 'sggmc.update', make('sggmc', 'leaf', True)),
    Unit('random batches on the device',
         'jax_sgmc/data/numpy_loader.py: DeviceNumpyDataLoader.get_random_data',
         prove_device, search_device)]
  return Check('C21', 'Freshness of random draws and batches', units=units, assumptions=[
    'keys form a free algebra: split and fold_in are injective with disjoint ranges',
    'the keys given by the user for different purposes are unrelated',
    'potential, loader and adaption enter by contract',
    'four tree structures with leaves of symbolic size stand for all trees'])
