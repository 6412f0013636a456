"""C02: random batches."""
import itertools

import jax
import jax.numpy as jnp
import numpy as onp
import z3

from vf import env, host as H, jx, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C, dcommon as D
from vf.props.dcommon import N, M, NL, Junk, row

MODES = {'draw': dict(), 'shuffle': dict(shuffle=True),
         'epochs': dict(shuffle=True, in_epochs=True)}
FN = {'draw': '_draw_indices', 'shuffle': '_shuffle_indices', 'epochs': '_shuffle_in_epochs'}
S0 = z3.Int('s')


# The state of a chain before an arbitrary draw. ``s`` is the state of the
# generator: permutation number s - 1 was drawn last, s is drawn next.
class Ghost:
  def __init__(self, mode):
    self.mode = mode
    self.d, self.r = z3.Ints('d r')

  def shared(self):
    """Sizes which depend on N and m only (terms with their defining facts)."""
    if self.mode == 'shuffle':
      self.L = H._z(H.floordiv(N, M) + 2) * M
    elif self.mode == 'epochs':
      self.e = H._z(H.SymRatio(N, M).ceil())
      self.L = self.e * M

  def hyps(self):
    """Invariant on the numbers of the state."""
    if self.mode == 'shuffle':
      f = H.floor_name(N, M)
      return D.SIZE_HYPS + [M * f <= N, N < M * f + M, self.d >= 0, self.d <= f + 1,
                            self.r >= 0, self.r < N]
    if self.mode == 'epochs':
      e = H.ceil_name(N, M)
      return D.SIZE_HYPS + [M * e >= N, M * e < N + M, self.d >= 1, self.d <= e]
    return list(D.SIZE_HYPS)

  def position(self, d, i):
    """Distance of entry i of the ring buffer from the read position."""
    x = i - d * M
    return z3.If(x >= 0, x, x + self.L)

  def content(self, d, r, s, junk=Junk):
    """Invariant on the stored indices, as a function of the entry."""
    def shuffle(i):
      j = self.position(d, i)
      return z3.If(j < r, H.Perm(s - 1, N - r + j), junk(i))

    def epochs(i):
      return z3.If(i < N, H.Perm(s - 1, i), junk(i))
    return shuffle if self.mode == 'shuffle' else epochs

  def chain(self, cache=1, first=False):
    flags = MODES[self.mode]
    c = {'type': 'random', 'rng': H.SymRng(S0), 'idx_offset': None,
         'in_epochs': flags.get('in_epochs', False), 'shuffle': flags.get('shuffle', False),
         'remaining_samples': 0, 'draws': H.SymRatio(N, M).ceil(),
         'random_indices': None, 'mb_size': H.mk(M), 'cache_size': cache}
    if not first and self.mode != 'draw':
      c['draws'] = H.mk(self.d)
      if self.mode == 'shuffle':
        c['remaining_samples'] = H.mk(self.r)
      c['random_indices'] = H.HArr((self.L,), self.content(self.d, self.r, S0), 'i')
    return c

  def spec(self, d, r, s, j, first):
    """One draw: (index of row j, mask of row j, next (d, r, s))."""
    if self.mode == 'draw':
      return H.Draw(s, j), z3.BoolVal(True), (d, r, s + 1)
    if self.mode == 'shuffle':
      if first:
        r = z3.IntVal(0)
      new = r < M
      idx = z3.If(j < r, H.Perm(s - 1, N - r + j), H.Perm(s, j - r))
      return idx, z3.BoolVal(True), (d, z3.If(new, r + N, r) - M, z3.If(new, s + 1, s))
    new = d == self.e if not first else z3.BoolVal(True)
    q, k = z3.If(new, s, s - 1), z3.If(new, z3.IntVal(0), d)
    pos = k * M + j
    idx = z3.If(pos < N, H.Perm(q, pos), z3.IntVal(0))
    return idx, pos < N, (k + 1, r, q + 1)


def junk_range(ts):
  """Stored entries which were not drawn yet are zero or old indices; the entries
  of the permutation drawn last are observations."""
  return ([z3.And(x >= 0, x < N) for x in H.apps(ts, Junk) if not T.has_var(x)]
          + [z3.Implies(z3.And(x.arg(1) >= 0, x.arg(1) < N), z3.And(x >= 0, x < N))
             for x in H.apps(ts, H.Perm) if not T.has_var(x) and H.simp(x.arg(0) - S0 + 1).eq(z3.IntVal(0))])


def prove_step(mode, first):
  def prove(obs):
    g = Ghost(mode)
    j, i = z3.Ints('j i')
    rowj = [j >= 0, j < M]

    def run():
      g.shared()
      c = g.chain(first=first)
      loader = D.sym_loader(D.loader_module())
      loader._chains.append(c)
      sel, mask = getattr(loader, FN[mode])(c)
      return c, sel, mask
    ps = D.Paths(obs, 'first draw' if first else 'draw', run, g.hyps(),
                 [junk_range], func=NL + FN[mode])
    ps.safe()
    ps.ensure('batch has the requested size', lambda p: z3.And(
      D.dims(p.result[1], M), D.dims(p.result[2], M), z3.BoolVal(D.is_bool(p.result[2]))))
    spec = lambda p: g.spec(g.d, g.r, S0, j, first)
    if mode == 'epochs':
      ps.ensure('unmasked rows are consecutive entries of the permutation of the epoch',
                lambda p: z3.Implies(spec(p)[1], row(p.result[1], j) == spec(p)[0]), rowj)
    else:
      ps.ensure('rows are consecutive entries of the stream', lambda p:
                row(p.result[1], j) == spec(p)[0], rowj)
    ps.ensure('indices refer to existing observations', lambda p: z3.And(
      row(p.result[1], j) >= 0, row(p.result[1], j) < N), rowj)
    ps.ensure('mask', lambda p: row(p.result[2], j) == spec(p)[1], rowj)
    # fresh result: the state may change without altering served indices
    ps.ensure('result does not alias the state', lambda p: z3.BoolVal(
      not isinstance(p.result[0]['random_indices'], H.HArr)
      or H.asarr(p.result[1]).store is not p.result[0]['random_indices'].store))
    ps.ensure('generator advances', lambda p:
              p.result[0]['rng']._s == spec(p)[2][2])
    if mode == 'draw':
      ps.ensure('drawn from all observations', lambda p: z3.And(
        *[z3.And(H._int(n) == N, H._int(z if not isinstance(z, tuple) else z[0]) == M)
          for k, s, n, z in p.result[0]['rng'].log]
        + [z3.BoolVal(len(p.result[0]['rng'].log) == 1)]))
      return
    ps.ensure('every permutation covers all observations', lambda p: z3.And(
      *[z3.And(H._int(n) == N, H._int(z if not isinstance(z, tuple) else z[0]) == N)
        for k, s, n, z in p.result[0]['rng'].log]) if p.result[0]['rng'].log
              else z3.BoolVal(True))
    # the invariant holds again
    def after(p):
      c = p.result[0]
      return H._int(c['draws']), H._int(c['remaining_samples']), c['rng']._s
    if mode == 'shuffle':
      ps.ensure('invariant: remaining samples', lambda p: z3.And(
        after(p)[1] == spec(p)[2][1], after(p)[1] >= 0, after(p)[1] < N))
      ps.ensure('invariant: read position', lambda p: z3.And(
        after(p)[0] >= 0, after(p)[0] * M < g.L))
      ps.ensure('invariant: position in the stream', lambda p: (
        (N if False else z3.If(after(p)[2] == S0, 0, N)) - after(p)[1]
        + (0 if first else g.r) == M))
      ps.ensure('invariant: stored indices', lambda p: z3.Implies(
        g.position(after(p)[0], i) < after(p)[1],
        row(p.result[0]['random_indices'], i) == g.content(*after(p))(i)),
        [lambda p: i >= 0, lambda p: i < g.L])
    else:
      ps.ensure('invariant: draws of the epoch', lambda p: z3.And(
        after(p)[0] == spec(p)[2][0], after(p)[0] >= 1, after(p)[0] <= g.e))
      ps.ensure('invariant: stored indices', lambda p: z3.And(
        row(p.result[0]['random_indices'], i) >= 0,
        row(p.result[0]['random_indices'], i) < N,
        z3.Implies(i < N, row(p.result[0]['random_indices'], i)
                   == H.Perm(after(p)[2] - 1, i))),
                [lambda p: i >= 0, lambda p: i < g.L])
    ps.ensure('invariant: size of the buffer', lambda p: D.dims(
      p.result[0]['random_indices'], g.L))
  return prove


def prove_batches(mode, cache):
  """_get_indices: row c of the cache is the c-th draw, whatever follows it."""
  def prove(obs):
    g = Ghost(mode)
    j = z3.Int('j')
    rowj = [j >= 0, j < M]

    def run():
      g.shared()
      c = g.chain(cache)
      loader = D.sym_loader(D.loader_module())
      loader._chains += [{'type': 'ordered'}, c]
      return c, loader._get_indices(1)
    ps = D.Paths(obs, f'cache of {cache}', run, g.hyps(), [junk_range], func=NL + '_get_indices')
    ps.safe()
    ps.ensure('shape', lambda p: z3.And(D.dims(p.result[1][0], cache, M),
                                        D.dims(p.result[1][1], cache, M)))

    def goal(p):
      d, r, s = g.d, g.r, S0
      out = []
      for k in range(cache):
        idx, mask, (d, r, s) = g.spec(d, r, s, j, False)
        got, gm = row(p.result[1][0], k, j), row(p.result[1][1], k, j)
        out.append(z3.And(gm == mask, z3.Implies(mask, got == idx), got >= 0, got < N))
      return z3.And(*out)
    ps.ensure('rows and mask of every batch', goal, rowj)
  return prove


# The state after k draws, by recursion (the positions of the ring buffer are free).
At = {q: z3.Function(f'{q}_at', H.I, H.I) for q in 'drs'}
Junk2 = z3.Function('junk', H.I, H.I, H.I)


class Draws(H.LoopContract):
  """The state of the chain in a loop of draws."""

  def __init__(self, ghost, chain):
    self.g, self.c, self.rng = ghost, chain, chain['rng']

  def state(self, k):
    return tuple(At[q](H._z(k)) for q in 'drs')

  def numbers(self, k):
    """Invariant on the numbers of the state."""
    d, r, _ = self.state(k)
    sub = [(self.g.d, d), (self.g.r, r)]
    return [z3.substitute(h, *sub) for h in self.g.hyps() if h not in D.SIZE_HYPS]

  def holds(self, k, what):
    p, c = H.path(), self.c
    d, r, s = self.state(k)
    p.require(f'{what}: generator of the chain', z3.And(
      z3.BoolVal(c['rng'] is self.rng), self.rng._s == s))
    if self.g.mode == 'draw':
      return
    p.require(f'{what}: draws', H._int(c['draws']) == d)
    if self.g.mode == 'shuffle':
      p.require(f'{what}: remaining samples', H._int(c['remaining_samples']) == r)
    for h in self.numbers(k):
      p.require(f'{what}: numbers', h)
    a, i = c['random_indices'], p.fresh('entry')
    p.require(f'{what}: size of the buffer', D.dims(a, self.g.L))
    live = (z3.And(self.g.position(d, i) >= 0, self.g.position(d, i) < r)
            if self.g.mode == 'shuffle' else i < N)
    inside = z3.And(i >= 0, i < self.g.L)
    p.require(f'{what}: stored indices', z3.Implies(z3.And(inside, live), row(a, i)
                                                   == self.g.content(d, r, s)(i)))
    if self.g.mode == 'epochs':
      p.require(f'{what}: stored numbers are indices', z3.Implies(inside, z3.And(
        row(a, i) >= 0, row(a, i) < N)))

  def begin(self):
    d, r, s = self.state(0)
    H.path().assume(s == S0)
    if self.g.mode != 'draw':
      H.path().assume(d == self.g.d)
    if self.g.mode == 'shuffle':
      H.path().assume(r == self.g.r)
    self.holds(0, 'before the draws')

  def at(self, k):
    p, c = H.path(), self.c
    d, r, s = self.state(k)
    p.assume(*self.numbers(k))
    self.rng._s = s
    if self.g.mode == 'draw':
      return
    c['draws'] = H.mk(d)
    if self.g.mode == 'shuffle':
      c['remaining_samples'] = H.mk(r)
    c['random_indices'] = H.HArr((self.g.L,), self.g.content(
      d, r, s, lambda i: Junk2(H._z(k), i)), 'i')
    p.instances.append(lambda ts: (
      [z3.And(x >= 0, x < N) for x in H.apps(ts, Junk2) if not T.has_var(x)]
      + [z3.Implies(z3.And(x.arg(1) >= 0, x.arg(1) < N), z3.And(x >= 0, x < N))
         for x in H.apps(ts, H.Perm) if not T.has_var(x)
         and H.simp(x.arg(0) - s + 1).eq(z3.IntVal(0))]))

  def kept(self, k):
    p = H.path()
    d, r, s = self.state(k)
    nd, nr, ns = self.g.spec(d, r, s, z3.IntVal(0), False)[2]
    if self.g.mode == 'shuffle':
      nd = H._int(self.c['draws'])
    p.assume(*[At[q](k + 1) == v for q, v in zip('drs', (nd, nr, ns))])
    self.holds(k + 1, 'after a draw')


def prove_any_cache(mode):
  """_get_indices: row k of the cache is the k-th draw, for every size of the cache."""
  def prove(obs):
    g = Ghost(mode)
    j, k = z3.Ints('j k')
    rowj = [j >= 0, j < M, k >= 0, k < D.CACHE]

    def run():
      g.shared()
      c = g.chain(H.mk(D.CACHE))
      loader = D.sym_loader(D.loader_module())
      loader._chains += [{'type': 'ordered'}, c]
      p = H.path()
      p.arbitrary, p.contract = True, Draws(g, c)
      res = loader._get_indices(1)
      if p.contract is not None:
        raise H.Unsupported('no loop over the batches')
      return c, res
    ps = D.Paths(obs, 'request', run, g.hyps() + [D.CACHE >= 1], [junk_range],
                 func=NL + '_get_indices')
    ps.safe()
    ps.ensure('shape', lambda p: z3.And(D.dims(p.result[1][0], D.CACHE, M),
                                        D.dims(p.result[1][1], D.CACHE, M)))

    def goal(p):
      a = D.any_item(p, D.CACHE, k)
      idx, mask, _ = g.spec(*[At[q](a) for q in 'drs'], j, False)
      got, gm = row(p.result[1][0], a, j), row(p.result[1][1], a, j)
      return z3.And(gm == mask, z3.Implies(mask, got == idx), got >= 0, got < N)
    ps.ensure('row k is draw k of the chain', goal, rowj)
    ps.ensure('the generator made all draws', lambda p: p.result[0]['rng']._s == At['s'](D.CACHE))
  return prove


def prove_register(obs):
  for mode, flags in MODES.items():
    def run(flags=flags):
      loader = D.sym_loader(D.loader_module())
      ids = [loader.register_random_pipeline(cache_size=2, mb_size=H.mk(M), **flags),
             loader.register_random_pipeline(H.mk(D.CACHE), H.mk(M), seed=H.mk(z3.Int('seed')), **flags)]
      return loader._chains, ids
    ps = D.Paths(obs, mode, run, [N >= 1, M >= 1], func=NL + 'register_random_pipeline')
    for p in ps.bad:
      ps._add('batches not larger than the data set are accepted', p, M > N)
    ps.bad = []
    ps.safe()
    ps.ensure('larger batches are rejected', lambda p: M <= N)

    def initial(p):
      out = []
      for c, cache in zip(p.result[0], (2, D.CACHE)):
        out += [z3.BoolVal(c['type'] == 'random' and c['random_indices'] is None
                           and c['remaining_samples'] == 0
                           and bool(c['in_epochs']) == flags.get('in_epochs', False)
                           and bool(c['shuffle']) == flags.get('shuffle', False)),
                H._int(c['mb_size']) == M, H._int(c['cache_size']) == cache,
                H._int(c['draws']) == H._z(H.SymRatio(N, M).ceil())]
      return z3.And(*out)
    ps.ensure('initial state', initial)
    ps.ensure('ids are numbered', lambda p: z3.BoolVal(p.result[1] == [0, 1]))
    child = z3.Function('child', H.I, H.I, H.I)
    ps.ensure('state of the generator is determined by seed or chain', lambda p: z3.And(
      p.result[0][0]['rng']._s == H.Seed(child(0, 0)),
      p.result[0][1]['rng']._s == H.Seed(child(z3.Int('seed'), 0))))


def prove_lemma(obs):
  """From the contracts of the draws to the statement about passes and epochs."""
  a, b, s, r, e, k, l, j, n = z3.Ints('a b s r e k l j n')
  inj = lambda x, y: z3.Implies(z3.And(x >= 0, x < N, y >= 0, y < N, x != y),
                                H.Perm(s, x) != H.Perm(s, y))
  ob = lambda name, hyps, goal: obs.add(name, H.prove(D.SIZE_HYPS + hyps, goal, (), D.SIZES),
                                        'contracts of the draws')
  # rows k*m+a and l*m+b of one epoch
  pa, pb = k * M + a, l * M + b
  same = [a >= 0, a < M, b >= 0, b < M, k >= 0, l >= 0, pa < N, pb < N,
          z3.Or(k != l, a != b)]
  ob('different rows of an epoch have different positions', same, pa != pb)
  ob('different rows of an epoch are different observations',
     same + [inj(pa, pb), pa != pb], H.Perm(s, pa) != H.Perm(s, pb))
  # the number of unmasked rows of an epoch: position n is row n mod m of batch n div m
  q, e = z3.Ints('q e')
  div = [M * q <= n, n < M * q + M, M * e >= N, M * e < N + M]
  ob('every observation has its row in the epoch', div + [n >= 0, n < N],
     z3.And(q >= 0, q + 1 <= e, n - q * M >= 0, n - q * M < M))
  # stream of the shuffled draws: position p of the stream is entry p - t N of
  # permutation t; a batch starts where the one before ended
  ob('a batch takes consecutive positions', [r >= 0, r < N, j >= 0, j < M],
     z3.If(j < r, z3.And(N - r + j >= 0, N - r + j < N), z3.And(j - r >= 0, j - r < N)))
  ob('rows of one batch and permutation are different', [
    r >= 0, r < N, a >= 0, a < b, b < M, z3.Or(b < r, a >= r), inj(N - r + a, N - r + b),
    inj(a - r, b - r)], z3.If(b < r, H.Perm(s, N - r + a) != H.Perm(s, N - r + b),
                              H.Perm(s, a - r) != H.Perm(s, b - r)))


# ------------------------------------------------------------- device loader
def prove_device(obs):
  mod = D.loader_module()
  ctx = jx.Ctx()
  n, m = ctx.dims('n, m')
  key = ctx.key('k0')
  x, y = ctx.fresh('x', (n, 2)), ctx.fresh('y', (n,))

  def run(x, y, key):
    loader = mod.DeviceNumpyDataLoader.__new__(mod.DeviceNumpyDataLoader)
    loader.__dict__.update(_reference_data={'x': x, 'y': y}, _observation_count=n)
    state = loader.init_random_data(key=key)
    state, (batch, info) = loader.get_random_data(state, m)
    return state, batch, info.mask, jnp.asarray(info.observation_count), \
        jnp.asarray(info.batch_size)

  def spec(x, y, key):
    new, split = jax.random.split(key)
    ids = jax.random.randint(split, shape=(m,), minval=0, maxval=n)
    return new, {'x': x[ids], 'y': y[ids]}, jnp.ones(m, dtype=bool), jnp.asarray(n), \
        jnp.asarray(m), ids
  got = ctx.trace(run, x, y, key)
  want = ctx.trace(spec, x, y, key)
  for nm, a, b in zip(('next state', 'rows are drawn from all observations',
                       'all rows are valid', 'observation count', 'batch size'), got, want):
    obs.equal(ctx, nm, a, b)


# ------------------------------------------------------------- running code
def stream(loader, chain, count):
  out = []
  for _ in range(count):
    data, mask = loader.get_batches(chain)
    out.append((onp.asarray(data['x']), onp.asarray(mask)))
  return out


def check_stream(case, n, m, cache, mode, batches):
  """The rules of the mode on a sequence of batches whose rows are the indices."""
  flat = []
  for x, mask in batches:
    if x.shape != (cache, m) or mask.shape != (cache, m) or mask.dtype != bool:
      raise Failure(f'shape of the batch {x.shape} {mask.shape}', **case)
    flat += list(zip(x, mask))
  for k, (x, mask) in enumerate(flat):
    if ((x < 0) | (x >= n)).any():
      raise Failure(f'batch {k} serves {x.tolist()}', **case)
  if mode != 'epochs' and not all(mask.all() for _, mask in flat):
    raise Failure('a valid row is masked', **case)
  if mode == 'shuffle':
    s = onp.concatenate([x for x, _ in flat])
    for p in range(0, len(s) - n + 1, n):
      if sorted(s[p:p + n]) != list(range(n)):
        raise Failure(f'pass {p // n} serves {s[p:p + n].tolist()}', **case)
    p = len(s) // n * n
    if len(set(s[p:])) != len(s) - p:
      raise Failure(f'repeated inside of the pass: {s[p:].tolist()}', **case)
  if mode == 'epochs':
    e = -(-n // m)
    for p in range(0, len(flat), e):
      rows = [v for x, mask in flat[p:p + e] for v in x[mask]]
      if len(flat) - p >= e:
        if sorted(rows) != list(range(n)):
          raise Failure(f'epoch {p // e} serves {rows}', **case)
      elif len(set(rows)) != len(rows) or len(rows) != (len(flat) - p) * m:
        raise Failure(f'begin of epoch {p // e} serves {rows}', **case)
  return flat


def search(mode):
  def f(se):
    from jax_sgmc.data.numpy_loader import NumpyDataLoader
    for k, (n, m) in enumerate(D.cases(se)):
      if not se.more() and k >= 15:
        break
      cache = se.size([1 + k % 3], 'c', limit=70)
      draws = 3 + 2 * -(-n // (m * cache)) + (k % 4)
      case = dict(mode=mode, observations=n, batch=m, cache=cache, requests=draws, seed=k)
      se.now = case
      loader = NumpyDataLoader(x=onp.arange(n))
      other = loader.register_random_pipeline(cache % 3 + 1, max(1, m - k % 2), seed=k + 1,
                                              **MODES[mode])
      chain = loader.register_random_pipeline(cache, m, seed=k, **MODES[mode])
      b = []
      for _ in range(draws):
        b += stream(loader, chain, 1)
        stream(loader, other, se.rng.randrange(2))
      flat = check_stream(case, n, m, cache, mode, b)
      se.count(case)
      if mode == 'draw' and n <= 6:
        b += stream(loader, chain, 120)
        seen = {int(v) for x, _ in b for v in x.ravel()}
        if len(seen) != n:
          raise Failure(f'only {sorted(seen)} are ever drawn', **case)
      if mode != 'draw' and n >= 8:
        a = [tuple(x) for x, _ in flat]
        if len(a) > 3 and len(set(a)) == 1:
          raise Failure('always the same batch', **case)
  return f


def search_register(se):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  for k, (n, m) in enumerate(D.cases(se)):
    if k > 40:
      break
    mode = list(MODES)[k % len(MODES)] if n < 100 else 'epochs'
    case = dict(observations=n, batch=m, mode=mode)
    se.now = case
    loader = NumpyDataLoader(x=onp.arange(n))
    a, b, c = [loader.register_random_pipeline(2, m, **MODES[mode], **kw)
               for kw in ({}, dict(seed=7), dict(seed=7))]
    se.count(case)
    if [a, b, c] != [0, 1, 2]:
      raise Failure(f'ids {a} {b} {c}', **case)
    s = [onp.concatenate([x.ravel() for x, _ in stream(loader, i, 8)]).tolist() for i in (a, b, c)]
    if s[1] != s[2]:
      raise Failure('chains with the same seed differ', **case)
    if n > 8 and s[0] == s[1]:
      raise Failure('chains with different seeds are the same', **case)
    try:
      loader.register_random_pipeline(1, n + 1 + k % 2)
    except ValueError:
      continue
    raise Failure('batch larger than the data set accepted', **case)


def search_device(se):
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
  for k, (n, m) in enumerate(D.cases(se)):
    if not se.more() and k >= 10:
      break
    case = dict(loader='device', observations=n, batch=m)
    se.now = case
    x = onp.arange(n)
    loader = DeviceNumpyDataLoader(x=x, y=onp.stack([x, x + 0.5], 1))
    s = loader.init_random_data(key=jax.random.PRNGKey(k))
    seen = set()
    for _ in range(40 if n <= 3 else 3):
      s, (b, info) = loader.get_random_data(s, m)
      v = onp.asarray(b['x'])
      seen |= set(v.tolist())
      if v.shape != (m,) or ((v < 0) | (v >= n)).any():
        raise Failure(f'serves {v.tolist()}', **case)
      if not (onp.asarray(b['y']) == onp.stack([v, v + 0.5], 1)).all():
        raise Failure('rows of the observables differ', **case)
      if not onp.asarray(info.mask).all() or info.mask.shape != (m,):
        raise Failure('mask', **case)
      if int(info.observation_count) != n or int(info.batch_size) != m:
        raise Failure('batch information', **case)
    se.count(case)
    if n <= 3 and len(seen) != n:
      raise Failure(f'only {sorted(seen)} are ever drawn', **case)


def check():
  caches = (1, 2)
  units = []
  for mode in MODES:
    units.append(Unit(f'{mode}: draw', NL + FN[mode], prove_step(mode, False),
                      search(mode), soft=True))
    if mode != 'draw':
      units.append(Unit(f'{mode}: first draw', NL + FN[mode], prove_step(mode, True), soft=True,
                        search=search(mode)))
    for c in caches[:2] if mode == 'shuffle' and not env.THOROUGH else caches:
      units.append(Unit(f'{mode}: batches of a request (cache {c})', NL + '_get_indices',
                        prove_batches(mode, c), search(mode) if c == 1 else None, soft=True))
  for mode in MODES:
    units.append(Unit(f'{mode}: batches of a request (any cache)', NL + '_get_indices',
                      prove_any_cache(mode), soft=True))
  units.append(Unit('new chain', NL + 'register_random_pipeline', prove_register,
                    search_register, soft=True))
  units.append(Unit('passes and epochs', 'contracts of the draws', prove_lemma))
  units.append(Unit('device', 'jax_sgmc/data/numpy_loader.py: DeviceNumpyDataLoader.'
                    'get_random_data, init_random_data', prove_device, search_device))
  return Check(
    'C02', 'Random batches', units=units, assumptions=[
      'numpy Generator.choice/permutation without replacement of n out of n is a permutation, '
      'with replacement in range; draws are functions of the generator state',
      'float division N / m of the sizes is exact under floor and ceil',
      'a state of a chain is only changed by its loader'],
    note='Unbounded in observations, batch size, cache size and number of draws.')
