"""C24: tree algebra and stacking of chains."""
import collections

import jax
import jax.numpy as jnp
import numpy as onp
from jax import tree_util
import z3

from vf import env, jx, opaque, terms as T
from vf.check import Check, Unit, Failure
from vf.props import common as C

TU = 'jax_sgmc/util/tree_util.py: '
LM = 'jax_sgmc/util/list_map.py: '
Point = collections.namedtuple('Point', ['x', 'y'])


@tree_util.register_pytree_node_class
class Node:
  """A registered node with static data."""

  def __init__(self, a, b, tag):
    self.a, self.b, self.tag = a, b, tag

  def tree_flatten(self):
    return (self.b, self.a), self.tag

  @classmethod
  def tree_unflatten(cls, tag, ch):
    return cls(ch[1], ch[0], tag)


def trees(ctx, name):
  """Tree structures with leaves of symbolic size and all ranks up to four."""
  d, m, k = ctx.dims('d, m, k')
  f = lambda s, *sh: ctx.fresh(name + s, sh)
  return {
    'leaf': f('l', d),
    'scalar': f('s'),
    'dict': {'b': f('b', d, 2), 'a': f('a'), 'c': f('c', m, k, 2)},
    'nested': [(f('n0', d), {'z': f('n1', m, 3)}), Point(f('n2', 2), f('n3')),
               Node(f('n4', k), f('n5', d), 'tag')],
    'wide': {'h': f('h', 2, d, 1, 3), 's': [f(f's{j}') for j in range(10)], 'v': (f('v', d),),
             'z': f('z', m, 2)}}


KINDS = ('leaf', 'scalar', 'dict', 'nested', 'wide')


def _map(fn, *ts):
  """Contract of a leafwise operation: every leaf at its place."""
  ls = [tree_util.tree_flatten(t) for t in ts]
  return tree_util.tree_unflatten(ls[0][1], [fn(*x) for x in zip(*[l for l, _ in ls])])


def prove_algebra(kind):
  def prove(obs):
    from jax_sgmc import util
    ctx = jx.Ctx()
    a, b = trees(ctx, 'a')[kind], trees(ctx, 'b')[kind]
    al = ctx.fresh('alpha')
    obs.cover('sizes', ctx.hyps)
    for nm, fn, want, args, func in (
        ('product', util.tree_multiply, lambda x, y: _map(lambda p, q: p * q, x, y),
         (a, b), TU + 'tree_multiply'),
        ('sum', util.tree_add, lambda x, y: _map(lambda p, q: p + q, x, y), (a, b),
         TU + 'tree_add'),
        ('scaled', util.tree_scale, lambda s, x: _map(lambda p: s * p, x), (al, a),
         TU + 'tree_scale')):
      obs.equal(ctx, nm, ctx.trace(fn, *args), ctx.trace(want, *args), func=func)

    def dot(x, y):
      out = 0.0
      for p, q in zip(tree_util.tree_leaves(x), tree_util.tree_leaves(y)):
        out = out + jnp.sum(p * q)
      return out
    obs.equal(ctx, 'inner product', ctx.trace(lambda x, y: jnp.asarray(util.tree_dot(x, y)), a, b),
              ctx.trace(dot, a, b), func=TU + 'tree_dot')
  return prove


def prove_matrix(kind):
  def prove(obs):
    from jax_sgmc import util
    ctx = jx.Ctx()
    v = trees(ctx, 'v')[kind]
    ts = C.tleaves(v)
    size = 0
    for l in ts:
      n = 1
      for s in l.shape:
        n = n * (ctx._unz(s))
      size = size + n
    mat = ctx.fresh('mat', (size, size))
    diag = trees(ctx, 'w')[kind]
    al = ctx.fresh('alpha')

    def matmul(m, x):
      flat, un = C._ravel(x)
      return un(jnp.sum(m * flat[None, :], axis=1))
    for nm, fn, want, args, func in (
        ('matrix times tree', util.tree_matmul, matmul, (mat, v), TU + 'tree_matmul'),
        ('full matrix', lambda m, x: util.tensor_matmul(util.Tensor(2, m), x), matmul,
         (mat, v), TU + 'tensor_matmul'),
        ('diagonal matrix', lambda m, x: util.tensor_matmul(util.Tensor(1, m), x),
         lambda m, x: _map(lambda p, q: p * q, m, x), (diag, v), TU + 'tensor_matmul'),
        ('multiple of the identity',
         lambda m, x: util.tensor_matmul(util.Tensor(0, m), x),
         lambda m, x: _map(lambda q: m * q, x), (al, v), TU + 'tensor_matmul')):
      with C.symbolic_lengths():
        got = ctx.trace(fn, *args)
        w = ctx.trace(want, *args)
      obs.equal(ctx, nm, got, w, func=func)
    try:
      util.tensor_matmul(util.Tensor(3, jnp.ones((2, 2, 2))), jnp.ones(2))
      obs.true('other kinds are rejected', False, reason='no error', func=TU + 'tensor_matmul')
    except NotImplementedError:
      obs.true('other kinds are rejected', True, func=TU + 'tensor_matmul')
  return prove


def prove_stack(kind, count):
  def prove(obs):
    from jax_sgmc import util
    ctx = jx.Ctx()
    ts = [trees(ctx, f't{j}_')[kind] for j in range(count)]
    stacked = ctx.trace(lambda *t: util.pytree_list_to_leaves(list(t)), *ts)
    td = tree_util.tree_structure(ts[0], is_leaf=C.is_sv)
    obs.true('structure of the stacked tree',
             tree_util.tree_structure(stacked, is_leaf=C.is_sv) == td,
             func=LM + 'pytree_list_to_leaves')
    for j, t in enumerate(ts):
      part = tree_util.tree_map(lambda l, j=j: jx.SV(
        l.shape[1:], l.kind, lambda *i, l=l, j=j: l.at(j, *i)), stacked, is_leaf=C.is_sv)
      obs.equal(ctx, f'entry {j} of the stacked tree', part, t,
                func=LM + 'pytree_list_to_leaves')
      obs.true(f'number of entries {j}', all(l.shape[0] == count for l in C.tleaves(stacked)),
               func=LM + 'pytree_list_to_leaves')
    back = ctx.trace(lambda *t: util.pytree_leaves_to_list(
      util.pytree_list_to_leaves(list(t))), *ts)
    obs.true('number of trees', len(back) == count, func=LM + 'pytree_leaves_to_list')
    for j, (x, y) in enumerate(zip(back, ts)):
      obs.equal(ctx, f'tree {j} after stacking and unstacking', x, y,
                func=LM + 'pytree_leaves_to_list')
    big = tree_util.tree_map(lambda l: ctx.fresh('s' + str(l.at(*([0] * l.ndim)).decl()),
                                                 (count,) + tuple(l.shape)),
                             ts[0], is_leaf=C.is_sv)
    again = ctx.trace(lambda t: util.pytree_list_to_leaves(util.pytree_leaves_to_list(t)), big)
    obs.equal(ctx, 'unstacking and stacking', again, big, func=LM + 'pytree_leaves_to_list')
  return prove


def prove_map(kind, count, devices=False):
  def prove(obs):
    from jax_sgmc import util
    ctx = jx.Ctx()
    ts = [trees(ctx, f't{j}_')[kind] for j in range(count)]

    def fun(t):
      return {'u': opaque.call('u', C.S((3,)), t), 'v': (opaque.call('v', C.S(), t),)}
    mapping = util.list_pmap if devices else util.list_vmap
    got = ctx.trace(lambda *t: mapping(fun)(*t), *ts)
    obs.true('number of results', len(got) == count)
    for j, t in enumerate(ts):
      obs.equal(ctx, f'result {j}', got[j], ctx.trace(fun, t))
  return prove


def _num(se, kind):
  g = onp.random.default_rng(se.rng.randrange(1 << 30))
  d, m, k = [se.size([1, 2, 3, 5], nm, limit=40) for nm in 'dmk']

  def make(g):
    f = lambda *s: jnp.asarray(g.normal(size=s), jnp.float32)
    return {
      'leaf': lambda: f(d), 'scalar': lambda: f(),
      'dict': lambda: {'b': f(d, 2), 'a': f(), 'c': f(m, k, 2)},
      'nested': lambda: [(f(d), {'z': f(m, 3)}), Point(f(2), f()), Node(f(k), f(d), 'tag')],
      'wide': lambda: {'h': f(2, d, 1, 3), 's': [f() for _ in range(10)], 'v': (f(d),),
                       'z': f(m, 2)},
      'ints': lambda: {'i': jnp.asarray(g.integers(0, 9, size=(d, 2)), jnp.int32), 'f': f(m),
                       'k': {}, 'b': jnp.asarray(g.normal(size=k) > 0)}}[kind]()
  return make, g


def _flat(t):
  return onp.concatenate([onp.ravel(onp.asarray(l)) for l in tree_util.tree_leaves(t)])


def _same(a, b, what, **case):
  ta, tb = tree_util.tree_structure(a), tree_util.tree_structure(b)
  if ta != tb:
    raise Failure(f'{what}: structure {ta} instead of {tb}', **case)
  for x, y in zip(tree_util.tree_leaves(a), tree_util.tree_leaves(b)):
    if jnp.shape(x) != jnp.shape(y) or jnp.asarray(x).dtype != jnp.asarray(y).dtype:
      raise Failure(f'{what}: leaf {jnp.shape(x)} {jnp.asarray(x).dtype} instead of '
                    f'{jnp.shape(y)} {jnp.asarray(y).dtype}', **case)
    if not (onp.asarray(x) == onp.asarray(y)).all():
      raise Failure(f'{what}: {onp.ravel(x)[:4]} instead of {onp.ravel(y)[:4]}', **case)


def search_algebra(se):
  from jax_sgmc import util
  rng = se.rng
  i = 0
  while se.more() or i < 8:
    kind = KINDS[i % 5]
    i += 1
    make, g = _num(se, kind)
    a, b = make(g), make(g)
    fa, fb = _flat(a), _flat(b)
    case = dict(kind=kind, sizes=[list(jnp.shape(l)) for l in tree_util.tree_leaves(a)])
    al = se.value([float(g.normal()), 0.0], -100, 100)
    M = jnp.asarray(g.normal(size=(fa.size, fa.size)), jnp.float32)
    for nm, got, want in (
        ('tree_multiply', util.tree_multiply(a, b), fa * fb),
        ('tree_add', util.tree_add(a, b), fa + fb),
        ('tree_scale', util.tree_scale(al, a), al * fa),
        ('tree_matmul', util.tree_matmul(M, a), onp.asarray(M) @ fa),
        ('tensor_matmul, full', util.tensor_matmul(util.Tensor(2, M), a), onp.asarray(M) @ fa),
        ('tensor_matmul, diagonal', util.tensor_matmul(util.Tensor(1, b), a), fa * fb),
        ('tensor_matmul, scalar', util.tensor_matmul(util.Tensor(0, jnp.asarray(al)), a), al * fa)):
      if tree_util.tree_structure(got) != tree_util.tree_structure(a):
        raise Failure(f'{nm}: structure changed', **case)
      C.close(tree_util.tree_map(jnp.shape, got), tree_util.tree_map(jnp.shape, a),
              nm + ': shapes', **case)
      C.close(_flat(got), want, nm, rtol=1e-4, atol=1e-5, **case)
    C.close(onp.asarray(util.tree_dot(a, b)), onp.dot(fa, fb), 'tree_dot', rtol=1e-4,
            atol=1e-4, **case)
    se.count(case)


def search_lists(se):
  from jax_sgmc import util
  rng = se.rng
  i = 0
  while se.more() or i < 10:
    kind = (KINDS + ('ints',))[i % 6]
    k = se.size([1, 2, 3, 5, 11, 17], limit=150)
    i += 1
    make, g = _num(se, kind)
    ts = [make(g) for _ in range(k)]
    case = dict(kind=kind, count=k)
    st = util.pytree_list_to_leaves(ts)
    for j, t in enumerate(ts):
      _same(tree_util.tree_map(lambda l, j=j: l[j], st), t, f'stacked tree, entry {j}', **case)
    back = util.pytree_leaves_to_list(st)
    if len(back) != k:
      raise Failure(f'{len(back)} trees', **case)
    for j, (x, y) in enumerate(zip(back, ts)):
      _same(x, y, f'tree {j}', **case)
    fun = lambda t: (tree_util.tree_map(lambda l: l + 1, t),
                     sum(jnp.sum(l) for l in tree_util.tree_leaves(t)))
    for name, lm in [('list_vmap', util.list_vmap)]:
      res = lm(fun)(*ts)
      if len(res) != k:
        raise Failure(f'{name}: {len(res)} results', **case)
      for j, (x, t) in enumerate(zip(res, ts)):
        C.close(x, fun(t), f'{name}: result {j}', rtol=1e-4, atol=1e-5, **case)
    se.count(case)


def pmap_main():
  """Evaluated in a process with four devices."""
  from jax_sgmc import util
  g = onp.random.default_rng(env.SEED)
  for k in (1, 3, 4):
    ts = [{'a': jnp.asarray(g.normal(size=3), jnp.float32),
           'b': Point(jnp.asarray(float(j)), jnp.asarray([j, 2 * j]))} for j in range(k)]
    fun = lambda t: {'s': t['a'] * 2 + t['b'].x, 'i': t['b'].y + 1}
    res = util.list_pmap(fun)(*ts)
    assert len(res) == k, f'{len(res)} results for {k} trees'
    for j, t in enumerate(ts):
      for n, v in fun(t).items():
        assert onp.allclose(res[j][n], v), f'list_pmap: result {j} of {k} is {res[j][n]} instead of {v}'


def search_pmap(se):
  C.on_devices(se, 'c24')


def check():
  alg = [TU + n for n in ('tree_multiply', 'tree_add', 'tree_scale', 'tree_dot')]
  mat = [TU + 'tree_matmul', TU + 'tensor_matmul']
  lst = [LM + 'pytree_list_to_leaves', LM + 'pytree_leaves_to_list']
  units = []
  for n, k in enumerate(KINDS):
    units.append(Unit(f'leafwise operations and inner product, {k}', alg, prove_algebra(k),
                      search_algebra if n == 0 else None))
    units.append(Unit(f'matrix products, {k}', mat, prove_matrix(k)))
  for n, (k, c) in enumerate((('nested', 3), ('dict', 2), ('scalar', 4), ('leaf', 1),
                              ('nested', 1), ('dict', 5), ('leaf', 13), ('wide', 2))):
    units.append(Unit(f'stacking {c} trees, {k}', lst, prove_stack(k, c),
                      search_lists if n == 0 else None))
    units.append(Unit(f'mapping over {c} trees, {k}', [LM + 'list_vmap'] + lst,
                      prove_map(k, c)))
    units.append(Unit(f'mapping {c} trees over devices, {k}', [LM + 'list_pmap'] + lst,
                      prove_map(k, c, True), search_pmap if n == 0 else None))
  return Check('C24', 'Tree algebra and stacking', units=units, assumptions=[
    'tree_flatten and tree_unflatten of JAX are inverse (tree structures are enumerated: leaf, '
    'scalar, dictionary, nested with list, tuple, named tuple and registered node, many leaves)',
    'ravel_pytree concatenates the raveled leaves in order',
    'number of trees up to thirteen'])
