"""Engine H, second part: loops and transformations of JAX in host code.

``lax.scan`` is a loop with an invariant supplied by the contract: the invariant is
an obligation at entry, the body is executed once for an arbitrary iteration and
has to preserve it, the outputs of the arbitrary iteration are generalised to all
iterations. ``jax.vmap`` executes the function once for an arbitrary row.
"""
import re

from vf import env  # pylint: disable=unused-import
import jax
import z3
from jax import tree_util

from vf import host as H, terms as T


class Iteration:
  """Arbitrary iteration: its paths and the generalisation of its results."""

  def __init__(self, name, facts, body):
    p = H.path()
    self.t = t = p.fresh(name)
    start = p.n
    hyps = p.facts + facts(t)
    self.paths = []
    work, top = [[]], start
    while work:
      prefix = work.pop()
      q = H.Path(hyps, prefix, (), p.sizes)
      q.instances = list(p.instances)
      q.n = start
      H._PATH.append(q)
      try:
        q.result = body(H.SymInt(t))
      except (H.Unsupported, H._Stop):
        raise
      except (AttributeError, NameError):
        raise
      except Exception as e:
        q.exc = e
      finally:
        H._PATH.pop()
      top = max(top, q.n)
      for k in range(len(prefix), len(q.taken)):
        if q.taken[k][1]:
          work.append([c for c, _ in q.taken[:k]] + [not q.taken[k][0]])
      if len(self.paths) >= 40:
        raise H.Unsupported('too many paths')
      for s in q.safety:
        p.safety.append(s)
      for i in q.instances:
        if not any(i is o for o in p.instances):
          p.instances.append(i)
      if q.exc is not None:
        p.safety.append((f'no exception ({type(q.exc).__name__}: {q.exc})',
                         z3.BoolVal(False), list(q.facts)))
        continue
      q.local = [f for f in q.facts if not any(f.eq(h) for h in hyps)]
      self.paths.append(q)
    p.n = top
    self.start = start
    if not self.paths:
      raise H.Unsupported('no path through the body')
    for k, q in enumerate(self.paths):
      q.names = {}
      for f in q.local:
        self._collect(q, f, k)
      if q.names and q.local:
        p.instances.append(self._definitions(q))

  def _collect(self, q, term, k, skip=()):
    """Constants that depend on the iteration become functions of it."""
    for a in T.apps([term]):
      d = a.decl()
      if d.kind() != z3.Z3_OP_UNINTERPRETED or a.eq(self.t) or any(a.eq(x) for x in skip):
        continue
      nm = d.name()
      m = re.search(r'!(\d+)$', nm)
      if not (m and int(m[1]) > self.start or self.t.decl().name() in nm):
        continue
      if a.num_args():
        raise H.Unsupported('array of unknown content in a loop')
      if a.get_id() not in q.names:
        q.names[a.get_id()] = (a, z3.Function(f'{nm}@{k}', H.I, a.sort()))

  def _subst(self, q, term, at, skip=()):
    self._collect(q, term, self.paths.index(q), skip)
    return z3.substitute(term, (self.t, at), *[(c, f(at)) for c, f in q.names.values()])

  def _definitions(self, q):
    def inst(ts):
      out = []
      for c, f in list(q.names.values()):
        for a in H.apps(ts, f):
          if not T.has_var(a):
            out += [z3.Implies(self.when(q, a.arg(0)),
                               z3.And(*[self._subst(q, d, a.arg(0)) for d in q.local]))]
      return out
    return inst

  def when(self, q, at):
    """Condition of the path in iteration ``at``."""
    ds = [z3.And(*[self._subst(q, H.simp(d), at) for d in q.decisions])] if q.decisions else []
    return z3.And(*ds) if ds else z3.BoolVal(True)

  def merge(self, get, n):
    """Outputs of all iterations: an array with leading axis of extent n."""
    vals = [get(q.result) for q in self.paths]
    if any(v is None for v in vals):
      return None
    leaves, trees = zip(*[tree_util.tree_flatten(v) for v in vals])
    if any(t != trees[0] for t in trees):
      raise TypeError('outputs of the loop differ in structure')
    out = []
    for col in zip(*leaves):
      col = [H.asarr(v) for v in col]
      dims = col[0].dims
      for c in col[1:]:
        if len(c.dims) != len(dims):
          raise TypeError('outputs of the loop differ in shape')
      for d in dims:
        if not isinstance(d, int) and any(a.eq(self.t) for a in T.apps([d])):
          raise H.Unsupported('extent depends on the iteration')
      js = [H.path().fresh('e') for _ in dims]
      vals = []
      for q, c in zip(self.paths, col):
        H._PATH.append(q)   # names of the entries belong to the iteration
        try:
          vals.append(c.fn(*js))
        finally:
          H._PATH.pop()
        self._collect(q, vals[-1], self.paths.index(q), js)

      def fn(i, *at, vals=vals, js=js):
        i = H._int(i)
        sub = list(zip(js, [H._int(a) for a in at]))
        v = self._subst(self.paths[-1], vals[-1], i, js)
        for q, x in zip(self.paths[-2::-1], vals[-2::-1]):
          v = z3.If(self.when(q, i), self._subst(q, x, i, js), v)
        return z3.substitute(v, *sub) if sub else v
      out.append(H.HArr((n,) + tuple(dims), fn, col[0].kind, dtype=col[0].dtype))
    return tree_util.tree_unflatten(trees[0], out)


def obligation(name, cond):
  p = H.path()
  p.safety.append((name, cond, list(p.facts)))


def _clamped(index, x):
  """Dynamic indices are moved into the array."""
  i, n = H._int(index), H._int(x.shape[0])
  if H.path().branch(i < 0):
    H.path().branch(i + n >= 0)
    raise H.Unsupported('negative dynamic index')
  return H.mk(H.simp(n - 1)) if H.path().branch(i >= n) else H.mk(i)


class Lax:
  """Stands for jax.lax. ``rules`` holds one invariant per loop."""

  def __init__(self, *rules):
    self.rules = list(rules)

  def __getattr__(self, name):
    real = getattr(jax.lax, name)

    def call(*a, **k):
      if H._symbolic(tree_util.tree_leaves((a, k))):
        raise H.Unsupported(f'lax.{name}')
      return real(*a, **k)
    return call if callable(real) else real

  @staticmethod
  def cond(pred, true_fun, false_fun, *operands):
    return (true_fun if bool(pred) else false_fun)(*operands)

  @staticmethod
  def dynamic_update_index_in_dim(operand, update, index, axis):
    x, u = H.asarr(operand), H.asarr(update)
    if axis not in (0, -x.ndim) or u.ndim not in (x.ndim - 1, x.ndim):
      raise H.Unsupported('update along another axis')
    return x.at[_clamped(index, x)].set(u[0] if u.ndim == x.ndim else u)

  @staticmethod
  def dynamic_index_in_dim(operand, index, axis=0, keepdims=True):
    x = H.asarr(operand)
    if axis not in (0, -x.ndim):
      raise H.Unsupported('index along another axis')
    r = x[_clamped(index, x)]
    return H.asarr(r)[None] if keepdims else r

  @staticmethod
  def select(pred, a, b):
    return H._NP.where(pred, a, b)

  def scan(self, f, init, xs=None, length=None, reverse=False, **_):
    if reverse or not self.rules:
      raise H.Unsupported('loop without an invariant')
    rule = self.rules.pop(0)
    leaves = tree_util.tree_leaves(xs)
    n = H._int(leaves[0].shape[0]) if leaves else H._int(length)
    obligation('loop invariant at entry', rule.same(init, z3.IntVal(0)))

    def body(t):
      rule.begin(t.t)
      x = tree_util.tree_map(lambda v: H.asarr(v)[t], xs)
      state, y = f(rule.at(t.t), x)
      obligation('loop invariant is preserved', rule.same(state, t.t + 1))
      obligation('contract of the iteration', rule.end(t.t))
      return y
    it = Iteration('t', lambda t: [t >= 0, t < n], body)
    if hasattr(rule, 'iteration'):
      rule.iteration(n)
    return rule.at(n), it.merge(lambda r: r, n)


def vmap(fun, in_axes=0, out_axes=0, **_):
  """The function for an arbitrary row."""
  if out_axes != 0:
    raise H.Unsupported('vmap')

  def call(*args):
    axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
    if any(a not in (0, None) for a in axes) or len(axes) != len(args):
      raise H.Unsupported('vmap')
    mapped = [l for a, x in zip(args, axes) if x == 0 for l in tree_util.tree_leaves(a)]
    n = H._int(H.asarr(mapped[0]).shape[0])
    for l in mapped:
      if not H._same(H.asarr(l).dims[0], H._dim(n)):
        raise ValueError('vmap got inconsistent sizes')

    def body(j):
      return fun(*[tree_util.tree_map(lambda v: H.asarr(v)[j], a) if x == 0 else a
                   for a, x in zip(args, axes)])
    it = Iteration('j', lambda j: [j >= 0, j < n], body)
    res = [q.result for q in it.paths]
    if isinstance(res[0], tuple) and not hasattr(res[0], '_fields'):
      return tuple(it.merge(lambda r, k=k: r[k], H.mk(n)) for k in range(len(res[0])))
    return it.merge(lambda r: r, H.mk(n))
  return call


class Jax:
  """Stands for the package."""

  def __getattr__(self, name):
    if name == 'vmap':
      return vmap
    if name in ('jit', 'pmap'):
      return lambda f, **_: f
    if name == 'tree_map':
      return tree_util.tree_map
    return getattr(jax, name)


def same_struct(shape_struct, v):
  """Result of a callback against its announced structure."""
  a, ta = tree_util.tree_flatten(shape_struct)
  b, tb = tree_util.tree_flatten(v)
  if ta != tb:
    return z3.BoolVal(False)
  out = []
  for x, y in zip(a, b):
    if isinstance(y, (int, bool, float)) or isinstance(y, H.SymInt):
      y = H.asarr(y)
    sx = tuple(getattr(x, 'shape', ()))
    if len(sx) != len(y.shape):
      return z3.BoolVal(False)
    out += [H._z(p) == H._z(q) for p, q in zip(sx, y.shape)]
    dx = jax.dtypes.canonicalize_dtype(x.dtype)
    out.append(z3.BoolVal(dx == jax.dtypes.canonicalize_dtype(y.dtype)))
  return z3.And(*out) if out else z3.BoolVal(True)


class Callback:
  """Stands for jax.experimental: a callback is a call."""

  def __init__(self):
    self.calls = 0

  def __getattr__(self, name):
    return getattr(jax.experimental, name)

  def io_callback(self, f, result_shape, *args, **kw):
    self.calls += 1
    res = f(*args)
    obligation('result of the callback has the announced shape and type',
               same_struct(result_shape, res))
    return res
