"""Engine J: verification conditions from the jaxpr of the real function.

The function under contract is imported from the repository and traced by JAX
itself (``jax.make_jaxpr``) with symbolic shapes, so what is verified is the
program that JAX runs.  Each primitive is given its mathematical meaning over
z3 terms: an array is a function from indices to terms, floats are reals,
callees known by contract are uninterpreted functions of their arguments, keys
form a free algebra, loops are related to the loops of the specification by an
inferred inductive coupling invariant.
"""
import collections
import contextlib
import itertools
import operator
import os
import sys

from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
import numpy as onp
import z3
from jax import core, tree_util
from jax.experimental.export import shape_poly

from vf import terms as T
from vf import opaque


class Unsupported(Exception):
  """The engine has no meaning for this construct."""


RNG_PREFIX = ('_normal', '_uniform', '_randint', '_bernoulli', '_choice',
              '_shuffle', '_gamma', '_exponential', '_truncated_normal',
              '_normal_real', '_gumbel', '_categorical', '_permutation',
              'permutation', '_multivariate_normal')


def kind_of(dtype):
  if str(dtype).startswith('key<'):
    return 'K'
  if dtype == jax.dtypes.float0:
    return 'f'
  dt = onp.dtype(dtype)
  if dt.kind == 'b':
    return 'b'
  if dt.kind in 'iu':
    return 'i'
  return 'f'


SORT = {'f': T.R, 'i': T.I, 'b': T.B, 'K': T.Key}


def iv(i):
  return z3.IntVal(int(i)) if isinstance(i, (int, onp.integer)) else i


def conc(i):
  """int if the index is a numeral, else None."""
  if isinstance(i, (int, onp.integer)):
    return int(i)
  if z3.is_int_value(i):
    return i.as_long()
  return None


class SV:
  """Symbolic array: shape, kind, index -> term."""
  __slots__ = ('shape', 'kind', 'fn', 'memo', 'cval', 'flat', 'truth', 'anyof')

  def __init__(self, shape, kind, fn, cval=None):
    self.shape = tuple(shape)
    self.kind = kind
    self.fn = fn
    self.memo = {}
    self.cval = cval      # concrete numpy value if known
    self.flat = None      # (source, k): the axes of source from k on merged into one
    self.truth = None     # the truth values counted as zero and one
    self.anyof = None     # for a number of truth values: is one of them true

  @property
  def ndim(self):
    return len(self.shape)

  def at(self, *idx):
    idx = tuple(z3.simplify(i) if not isinstance(i, int) and not z3.is_int_value(i)
                else (i if isinstance(i, int) else i.as_long()) for i in idx)
    key = tuple(i if isinstance(i, int) else ('z', i.get_id()) for i in idx)
    hit = self.memo.get(key)
    if hit is None:
      assert len(idx) == len(self.shape), (idx, self.shape)
      hit = (idx, self.fn(*idx))
      self.memo[key] = hit
    return hit[1]


def const_term(v, kind):
  if kind == 'b':
    return z3.BoolVal(bool(v))
  if kind == 'i':
    return z3.IntVal(int(v))
  return T.rv(v)


def from_concrete(x):
  a = onp.asarray(x)
  if str(a.dtype) == 'bfloat16':
    a = a.astype(onp.float32)
  k = kind_of(a.dtype)
  if a.ndim == 0:
    t = const_term(a[()], k)
    return SV((), k, lambda: t, cval=a)

  def fn(*idx):
    cs = [conc(i) for i in idx]
    if all(c is not None for c in cs):
      return const_term(a[tuple(cs)], k)
    if a.size and (a == a.flat[0]).all():
      return const_term(a.flat[0], k)
    if a.ndim == 1 and a.size > 1 and k == 'i':
      d = onp.diff(a.astype(onp.int64))
      if (d == d[0]).all():
        return z3.IntVal(int(a[0])) + int(d[0]) * idx[0]
    if a.size <= 64:
      out = None
      for pos in itertools.product(*[range(s) for s in a.shape]):
        c = z3.And([iv(i) == p for i, p in zip(idx, pos)])
        v = const_term(a[pos], k)
        out = v if out is None else z3.If(c, v, out)
      return out
    raise Unsupported('symbolic index into a large constant')
  return SV(a.shape, k, fn, cval=a)


def scalar(t, kind):
  return SV((), kind, lambda: t)


class Site:
  """An application of an uninterpreted function, identified by its arguments."""

  def __init__(self, name, args, nb, out_shape, out_kind, uf, exact):
    self.name, self.args, self.nb = name, args, nb
    self.out_shape, self.out_kind = out_shape, out_kind
    self.uf, self.exact = uf, exact


class Loop:
  pass


@contextlib.contextmanager
def _dims_fork():
  """Comparisons of sizes that cannot be decided become traced comparisons."""
  cls = shape_poly._DimExpr
  names = ('__lt__', '__le__', '__gt__', '__ge__')
  orig = {n: cls.__dict__[n] for n in names}
  ops = dict(__lt__=lambda x, y: x < y, __le__=lambda x, y: x <= y,
             __gt__=lambda x, y: x > y, __ge__=lambda x, y: x >= y)
  arr = lambda d: jax.numpy.asarray(d)

  def wrap(n):
    def cmp(self, other):
      if isinstance(other, (core.Tracer, jax.Array)):
        return ops[n](arr(self), other)
      try:
        return orig[n](self, other)
      except shape_poly.InconclusiveDimensionOperation:
        f = sys._getframe(1).f_code.co_filename
        if 'site-packages' in f:
          raise
        return ops[n](arr(self), arr(other))
    return cmp
  for n in names:
    setattr(cls, n, wrap(n))
  try:
    yield
  finally:
    for n in names:
      setattr(cls, n, orig[n])


_CASE = [None]       # case of a unit which is being examined


class Cases:
  """Executions of a unit in which code under contract branches on sizes.

  Every undecided comparison of sizes in the repository is decided both ways, in
  separate executions of the unit, and becomes a hypothesis of its obligations.
  """
  LIMIT = 12

  def __init__(self):
    self.todo = [[]]
    self.done = 0

  def __iter__(self):
    while self.todo:
      if self.done >= self.LIMIT:
        raise Unsupported('too many cases of sizes')
      self.done += 1
      self.prefix = self.todo.pop()
      self.taken, self.order, self.ctxs = [], {}, []
      _CASE[0] = self
      try:
        yield self
      finally:
        _CASE[0] = None
      for k in range(len(self.prefix), len(self.taken)):
        text, value, both = self.taken[k]
        if both:
          self.todo.append([v for _, v, _ in self.taken[:k]] + [not value])

  def label(self):
    return ', '.join(t if v else f'not {t}' for t, v, b in self.taken if b)

  def sizes(self):
    """Sizes which satisfy the conditions of the case."""
    out = []
    for c in self.ctxs:
      s = z3.Solver()
      s.set('timeout', 2000)
      s.add(*[h for h in c.hyps if not z3.is_quantifier(h)])
      if s.check() == z3.sat:
        m = s.model()
        out.append({n: m.eval(v, model_completion=True).as_long()
                    for n, v in c.dimvars.items()})
    return out

  def decide(self, ctx, text, cond):
    if not any(c is ctx for c in self.ctxs):
      self.ctxs.append(ctx)
    at = [c is ctx for c in self.ctxs].index(True)
    if (at, text) in self.order:
      return self.order[at, text]
    can = [T.satisfiable(ctx.hyps + [c]) for c in (cond, z3.Not(cond))]
    n = len(self.taken)
    value = can[0] if not all(can) else self.prefix[n] if n < len(self.prefix) else True
    self.taken.append((text, value, all(can)))
    self.order[at, text] = value
    ctx.hyps.append(cond if value else z3.Not(cond))
    return value


@contextlib.contextmanager
def _dims_cases(ctx):
  """Undecided comparisons of sizes in the repository are decided by cases."""
  cls = shape_poly._DimExpr
  ops = {'__lt__': operator.lt, '__le__': operator.le, '__gt__': operator.gt,
         '__ge__': operator.ge, '__eq__': operator.eq, '__ne__': operator.ne}
  orig = {n: cls.__dict__.get(n) for n in (*ops, '__bool__')}
  case, here = _CASE[0], os.path.join(env.REPO, 'jax_sgmc')

  def undecided(d):
    try:
      lb, ub = shape_poly._ensure_poly(d, 'eq').bounds()
    except shape_poly.InconclusiveDimensionOperation:
      return True
    return lb <= 0 <= ub and not lb == ub == 0

  def wrap(n):
    def cmp(self, other):
      if sys._getframe(1).f_code.co_filename.startswith(here) and isinstance(
          other, (int, onp.integer, cls)) and undecided(self - other):
        a, b = iv(ctx.zdim(self)), iv(ctx.zdim(other))
        sym = n.strip('_')
        eq = sym in ('eq', 'ne')
        text = f'{self} {dict(lt="<", le="<=", gt=">", ge=">=", eq="==", ne="==")[sym]} {other}'
        r = case.decide(ctx, text, a == b if eq else ops[n](a, b))
        return not r if sym == 'ne' else r
      return orig[n](self, other)
    return cmp

  def nonzero(self):
    if sys._getframe(1).f_code.co_filename.startswith(here) and undecided(self):
      return not case.decide(ctx, f'{self} == 0', iv(ctx.zdim(self)) == 0)
    return True
  if case is None:
    yield
    return
  for n in ops:
    setattr(cls, n, wrap(n))
  cls.__bool__ = nonzero
  try:
    yield
  finally:
    for n, f in orig.items():
      if f is None:
        delattr(cls, n)
      else:
        setattr(cls, n, f)


@contextlib.contextmanager
def _scan_lengths():
  """``lax.scan(f, init, None, length=n)`` with a symbolic n counts over arange(n)."""
  orig = jax.lax.scan

  def scan(f, init, xs=None, length=None, *a, **kw):
    if isinstance(length, shape_poly._DimExpr) and not tree_util.tree_leaves(xs):
      return orig(lambda c, t: f(c, xs), init, jnp.arange(length), None, *a, **kw)
    return orig(f, init, xs, length, *a, **kw)
  jax.lax.scan = scan
  try:
    yield
  finally:
    jax.lax.scan = orig


class Ctx:
  """One verification context: hypotheses, uninterpreted applications, loops."""

  def __init__(self, unroll=0, hyps=()):
    self.hyps = list(hyps)
    self.sites = []
    self.by_uf = {}
    self.loops = []
    self.unroll = unroll
    self.dimvars = {}
    self.n = itertools.count()
    self.approx = set()       # names of symbols with incomplete meaning
    self.notes = set()
    self.effects = []
    self.rng_used = []
    self.draws = []      # (name, key, index variables, their ranges, active loops)
    self.bounds = []
    self.loop_uf = {}         # carries of loops by name
    self.refutations = 0
    self.epoch = 0            # number of the current trace
    self.active = []          # (iteration, length) of the enclosing loops

  # ---------------------------------------------------------------- dimensions
  def dims(self, spec):
    """Symbolic dimensions, e.g. ctx.dims('d, m')."""
    ds = shape_poly._parse_spec(spec, (None,) * len(spec.split(',')))
    for d in ds:
      self.zdim(d)
    return ds

  def zdim(self, d):
    if isinstance(d, (int, onp.integer)):
      return int(d)
    if z3.is_expr(d):
      return d
    if isinstance(d, shape_poly._DimExpr):
      total = None
      for mon, coeff in d.monomials():
        t = z3.IntVal(int(coeff))
        for atom, exp in mon.items():
          if atom.var is not None:
            if atom.var not in self.dimvars:
              v = z3.Int(f'dim_{atom.var}')
              self.dimvars[atom.var] = v
              self.hyps.append(v >= 1)
            a = self.dimvars[atom.var]
          elif atom.operation == 'mod':
            a = self._mod(self.zdim(atom.operands[0]), self.zdim(atom.operands[1]))
          elif atom.operation == 'floordiv':
            a = iv(self.zdim(atom.operands[0])) / iv(self.zdim(atom.operands[1]))
          elif atom.operation == 'max':
            a = zmax(iv(self.zdim(atom.operands[0])), iv(self.zdim(atom.operands[1])))
          elif atom.operation == 'non_negative':
            a = zmax(iv(self.zdim(atom.operands[0])), z3.IntVal(0))
          else:
            raise Unsupported(f'dimension {d}')
          for _ in range(exp):
            t = T.mul(t, a)
        total = t if total is None else T.add(total, t)
      r = z3.simplify(total if total is not None else z3.IntVal(0))
      return r.as_long() if z3.is_int_value(r) else r
    raise Unsupported(f'dimension {d!r}')

  @staticmethod
  def _mod(a, b):
    return iv(a) % iv(b)

  def shape(self, s):
    return tuple(self.zdim(d) for d in s)

  # -------------------------------------------------------------------- inputs
  def fresh(self, name, shape=(), kind='f', exact=True):
    shape = self.shape(shape)
    if not shape:
      c = z3.Const(name, SORT[kind])
      if not exact:
        self.approx.add(name)
      return scalar(c, kind)
    uf = z3.Function(name, *([T.I] * len(shape)), SORT[kind])
    if not exact:
      self.approx.add(name)
    return SV(shape, kind, lambda *i: uf(*[iv(x) for x in i]))

  def key(self, name):
    """A raw PRNG key (uint32[2]) standing for a root of the key algebra."""
    k = T.Key.root(z3.Int(name))
    return SV((2,), 'i', lambda j: T.kword(k, iv(j)))

  # ------------------------------------------------------ uninterpreted symbols
  def _gen(self, tag, n, shape=None):
    if shape is not None:
      return [z3.Int(f'g!c{s}_{tag}{j}' if isinstance(s, int) else f'g!{tag}{j}')
              for j, s in enumerate(shape)]
    return [z3.Int(f'g!{tag}{j}') for j in range(n)]

  def _rng_hyps(self, consts, shape):
    return [z3.And(c >= 0, c < iv(s)) for c, s in zip(consts, shape)]

  def same_array(self, a, b, hyps=(), deep=True, timeout=400):
    """Elementwise equality of two symbolic arrays, by rewriting or by proof."""
    if a is b:
      return True
    if a.kind != b.kind or not self.same_shape(a.shape, b.shape):
      return False
    g = self._gen(f's{a.ndim}_', a.ndim, a.shape)
    try:
      ta, tb = a.at(*g), b.at(*g)
    except Unsupported:
      if all(isinstance(s, int) for s in a.shape):
        return all(a.at(*p).eq(b.at(*p)) or T.eq_by_normal_form(a.at(*p), b.at(*p))
                   for p in itertools.product(*[range(s) for s in a.shape]))
      raise
    if ta.eq(tb):
      return True
    if not T.may_equal(ta, tb):
      return False
    if T.eq_by_normal_form(ta, tb):
      return True
    if not deep:
      return False
    r = T.prove(self.hyps + list(hyps) + self._rng_hyps(g, a.shape), ta == tb,
                extra=self.extra, timeout=timeout, use_cvc5=False, nf=False)
    return r.status == 'proved'

  def same_shape(self, s1, s2):
    if len(s1) != len(s2):
      return False
    for a, b in zip(s1, s2):
      if isinstance(a, int) and isinstance(b, int):
        if a != b:
          return False
      elif not z3.is_true(z3.simplify(iv(a) == iv(b))):
        return False
    return True

  def site(self, name, args, nb, out_shape, out_kind, exact=True):
    """The result of applying the uninterpreted function ``name`` to args."""
    for t, length in reversed(self.active):
      if any(self._depends(a, t) for a in args):
        # inside a loop: the application is a function of the iteration
        args = [SV((length,) + tuple(a.shape), a.kind, lambda u, *i, a=a, t=t: (
          a.at(*i) if t.eq(iv(u)) else z3.substitute(a.at(*i), (t, iv(u))))) for a in args]
        active, self.active = self.active, [x for x in self.active if not x[0].eq(t)]
        try:
          sv = self.site(name, args, nb + 1, (length,) + tuple(out_shape), out_kind, exact)
        finally:
          self.active = active
        return SV(out_shape, out_kind, lambda *i, sv=sv, t=t: sv.at(t, *i))
    for s in self.sites:
      if (s.name == name and s.nb == nb and len(s.args) == len(args)
          and s.out_kind == out_kind
          and self.same_shape(s.out_shape, out_shape)
          and all(self.same_array(x, y) for x, y in zip(s.args, args))):
        return self._site_sv(s)
    n = next(self.n)
    uf = z3.Function(f'{name}!{n}', *([T.I] * len(out_shape)), SORT[out_kind])
    s = Site(name, list(args), nb, tuple(out_shape), out_kind, uf, exact)
    if not exact:
      self.approx.add(uf.name())
    self.sites.append(s)
    self.by_uf[uf.name()] = s
    return self._site_sv(s)

  def _depends(self, a, t):
    try:
      v = a.at(*self._gen('y', a.ndim, a.shape))
    except Unsupported:
      return True
    return _mentions(v, [t])

  def _site_sv(self, s):
    return SV(s.out_shape, s.out_kind, lambda *i: s.uf(*[iv(x) for x in i]))

  def extra(self, ts):
    """Congruence instances between applications of the same function."""
    out = []
    for t in T.apps(ts):
      if (t.decl().name().startswith('rng_randint_') and t.num_args() > 2
          and not T.has_var(t)):
        lo, hi = t.arg(1), t.arg(2)
        out.append(z3.Implies(lo < hi, z3.And(lo <= t, t < hi)))
    done = set()
    frontier = list(ts)
    for _ in range(2):
      found = []
      for t in T.apps(frontier):
        s = self.by_uf.get(t.decl().name())
        if s is not None and not T.has_var(t):
          found.append((s, t))
      new = []
      count = 0
      for (s1, t1), (s2, t2) in itertools.combinations(found, 2):
        if (s1.name != s2.name or t1.eq(t2)
            or t1.num_args() - s1.nb != t2.num_args() - s2.nb):
          continue
        if len(s1.args) != len(s2.args) or count > 30:
          continue
        k = (t1.get_id(), t2.get_id())
        if k in done:
          continue
        done.add(k)
        i1, i2 = t1.children(), t2.children()
        b1, b2 = i1[:s1.nb], i2[:s2.nb]
        ok = True
        alts = []
        for a1, a2 in zip(s1.args, s2.args):
          if not self.same_shape(a1.shape[s1.nb:], a2.shape[s2.nb:]) or a1.kind != a2.kind:
            ok = False
            break
          sk = [z3.Int(f'sk!{next(self.n)}') for _ in a1.shape[s1.nb:]]
          rng = self._rng_hyps(sk, a1.shape[s1.nb:])
          alts.append(z3.And(*rng, a1.at(*b1, *sk) != a2.at(*b2, *sk)))
        if not ok:
          continue
        count += 1
        same_idx = [x == y for x, y in zip(i1[s1.nb:], i2[s2.nb:])]
        new.append(z3.Or(z3.Not(z3.And(same_idx)) if same_idx else z3.BoolVal(False),
                         *alts, t1 == t2))
      out += new
      frontier = new
      if not new:
        break
    return out

  def is_approx(self, ts, elementary=True):
    """Do the terms contain symbols whose meaning is only approximated?

    elementary: count exp, log and pow, which z3 knows by axioms, as such.
    """
    for t in T.apps(ts):
      n = t.decl().name()
      if n.startswith(('f_', 'nan_', 'infty')) or n == 'nan':
        return True
      if n in self.approx and (elementary or not (
          n in self.loop_uf or (n in self.by_uf and not n.startswith('op_')))):
        return True
      if elementary and n in ('r_exp', 'r_log', 'r_pow'):
        return True
      if n in self.loop_uf and not elementary:
        if self._loop_approx(self.loop_uf[n][0]):
          return True
      if n in self.by_uf:
        a = self._site_approx(self.by_uf[n])
        if a[0] or (elementary and a[1]):
          return True
    return False

  def _loop_approx(self, lp):
    if getattr(lp, 'approx', None) is None:
      lp.approx = False
      try:
        lp.approx = any(self.is_approx([a.at(*self._gen('x', a.ndim, a.shape))], False)
                        for a in list(lp.init) + list(lp.next))
      except Unsupported:
        lp.approx = True
    return lp.approx

  def _site_approx(self, s):
    """Does the meaning of an argument of the application depend on such symbols?"""
    if getattr(s, 'approx_args', None) is None:
      s.approx_args = (False, False)
      for a in s.args:
        try:
          t = [a.at(*self._gen('x', a.ndim, a.shape))]
          ap = (self.is_approx(t, False), self.is_approx(t, True))
        except Unsupported:
          ap = (True, True)
        s.approx_args = (s.approx_args[0] or ap[0], s.approx_args[1] or ap[1])
    return s.approx_args

  # ------------------------------------------------------------------- proving
  def prove(self, goal, hyps=(), timeout=None):
    tmo = timeout or (20000 if env.THOROUGH else 6000)
    r = T.prove(self.hyps + list(hyps), goal, extra=self.extra, timeout=tmo)
    if r.status == 'proved':
      return r
    if self.is_approx([goal] + list(hyps)):
      if r.status == 'refuted':
        r.status = 'unknown'
        r.reason = 'counterexample uses symbols without complete meaning'
      if not self.is_approx([goal] + list(hyps), elementary=False):
        gl = z3.simplify(goal)
        hy = [h for h in self.hyps + list(hyps)]
        m = T.numeric_refutation(hy, gl, self.by_uf, self.loop_uf,
                                 budget=4.0 if self.refutations < 6 else 0.5)
        self.refutations += 1
        if m is not None:
          return T.Result('refuted', 'numeric model', model=m, secs=r.secs,
                          reason='counterexample by evaluation of the terms')
    return r

  def prove_equal(self, a, b, hyps=(), timeout=None):
    if a.kind == 'b' and b.kind in 'if':
      b = cast(b, 'b')
    if a.kind in 'if' and b.kind == 'b':
      a = cast(a, 'b')
    if {a.kind, b.kind} == {'i', 'f'}:
      a, b = cast(a, 'f'), cast(b, 'f')
    if not self.same_shape(a.shape, b.shape):
      return T.Result('refuted', 'shape', reason=f'{a.shape} != {b.shape}')
    g = self._gen('p', a.ndim, a.shape)
    if all(isinstance(s, int) for s in a.shape) and a.ndim and _size(a.shape) <= 16:
      goals = [a.at(*p) == b.at(*p)
               for p in itertools.product(*[range(s) for s in a.shape])]
      worst = T.Result('proved', 'z3-simplify')
      for gl in goals:
        r = self.prove(gl, hyps, timeout)
        if r.status != 'proved':
          return r
        worst = r if r.backend != 'z3-simplify' else worst
      return worst
    ta, tb = a.at(*g), b.at(*g)
    return self.prove(ta == tb, list(hyps) + self._rng_hyps(g, a.shape), timeout)

  # ------------------------------------------------------------------- tracing
  def trace(self, fn, *args):
    """Traces the real function on the shapes of args and evaluates it.

    Leaves of args are SV (symbolic) or anything concrete. Returns the result as
    a tree of SV.
    """
    leaves, treedef = tree_util.tree_flatten(
      args, is_leaf=lambda x: isinstance(x, SV))
    dyn = [isinstance(l, SV) for l in leaves]
    structs = [self._struct(l) for l in leaves if isinstance(l, SV)]
    out_tree = []

    def flat(*dyn_leaves):
      it = iter(dyn_leaves)
      full = [next(it) if d else l for d, l in zip(dyn, leaves)]
      res = fn(*tree_util.tree_unflatten(treedef, full))
      out, td = tree_util.tree_flatten(res)
      out_tree.append(td)
      return [jnp.asarray(o) for o in out]
    with _dims_cases(self), _scan_lengths():
      closed = jax.make_jaxpr(flat)(*structs)
    self.epoch += 1
    svs = self.eval_closed(closed, [l for l in leaves if isinstance(l, SV)])
    return tree_util.tree_unflatten(out_tree[-1], svs)

  def trace_paths(self, fn, *args, limit=32):
    """All executions of fn that branch in Python on traced values.

    Every conversion of a traced scalar to bool forks. Returns a list of
    (condition, result or exception); the conditions are exhaustive.
    """
    todo, paths = [[]], []
    orig = core.ShapedArray._bool
    while todo:
      prefix = todo.pop()
      if len(paths) >= limit:
        raise Unsupported('too many paths')
      taken, conds, box = [], [], {}

      def to_bool(aval, tracer, taken=taken, conds=conds, prefix=prefix):
        n = len(taken)
        b = prefix[n] if n < len(prefix) else True
        taken.append(b)
        conds.append(tracer)
        return b

      def run(*a, conds=conds, box=box):
        core.ShapedArray._bool = to_bool
        try:
          with _dims_fork():
            box['out'] = fn(*a)
        except (AssertionError, ValueError) as err:
          box['err'] = err
        finally:
          core.ShapedArray._bool = orig
        return (box.get('out', ()), list(conds))
      out, cs = self.trace(run, *args)
      terms = []
      for c, b in zip(cs, taken):
        t = c.at()
        if not z3.is_bool(t):
          t = t != 0
        terms.append(t if b else z3.Not(t))
      cond = z3.simplify(z3.And(terms)) if terms else z3.BoolVal(True)
      if not z3.is_false(cond):
        paths.append((cond, box.get('err', out)))
      for n in range(len(prefix), len(taken)):
        todo.append(taken[:n] + [not taken[n]])
    return paths

  _poly = None

  def _struct(self, sv):
    dt = {'f': 'float32', 'i': 'int32', 'b': 'bool'}[sv.kind]
    if getattr(sv, 'cval', None) is not None:
      dt = sv.cval.dtype
    if sv.kind == 'i' and sv.shape and sv.shape[-1] == 2:
      dt = self.key_dtype(sv)
    return jax.ShapeDtypeStruct(tuple(self._unz(s) for s in sv.shape), dt)

  def key_dtype(self, sv):
    t = sv.at(*([0] * sv.ndim))
    if z3.is_app(t) and t.decl().eq(T.kword):
      return 'uint32'
    return 'int32'

  def _unz(self, s):
    if isinstance(s, int):
      return s
    # back to a dimension expression
    for name, v in self.dimvars.items():
      if v.eq(s):
        return shape_poly._parse_spec(name, (None,))[0]
    if z3.is_add(s):
      return sum(self._unz(c) for c in s.children())
    if z3.is_mul(s):
      out = 1
      for c in s.children():
        out = out * self._unz(c)
      return out
    if z3.is_int_value(s):
      return s.as_long()
    raise Unsupported(f'dimension term {s}')

  # ---------------------------------------------------------------- evaluation
  def eval_closed(self, closed, args):
    return self.eval(closed.jaxpr, [from_concrete(c) for c in closed.consts], args)

  def eval(self, jaxpr, consts, args):
    e = {}

    def read(v):
      if isinstance(v, core.Literal):
        return from_concrete(v.val)
      return e[v]
    for v, x in zip(jaxpr.constvars, consts):
      e[v] = x
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, x in zip(jaxpr.invars, args):
      e[v] = x
    for eqn in jaxpr.eqns:
      outs = self.eqn(eqn, [read(v) for v in eqn.invars])
      if len(outs) != len(eqn.outvars):
        raise Unsupported(f'arity of {eqn.primitive}')
      for v, o in zip(eqn.outvars, outs):
        e[v] = o
    return [read(v) for v in jaxpr.outvars]

  def eqn(self, eqn, args):
    name = eqn.primitive.name
    p = eqn.params
    out = [v.aval for v in eqn.outvars]
    h = getattr(self, 'p_' + name.replace('-', '_'), None)
    if h is not None:
      r = h(eqn, args, p, out)
      r = r if isinstance(r, list) else [r]
      return [fit(x, o.dtype, args) for x, o in zip(r, out)] if name in _FIT else r
    if name in _COUNTS:
      r = self.count_compared(name, *args)
      if r is not None:
        return [r]
    if name in ELEMWISE:
      r = self.elemwise(ELEMWISE[name], args, out[0])
      return [fit(r, out[0].dtype, args) if name in _FIT else r]
    return self.opaque_prim(name, args, p, out)

  def opaque_prim(self, name, args, p, out):
    """A pure primitive without a given meaning: a function of its arguments."""
    if any(isinstance(x, core.Jaxpr) or isinstance(x, core.ClosedJaxpr)
           for x in p.values()):
      raise Unsupported(f'primitive {name}')
    self.notes.add(f'primitive {name}: uninterpreted')
    tag = 'op_' + name + '_' + format(hash(str(sorted((k, str(v)) for k, v in p.items()))) & 0xffffff, 'x')
    return [self.site(f'{tag}_{n}', args, 0, self.shape(o.shape), kind_of(o.dtype),
                      exact=False) for n, o in enumerate(out)]

  # ---- elementwise
  def bcast(self, a, shape):
    if a.ndim == len(shape):
      return a
    if a.ndim == 0:
      t = a.at()
      return SV(shape, a.kind, lambda *i: t)
    raise Unsupported('rank')

  def count_compared(self, name, a, b):
    """A number of truth values compared with 0 or 1: is one of them true."""
    if a.anyof is None and b.anyof is not None:
      name, a, b = _SWAPPED[name], b, a
    if a.anyof is None or b.cval is None or b.ndim and b.shape != a.shape:
      return None
    v = set(onp.ravel(onp.asarray(b.cval)).tolist())
    v = v.pop() if len(v) == 1 else None
    some = _COUNTS[name].get(v)
    if some is None:
      return None
    x = a.anyof()
    return x if some else SV(x.shape, 'b', lambda *i: z3.Not(x.at(*i)))

  def elemwise(self, f, args, aval):
    shape = self.shape(aval.shape)
    k = kind_of(aval.dtype)
    flat = self._flat(args)
    if flat is not None and not self.same_shape(shape[:-1], flat[0][:-1]):
      flat = None
    scalars = args
    args = [self.bcast(a, shape) for a in args]
    if all(a.cval is not None for a in args) and all(isinstance(s, int) for s in shape):
      pass
    kinds = [a.kind for a in args]
    r = SV(shape, k, lambda *i: f(k, kinds, *[a.at(*i) for a in args]))
    if flat is not None:
      _, n, src = flat
      r.flat = SV(src, k, lambda *i: f(k, kinds, *[
        a.at() if not a.ndim else a.flat[0].at(*i) for a in scalars])), n
    return r

  def _flat(self, args):
    """Merged axes which all arrays among args have in common."""
    arrays = [a for a in args if a.ndim]
    if not arrays or any(a.flat is None for a in arrays):
      return None
    (src, n), shape = arrays[0].flat, arrays[0].shape
    if all(a.flat[1] == n and self.same_shape(a.flat[0].shape, src.shape) for a in arrays[1:]):
      return shape, n, src.shape
    return None

  # ---- structural
  def p_pjit(self, eqn, args, p, out):
    nm = p['name']
    if nm in RNG_PREFIX:
      return self.rng(nm, args, out, p)
    if nm in ('eigh', '_eigh', 'svd', '_svd', 'inv', 'cholesky'):
      pass
    return self.eval_closed(p['jaxpr'], args)

  p_closed_call = lambda self, e, a, p, o: self.eval_closed(p['call_jaxpr'], a)
  p_custom_vjp_call_jaxpr = lambda self, e, a, p, o: self.eval_closed(p['fun_jaxpr'], a)
  p_custom_jvp_call = lambda self, e, a, p, o: self.eval_closed(p['call_jaxpr'], a)

  def _core_call(self, eqn, args, p, out):
    j = p['call_jaxpr']
    if isinstance(j, core.ClosedJaxpr):
      return self.eval_closed(j, args)
    return self.eval(j, [], args)
  p_core_call = p_xla_call = p_remat = p_checkpoint = p_core_closed_call = _core_call
  p_custom_jvp_call_jaxpr = p_custom_vjp_call_jaxpr

  def p_checkpoint(self, eqn, args, p, out):
    return self.eval(p['jaxpr'], [], args)

  def p_xla_pmap(self, e, a, p, o):
    """A program replicated on devices: the same function along the mapped axes."""
    j = p['call_jaxpr']
    f = core.jaxpr_as_fun(core.ClosedJaxpr(j, ()) if isinstance(j, core.Jaxpr) else j)
    mapped = jax.vmap(lambda *x: tuple(f(*x)), in_axes=tuple(p['in_axes']),
                      out_axes=tuple(p['out_axes']), axis_name=p['axis_name'],
                      axis_size=p['axis_size'])
    return self.eval_closed(jax.make_jaxpr(mapped)(
      *[jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in e.invars]), a)

  def p_copy(self, e, a, p, o):
    return a[0]
  p_copy_p = p_stop_gradient = p_optimization_barrier = p_copy

  def p_name(self, e, a, p, o):
    return a[0]

  def p_dim_as_value(self, e, a, p, o):
    d = self.zdim(p['dim'])
    return scalar(iv(d), 'i')

  def p_shape_assertion(self, e, a, p, o):
    return []

  def p_broadcast_in_dim(self, e, a, p, o):
    x = a[0]
    shape = self.shape(p['shape'])
    bd = p['broadcast_dimensions']

    def fn(*i):
      idx = []
      for n, d in enumerate(bd):
        idx.append(0 if (x.shape[n] == 1 if isinstance(x.shape[n], int) else False)
                   else i[d])
      return x.at(*idx)
    return SV(shape, x.kind, fn)

  def p_reshape(self, e, a, p, o):
    x = a[0]
    new = self.shape(p['new_sizes'])
    if p.get('dimensions') is not None:
      raise Unsupported('reshape dimensions')
    return self.reshape(x, new)

  def reshape(self, x, new):
    old = tuple(x.shape)
    # strip unit dimensions
    oi = [n for n, s in enumerate(old) if not (isinstance(s, int) and s == 1)]
    ni = [n for n, s in enumerate(new) if not (isinstance(s, int) and s == 1)]
    if self.same_shape([old[n] for n in oi], [new[n] for n in ni]):
      def fn(*i):
        idx = [0] * len(old)
        for a_, b_ in zip(oi, ni):
          idx[a_] = i[b_]
        return x.at(*idx)
      return SV(new, x.kind, fn)

    # common leading dimensions are kept, only the remaining ones are merged or split
    pre = 0
    while pre < min(len(old), len(new)) - 1 and self.same_shape([old[pre]], [new[pre]]):
      pre += 1
    if pre:
      def fn1(*i):
        head = i[:pre]
        rest = SV(old[pre:], x.kind, lambda *r: x.at(*head, *r))
        return self.reshape(rest, tuple(new[pre:])).at(*i[pre:])
      r = SV(new, x.kind, fn1)
      if len(new) == pre + 1 < len(old):
        r.flat = x, pre
      return r

    def fn2(*i):
      lin = 0
      for n, ix in enumerate(i):
        lin = lin * new[n] + ix if n else ix
      if isinstance(lin, int) and all(isinstance(s, int) for s in old[1:]):
        idx = []
        for s in reversed(old[1:]):
          idx.append(lin % s)
          lin //= s
        return x.at(lin, *reversed(idx))
      idx = []
      for n, s in reversed(list(enumerate(old))):
        if n == 0:
          idx.append(lin)
        elif isinstance(s, int) and s == 1:
          idx.append(0)
        else:
          idx.append(z3.simplify(iv(lin) % iv(s)))
          lin = z3.simplify(iv(lin) / iv(s))
      return x.at(*reversed(idx))
    r = SV(new, x.kind, fn2)
    if len(new) == 1 < len(old):
      r.flat = x, 0
    return r

  def p_squeeze(self, e, a, p, o):
    return self.reshape(a[0], self.shape(o[0].shape))
  p_expand_dims = p_squeeze

  def p_transpose(self, e, a, p, o):
    x, perm = a[0], p['permutation']

    def fn(*i):
      idx = [None] * len(i)
      for n, q in enumerate(perm):
        idx[q] = i[n]
      return x.at(*idx)
    return SV([x.shape[q] for q in perm], x.kind, fn)

  def p_rev(self, e, a, p, o):
    x = a[0]
    return SV(x.shape, x.kind, lambda *i: x.at(*[
      (x.shape[n] - 1 - ix) if n in p['dimensions'] else ix for n, ix in enumerate(i)]))

  def p_slice(self, e, a, p, o):
    x = a[0]
    st = [self.zdim(s) for s in p['start_indices']]
    sr = p['strides'] or (1,) * x.ndim
    return SV(self.shape(o[0].shape), x.kind, lambda *i: x.at(
      *[s + ix * int(r) if not (isinstance(s, int) and s == 0 and r == 1) else ix
        for s, ix, r in zip(st, i, sr)]))

  def p_iota(self, e, a, p, o):
    shape = self.shape(p['shape'])
    k = kind_of(p['dtype'])
    d = p['dimension']
    return SV(shape, k, lambda *i: iv(i[d]) if k == 'i' else T.to_real(iv(i[d])))

  def p_concatenate(self, e, a, p, o):
    d = p['dimension']
    offs = [0]
    for x in a:
      s = offs[-1] + x.shape[d] if not isinstance(x.shape[d], int) or not isinstance(offs[-1], int) else offs[-1] + x.shape[d]
      offs.append(s if isinstance(s, int) else z3.simplify(s))

    def fn(*i):
      ix = i[d]
      c = conc(ix)
      out = None
      for n in reversed(range(len(a))):
        lo, hi = offs[n], offs[n + 1]
        if c is not None and isinstance(lo, int) and isinstance(hi, int):
          if lo <= c < hi:
            j = list(i)
            j[d] = c - lo
            return a[n].at(*j)
          continue
        j = list(i)
        j[d] = z3.simplify(iv(ix) - iv(lo))
        v = a[n].at(*j)
        out = v if out is None else T.ite(z3.simplify(iv(ix) < iv(hi)), v, out)
      return out
    return SV(self.shape(o[0].shape), kind_of(o[0].dtype), fn)

  def p_pad(self, e, a, p, o):
    x, pv = a
    cfg = p['padding_config']
    if any(c[2] != 0 for c in cfg):
      raise Unsupported('interior padding')
    lo = [self.zdim(c[0]) for c in cfg]

    def fn(*i):
      conds, idx = [], []
      for ix, l, s in zip(i, lo, x.shape):
        j = z3.simplify(iv(ix) - iv(l))
        conds += [j >= 0, j < iv(s)]
        idx.append(j)
      return T.ite(z3.simplify(z3.And(conds)), x.at(*idx), pv.at())
    return SV(self.shape(o[0].shape), x.kind, fn)

  def p_dynamic_slice(self, e, a, p, o):
    x = a[0]
    starts = [s.at() for s in a[1:1 + x.ndim]]
    sizes = self.shape(p['slice_sizes'])
    cl = [self.clamp(s, 0, iv(n) - iv(z)) for s, n, z in zip(starts, x.shape, sizes)]
    return SV(sizes, x.kind, lambda *i: x.at(*[z3.simplify(c + ix) for c, ix in zip(cl, i)]))

  def p_dynamic_update_slice(self, e, a, p, o):
    x, u = a[0], a[1]
    starts = [s.at() for s in a[2:]]
    cl = [self.clamp(s, 0, iv(n) - iv(z)) for s, n, z in zip(starts, x.shape, u.shape)]

    def fn(*i):
      conds, idx = [], []
      for ix, c, z in zip(i, cl, u.shape):
        j = z3.simplify(iv(ix) - c)
        conds += [j >= 0, j < iv(z)]
        idx.append(j)
      return T.ite(z3.simplify(z3.And(conds)), u.at(*idx), x.at(*i))
    return SV(x.shape, x.kind, fn)

  def clamp(self, s, lo, hi):
    s, lo, hi = iv(s), iv(lo), iv(hi)
    r = z3.simplify(z3.If(s < lo, lo, z3.If(s > hi, hi, s)))
    return r

  def p_gather(self, e, a, p, o):
    x, ind = a
    dn = p['dimension_numbers']
    ss = self.shape(p['slice_sizes'])
    mode = str(p['mode'])
    oshape = self.shape(o[0].shape)
    offset_dims = dn.offset_dims
    batch_dims = [d for d in range(len(oshape)) if d not in offset_dims]
    window = [d for d in range(x.ndim) if d not in dn.collapsed_slice_dims]

    def fn(*i):
      b = [i[d] for d in batch_dims]
      off = {w: i[d] for w, d in zip(window, offset_dims)}
      start = {d: ind.at(*b, n) for n, d in enumerate(dn.start_index_map)}
      idx, inb = [], []
      for d in range(x.ndim):
        if d in start:
          s = start[d]
          lim = iv(x.shape[d]) - iv(ss[d])
          if 'CLIP' in mode:
            s = self.clamp(s, 0, lim)
          elif 'FILL' in mode:
            inb.append(z3.And(s >= 0, s <= lim))
          base = s + off[d] if d in off else s
          idx.append(z3.simplify(base))
        else:
          idx.append(off.get(d, 0))
      v = x.at(*idx)
      if inb:
        c = z3.simplify(z3.And(inb))
        if z3.is_true(c):
          return v
        bad = z3.Const(f'nan_{x.kind}', SORT[x.kind])
        return T.ite(c, v, bad)
      return v
    return SV(oshape, x.kind, fn)

  def _scatter(self, comb):
    def h(e, a, p, o):
      x, ind, u = a
      dn = p['dimension_numbers']
      if ind.ndim != 1:
        # batch of updates: only a concrete, small number
        if ind.ndim != 2:
          raise Unsupported('scatter')
        nb = ind.shape[0]
        own = None
        if not (isinstance(nb, int) and nb <= 16):
          # a column which enumerates a dimension of the operand: the only
          # update which reaches entry i is the one of row i
          q = z3.Int('q!row')
          for n, d in enumerate(dn.scatter_dims_to_operand_dims):
            col = z3.simplify(iv(ind.at(q, n)))
            if (d in dn.inserted_window_dims and col.eq(q)
                and self.same_shape([x.shape[d]], [nb])):
              own = (n, d)
          if own is None:
            raise Unsupported('scatter')
      else:
        nb = own = None
      win = dn.update_window_dims
      ins = dn.inserted_window_dims
      wdims = [d for d in range(x.ndim) if d not in ins]
      mode = str(p['mode'])

      def fn(*i):
        val = x.at(*i)
        for b in ([None] if nb is None else [i[own[1]]] if own else range(nb)):
          conds = []
          uidx = [None] * u.ndim
          start = {}
          for n, d in enumerate(dn.scatter_dims_to_operand_dims):
            start[d] = ind.at(n) if b is None else ind.at(b, n)
          for d in range(x.ndim):
            if nb is not None and own and d == own[1]:
              continue
            if d in ins:
              s = start.get(d, z3.IntVal(0))
              if 'CLIP' in mode:
                s = self.clamp(s, 0, iv(x.shape[d]) - 1)
              conds.append(iv(i[d]) == s)
            else:
              wd = win[wdims.index(d)]
              s = start.get(d)
              j = i[d] if s is None else z3.simplify(iv(i[d]) - s)
              if s is not None:
                conds += [iv(j) >= 0, iv(j) < iv(u.shape[wd])]
              uidx[wd] = j
          if b is not None:
            bd = [n for n in range(u.ndim) if n not in win]
            uidx[bd[0]] = b
          c = z3.simplify(z3.And(conds)) if conds else z3.BoolVal(True)
          val = T.ite(c, comb(val, u.at(*uidx)), val)
        return val
      return SV(x.shape, x.kind, fn)
    return h

  def p_scatter(self, e, a, p, o):
    return self._scatter(lambda old, new: new)(e, a, p, o)

  def p_scatter_add(self, e, a, p, o):
    return self._scatter(lambda old, new: old + new)(e, a, p, o)

  # ---- selection
  def p_select_n(self, e, a, p, o):
    c, cases = a[0], a[1:]
    shape = self.shape(o[0].shape)
    c = self.bcast(c, shape)

    def fn(*i):
      t = c.at(*i)
      if c.kind == 'b':
        return T.ite(t, cases[1].at(*i), cases[0].at(*i)) if len(cases) == 2 else cases[0].at(*i)
      out = cases[-1].at(*i)
      for n in reversed(range(len(cases) - 1)):
        out = T.ite(t == n, cases[n].at(*i), out)
      return out
    return SV(shape, cases[0].kind, fn)

  def p_cond(self, e, a, p, o):
    idx, ops = a[0], a[1:]
    brs = p['branches']
    t = z3.simplify(idx.at())
    if idx.kind == 'b':
      t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    c = conc(z3.simplify(t))
    if c is not None:
      return self.eval_closed(brs[min(max(c, 0), len(brs) - 1)], ops)
    outs = [self.eval_closed(b, ops) for b in brs]
    if len(brs) == 2 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE \
        and conc(t.arg(1)) == 1 and conc(t.arg(2)) == 0:
      g = t.arg(0)
      return [self._sel(g, y, x) for x, y in zip(*outs)]
    res = []
    for parts in zip(*outs):
      r = parts[-1]
      for n in reversed(range(len(parts) - 1)):
        r = self._sel(t <= n, parts[n], r)
      res.append(r)
    return res

  def _sel(self, g, x, y):
    return SV(x.shape, x.kind, lambda *i: T.ite(g, x.at(*i), y.at(*i)))

  def p_convert_element_type(self, e, a, p, o):
    return cast(a[0], kind_of(p['new_dtype']))

  # ---- reductions
  def reduce_outer(self, x, axes):
    outer = [d for d in range(x.ndim) if d not in axes]
    return outer, [x.shape[d] for d in outer], [x.shape[d] for d in axes]

  def p_reduce_sum(self, e, a, p, o):
    x, axes = a[0], p['axes']
    if x.truth is None or all(isinstance(x.shape[d], int) for d in axes):
      return self.reduce_sum(x, axes)
    r = self.reduce_sum(x, axes)
    r.anyof = lambda: self._reduce_small(x.truth, axes, z3.Or, z3.BoolVal(False), 'ror')
    return r

  def reduce_sum(self, x, axes):
    if x.flat is not None and tuple(axes) == (x.ndim - 1,):
      # the order of the terms does not matter
      x, n = x.flat
      axes = tuple(range(n, x.ndim))
    outer, oshape, rshape = self.reduce_outer(x, axes)

    def full(oi, ri):
      idx = [None] * x.ndim
      for d, v in zip(outer, oi):
        idx[d] = v
      for d, v in zip(axes, ri):
        idx[d] = v
      return x.at(*idx)
    if all(isinstance(s, int) for s in rshape) and _size(rshape) <= 64:
      def fn(*oi):
        ts = [full(oi, ri) for ri in itertools.product(*[range(s) for s in rshape])]
        if not ts:
          return const_term(0, x.kind)
        r = ts[0]
        for t in ts[1:]:
          r = T.add(r, t)
        return r
      return SV(oshape, x.kind, fn)
    n = next(self.n)
    og = [z3.Int(f'o!{n}_{j}') for j in range(len(oshape))]
    rg = [z3.Int(f'r!{n}_{j}') for j in range(len(rshape))]
    body = full(og, rg)
    if x.kind == 'b':
      raise Unsupported('sum of booleans')
    body = T.norm(body)
    monos = body.children() if body.decl().kind() == z3.Z3_OP_ADD else [body]
    total = None
    for m in monos:
      c, fs = T._coef(m)
      co = T.rv(c) if x.kind == 'f' else z3.IntVal(int(c))
      dep = []
      for f in fs:
        if _mentions(f, rg):
          dep.append(f)
        else:
          co = T.mul(co, f)
      dep, co, rest = self._collapse(dep, co, og, rg, oshape, rshape)
      if not dep:
        s = co
        for d in (rshape[j] for j in rest):
          s = T.mul(s, T.to_real(iv(d)) if x.kind == 'f' else iv(d))
      else:
        core_t = dep[0]
        for f in sorted(dep[1:], key=str):
          core_t = core_t * f
        rr = [rg[j] for j in rest]
        arr = SV(list(oshape) + [rshape[j] for j in rest], x.kind,
                 _subst_fn(core_t, og + rr))
        sv = self.site('sum', [arr], len(oshape), oshape, x.kind, exact=False)
        s = T.mul(co, sv.at(*og))
      total = s if total is None else T.add(total, s)
    return SV(oshape, x.kind, _subst_fn(total, og))

  def _collapse(self, dep, co, og, rg, oshape, rshape):
    """sum_r f(r) [r == e] = f(e) for an e in the range of r."""
    rest = list(range(len(rg)))
    again = True
    while again:
      again = False
      for n, f in enumerate(dep):
        if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE and T.is_num(f.arg(1))
                and T.is_num(f.arg(2)) and T.frac(f.arg(1)) == 1 and T.frac(f.arg(2)) == 0):
          continue
        c = f.arg(0)
        cs = c.children() if z3.is_and(c) else [c]
        for m, q in enumerate(cs):
          if not (z3.is_eq(q) and z3.is_int(q.arg(0))):
            continue
          for r, e in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
            js = [j for j in rest if rg[j].eq(r)]
            if not js or _mentions(e, [rg[j] for j in rest]):
              continue
            j = js[0]
            others = [x for k, x in enumerate(cs) if k != m]
            if not any(e.eq(o) and self.same_shape([oshape[k]], [rshape[j]])
                       for k, o in enumerate(og)):
              others += [e >= 0, e < iv(rshape[j])]
            one = f.arg(1)
            fs = [x for k, x in enumerate(dep) if k != n]
            if others:
              fs.append(z3.If(z3.And(others), one, f.arg(2)))
            fs = [z3.substitute(x, (rg[j], e)) for x in fs]
            rest.remove(j)
            left = [rg[k] for k in rest]
            dep = [x for x in fs if _mentions(x, left)]
            for x in fs:
              if not _mentions(x, left):
                co = T.mul(co, x)
            again = True
            break
          if again:
            break
        if again:
          break
    return dep, co, rest

  def _reduce_small(self, x, axes, comb, unit, name):
    outer, oshape, rshape = self.reduce_outer(x, axes)

    def full(oi, ri):
      idx = [None] * x.ndim
      for d, v in zip(outer, oi):
        idx[d] = v
      for d, v in zip(axes, ri):
        idx[d] = v
      return x.at(*idx)
    if all(isinstance(s, int) for s in rshape) and _size(rshape) <= 64:
      def fn(*oi):
        r = None
        for ri in itertools.product(*[range(s) for s in rshape]):
          t = full(oi, ri)
          r = t if r is None else comb(r, t)
        return r if r is not None else unit
      return SV(oshape, x.kind, fn)
    perm = outer + list(axes)
    arr = SV([x.shape[d] for d in perm], x.kind,
             lambda *i: full(i[:len(outer)], i[len(outer):]))
    return self.site(name, [arr], len(oshape), oshape, x.kind, exact=False)

  def p_reduce_max(self, e, a, p, o):
    return self._reduce_small(a[0], p['axes'], zmax, None, 'rmax')

  def p_reduce_min(self, e, a, p, o):
    return self._reduce_small(a[0], p['axes'], zmin, None, 'rmin')

  def p_reduce_prod(self, e, a, p, o):
    return self._reduce_small(a[0], p['axes'], T.mul, const_term(1, a[0].kind), 'rprod')

  def p_reduce_or(self, e, a, p, o):
    return self._reduce_small(a[0], p['axes'], z3.Or, z3.BoolVal(False), 'ror')

  def p_reduce_and(self, e, a, p, o):
    x, axes = a[0], p['axes']
    if all(isinstance(x.shape[d], int) for d in axes):
      return self._reduce_small(x, axes, z3.And, z3.BoolVal(True), 'rand')
    # all of them hold: none of them fails
    r = self._reduce_small(SV(x.shape, 'b', lambda *i: _not(x.at(*i))), axes, z3.Or,
                           z3.BoolVal(False), 'ror')
    return SV(r.shape, 'b', lambda *i: z3.Not(r.at(*i)))

  def p_cumsum(self, e, a, p, o):
    x, ax = a[0], p['axis']
    if not isinstance(x.shape[ax], int) or x.shape[ax] > 64:
      raise Unsupported('cumsum')

    def fn(*i):
      c = conc(i[ax])
      if c is None:
        raise Unsupported('cumsum index')
      r = None
      rng = range(c, x.shape[ax]) if p.get('reverse') else range(c + 1)
      for k in rng:
        j = list(i)
        j[ax] = k
        r = x.at(*j) if r is None else T.add(r, x.at(*j))
      return r
    return SV(x.shape, x.kind, fn)

  def p_dot_general(self, e, a, p, o):
    x, y = a
    (cx, cy), (bx, by) = p['dimension_numbers']
    fx = [d for d in range(x.ndim) if d not in cx and d not in bx]
    fy = [d for d in range(y.ndim) if d not in cy and d not in by]
    nb, nx, ny = len(bx), len(fx), len(fy)
    flat = self._flat([x, y])
    if (flat is not None and not nx and not ny and tuple(cx) == tuple(cy) == (x.ndim - 1,)
        and tuple(bx) == tuple(by) == tuple(range(flat[1]))):
      x, y = x.flat[0], y.flat[0]
      cx = cy = tuple(range(nb, x.ndim))
      fx, fy = [], []
    oshape = [x.shape[d] for d in bx] + [x.shape[d] for d in fx] + [y.shape[d] for d in fy]
    cshape = [x.shape[d] for d in cx]
    k = kind_of(o[0].dtype)

    def fn(*i):
      b, ix, iy, c = i[:nb], i[nb:nb + nx], i[nb + nx:nb + nx + ny], i[nb + nx + ny:]
      xi, yi = [None] * x.ndim, [None] * y.ndim
      for n in range(nb):
        xi[bx[n]] = b[n]
        yi[by[n]] = b[n]
      for n, d in enumerate(fx):
        xi[d] = ix[n]
      for n, d in enumerate(fy):
        yi[d] = iy[n]
      for n in range(len(cx)):
        xi[cx[n]] = c[n]
        yi[cy[n]] = c[n]
      u, v = x.at(*xi), y.at(*yi)
      if k == 'f':
        u, v = conv(u, x.kind, 'f'), conv(v, y.kind, 'f')
      return T.mul(u, v)
    prod = SV(oshape + cshape, k, fn)
    return self.reduce_sum(prod, tuple(range(len(oshape), len(oshape) + len(cshape))))

  def p_argmax(self, e, a, p, o):
    return self.opaque_prim('argmax', a, p, o)

  # ---- randomness
  def key_at(self, raw, *b):
    w0, w1 = raw.at(*b, 0), raw.at(*b, 1)
    return self.join_key(w0, w1)

  def join_key(self, w0, w1):
    w0, w1 = z3.simplify(w0), z3.simplify(w1)
    if z3.is_app(w0) and z3.is_app(w1):
      if w0.decl().eq(T.kword) and w1.decl().eq(T.kword) and w0.arg(0).eq(w1.arg(0)):
        return w0.arg(0)
      if (w0.decl().kind() == z3.Z3_OP_ITE and w1.decl().kind() == z3.Z3_OP_ITE
          and w0.arg(0).eq(w1.arg(0))):
        return z3.If(w0.arg(0), self.join_key(w0.arg(1), w1.arg(1)),
                     self.join_key(w0.arg(2), w1.arg(2)))
    return T.Key.mk(w0, w1)

  def p_random_wrap(self, e, a, p, o):
    raw = a[0]
    return SV(raw.shape[:-1], 'K', lambda *b: self.key_at(raw, *b))

  def p_random_unwrap(self, e, a, p, o):
    k = a[0]
    return SV(tuple(k.shape) + (2,), 'i', lambda *i: T.kword(k.at(*i[:-1]), iv(i[-1])))

  def p_random_seed(self, e, a, p, o):
    s = a[0]
    return SV(s.shape, 'K', lambda *i: T.Key.seed(s.at(*i)))

  def p_random_split(self, e, a, p, o):
    k = a[0]
    shp = tuple(p['shape']) if 'shape' in p else (p['count'],)
    shp = self.shape(shp)
    if len(shp) != 1:
      raise Unsupported('split shape')
    nz = iv(shp[0])
    return SV(tuple(k.shape) + shp, 'K',
              lambda *i: T.Key.split(k.at(*i[:-1]), nz, iv(i[-1])))

  def p_random_fold_in(self, e, a, p, o):
    k, m = a
    return SV(k.shape, 'K', lambda *i: T.Key.fold(k.at(*i), m.at(*i)))

  def p_random_bits(self, e, a, p, o):
    return self.rng('bits', a, o, p)

  def rng(self, nm, args, out, p):
    """A draw: a function of the key (and the parameters of the distribution)."""
    nm = nm.lstrip('_')
    if nm == 'normal_real':
      nm = 'normal'
    keys = [x for x in args if x.kind == 'K']
    oth = [x for x in args if x.kind != 'K']
    res = []
    for o in out:
      shp = self.shape(o.shape)
      k = kind_of(o.dtype)
      if len(keys) == 1 and keys[0].ndim == 0 and all(x.ndim == 0 for x in oth):
        kt = keys[0].at()
        ps = [x.at() for x in oth]
        tag = f"rng_{nm}_{len(shp)}"
        uf = z3.Function(tag, T.Key, *[p_.sort() for p_ in ps],
                         *([T.I] * (2 * len(shp))), SORT[k])
        self.rng_used.append((nm, kt, shp))
        self.draws.append((nm, kt, [], [], list(self.active)))
        dims = [iv(s) for s in shp]
        if nm == 'uniform' and len(ps) == 2:
          g = uf(kt, *ps, *dims, *[z3.Int(f'u!{j}') for j in range(len(shp))])
          if not shp:
            self.hyps += [g >= ps[0], g < ps[1]] if k == 'f' else []
        res.append(SV(shp, k, lambda *i, uf=uf, kt=kt, ps=ps, dims=dims:
                      uf(kt, *ps, *dims, *[iv(x) for x in i])))
      else:
        for x in keys:
          ix = [z3.Int(f'kx!{next(self.n)}') for _ in x.shape]
          self.draws.append((nm, x.at(*ix), ix, self._rng_hyps(ix, x.shape), list(self.active)))
          self.rng_used.append((nm, x.at(*([0] * x.ndim)) if x.ndim else x.at(), shp))
        res.append(self.site(f'rng_{nm}', args, 0, shp, k, exact=True))
    return res

  # ---- opaque callees
  def p_opaque(self, e, a, p, o):
    nb = p['nb']
    return [self.mapped_site('U_' + p['name'], a, nb, self.shape(v.shape), kind_of(v.dtype))
            for v in o]

  def mapped_site(self, name, args, nb, shape, kind):
    """An application mapped over a few entries is one application per entry."""
    if nb and isinstance(shape[0], int) and shape[0] <= 8:
      parts = [self.mapped_site(name, [SV(x.shape[1:], x.kind, lambda *i, x=x, j=j: x.at(j, *i))
                                       for x in args], nb - 1, shape[1:], kind)
               for j in range(shape[0])]
      return self.stack(parts, kind, shape)
    return self.site(name, args, nb, shape, kind)

  def p_effect(self, e, a, p, o):
    self.effects.append((p['name'], a, list(self.active)))
    return [SV(self.shape(v.shape), kind_of(v.dtype), lambda *i: z3.IntVal(0)) for v in o]

  # ---- loops
  def p_scan(self, e, a, p, o):
    length = self.zdim(p['length'])
    nc, ncar = p['num_consts'], p['num_carry']
    consts, init, xs = a[:nc], a[nc:nc + ncar], a[nc + ncar:]
    body = p['jaxpr']
    rev = p['reverse']
    if isinstance(length, int) and length <= self.unroll:
      carry = list(init)
      ys = []
      order = range(length)
      for t in (reversed(order) if rev else order):
        xt = [SV(x.shape[1:], x.kind, lambda *i, x=x, t=t: x.at(t, *i)) for x in xs]
        outs = self.eval_closed(body, consts + carry + xt)
        carry = outs[:ncar]
        ys.append((t, outs[ncar:]))
      ys.sort(key=lambda q: q[0])
      res = list(carry)
      for n, v in enumerate(o[ncar:]):
        parts = [y[n] for _, y in ys]
        res.append(self.stack(parts, kind_of(v.dtype), self.shape(v.shape)))
      return res
    if rev:
      raise Unsupported('reverse scan')
    # components which every iteration hands on unchanged are constants
    live = [k for k in range(ncar)
            if body.jaxpr.outvars[k] is not body.jaxpr.invars[nc + k]]

    def step(carry, xt):
      full = list(init)
      for k, c in zip(live, carry):
        full[k] = c
      outs = self.eval_closed(body, consts + full + xt)
      return [outs[k] for k in live] + outs[ncar:]
    res, ys = self.loop(step, [init[k] for k in live], xs, length)
    fin = list(init)
    for k, c in zip(live, res):
      fin[k] = c
    return fin + ys

  def loop(self, step, init, xs, length):
    """Final carry and stacked outputs of a loop of symbolic length."""
    small = [bool(c.ndim) and isinstance(c.shape[0], int) and c.shape[0] <= 4
             and not (c.ndim == 1 and c.kind == 'i' and self._is_raw_key(c)) for c in init]
    if any(small):
      # few entries (e.g. chains) are components of their own
      def split(cs):
        out = []
        for c, sm in zip(cs, small):
          out += [SV(c.shape[1:], c.kind, lambda *i, c=c, q=q: c.at(q, *i))
                  for q in range(c.shape[0])] if sm else [c]
        return out

      def join(cs):
        out, k = [], 0
        for c, sm in zip(init, small):
          if sm:
            out.append(self.stack(cs[k:k + c.shape[0]], c.kind, c.shape))
            k += c.shape[0]
          else:
            out.append(cs[k])
            k += 1
        return out
      n_split = len(split(init))

      def step2(carry, xt):
        outs = step(join(carry), xt)
        return split(outs[:len(init)]) + outs[len(init):]
      res, ys = self.loop(step2, split(init), xs, length)
      assert len(res) == n_split
      return join(res), ys
    ncar = len(init)
    best = None
    for lp in sorted(self.loops, key=lambda l: l.used):
      if lp.epoch == self.epoch or not self.same_shape((lp.length,), (length,)):
        continue
      if lp.used and (best is not None or len(lp.init) < 2):
        continue
      r = self.couple(lp, step, init, xs)
      if r is not None and (best is None or len(r[0]) > len(best[1][0])):
        best = (lp, r)
        if len(r[0]) == ncar:
          break
    if best is None or not best[1][0] and ncar:
      lp = self.new_loop(step, init, xs, length)
      return lp.final, self.loop_outputs(lp)
    lp, (pi, carry, outs) = best
    lp.used = True
    own = None
    if len(pi) < ncar:
      # components outside the invariant get their meaning from the loop itself
      own = self.new_loop(step, init, xs, length)
    res = [lp.final[pi[j]] if j in pi else own.final[j] for j in range(ncar)]
    # stacked outputs are the body outputs at a generic iteration
    ys = []
    for n, y in enumerate(outs[ncar:]):
      src = lp
      if own is not None and any(
          t.decl().name().startswith('free') for t in T.apps(
            [y.at(*self._gen('y', y.ndim, y.shape))])):
        y, src = own.ys[n], own
      ys.append(SV((length,) + tuple(y.shape), y.kind,
                   lambda t, *i, y=y, lp=src: z3.substitute(
                     y.at(*i), (lp.t, iv(t)))))
    return res, ys

  def stack(self, parts, kind, shape):
    def fn(t, *i):
      c = conc(t)
      if c is not None:
        return parts[c].at(*i)
      r = parts[-1].at(*i)
      for n in reversed(range(len(parts) - 1)):
        r = T.ite(iv(t) == n, parts[n].at(*i), r)
      return r
    return SV(shape, kind, fn)

  def new_loop(self, step, init, xs, length):
    ncar = len(init)
    lp = Loop()
    n = next(self.n)
    lp.id, lp.length, lp.used, lp.epoch = n, length, False, self.epoch
    lp.first_failure = None
    lp.t = z3.Int(f'it!{n}')
    self.hyps += [lp.t >= 0, lp.t < iv(length)]
    lp.init = init
    # carry at iteration t: symbols that take the iteration as an argument
    lp.carry = []
    lp.is_key = [c.kind == 'i' and bool(c.ndim) and self._is_raw_key(c) for c in init]
    lp.key_of = lambda c, *b: self.key_at(c, *b)
    for j, c in enumerate(init):
      self.approx |= {f'loop{n}_c{j}', f'loop{n}_k{j}'}
      self.loop_uf[f'loop{n}_c{j}'] = self.loop_uf[f'loop{n}_k{j}'] = (lp, j, 'carry')
      self.loop_uf[f'loop{n}_final{j}'] = self.loop_uf[f'loop{n}_fk{j}'] = (lp, j, 'final')
      uf = z3.Function(f'loop{n}_c{j}', T.I, *([T.I] * c.ndim), SORT[c.kind])
      if c.kind == 'i' and c.ndim and self._is_raw_key(c):
        kf = z3.Function(f'loop{n}_k{j}', T.I, *([T.I] * (c.ndim - 1)), T.Key)
        lp.carry.append(SV(c.shape, 'i', lambda *i, kf=kf, t=lp.t: T.kword(
          kf(t, *[iv(x) for x in i[:-1]]), iv(i[-1]))))
      else:
        lp.carry.append(SV(c.shape, c.kind, lambda *i, uf=uf, t=lp.t: uf(
          t, *[iv(x) for x in i])))
    xt = [SV(x.shape[1:], x.kind, lambda *i, x=x, t=lp.t: x.at(t, *i)) for x in xs]
    linear = {}
    mark = [len(l) for l in (self.rng_used, self.draws, self.effects)]
    for _ in range(3):
      # one evaluation of the body counts
      for l, m in zip((self.rng_used, self.draws, self.effects), mark):
        del l[m:]
      self.active.append((lp.t, length))
      try:
        lp.outs = step(lp.carry, xt)
      finally:
        self.active.pop()
      lp.next = lp.outs[:ncar]
      # induction variables: carry + c in every iteration
      more = False
      for j, c in enumerate(init):
        if j not in linear and c.ndim == 0 and c.kind == 'i':
          d = T.norm(z3.simplify(lp.next[j].at() - lp.carry[j].at()))
          if z3.is_int_value(d):
            linear[j] = d
            lp.carry[j] = scalar(z3.simplify(c.at() + d * lp.t), 'i')
            more = True
      if not more:
        break
    lp.ys = lp.outs[ncar:]
    lp.final = []
    for j, c in enumerate(init):
      if c.kind == 'i' and c.ndim and self._is_raw_key(c):
        kf = z3.Function(f'loop{n}_fk{j}', *([T.I] * (c.ndim - 1)), T.Key)
        lp.final.append(SV(c.shape, 'i', lambda *i, kf=kf: T.kword(
          kf(*[iv(x) for x in i[:-1]]), iv(i[-1]))))
        self.approx.add(f'loop{n}_fk{j}')
      elif j in linear:
        lp.final.append(scalar(z3.simplify(c.at() + linear[j] * iv(length)), 'i'))
      elif self.same_array(lp.next[j], lp.carry[j], deep=False):
        lp.final.append(init[j])     # invariant component
      else:
        lp.final.append(self.fresh(f'loop{n}_final{j}', c.shape, c.kind, exact=False))
    self.loops.append(lp)
    return lp

  def _is_raw_key(self, c):
    if not (isinstance(c.shape[-1], int) and c.shape[-1] == 2):
      return False
    k = self.key_at(c, *[z3.Int(f'g!k{j}') for j in range(c.ndim - 1)])
    return not (z3.is_app(k) and k.decl().name() == 'mk')

  def loop_outputs(self, lp):
    return [SV((lp.length,) + tuple(y.shape), y.kind,
               lambda t, *i, y=y, lp=lp: z3.substitute(y.at(*i), (lp.t, iv(t))))
            for y in lp.ys]

  def couple(self, lp, step, init, xs):
    """Greatest inductive set of equalities between the carries of two loops."""
    ncar = len(init)
    cand = {}
    for j in range(ncar):
      cand[j] = [i for i in range(len(lp.init))
                 if lp.init[i].kind == init[j].kind
                 and self.same_array(lp.init[i], init[j])]
    n = next(self.n)
    xt = [SV(x.shape[1:], x.kind, lambda *i, x=x, t=lp.t: x.at(t, *i)) for x in xs]
    pi = {}
    taken = set()
    for j in range(ncar):
      for i in cand[j]:
        if i not in taken:
          pi[j] = i
          taken.add(i)
          break
      else:
        if cand[j]:
          pi[j] = cand[j][0]
    best = self._couple_from(lp, step, init, xt, pi, cand, n)
    if best is None or len(best[0]) < ncar:
      # components which start alike: try the other ways to pair them
      for k in range(1, min(4, max([len(c) for c in cand.values()] or [0]))):
        r = self._couple_from(lp, step, init, xt, {
          j: c[min(k, len(c) - 1)] for j, c in cand.items() if c}, cand, n)
        if r is not None and (best is None or len(r[0]) > len(best[0])):
          best = r
        if best is not None and len(best[0]) == ncar:
          break
    return best

  def _couple_from(self, lp, step, init, xt, pi, cand, n):
    ncar = len(init)
    cand, pi = {j: list(c) for j, c in cand.items()}, dict(pi)
    for _ in range(4 * ncar + 1):
      complete = len(pi) == ncar
      carry = []
      for j in range(ncar):
        if j in pi:
          carry.append(lp.carry[pi[j]])
        else:
          carry.append(self.fresh(f'free{n}_{j}_{next(self.n)}', init[j].shape,
                                  init[j].kind, exact=False))
      self.active.append((lp.t, lp.length))
      try:
        outs = step(carry, xt)
      finally:
        self.active.pop()
      bad = None
      for j in list(pi):
        if not self.same_array(lp.next[pi[j]], outs[j], timeout=2000):
          bad = j
          break
      if bad is None:
        return pi, carry, outs
      if complete and lp.first_failure is None:
        # the loops are alike but the invariant is not preserved
        lp.first_failure = [(j, self.prove_equal(lp.next[pi[j]], outs[j]))
                            for j in range(ncar)]
      rest = [i for i in cand[bad] if i > pi[bad]]
      if rest:
        pi[bad] = rest[0]
      else:
        del pi[bad]
        cand[bad] = []
    return None

  def p_while(self, e, a, p, o):
    cn, bn = p['cond_nconsts'], p['body_nconsts']
    cc, bc, init = a[:cn], a[cn:cn + bn], a[cn + bn:]
    carry = list(init)
    if self.unroll:
      for _ in range(200):
        c = z3.simplify(self.eval_closed(p['cond_jaxpr'], cc + carry)[0].at())
        if z3.is_false(c):
          return carry
        if not z3.is_true(c):
          raise Unsupported('while with symbolic condition')
        carry = self.eval_closed(p['body_jaxpr'], bc + carry)
    return self.counted(p, cc, bc, init)

  def counted(self, p, cc, bc, init):
    """A while loop which counts up by one to a bound fixed before the loop."""
    inv, outv = p['body_jaxpr'].jaxpr.invars[len(bc):], p['body_jaxpr'].jaxpr.outvars
    moving = [k for k in range(len(init)) if outv[k] is not inv[k]]
    for k in moving:
      if init[k].ndim or init[k].kind != 'i':
        continue
      cnt = z3.Int(f'cnt!{next(self.n)}')
      probe = list(init)
      for q in moving:
        probe[q] = self.fresh(f'free{next(self.n)}_w{q}', init[q].shape, init[q].kind,
                              exact=False)
      others = [probe[q] for q in moving if q != k]
      probe[k] = scalar(cnt, 'i')
      bound = _upper(self.eval_closed(p['cond_jaxpr'], cc + probe)[0].at(), cnt)
      if bound is None or any(t.decl().name().startswith('free') for t in T.apps([bound])):
        continue
      mark = [len(l) for l in (self.rng_used, self.draws, self.effects)]
      after = self.eval_closed(p['body_jaxpr'], bc + probe)[k].at()
      for l, m in zip((self.rng_used, self.draws, self.effects), mark):
        del l[m:]
      if not z3.eq(z3.simplify(after - cnt), z3.IntVal(1)):
        continue
      start = init[k].at()
      length = z3.simplify(bound - start)
      c = conc(length)
      length = max(c, 0) if c is not None else (
        length if self.nonneg(length) else zmax(z3.IntVal(0), length))
      live = [q for q in moving if q != k]

      def step(carry, xt):
        full = list(init)
        for q, v in zip(live, carry):
          full[q] = v
        full[k] = xt[0]
        outs = self.eval_closed(p['body_jaxpr'], bc + full)
        return [outs[q] for q in live]
      count = SV((length,), 'i', lambda t: z3.simplify(start + iv(t)))
      if isinstance(length, int) and length <= self.unroll:
        res = [init[q] for q in live]
        for t in range(length):
          res = step(res, [scalar(count.at(t), 'i')])
      else:
        res, _ = self.loop(step, [init[q] for q in live], [count], length)
      fin = list(init)
      for q, v in zip(live, res):
        fin[q] = v
      fin[k] = scalar(z3.simplify(start + iv(length)), 'i')
      return fin
    raise Unsupported('while loop')

  def nonneg(self, t):
    s = z3.Solver()
    s.set('timeout', 1000)
    s.add(*self.hyps)
    s.add(t < 0)
    return s.check() == z3.unsat


def _upper(cond, c):
  """u such that the condition is c < u, or None."""
  cond = z3.simplify(cond)
  neg = False
  while z3.is_not(cond):
    cond, neg = cond.arg(0), not neg
  if not z3.is_app(cond) or cond.num_args() != 2 or not z3.is_int(cond.arg(0)):
    return None
  x, y = cond.args() if hasattr(cond, 'args') else (cond.arg(0), cond.arg(1))
  k = cond.decl().kind()
  if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
    x, y = y, x
    k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
  if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT):
    return None
  d = y - x if k == z3.Z3_OP_LT else y - x + 1       # condition: d > 0
  if neg:
    d = 1 - d
  u = z3.simplify(d + c, som=True)
  return None if _mentions(u, [c]) else u


def _size(s):
  r = 1
  for x in s:
    r *= x
  return r


def _mentions(t, consts):
  ids = {c.get_id() for c in consts}
  return any(a.get_id() in ids for a in T.apps([t]))


def _subst_fn(t, consts):
  if not consts:
    return lambda: t
  return lambda *i: z3.substitute(t, *[(c, iv(x)) for c, x in zip(consts, i)])


def conv(t, k, to):
  if k == to:
    return t
  if k == 'b':
    if to == 'i':
      return T.ite(t, z3.IntVal(1), z3.IntVal(0))
    return T.ite(t, z3.RealVal(1), z3.RealVal(0))
  if to == 'b':
    return t != 0
  if k == 'i' and to == 'f':
    return T.to_real(t)
  if k == 'f' and to == 'i':
    s = z3.simplify(t)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_TO_REAL:
      return s.arg(0)
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
  raise Unsupported(f'cast {k} {to}')


def cast(a, to):
  if a.kind == to:
    return a
  r = SV(a.shape, to, lambda *i: conv(a.at(*i), a.kind, to))
  if to in 'if':
    r.truth = a if a.kind == 'b' else a.truth
    r.anyof = a.anyof
  return r


# primitives whose result may not be representable in the type of the result
_FIT = {'add', 'add_any', 'sub', 'mul', 'div', 'neg', 'sqrt', 'rsqrt', 'exp', 'log', 'square',
        'pow', 'integer_pow', 'convert_element_type', 'iota', 'reduce_sum', 'cumsum',
        'dot_general', 'scatter_add'}
_HALF = z3.Function('f_half', T.R, T.R)


def fit(r, dtype, args=()):
  """The value as it is kept by a narrow type: modulo for 8 and 16 bit integers, an
  unknown rounding for half precision."""
  if jax.dtypes.issubdtype(dtype, jax.dtypes.prng_key):
    return r
  dt = onp.dtype(dtype)
  if dt.itemsize > 2 or dt.kind == 'b' or r.kind not in 'if':
    return r
  if len(args) == 1 and args[0].kind == 'b' or r.cval is not None:
    return r
  f = r.at
  if r.kind == 'f':
    return SV(r.shape, 'f', lambda *i: _HALF(f(*i)))
  info = onp.iinfo(dt)
  return SV(r.shape, 'i', lambda *i: T.wrap(f(*i), int(info.min), int(info.max)))


def _not(t):
  return t.arg(0) if z3.is_not(t) else z3.Not(t)


_COUNTS = {'gt': {0: True}, 'ne': {0: True}, 'ge': {1: True}, 'eq': {0: False},
           'lt': {1: False}, 'le': {0: False}}
_SWAPPED = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge', 'eq': 'eq', 'ne': 'ne'}


def _infinite(t):
  """1 and -1 for the infinities, else None."""
  if not z3.is_real(t):
    return None
  t = z3.simplify(t)
  return 1 if z3.eq(t, T.INFTY) else -1 if z3.eq(t, z3.simplify(-T.INFTY)) else None


def zmax(a, b):
  if _infinite(a) == -1:
    return b
  if _infinite(b) == -1:
    return a
  return b if z3.is_true(z3.simplify(a <= b)) else z3.If(a >= b, a, b)


def zmin(a, b):
  if _infinite(a) == 1:
    return b
  if _infinite(b) == 1:
    return a
  return z3.If(a <= b, a, b)


def tdiv(a, b):
  q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)),
            z3.If(b > 0, -(-a / b), (-a) / (-b)))
  return q


def trem(a, b):
  bb = z3.If(b > 0, b, -b)
  return z3.If(a >= 0, a % bb, -((-a) % bb))


def _div(k, kinds, a, b):
  if k == 'i':
    return z3.simplify(tdiv(a, b))
  return T.mul(a, T.inv(b))


def _rem(k, kinds, a, b):
  if k == 'i':
    return z3.simplify(trem(a, b))
  f = z3.Function('f_rem', T.R, T.R, T.R)
  return f(a, b)


def _floor(k, kinds, a):
  return T.to_real(z3.ToInt(a))


def _uf(name):
  f1 = z3.Function('f_' + name, T.R, T.R)
  return lambda k, kinds, a: f1(a)


def _round(k, kinds, a):
  return z3.Function('f_round', T.R, T.R)(a)


def _cmp(op):
  def f(k, kinds, a, b):
    if kinds[0] == 'b' or kinds[0] == 'K':
      if op is operator.eq:
        return a == b
      if op is operator.ne:
        return a != b
      a, b = conv(a, 'b', 'i'), conv(b, 'b', 'i')
    return op(a, b)
  return f


def _bool2(zop, iop):
  def f(k, kinds, a, b):
    if k == 'b':
      return zop(a, b)
    raise Unsupported('bitwise operation on integers')
  return f


def _sub(k, kinds, a, b):
  if T.is_num(b) and T.frac(b) == 0:
    return a
  return a - b


ELEMWISE = {
  'add': lambda k, ks, a, b: T.add(a, b),
  'add_any': lambda k, ks, a, b: T.add(a, b),
  'sub': _sub,
  'mul': lambda k, ks, a, b: z3.And(a, b) if k == 'b' else T.mul(a, b),
  'div': _div,
  'rem': _rem,
  'neg': lambda k, ks, a: -a,
  'max': lambda k, ks, a, b: z3.Or(a, b) if k == 'b' else zmax(a, b),
  'min': lambda k, ks, a, b: z3.And(a, b) if k == 'b' else zmin(a, b),
  'sqrt': lambda k, ks, a: T.sqrt(a),
  'rsqrt': lambda k, ks, a: T.inv(T.sqrt(a)),
  'exp': lambda k, ks, a: T.exp(a),
  'log': lambda k, ks, a: T.log(a),
  'log1p': lambda k, ks, a: T.log(1 + a),
  'expm1': lambda k, ks, a: T.exp(a) - 1,
  'square': lambda k, ks, a: a * a,
  'abs': lambda k, ks, a: z3.If(a >= 0, a, -a),
  'sign': lambda k, ks, a: (z3.If(a > 0, const_term(1, k), z3.If(a < 0, const_term(-1, k), const_term(0, k)))),
  'floor': _floor,
  'ceil': lambda k, ks, a: -T.to_real(z3.ToInt(-a)),
  'round': _round,
  'pow': lambda k, ks, a, b: T.power(conv(a, ks[0], 'f'), conv(b, ks[1], 'f')),
  'eq': _cmp(operator.eq), 'ne': _cmp(operator.ne),
  'lt': _cmp(operator.lt), 'le': _cmp(operator.le),
  'gt': _cmp(operator.gt), 'ge': _cmp(operator.ge),
  'and': _bool2(z3.And, None), 'or': _bool2(z3.Or, None),
  'xor': _bool2(z3.Xor, None),
  'not': lambda k, ks, a: z3.Not(a),
  'is_finite': lambda k, ks, a: z3.BoolVal(True),
  'clamp': lambda k, ks, lo, x, hi: zmin(zmax(x, lo), hi),
  'real': lambda k, ks, a: a,
  'copy': lambda k, ks, a: a,
  'reduce_precision': lambda k, ks, a: a,
}
for _n in ('sin', 'cos', 'tan', 'tanh', 'erf', 'erf_inv', 'erfc', 'lgamma',
           'digamma', 'logistic', 'atan', 'asin', 'acos', 'sinh', 'cosh',
           'cbrt'):
  ELEMWISE[_n] = _uf(_n)


def _integer_pow(self, e, a, p, o):
  x, y = a[0], p['y']
  if x.kind == 'i':
    def f(*i):
      t = x.at(*i)
      r = z3.IntVal(1)
      for _ in range(y):
        r = T.mul(r, t)
      return r
    return SV(x.shape, 'i', f)
  return SV(x.shape, x.kind, lambda *i: T.ipow(x.at(*i), y))


Ctx.p_integer_pow = _integer_pow
