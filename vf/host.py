"""Engine H: symbolic execution of the real host-side Python functions.

A function of the repository is run by CPython itself on symbolic integers,
booleans, arrays of symbolic length and random number generators known by
contract. Truth tests of symbolic conditions fork (by re-execution with a
decision prefix) until all feasible paths are covered; every path yields the
facts collected on it and the resulting symbolic state, from which the contracts
derive their obligations. The module globals through which the code reaches
numpy and math are replaced by shims for the time of the run, the code itself
is not touched.

Arrays are total functions from index terms to z3 terms. Stores through slices
and through index arrays (piecewise ``j + c``, e.g. ``mod(arange + offset, L)``)
are exact and quantifier free; anything else is outside the reach of the engine
(:class:`Unsupported`), which makes the obligations undecided.
"""
import contextlib
import fractions
import itertools
import math as _math
import sys
import time

from vf import env  # pylint: disable=unused-import
import numpy as np
import z3

from vf import terms as T

I, B = z3.IntSort(), z3.BoolSort()


class Unsupported(Exception):
  """Operation outside the reach of the engine."""


class _Stop(BaseException):
  """Infeasible path."""


_PATH = []


def path():
  if not _PATH:
    raise Unsupported('symbolic operation outside of an exploration')
  return _PATH[-1]


# ------------------------------------------------------------------- arithmetic
def _z(x):
  if isinstance(x, (SymInt, SymBool)):
    return x.t
  if isinstance(x, (bool, np.bool_)):
    return z3.BoolVal(bool(x))
  if isinstance(x, (int, np.integer)):
    return z3.IntVal(int(x))
  if isinstance(x, np.ndarray) and x.ndim == 0:
    return _z(x.item())
  if isinstance(x, HArr) and not x.shape:
    return x.term()
  if z3.is_expr(x):
    return x
  if hasattr(x, 'addressable_shards') and not x.shape:
    return _z(np.asarray(x))
  raise Unsupported(f'no term for {type(x).__name__}')


def _int(x):
  t = _z(x)
  if z3.is_bool(t):
    return z3.If(t, z3.IntVal(1), z3.IntVal(0))
  return t


def simp(t):
  return z3.simplify(t, som=True, flat=True, sort_sums=True, mul_to_power=False)


def mk(t):
  t = simp(t)
  if z3.is_bool(t):
    return True if z3.is_true(t) else False if z3.is_false(t) else SymBool(t)
  if z3.is_int_value(t):
    return t.as_long()
  return SymInt(t)


class SymBool:
  def __init__(self, t):
    self.t = t

  def __bool__(self):
    return path().branch(self.t)

  def __and__(self, o):
    return mk(z3.And(self.t, _z(o)))
  __rand__ = __and__

  def __or__(self, o):
    return mk(z3.Or(self.t, _z(o)))
  __ror__ = __or__

  def __invert__(self):
    return mk(z3.Not(self.t))

  def __eq__(self, o):
    return mk(self.t == _z(o))

  def __ne__(self, o):
    return mk(self.t != _z(o))

  __hash__ = None

  def __int__(self):
    return 1 if bool(self) else 0


def _arith(fn):
  def op(self, o):
    if isinstance(o, (float, np.floating)):
      if float(o).is_integer():
        o = int(o)
      else:
        raise Unsupported('fractional number')
    if isinstance(o, (HArr, SymRatio)) or isinstance(o, np.ndarray) and o.ndim:
      return NotImplemented
    return mk(fn(self.t, _int(o)))
  return op


class SymInt:
  """A mathematical integer; ``bool`` of a comparison forks the exploration."""
  __array_priority__ = 1000
  __array_ufunc__ = None

  def __init__(self, t):
    self.t = t

  __add__ = _arith(lambda a, b: a + b)
  __radd__ = _arith(lambda a, b: b + a)
  __sub__ = _arith(lambda a, b: a - b)
  __rsub__ = _arith(lambda a, b: b - a)
  __mul__ = _arith(lambda a, b: a * b)
  __rmul__ = _arith(lambda a, b: b * a)
  __lt__ = _arith(lambda a, b: a < b)
  __le__ = _arith(lambda a, b: a <= b)
  __gt__ = _arith(lambda a, b: a > b)
  __ge__ = _arith(lambda a, b: a >= b)

  def __eq__(self, o):
    if o is None or isinstance(o, str):
      return False
    if isinstance(o, HArr):
      return NotImplemented
    return mk(self.t == _int(o))

  def __ne__(self, o):
    if o is None or isinstance(o, str):
      return True
    if isinstance(o, HArr):
      return NotImplemented
    return mk(self.t != _int(o))

  def __hash__(self):
    raise Unsupported('hash of a symbolic number')

  def __neg__(self):
    return mk(-self.t)

  def __pos__(self):
    return self

  def __abs__(self):
    return self if self >= 0 else -self

  def __bool__(self):
    return path().branch(self.t != 0)

  def __index__(self):
    v = path().value(self.t)
    if v is None:
      raise Unsupported('symbolic number where a concrete one is required')
    return v
  __int__ = __index__

  def __float__(self):
    return float(self.__index__())

  def __truediv__(self, o):
    return SymRatio(self.t, _int(o))

  def __rtruediv__(self, o):
    return SymRatio(_int(o), self.t)

  def __floordiv__(self, o):
    return floordiv(self.t, _int(o))

  def __rfloordiv__(self, o):
    return floordiv(_int(o), self.t)

  def __mod__(self, o):
    return mod(self.t, _int(o))

  def __rmod__(self, o):
    return mod(_int(o), self.t)

  def __divmod__(self, o):
    return self // o, self % o

  def __rdivmod__(self, o):
    return floordiv(_int(o), self.t), mod(_int(o), self.t)

  def __repr__(self):
    return f'<{self.t}>'

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self

  # numpy scalar look
  shape = ()
  ndim = 0

  def item(self):
    return self


def floordiv(a, b):
  """floor(a / b) for b > 0 as a fresh integer with its defining facts."""
  if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
    return a.as_long() // b.as_long()
  p = path()
  p.require('division by a positive number', b > 0)
  a, b = simp(a), simp(b)
  neg = simp(-a)
  if len(neg.sexpr()) < len(a.sexpr()):   # -(-N // m) is the ceiling
    return -ceildiv(neg, b)
  q = floor_name(a, b)
  p.assume(b * q <= a, a < b * q + b)
  return mk(q)


def ceildiv(a, b):
  """ceil(a / b) for b > 0."""
  if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
    return -(-a.as_long() // b.as_long())
  p = path()
  p.require('division by a positive number', b > 0)
  a, b = simp(a), simp(b)
  neg = simp(-a)
  if len(neg.sexpr()) < len(a.sexpr()):   # -(-N // m)
    return -floordiv(neg, b)
  q = ceil_name(a, b)
  p.assume(b * q >= a, b * q < a + b)
  return mk(q)


def floor_name(a, b):
  return z3.Int(f'fl[{a.sexpr()}][{b.sexpr()}]')


def ceil_name(a, b):
  return z3.Int(f'ce[{a.sexpr()}][{b.sexpr()}]')


def mod(a, b):
  if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
    return a.as_long() % b.as_long()
  p = path()
  p.require('remainder of a positive number', b > 0)
  if p.branch(z3.And(a >= 0, a < b)):
    return mk(a)
  if p.branch(z3.And(a >= b, a < b + b)):
    return mk(a - b)
  q = floordiv(a, b)
  return mk(a - b * _z(q))


class SymRatio:
  """num / den as a rational number (float division without rounding)."""
  __array_priority__ = 1000
  __array_ufunc__ = None

  def __init__(self, num, den):
    self.num, self.den = num, den
    path().require('division by a positive number', den > 0)

  def floor(self):
    return floordiv(self.num, self.den)

  def ceil(self):
    return ceildiv(self.num, self.den)

  def __floor__(self):
    return self.floor()

  def __ceil__(self):
    return self.ceil()

  def __trunc__(self):
    return self.floor() if mk(self.num >= 0) else self.ceil()

  def _cmp(self, o, f):
    if isinstance(o, SymRatio):
      return mk(f(self.num * o.den, o.num * self.den))
    if isinstance(o, (float, np.floating)):
      q = fractions.Fraction(repr(float(o)))
      return mk(f(self.num * q.denominator, q.numerator * self.den))
    return mk(f(self.num, _int(o) * self.den))

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __round__(self, n=None):
    if n is not None:
      raise Unsupported('rounding to digits')
    # to the nearest number, halves to the even one
    f = _int(floordiv(2 * self.num + self.den, 2 * self.den))
    half = 2 * self.num + self.den == f * 2 * self.den
    return mk(z3.If(z3.And(half, f % 2 != 0), f - 1, f))

  def _shift(self, o, sign):
    if isinstance(o, SymRatio):
      return SymRatio(self.num * o.den + sign * o.num * self.den, self.den * o.den)
    if isinstance(o, (float, np.floating)):
      # the constant the code contains, as the ratio it was written as
      q = fractions.Fraction(repr(float(o)))
      return SymRatio(self.num * q.denominator + sign * q.numerator * self.den,
                      self.den * q.denominator)
    return SymRatio(self.num + sign * _int(o) * self.den, self.den)

  def __add__(self, o):
    return self._shift(o, 1)
  __radd__ = __add__

  def __sub__(self, o):
    return self._shift(o, -1)

  def __rsub__(self, o):
    return SymRatio(-self.num, self.den)._shift(o, 1)

  def __neg__(self):
    return SymRatio(-self.num, self.den)


# ------------------------------------------------------------------------ paths
class Path:
  """One execution: decisions taken and facts collected."""

  def __init__(self, hyps, prefix, instances=(), sizes=()):
    self.facts = list(hyps)
    self.prefix = list(prefix)
    self.taken = []            # (choice, both ways feasible)
    self.safety = []           # (name, condition, facts so far)
    self.instances = list(instances)
    self.sizes = list(sizes)
    self.n = 0
    self.result = self.exc = None
    self.decisions = []
    self.arbitrary = False     # loops with a symbolic number of items are taken apart
    self.contract = None       # of the loop which changes the state
    self.loops = {}            # number of items -> the arbitrary item
    self.active = []
    self.poison = None
    self.entries = None        # property of integers in lists of such loops

  def fresh(self, name='v', sort=I):
    self.n += 1
    return z3.Const(f'{name}!{self.n}', sort)

  def assume(self, *fs):
    for f in fs:
      f = simp(f)
      if not z3.is_true(f) and not any(f.eq(g) for g in self.facts):
        self.facts.append(f)

  def require(self, name, cond):
    """Safety obligation of the running code; assumed from here on."""
    cond = simp(cond)
    if z3.is_true(cond):
      return
    self.safety.append((name, cond, list(self.facts)))
    self.facts.append(cond)

  def branch(self, c):
    c = simp(c)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    k = len(self.taken)
    if k < len(self.prefix):
      v = self.prefix[k]
      self.taken.append((v, True))
    else:
      no = entails(self, z3.Not(c))
      if no:
        v = False
        self.taken.append((v, False))
      elif entails(self, c):
        v = True
        self.taken.append((v, False))
      else:
        v = True
        self.taken.append((v, True))
        if len(self.taken) > 60:
          raise Unsupported('unbounded number of decisions')
    d = c if v else z3.Not(c)
    if self.taken[-1][1]:
      self.decisions.append(d)
    self.assume(d)
    return v

  def value(self, t):
    """The only value of the term under the facts, if there is one."""
    t = simp(t)
    if z3.is_int_value(t):
      return t.as_long()
    s = z3.Solver()
    s.set('timeout', 1000)
    s.add(*self.facts)
    if s.check() != z3.sat:
      return None
    v = s.model().eval(t, model_completion=True)
    if entails(self, t == v):
      return v.as_long()
    return None


def explore(run, hyps, instances=(), sizes=(), limit=80):
  """All paths of ``run()`` under the hypotheses."""
  out = []
  work = [[]]
  while work:
    prefix = work.pop()
    p = Path(hyps, prefix, instances, sizes)
    _PATH.append(p)
    try:
      p.result = run()
    except _Stop:
      continue
    except Unsupported:
      raise
    except Exception as e:  # raised by the code under test
      p.exc = e
    finally:
      _PATH.pop()
    if p.poison:
      raise Unsupported(p.poison)
    if len(out) >= limit:
      raise Unsupported('too many paths')
    for k in range(len(prefix), len(p.taken)):
      if p.taken[k][1]:
        work.append([c for c, _ in p.taken[:k]] + [not p.taken[k][0]])
    out.append(p)
  return out


# ------------------------------------------------------------------------ loops
class LoopContract:
  """Invariant of a loop with a symbolic number of iterations which changes a state.

  The rule: the invariant holds before iteration 0 (``begin``), the state before an
  arbitrary iteration k is any that satisfies it (``at(k)``), after the body it holds for
  k + 1 (``kept``), after the loop the state is any that satisfies it at n (``at(n)``)."""

  def begin(self):
    raise NotImplementedError

  def at(self, k):
    raise NotImplementedError

  def kept(self, k):
    raise NotImplementedError


def arbitrary(n, item):
  """Iterates over one arbitrary item of n. A list of results of the body has one entry,
  which stands for entry k (``stack`` gives it the length n)."""
  p = path()
  if not p.arbitrary:
    raise Unsupported('loop over a symbolic number of items')
  nz = simp(_z(n))
  if not entails(p, nz >= 1):
    raise Unsupported('loop which may be empty')
  key = nz.sexpr()
  if key not in p.loops:
    k = p.fresh('item')
    p.assume(k >= 0, k < nz)
    p.loops[key] = (k, nz)
  k, _ = p.loops[key]
  contract, p.contract = p.contract, None
  token = (k, nz)
  if contract is not None:
    contract.begin()
  p.active.append(token)
  if contract is not None:
    contract.at(k)
  frame = sys._getframe(1)
  before = {v: id(x) for v, x in frame.f_locals.items()}
  try:
    yield item(k)
    if p.active[-1] is token and len(p.active) > 1:
      p.poison = 'nested loops over symbolic numbers of items'
    if before and sys._getframe(1) is frame:
      now = frame.f_locals
      if any(v in now and id(now[v]) != x for v, x in before.items()):
        p.poison = 'local variable which changes in a loop over symbolic numbers of items'
    p.active = [t for t in p.active if t is not token]
    if contract is not None:
      contract.kept(k)
      contract.at(nz)
  except GeneratorExit:
    if contract is not None:
      p.poison = 'loop which is left early'
    raise
  finally:
    p.active = [t for t in p.active if t is not token]


class Counted:
  """range(n) or repeat(x, n) with a symbolic n."""

  def __init__(self, n, item):
    self.n, self.item = n, item

  def __iter__(self):
    return arbitrary(self.n, self.item)


def hrange(*a):
  if any(isinstance(x, SymInt) for x in a):
    if len(a) == 2 and not isinstance(a[0], SymInt) and a[0] == 0:
      a = a[1:]
    if len(a) > 1:
      raise Unsupported('range with a symbolic begin')
    return Counted(a[0], mk)
  return range(*a)


def henumerate(x, start=0):
  if isinstance(x, Counted):
    return Counted(x.n, lambda k: (mk(k + start), x.item(k)))
  if isinstance(x, HArr) and not isinstance(x.dims[0], int):
    return Counted(x.shape[0], lambda k: (mk(k + start), x[mk(k)]))
  if _PATH and path().loops and isinstance(x, (list, tuple)) and len(x) == 1:
    raise Unsupported('number of an arbitrary item')
  return enumerate(x, start)


class Itertools:
  """Stands for itertools."""

  def __getattr__(self, name):
    return getattr(itertools, name)

  @staticmethod
  def repeat(x, times=None):
    if isinstance(times, SymInt):
      return Counted(times, lambda k: x)
    return itertools.repeat(x) if times is None else itertools.repeat(x, times)

  @staticmethod
  def islice(x, *a):
    if any(isinstance(v, SymInt) for v in a):
      raise Unsupported('islice')
    return itertools.islice(x, *a)


def _mentions(a, k):
  xs = [z3.FreshConst(I, 'x') for _ in a.dims]
  return any(c.eq(k) for c in T.apps([a.fn(*xs)]))


def _generalised(part):
  """The only entry of a list after a loop with n iterations: entry k of an array of
  length n whose other entries are not known."""
  p = path()
  ks = [t for t in p.loops.values() if any(t[0].eq(g[0]) for g in part.made)
        or _mentions(part, t[0])]
  if len(ks) != 1:
    raise Unsupported('list with one entry after a loop over a symbolic number of items')
  k, n = ks[0]
  if any(c.eq(k) for d in part.dims if not isinstance(d, int) for c in T.apps([d])):
    raise Unsupported('rows of different lengths')
  f = part.fn
  xs = [p.fresh('entry') for _ in part.dims]
  sort = f(*xs).sort()
  other = z3.Function(f'item!{p.n}', *[I] * (1 + len(part.dims)), sort)
  p.n += 1
  if p.entries is not None and sort == I:
    # shown for the arbitrary item, hence for all
    inside = z3.And(*[z3.And(x >= 0, x < _z(d)) for x, d in zip(xs, part.dims)])
    p.require('entries of every item', z3.Implies(inside, p.entries(f(*xs))))
    dims, entries = (n,) + part.dims, p.entries
    p.instances.append(lambda ts: [
      z3.Implies(z3.And(*[z3.And(v >= 0, v < _z(d)) for v, d in zip(x.children(), dims)]),
                 entries(x)) for x in apps(ts, other) if not T.has_var(x)])

  def fn(c, *i):
    c = _int(c)
    if c.eq(k):
      return f(*i)
    return z3.If(c == k, f(*i), other(c, *[_int(x) for x in i]))
  return HArr((n,) + part.dims, fn, part.kind, dtype=part.dtype)


# ----------------------------------------------------------------------- prover
_APPS = {}


def apps(ts, decl=None):
  """Application subterms; remembered per term."""
  out, seen = [], set()
  for t in ts:
    k = t.get_id()
    if k not in _APPS:
      by = {}
      for a in T.apps([t]):
        if a.num_args():
          by.setdefault(a.decl().get_id(), []).append(a)
      _APPS[k] = (t, by)
    by = _APPS[k][1]
    for a in (by.get(decl.get_id(), ()) if decl is not None else
              itertools.chain(*by.values())):
      if a.get_id() not in seen:
        seen.add(a.get_id())
        out.append(a)
  return out


_MUL = {}


def _muls(ts):
  """Products of the terms; remembered per term."""
  out, seen = [], set()
  for t in ts:
    k = t.get_id()
    if k not in _MUL:
      _MUL[k] = (t, [a for a in apps([t]) if a.decl().kind() == z3.Z3_OP_MUL and z3.is_int(a)])
    for a in _MUL[k][1]:
      if a.get_id() not in seen:
        seen.add(a.get_id())
        out.append(a)
  return out


_SIMP = {}


def _simp1(t):
  k = t.get_id()
  if k not in _SIMP:
    _SIMP[k] = (t, simp(t))
  return _SIMP[k][1]


def _products(ts):
  """Non-linear integer monomials of the terms (already in sum of products)."""
  out = {}
  for t in _muls(ts):
    fs = [c for c in t.children() if not z3.is_int_value(c)]
    if len(fs) > 1:
      fs = tuple(sorted(fs, key=lambda f: f.get_id()))
      out[tuple(f.get_id() for f in fs)] = fs
  return out


def linearise(ts):
  """Products become constants; monotonicity of the products is added."""
  ts = [_simp1(t) for t in ts]
  for _ in range(4):
    prods = _products(ts)
    if not prods:
      break
    names = {}
    sub = []
    for k, fs in prods.items():
      v = z3.Int('prod[' + ']['.join(f.sexpr() for f in fs) + ']')
      names[k] = (v, fs)
    for t in _muls(ts):
      c = 1
      fs = []
      for x in t.children():
        if z3.is_int_value(x):
          c *= x.as_long()
        else:
          fs.append(x)
      if len(fs) > 1:
        k = tuple(sorted(f.get_id() for f in fs))
        sub.append((t, c * names[k][0] if c != 1 else names[k][0]))
    ts = [z3.substitute(t, *sub) for t in ts]
    lem = []
    # monomials as (common factor, cofactor)
    by = {}
    for v, fs in names.values():
      for n, f in enumerate(fs):
        rest = fs[:n] + fs[n + 1:]
        if len(rest) == 1:
          by.setdefault(f.get_id(), (f, []))[1].append((rest[0], v))
    for f, us in by.values():
      f = z3.substitute(f, *sub)
      us = [(z3.substitute(u, *sub), v) for u, v in us]
      for u, v in us:
        lem += [z3.Implies(u == 0, v == 0), z3.Implies(u == 1, v == f),
                z3.Implies(u == 2, v == 2 * f),
                z3.Implies(z3.And(u >= 1, f >= 0), v >= f),
                z3.Implies(z3.And(u >= 2, f >= 0), v >= 2 * f),
                z3.Implies(z3.And(u >= 3, f >= 0), v >= 3 * f),
                z3.Implies(z3.And(u <= -1, f >= 0), v <= -f)]
      for (u, v), (w, x) in itertools.combinations(us, 2):
        for a, p, b, q in ((u, v, w, x), (w, x, u, v)):
          lem += [z3.Implies(z3.And(a <= b + k, f >= 0), p <= q + k * f)
                  for k in (-4, -3, -2, -1, 1, 2, 3)]
          lem += [z3.Implies(a == b, p == q), z3.Implies(a + 1 == b, p + f == q)]
        lem += [z3.Implies(z3.And(u + w >= 0, f >= 0), v + x >= 0),
                z3.Implies(z3.And(u + w <= 0, f >= 0), v + x <= 0),
                z3.Implies(z3.And(u + w >= 1, f >= 0), v + x >= f),
                z3.Implies(z3.And(u + w <= -1, f >= 0), v + x <= -f)]
    ts = ts + [simp(l) for l in lem]
  return ts


def _instantiate(instances, ts):
  out = []
  for inst in instances:
    out += inst(ts)
  return out


def _close(instances, ts, rounds=2):
  ts = [_simp1(t) for t in ts]
  for _ in range(rounds):
    new = [simp(f) for f in _instantiate(instances, ts)]
    new = [f for f in new if not z3.is_true(f) and not any(f.eq(g) for g in ts)]
    if not new:
      break
    ts = ts + new
  return ts


def entails(p, goal, timeout=2000):
  ts = linearise(_close(p.instances, p.facts + [z3.Not(goal)]))
  s = z3.Solver()
  s.set('timeout', timeout)
  s.add(*ts)
  t0 = time.time()
  r = s.check()
  T._PROVER_STATS['time_z3'] += time.time() - t0
  T._PROVER_STATS['queries'] += 1
  return r == z3.unsat


def prove(facts, goal, instances=(), sizes=(), timeout=8000, bound=5):
  """Goal from facts; a refutation is confirmed for small concrete sizes."""
  t0 = time.time()
  goal = simp(goal)
  T._PROVER_STATS['queries'] += 1
  if z3.is_true(goal):
    T._PROVER_STATS['z3-simplify'] += 1
    return T.Result('proved', 'z3-simplify', secs=time.time() - t0)
  full = _close(instances, list(facts) + [z3.Not(goal)])
  ts = linearise(full)
  s = z3.Solver()
  s.set('timeout', int(timeout))
  s.add(*ts)
  r = s.check()
  T._PROVER_STATS['time_z3'] += time.time() - t0
  if r == z3.unsat:
    T._PROVER_STATS['z3'] += 1
    return T.Result('proved', 'z3', secs=time.time() - t0)
  if r == z3.unknown:
    c = T._check_cvc5(ts, timeout)
    if c == 'unsat':
      T._PROVER_STATS['cvc5'] += 1
      return T.Result('proved', 'cvc5', secs=time.time() - t0)
  # products have their real meaning for concrete sizes; those of the solver last
  tries = list(itertools.product(range(1, bound + 1), repeat=len(sizes))) if sizes else [()]
  if r == z3.sat and sizes:
    tries.append(tuple(s.model().eval(v, model_completion=True).as_long() for v in sizes))
  for vals in tries:
    sub = [(v, z3.IntVal(x)) for v, x in zip(sizes, vals)]
    inst = [simp(z3.substitute(t, *sub)) if sub else t for t in full]
    inst = _close([_sub_inst(i, sub) for i in instances], inst)
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(*inst)
    if s.check() == z3.sat:
      T._PROVER_STATS['refuted'] += 1
      m = s.model()
      txt = {str(v): str(x) for v, x in zip(sizes, vals)}
      for d in m.decls()[:40]:
        txt[str(d)] = str(m[d])
      res = T.Result('refuted', 'z3', model=txt, secs=time.time() - t0,
                     reason='counterexample ' + str(
                       {k: v for k, v in txt.items() if len(v) < 12})[:200])
      res.sizes = dict(zip([str(v) for v in sizes], vals))
      return res
  T._PROVER_STATS['unknown'] += 1
  return T.Result('unknown', '', reason='no proof and no counterexample', secs=time.time() - t0)


def _sub_inst(inst, sub):
  def f(ts):
    return [z3.substitute(x, *sub) if sub else x for x in inst(ts)]
  return f


# ----------------------------------------------------------------------- arrays
class _Store:
  __slots__ = ('fn',)

  def __init__(self, fn):
    self.fn = fn


def _dim(x):
  t = simp(_int(x))
  return t.as_long() if z3.is_int_value(t) else t


def _same(a, b):
  """Equal extents: decided on the path (an obligation if not evident)."""
  if isinstance(a, int) and isinstance(b, int):
    return a == b
  d = simp(_z(a) - _z(b))
  return z3.is_int_value(d) and d.as_long() == 0 or entails(path(), _z(a) == _z(b))


KINDS = {'i': np.dtype('int64'), 'b': np.dtype('bool'), 'o': np.dtype('float64')}


class _At:
  """``a.at(i, j)``: the entry; ``a.at[i].set(v)``: functional update of jax."""

  def __init__(self, arr, key=None):
    self.arr, self.key = arr, key

  def __call__(self, *i):
    return self.arr.fn(*[_int(x) for x in i])

  def __getitem__(self, key):
    return _At(self.arr, (key,))

  def set(self, val, **kw):
    """Updates outside of the array are dropped."""
    if self.key is None or kw:
      raise Unsupported('functional update')
    key, a = self.key[0], self.arr
    if isinstance(key, HArr) and not key.dims:
      key = mk(key.term())
    if not isinstance(key, (SymInt, int)) or isinstance(key, bool) or not a.dims:
      raise Unsupported('functional update')
    t, old = _int(key), a.fn
    t = z3.If(t < 0, t + _z(a.dims[0]), t)
    val = _match(asarr(val), HArr(a.dims[1:], None, a.kind))
    vf = val.fn
    return HArr(a.dims, lambda k, *i: z3.If(k == t, a._cast(vf(*i)), old(k, *i)), a.kind,
                dtype=a.dtype)


def narrow(dt):
  """Types with less than 32 bits, which do not hold all numbers that occur."""
  return isinstance(dt, np.dtype) and dt.kind in 'iu' and dt.itemsize < 4


def _wrapped(t, dt):
  info = np.iinfo(dt)
  return T.wrap(t, int(info.min), int(info.max))


def _wide(*arrays):
  if any(isinstance(a, HArr) and a.dims and narrow(a.dtype) for a in arrays):
    raise Unsupported('arithmetic with narrow integers')


class HArr:
  """numpy array of symbolic shape; slices are views of the same store."""
  __array_priority__ = 2000
  __array_ufunc__ = None

  def __init__(self, shape, fn, kind='i', store=None, index=None, dtype=None):
    self.dims = tuple(_dim(s) for s in shape)
    self.kind = kind
    self.store = store or _Store(fn)
    self.index = index
    self.dtype = dtype if dtype is not None else KINDS.get(kind)
    self.made = tuple(_PATH[-1].active) if _PATH else ()   # loops it was made in

  # reading
  @property
  def fn(self):
    """Snapshot of the content."""
    f, ix = self.store.fn, self.index
    return f if ix is None else (lambda *i: f(*ix(*i)))

  @property
  def at(self):
    return _At(self)

  def term(self):
    return self.fn()

  @property
  def shape(self):
    return tuple(d if isinstance(d, int) else SymInt(d) for d in self.dims)

  @property
  def ndim(self):
    return len(self.dims)

  @property
  def size(self):
    out = 1
    for s in self.shape:
      out = out * s
    return out

  def __len__(self):
    d = self.dims[0]
    if isinstance(d, int):
      return d
    v = path().value(d)
    if v is None:
      raise Unsupported('len of a symbolic array')
    return v

  def __iter__(self):
    d = self.dims[0]
    if not isinstance(d, int) and _PATH and path().arbitrary and path().value(d) is None:
      return arbitrary(d, lambda k: self[mk(k)])
    return (self[k] for k in range(len(self)))

  def __bool__(self):
    if self.dims:
      raise Unsupported('truth value of an array')
    return bool(mk(self.term()))

  def __index__(self):
    if self.dims:
      raise Unsupported('array as index')
    return SymInt(self.term()).__index__()
  __int__ = __index__

  def __hash__(self):
    raise TypeError('unhashable')

  def item(self):
    return mk(self.term())

  def copy(self):
    return HArr(self.dims, self.fn, self.kind, dtype=self.dtype)
  __copy__ = copy

  def __deepcopy__(self, memo):
    return self.copy()

  def astype(self, dt, **_):
    dt = np.dtype(dt)
    f = self.fn
    if dt.kind == 'b' and self.kind == 'i':
      return HArr(self.dims, lambda *i: f(*i) != 0, 'b', dtype=dt)
    if dt.kind in 'iu' and self.kind == 'b':
      return HArr(self.dims, lambda *i: _int(f(*i)), 'i', dtype=dt)
    if narrow(dt) and self.kind == 'i' and dt != self.dtype:
      return HArr(self.dims, lambda *i: _wrapped(f(*i), dt), 'i', dtype=dt)
    if dt.kind in 'iu' and self.kind == 'i' or dt.kind == 'b' and self.kind == 'b':
      return HArr(self.dims, f, self.kind, dtype=dt)
    if self.kind == 'o' and dt == self.dtype:
      return HArr(self.dims, f, 'o', dtype=dt)
    raise Unsupported(f'conversion of {self.dtype} to {dt}')

  # element-wise
  def _zip(self, o, f, kind=None):
    if isinstance(o, (SymRatio, float)):
      raise Unsupported('fractional arithmetic on arrays')
    o = asarr(o)
    if kind != 'b':
      _wide(self, o)
    dims, fa, fb = _broadcast(self, o)
    k = kind or ('i' if 'i' in (self.kind, o.kind) else self.kind)
    return HArr(dims, lambda *i: f(fa(*i), fb(*i)), k)

  def _num(f):  # pylint: disable=no-self-argument
    return lambda self, o: self._zip(o, lambda a, b: f(_int(a), _int(b)), 'i')

  def _cmp(f):  # pylint: disable=no-self-argument
    return lambda self, o: self._zip(o, lambda a, b: f(_int(a), _int(b)), 'b')

  __add__ = _num(lambda a, b: a + b)
  __radd__ = _num(lambda a, b: b + a)
  __sub__ = _num(lambda a, b: a - b)
  __rsub__ = _num(lambda a, b: b - a)
  __mul__ = _num(lambda a, b: a * b)
  __rmul__ = _num(lambda a, b: b * a)
  __lt__ = _cmp(lambda a, b: a < b)
  __le__ = _cmp(lambda a, b: a <= b)
  __gt__ = _cmp(lambda a, b: a > b)
  __ge__ = _cmp(lambda a, b: a >= b)

  def __eq__(self, o):
    if o is None:
      return False
    return self._zip(o, lambda a, b: a == b if a.sort() == b.sort() else _int(a) == _int(b), 'b')

  def __ne__(self, o):
    if o is None:
      return True
    return self._zip(o, lambda a, b: a != b if a.sort() == b.sort() else _int(a) != _int(b), 'b')

  def __and__(self, o):
    return self._zip(o, z3.And, 'b')
  __rand__ = __and__

  def __or__(self, o):
    return self._zip(o, z3.Or, 'b')
  __ror__ = __or__

  def __invert__(self):
    f = self.fn
    if self.kind != 'b':
      raise Unsupported('bitwise not')
    return HArr(self.dims, lambda *i: z3.Not(f(*i)), 'b')

  def __neg__(self):
    _wide(self)
    f = self.fn
    return HArr(self.dims, lambda *i: -f(*i), 'i')

  def __mod__(self, o):
    return arr_mod(self, o)

  def __rmod__(self, o):
    if self.ndim:
      raise Unsupported('remainder by an array')
    return asarr(mod(_int(o), self.fn()))

  def __iadd__(self, o):
    self[tuple(slice(None) for _ in self.dims)] = self + o
    return self

  def __isub__(self, o):
    self[tuple(slice(None) for _ in self.dims)] = self - o
    return self

  def reshape(self, *shape):
    shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
    if any(isinstance(s, int) and s == -1 for s in shape):
      k = [isinstance(s, int) and s == -1 for s in shape].index(True)
      if k or len(shape) != self.ndim - 1 or not all(
          _same(_dim(a), b) for a, b in zip(shape[1:], self.dims[2:])):
        raise Unsupported('reshape')
      return merge_axes(self)
    new = tuple(_dim(s) for s in shape)
    if len(new) == len(self.dims) - 1 and all(
        _same(a, b) for a, b in zip(new[1:], self.dims[2:])) and entails(
          path(), _z(new[0]) == _z(self.dims[0]) * _z(self.dims[1])):
      return merge_axes(self)
    if len(new) == len(self.dims) and all(_same(a, b) for a, b in zip(new, self.dims)):
      return HArr(self.dims, None, self.kind, self.store, self.index, self.dtype)
    raise Unsupported('reshape')

  def __floordiv__(self, o):
    if self.ndim and isinstance(o, (int, SymInt)) and self.kind == 'i':
      return arr_div(self, o)
    if not self.ndim:
      return mk(self.term()) // o
    raise Unsupported('quotient of arrays')

  def __rfloordiv__(self, o):
    if not self.ndim:
      return o // mk(self.term())
    raise Unsupported('quotient of arrays')

  # indexing
  def _resolve(self, key):
    """List of ('int', t) | ('slice', start, n) | ('arr', HArr) per axis."""
    if not isinstance(key, tuple):
      key = (key,)
    if Ellipsis in [k for k in key if not isinstance(k, (HArr, SymInt, SymBool, np.ndarray))]:
      n = [i for i, k in enumerate(key) if k is Ellipsis][0]
      key = key[:n] + (slice(None),) * (self.ndim - len(key) + 1) + key[n + 1:]
    if len(key) > self.ndim:
      raise IndexError('too many indices for array')
    key = key + (slice(None),) * (self.ndim - len(key))
    out = []
    for k, d in zip(key, self.dims):
      d = _z(d)
      if isinstance(k, slice):
        if k.step not in (None, 1):
          raise Unsupported('strided slice')
        lo = _bound(k.start, d, z3.IntVal(0))
        hi = _bound(k.stop, d, d)
        n = simp(hi - lo)
        if not (z3.is_int_value(n) and n.as_long() >= 0):
          if not path().branch(n >= 0):
            n = z3.IntVal(0)
        out.append(('slice', lo, n))
      elif isinstance(k, (list, tuple)):
        out.append(('arr', asarr(k)))
      elif isinstance(k, (HArr, np.ndarray)) and k.ndim > 0:
        k = asarr(k)
        if k.kind == 'b':
          raise Unsupported('boolean index')
        out.append(('arr', k))
      else:
        t = _int(k)
        if not path().branch(t >= 0):
          t = simp(t + d)
        path().require('index within the array', z3.And(t >= 0, t < d))
        out.append(('int', t))
    return out

  def __getitem__(self, key):
    out = self._get(key)
    if isinstance(out, HArr):
      keys = key if isinstance(key, tuple) else (key,)
      out.made += sum((a.made for a in (self, *keys) if isinstance(a, HArr)), ())
    return out

  def _get(self, key):
    keys = key if isinstance(key, tuple) else (key,)
    if any(k is None for k in keys):
      return self._with_axes(keys)
    res = self._resolve(key)
    arrs = [r for r in res if r[0] == 'arr']
    if len(arrs) > 1:
      return self._joint(res)
    if arrs and any(r[0] == 'int' for r in res):
      raise Unsupported('mixed index')
    dims, spec = [], []
    for r, d in zip(res, self.dims):
      if r[0] == 'int':
        spec.append((0, lambda i, t=r[1]: t))
      elif r[0] == 'slice':
        dims.append(r[2])
        spec.append((1, lambda i, lo=r[1]: simp(_int(i) + lo)))
      else:
        a = r[1]
        in_range(a, d)
        f = a.fn
        neg = _never_negative(a)
        dims += list(a.dims)
        spec.append((a.ndim, (lambda *i, f=f: f(*i)) if neg else
                     (lambda *i, f=f, d=d: z3.If(f(*i) < 0, f(*i) + _z(d), f(*i)))))

    def ix(*i):
      out = []
      for n, g in spec:
        out.append(g(*i[:n]) if n else g(None))
        i = i[n:]
      return out
    if arrs:   # a copy
      f = self.fn
      return HArr(dims, lambda *i: f(*ix(*i)), self.kind, dtype=self.dtype)
    old = self.index
    comp = ix if old is None else (lambda *i: old(*ix(*i)))
    if not dims:
      return mk(self.store.fn(*comp())) if self.kind in 'ib' else \
        HArr((), None, self.kind, self.store, comp, self.dtype)
    return HArr(dims, None, self.kind, self.store, comp, self.dtype)

  def _joint(self, res):
    """Several index arrays of the same shape, next to each other."""
    pos = [k for k, r in enumerate(res) if r[0] == 'arr']
    arrs = [res[k][1] for k in pos]
    if pos != list(range(pos[0], pos[0] + len(pos))) or any(r[0] == 'int' for r in res) or \
       not all(a.ndim == arrs[0].ndim and all(map(_same, a.dims, arrs[0].dims)) for a in arrs):
      raise Unsupported('several index arrays')
    gs = []
    for k, a in zip(pos, arrs):
      d = self.dims[k]
      in_range(a, d)
      gs.append(a.fn if _never_negative(a) else
                (lambda *i, f=a.fn, d=d: z3.If(f(*i) < 0, f(*i) + _z(d), f(*i))))
    lead, m = res[:pos[0]], arrs[0].ndim
    trail = res[pos[-1] + 1:]
    dims = [r[2] for r in lead] + list(arrs[0].dims) + [r[2] for r in trail]
    f = self.fn

    def fn(*i):
      a, b, c = i[:len(lead)], i[len(lead):len(lead) + m], i[len(lead) + m:]
      return f(*[simp(_int(x) + r[1]) for x, r in zip(a, lead)], *[g(*b) for g in gs],
               *[simp(_int(x) + r[1]) for x, r in zip(c, trail)])
    return HArr(dims, fn, self.kind, dtype=self.dtype)

  def _with_axes(self, keys):
    """Indexing with new axes."""
    rest, new, pos = [], [], 0
    for n, k in enumerate(keys):
      if k is None:
        new.append(pos + len(new))
        continue
      rest.append(k)
      if k is Ellipsis:
        if any(q is None for q in keys[n + 1:]):
          raise Unsupported('new axis after an ellipsis')
      elif isinstance(k, slice):
        pos += 1
      elif isinstance(k, (list, tuple)) or getattr(k, 'ndim', 0):
        pos += asarr(k).ndim
    v = asarr(self[tuple(rest)]) if rest else self
    dims = list(v.dims)
    for n in new:
      dims.insert(n, z3.IntVal(1))
    drop = lambda i: [x for n, x in enumerate(i) if n not in new]
    if v.index is None and v.store is self.store:
      return HArr(dims, None, v.kind, v.store, lambda *i: drop(i), v.dtype)
    if v.store is self.store:
      old = v.index
      return HArr(dims, None, v.kind, v.store, lambda *i: old(*drop(i)), v.dtype)
    f = v.fn
    return HArr(dims, lambda *i: f(*drop(i)), v.kind, dtype=v.dtype)

  def __setitem__(self, key, val):
    if _PATH and path().active and not self.made:
      raise Unsupported('store in a loop over a symbolic number of items')
    if self.index is not None:
      raise Unsupported('store through a view')
    res = self._resolve(key)
    val = asarr(val)
    old = self.store.fn
    arrs = [r for r in res if r[0] == 'arr']
    if not arrs:
      dims = [r[2] for r in res if r[0] == 'slice']
      tgt = HArr(dims, None, self.kind)
      val = _match(val, tgt)
      vf = val.fn

      def fn(*i):
        conds, vi = [], []
        for x, r in zip(i, res):
          if r[0] == 'int':
            conds.append(x == r[1])
          else:
            conds += [x >= r[1], x < r[1] + r[2]]
            vi.append(simp(x - r[1]))
        return z3.If(z3.And(*conds), self._cast(vf(*vi)), old(*i))
      self.store.fn = fn
      return
    if self.ndim != 1:
      raise Unsupported('scatter into several axes')
    ia = res[0][1]
    if ia.ndim != 1:
      raise Unsupported('scatter with a matrix of indices')
    in_range(ia, self.dims[0])
    if not _never_negative(ia):
      raise Unsupported('scatter with negative indices')
    n = ia.dims[0]
    val = _match(val, HArr((n,), None, self.kind))
    vf = val.fn
    pieces = affine_pieces(ia)
    p = path()
    # at most one of the pieces hits a position
    i0 = p.fresh('i')

    def hits(i):
      out = []
      for guard, c in pieces:
        j = simp(i - c)
        out.append((z3.And(j >= 0, j < _z(n), guard(j)), j))
      return out
    h = hits(i0)
    for (a, ja), (b, jb) in itertools.combinations(h, 2):
      if not entails(p, z3.Not(z3.And(a, b))):
        raise Unsupported('scatter to coinciding positions')

    def fn(i):
      out = old(i)
      for a, j in hits(i):
        out = z3.If(a, self._cast(vf(j)), out)
      return out
    self.store.fn = fn

  def _cast(self, t):
    if self.kind == 'i' and z3.is_bool(t):
      return _int(t)
    if self.kind == 'i' and narrow(self.dtype):
      return _wrapped(t, self.dtype)
    if self.kind == 'b' and z3.is_int(t):
      return t != 0
    return t

  def __repr__(self):
    return f'HArr({self.dims}, {self.kind})'


def _bound(x, d, default):
  if x is None:
    return default
  t = _int(x)
  p = path()
  if not p.branch(t >= 0):
    t = simp(t + d)
    if not p.branch(t >= 0):
      return z3.IntVal(0)
  if p.branch(t <= d):
    return t
  return d


def _skolem(dims, name='k'):
  p = path()
  ks = [p.fresh(name) for _ in dims]
  hyp = [z3.And(k >= 0, k < _z(d)) for k, d in zip(ks, dims)]
  return ks, hyp


def _forall(a, cond):
  """cond holds for every entry of the array (given the facts of the path)."""
  ks, hyp = _skolem(a.dims)
  return entails(path(), z3.Implies(z3.And(*hyp), cond(a.fn(*ks))) if hyp else cond(a.fn()))


def in_range(a, d):
  """Obligation: all indices refer to existing entries."""
  p = path()
  ks, hyp = _skolem(a.dims)
  t = a.fn(*ks)
  p.safety.append(('index within the array',
                   z3.Implies(z3.And(*hyp) if hyp else z3.BoolVal(True),
                              z3.And(t >= -_z(d), t < _z(d))), list(p.facts)))


def _never_negative(a):
  return _forall(a, lambda t: t >= 0)


def arr_mod(a, m):
  a, mz = asarr(a), simp(_int(m))
  p = path()
  p.require('remainder of a positive number', mz > 0)
  f = a.fn
  if _forall(a, lambda t: z3.And(t >= 0, t < mz)):
    return HArr(a.dims, f, 'i')
  if _forall(a, lambda t: z3.And(t >= 0, t < 2 * mz)):
    return HArr(a.dims, lambda *i: z3.If(f(*i) < mz, f(*i), f(*i) - mz), 'i')
  if _forall(a, lambda t: z3.And(t >= 0, t < 3 * mz)):
    return HArr(a.dims, lambda *i: z3.If(
      f(*i) < mz, f(*i), z3.If(f(*i) < 2 * mz, f(*i) - mz, f(*i) - 2 * mz)), 'i')
  q = quotients(a, mz)
  return HArr(a.dims, lambda *i: f(*i) - mz * q(*[_int(x) for x in i]), 'i')


def quotients(a, mz):
  """The quotient of every entry by mz > 0 as a fresh function."""
  p, f = path(), a.fn
  known = p.__dict__.setdefault('quots', {})
  key = (mz.sexpr(), simp(f(*[z3.Int(f'q!{k}') for k in range(a.ndim)])).sexpr())
  if key in known:
    return known[key]
  q = z3.Function(f'quot!{p.n}', *[I] * a.ndim, I)
  p.n += 1

  def inst(ts):
    out = []
    for x in apps(ts, q):
      if not T.has_var(x):
        v = f(*x.children())
        out += [q(*x.children()) * mz <= v, v < q(*x.children()) * mz + mz,
                z3.Implies(v >= 0, q(*x.children()) >= 0)]
    return out
  p.instances.append(inst)
  known[key] = q
  return q


def arr_div(a, m):
  a, mz = asarr(a), simp(_int(m))
  p = path()
  p.require('division by a positive number', mz > 0)
  f = a.fn
  if _forall(a, lambda t: z3.And(t >= 0, t < mz)):
    return HArr(a.dims, lambda *i: z3.IntVal(0), 'i')
  if _forall(a, lambda t: z3.And(t >= 0, t < 2 * mz)):
    return HArr(a.dims, lambda *i: z3.If(f(*i) < mz, z3.IntVal(0), z3.IntVal(1)), 'i')
  q = quotients(a, mz)
  return HArr(a.dims, lambda *i: q(*[_int(x) for x in i]), 'i')


def merge_axes(a):
  """The first two axes become one: entry i is the entry (i div m, i mod m)."""
  if a.ndim < 2:
    raise ValueError('zero-dimensional arrays cannot be concatenated')
  n, m = _z(a.dims[0]), _z(a.dims[1])
  p = path()
  p.require('division by a positive number', m > 0)
  q = z3.Function(f'block!{p.n}', I, I)
  p.n += 1

  def inst(ts):
    out = []
    for x in apps(ts, q):
      if not T.has_var(x):
        i = x.arg(0)
        out += [m * x <= i, i < m * x + m,
                z3.Implies(z3.And(i >= 0, i < n * m), z3.And(x >= 0, x < n))]
    return out
  p.instances.append(inst)
  f = a.fn
  return HArr((simp(n * m),) + a.dims[2:],
              lambda i, *r: f(q(_int(i)), simp(_int(i) - m * q(_int(i))), *r), a.kind,
              dtype=a.dtype)


def affine_pieces(a):
  """Index array as pieces (guard(j), c) with entry j + c."""
  j = path().fresh('j')
  todo = [(simp(a.fn(j)), [])]
  out = []
  while todo:
    t, g = todo.pop()
    ites = [x for x in T.apps([t]) if x.decl().kind() == z3.Z3_OP_ITE]
    if ites:
      c = ites[-1].arg(0)
      for v in (True, False):
        todo.append((simp(z3.substitute(t, (c, z3.BoolVal(v)))),
                     g + [c if v else z3.Not(c)]))
      if len(out) + len(todo) > 16:
        raise Unsupported('too many pieces')
      continue
    c = simp(t - j)
    if any(x.eq(j) for x in T.apps([c])):
      raise Unsupported('index array is not a shifted range')
    out.append((lambda i, g=g: z3.And(*[z3.substitute(x, (j, _int(i))) for x in g])
                if g else z3.BoolVal(True), c))
  return out


def _broadcast(a, b):
  n = max(a.ndim, b.ndim)
  dims = []
  for k in range(n):
    x = a.dims[k - n + a.ndim] if k - n + a.ndim >= 0 else 1
    y = b.dims[k - n + b.ndim] if k - n + b.ndim >= 0 else 1
    if isinstance(x, int) and x == 1:
      dims.append(y)
    elif isinstance(y, int) and y == 1:
      dims.append(x)
    else:
      if not _same(x, y):
        raise ValueError(f'operands could not be broadcast together {a.dims} {b.dims}')
      dims.append(x)

  def view(v):
    f, off = v.fn, n - v.ndim
    ones = [isinstance(d, int) and d == 1 for d in v.dims]
    return lambda *i: f(*[z3.IntVal(0) if o and not (isinstance(D, int) and D == 1) else _int(x)
                          for x, o, D in zip(i[off:], ones, dims[off:])])
  return dims, view(a), view(b)


def _match(val, tgt):
  dims, _, f = _broadcast(tgt, val)
  if len(dims) != tgt.ndim or not all(_same(x, y) for x, y in zip(dims, tgt.dims)):
    raise ValueError('could not broadcast input array')
  return HArr(dims, f, val.kind)


def asarr(x, kind=None):
  if isinstance(x, HArr):
    return x
  if isinstance(x, (SymInt, int, np.integer)) and not isinstance(x, bool):
    t = _int(x)
    return HArr((), lambda: t, 'i')
  if isinstance(x, (SymBool, bool, np.bool_)):
    t = _z(x)
    return HArr((), lambda: t, 'b')
  if hasattr(x, 'addressable_shards'):   # concrete array on the device
    x = np.asarray(x)
  if isinstance(x, np.ndarray) and not x.shape and x.dtype.kind in 'iub':
    return asarr(x.item())
  if isinstance(x, (list, tuple, np.ndarray)):
    if isinstance(x, np.ndarray) and x.dtype.kind not in 'iub':
      raise Unsupported('array of ' + str(x.dtype))
    parts = [asarr(v) for v in x]
    if not parts:
      return HArr((0,), lambda i: z3.IntVal(0), 'i')
    return stack(parts)
  raise Unsupported(f'array of {type(x).__name__}')


def stack(parts, axis=0):
  if axis != 0:
    raise Unsupported('stack along an inner axis')
  single = isinstance(parts, (list, tuple)) and len(parts) == 1
  parts = [asarr(p) for p in parts]
  if single and _PATH and path().loops:
    if path().active:
      raise Unsupported('list in a loop over a symbolic number of items')
    return _generalised(parts[0])
  d = parts[0].dims
  for p in parts[1:]:
    if len(p.dims) != len(d) or not all(_same(a, b) for a, b in zip(p.dims, d)):
      raise ValueError('all input arrays must have the same shape')
  fs = [p.fn for p in parts]
  kinds = {p.kind for p in parts}
  kind = kinds.pop() if len(kinds) == 1 else 'i'

  def fn(k, *i):
    k = _int(k)
    if z3.is_int_value(k):
      return fs[k.as_long()](*i)
    out = fs[-1](*i)
    for n in range(len(fs) - 2, -1, -1):
      out = z3.If(k == n, fs[n](*i), out)
    return out
  if len({p.dtype for p in parts}) > 1:
    _wide(*parts)
  return HArr((len(parts),) + d, fn, kind, dtype=parts[0].dtype)


# ------------------------------------------------------------------------ numpy
def _symbolic(x, depth=0):
  if isinstance(x, (SymInt, SymBool, SymRatio, HArr, SymRng)):
    return True
  if depth < 4 and isinstance(x, (list, tuple)):
    return any(_symbolic(v, depth + 1) for v in x)
  return False


def _shape(s):
  return tuple(s) if isinstance(s, (tuple, list)) else (s,)


def _kind(dt, default='o'):
  if dt is None:
    return default
  try:
    k = np.dtype(dt).kind
  except TypeError:
    k = np.dtype(getattr(dt, 'dtype', dt)).kind
  return 'b' if k == 'b' else 'i' if k in 'iu' else 'o'


def _narrow_type(dt):
  try:
    return dt is not None and narrow(np.dtype(dt))
  except TypeError:
    return False


def _full(shape, v, dt, default='i'):
  k = _kind(dt, default)
  t = (z3.BoolVal(bool(v)) if k == 'b' else z3.IntVal(v) if isinstance(v, int) else _int(v))
  r = HArr(_shape(shape), lambda *i: t, k,
           dtype=np.dtype(dt) if k == 'o' and dt is not None else None)
  return r.astype(dt) if _narrow_type(dt) else r


class _NP:
  """The numpy functions the engine knows, for symbolic arguments."""

  @staticmethod
  def arange(*a, dtype=None):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
    if st != 1:
      raise Unsupported('strided arange')
    lo, hi = _int(lo), _int(hi)
    n = simp(hi - lo)
    if not path().branch(n >= 0):
      n = z3.IntVal(0)
    r = HArr((n,), lambda i: simp(_int(i) + lo), 'i')
    return r.astype(dtype) if _narrow_type(dtype) else r

  @staticmethod
  def mod(a, b):
    if isinstance(a, HArr):
      return arr_mod(a, b)
    return mod(_int(a), _int(b))
  remainder = mod

  @staticmethod
  def copy(a):
    return asarr(a).copy()

  @staticmethod
  def array(a, dtype=None, copy=True, ndmin=0):
    r = asarr(a).copy() if copy or not isinstance(a, HArr) else a
    return r if dtype is None else r.astype(dtype)

  @staticmethod
  def asarray(a, dtype=None):
    r = asarr(a)
    return r if dtype is None else r.astype(dtype)

  @staticmethod
  def append(a, b):
    parts = []
    for x in (a, b):
      x = asarr(x)
      if x.ndim > 1 or not all(isinstance(d, int) for d in x.dims):
        raise Unsupported('append')
      parts += list(x) if x.dims else [mk(x.term())]
    return stack(parts)

  @staticmethod
  def zeros(shape, dtype=None):
    return _full(shape, 0, dtype)

  @staticmethod
  def ones(shape, dtype=None):
    return _full(shape, 1, dtype)

  @staticmethod
  def empty(shape, dtype=None):
    k = _kind(dtype, 'i')
    f = z3.Function(f'empty!{path().n}', *[I] * len(_shape(shape)), B if k == 'b' else I)
    path().n += 1
    return HArr(_shape(shape), lambda *i: f(*[_int(x) for x in i]), k,
                dtype=np.dtype(dtype) if _narrow_type(dtype) else None)

  @staticmethod
  def broadcast_to(a, shape):
    a = asarr(a)
    return _match(a, HArr(_shape(shape), None, a.kind))

  @staticmethod
  def full(shape, v, dtype=None):
    return _full(shape, v, dtype, 'b' if isinstance(v, (bool, SymBool)) else 'i')

  @staticmethod
  def zeros_like(a, dtype=None):
    return _full(a.dims, 0, dtype or a.dtype)

  @staticmethod
  def ones_like(a, dtype=None):
    return _full(a.dims, 1, dtype or a.dtype)

  @staticmethod
  def concatenate(parts, axis=0):
    if isinstance(parts, HArr) and not isinstance(parts.dims[0], int):
      if axis != 0:
        raise Unsupported('concatenate along an inner axis')
      return merge_axes(parts)
    parts = [asarr(p) for p in parts]
    if axis != 0:
      raise Unsupported('concatenate along an inner axis')
    offs, n = [], z3.IntVal(0)
    for p in parts:
      offs.append(n)
      n = simp(n + _z(p.dims[0]))
    fs = [p.fn for p in parts]
    for p in parts[1:]:
      if not all(_same(a, b) for a, b in zip(p.dims[1:], parts[0].dims[1:])):
        raise ValueError('dimensions must match')

    def fn(k, *i):
      out = fs[-1](simp(_int(k) - offs[-1]), *i)
      for j in range(len(fs) - 2, -1, -1):
        out = z3.If(_int(k) < offs[j + 1], fs[j](simp(_int(k) - offs[j]), *i), out)
      return out
    kinds = {p.kind for p in parts}
    return HArr((n,) + parts[0].dims[1:], fn, kinds.pop() if len(kinds) == 1 else 'i',
                dtype=parts[0].dtype)

  stack = staticmethod(stack)
  vstack = staticmethod(lambda parts: stack(parts))

  @staticmethod
  def reshape(a, shape):
    return asarr(a).reshape(shape)

  @staticmethod
  def squeeze(a, axis=None):
    a = asarr(a)
    if axis is None:
      axis = [k for k, d in enumerate(a.dims) if isinstance(d, int) and d == 1]
    ax = {x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,))}
    for k in ax:
      if not _same(a.dims[k], 1):
        raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    return a[tuple(0 if k in ax else slice(None) for k in range(a.ndim))] if ax else a

  @staticmethod
  def expand_dims(a, axis):
    a = asarr(a)
    if axis != 0:
      raise Unsupported('expand_dims')
    f = a.fn
    return HArr((1,) + a.dims, lambda k, *i: f(*i), a.kind, dtype=a.dtype)

  @staticmethod
  def take(a, idx, axis=None, mode='raise'):
    if axis not in (None, 0) or asarr(a).ndim != 1 and axis is None:
      raise Unsupported('take')
    if mode == 'wrap':
      idx = arr_mod(asarr(idx), asarr(a).shape[0])
    return asarr(a)[idx]

  @staticmethod
  def roll(a, shift):
    a = asarr(a)
    n = a.shape[0]
    if a.ndim != 1:
      raise Unsupported('roll')
    return a[arr_mod(_NP.arange(n) + (n - shift % n), n)]

  @staticmethod
  def where(c, a, b):
    c, a, b = asarr(c), asarr(a), asarr(b)
    d1, fa, fb = _broadcast(a, b)
    ab = HArr(d1, None)
    d2, fc, _ = _broadcast(c, HArr(d1, lambda *i: z3.IntVal(0)))
    if len(d2) != len(ab.dims) and d1:
      raise Unsupported('where')
    n = len(d2) - len(d1)
    return HArr(d2, lambda *i: z3.If(fc(*i), fa(*i[n:]), fb(*i[n:])), a.kind)

  @staticmethod
  def minimum(a, b):
    a = asarr(a)
    return a._zip(b, lambda x, y: z3.If(x <= y, x, y), 'i')

  @staticmethod
  def maximum(a, b):
    a = asarr(a)
    return a._zip(b, lambda x, y: z3.If(x >= y, x, y), 'i')

  logical_and = staticmethod(lambda a, b: asarr(a) & b)
  logical_or = staticmethod(lambda a, b: asarr(a) | b)
  logical_not = staticmethod(lambda a: ~asarr(a))
  add = staticmethod(lambda a, b: asarr(a) + b)
  subtract = staticmethod(lambda a, b: asarr(a) - b)
  multiply = staticmethod(lambda a, b: asarr(a) * b)
  less = staticmethod(lambda a, b: asarr(a) < b)
  less_equal = staticmethod(lambda a, b: asarr(a) <= b)
  greater = staticmethod(lambda a, b: asarr(a) > b)
  greater_equal = staticmethod(lambda a, b: asarr(a) >= b)
  equal = staticmethod(lambda a, b: asarr(a) == b)

  @staticmethod
  def floor(x):
    if isinstance(x, (SymInt, HArr)):
      return x
    return x.floor() if isinstance(x, SymRatio) else np.floor(x)

  @staticmethod
  def ceil(x):
    if isinstance(x, (SymInt, HArr)):
      return x
    return x.ceil() if isinstance(x, SymRatio) else np.ceil(x)

  @staticmethod
  def round(x, decimals=0):
    if isinstance(x, (SymInt, HArr)) and not decimals:
      return x
    return x.__round__(decimals or None) if isinstance(x, SymRatio) else np.round(x, decimals)
  around = rint = round

  @staticmethod
  def trunc(x):
    if isinstance(x, (SymInt, HArr)):
      return x
    return x.__trunc__() if isinstance(x, SymRatio) else np.trunc(x)
  fix = trunc

  @staticmethod
  def floor_divide(a, b):
    return a // b

  @staticmethod
  def divide(a, b):
    return a / b
  true_divide = divide

  @staticmethod
  def shape(a):
    return asarr(a).shape

  @staticmethod
  def ndim(a):
    return asarr(a).ndim

  @staticmethod
  def unique(a, return_index=False, return_inverse=False, return_counts=False, **_):
    a = asarr(a)
    if a.ndim != 1 or a.kind != 'i' or return_index or return_counts:
      raise Unsupported('unique')
    p = path()
    p.n += 1
    m, f = _z(a.dims[0]), a.fn
    cnt = p.fresh('distinct')
    u, inv, src = [z3.Function(f'{nm}!{p.n}', I, I) for nm in ('unique', 'inverse', 'source')]
    p.assume(cnt >= 0, cnt <= m, z3.Implies(m > 0, cnt > 0))

    def inst(ts):
      out = []
      for x in apps(ts, inv):
        if not T.has_var(x):
          j = x.arg(0)
          out.append(z3.Implies(z3.And(j >= 0, j < m), z3.And(
            x >= 0, x < cnt, u(x) == f(j))))
      us = [x for x in apps(ts, u) if not T.has_var(x)]
      for x in us:
        k = x.arg(0)
        out.append(z3.Implies(z3.And(k >= 0, k < cnt), z3.And(
          src(k) >= 0, src(k) < m, x == f(src(k)))))
      for x, y in itertools.permutations(us, 2):
        out.append(z3.Implies(z3.And(x.arg(0) >= 0, x.arg(0) < y.arg(0), y.arg(0) < cnt), x < y))
      return out
    p.instances.append(inst)
    res = HArr((cnt,), lambda k: u(_int(k)), 'i')
    back = HArr((m,), lambda j: inv(_int(j)), 'i')
    res.made += a.made
    back.made += a.made
    return (res, back) if return_inverse else res

  @staticmethod
  def any(a):
    a = asarr(a)
    if not all(isinstance(d, int) for d in a.dims):
      raise Unsupported('any of a symbolic array')
    ts = [a.fn(*[z3.IntVal(x) for x in i]) for i in itertools.product(*map(range, a.dims))]
    return mk(z3.Or(*[t if z3.is_bool(t) else t != 0 for t in ts]) if ts else z3.BoolVal(False))

  @staticmethod
  def all(a):
    a = asarr(a)
    if not all(isinstance(d, int) for d in a.dims):
      raise Unsupported('all of a symbolic array')
    ts = [a.fn(*[z3.IntVal(x) for x in i]) for i in itertools.product(*map(range, a.dims))]
    return mk(z3.And(*[t if z3.is_bool(t) else t != 0 for t in ts]) if ts else z3.BoolVal(True))


class NumpyShim:
  """Stands for numpy (or jax.numpy) in the globals of a module."""

  def __init__(self, real, random=None):
    self._real = real
    if random is not None:
      self.random = random

  def __getattr__(self, name):
    real = getattr(self._real, name)
    sym = getattr(_NP, name, None)
    if not callable(real) or isinstance(real, type) or name in ('int_', 'bool_'):
      return real

    def call(*a, **k):
      if _symbolic(list(a)) or _symbolic(list(k.values())):
        if sym is None:
          raise Unsupported(f'numpy.{name}')
        return sym(*a, **k)
      return real(*a, **k)
    return call


class MathShim:
  def __getattr__(self, name):
    real = getattr(_math, name)
    if name not in ('floor', 'ceil', 'trunc'):
      return real

    def call(x):
      if isinstance(x, SymRatio):
        return x.floor() if name == 'floor' else x.ceil() if name == 'ceil' else x.__trunc__()
      if isinstance(x, SymInt):
        return x
      return real(x)
    return call


def hlen(x):
  if isinstance(x, HArr):
    return x.shape[0]
  if isinstance(x, Counted):
    return x.n
  if isinstance(x, (list, tuple)) and len(x) == 1 and _PATH and path().loops:
    raise Unsupported('length of a list after a loop over a symbolic number of items')
  return len(x)


class _IntMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, (int, SymInt))


class hint(metaclass=_IntMeta):
  """Stands for ``int``."""

  def __new__(cls, x=0, *a):
    if isinstance(x, SymInt):
      return x
    if isinstance(x, SymRatio):
      return x.__trunc__()
    if isinstance(x, SymBool):
      return mk(_int(x))
    if isinstance(x, HArr) and not x.dims:
      return mk(_int(x.term()))
    return int(x, *a)


@contextlib.contextmanager
def patched(module, **names):
  """Module globals replaced for the time of a symbolic run."""
  old, missing = {}, []
  for k, v in names.items():
    if k in module.__dict__:
      old[k] = module.__dict__[k]
    else:
      missing.append(k)
    module.__dict__[k] = v
  try:
    yield
  finally:
    for k in missing:
      del module.__dict__[k]
    module.__dict__.update(old)


# -------------------------------------------------------------- random numbers
# Contract on numpy generators: what is drawn is a function of the state of the
# generator, which every draw advances. A draw without replacement of n out of n
# is a permutation, everything drawn is in range.
Perm = z3.Function('perm', I, I, I)      # state, position
Draw = z3.Function('draw', I, I, I)
Seed = z3.Function('seed', I, I)


class RngState:
  """Snapshot of a generator state (numpy returns a new dictionary)."""

  def __init__(self, t):
    self.t = t


class SymRng:
  """A generator in a symbolic state."""

  def __init__(self, state):
    self._s = state
    self.log = []

  @property
  def bit_generator(self):
    return self

  @property
  def state(self):
    return RngState(self._s)

  @state.setter
  def state(self, s):
    if not isinstance(s, RngState):
      raise ValueError('state must be a generator state')
    self._s = s.t

  def __deepcopy__(self, memo):
    r = SymRng(self._s)
    r.log = list(self.log)
    return r

  def _pool(self, a):
    return _NP.arange(a) if not isinstance(a, (HArr, list, tuple, np.ndarray)) else asarr(a)

  def _take(self, fun, a, n, size):
    """a[fun(state, j)] for j < size."""
    s, p = self._s, path()
    nz = _int(n)

    def inst(ts):
      out = []
      for x in apps(ts, fun):
        if not T.has_var(x) and x.arg(0).eq(s):
          out += [z3.And(x >= 0, x < nz)] if fun is Draw else [
            z3.Implies(z3.And(x.arg(1) >= 0, x.arg(1) < nz), z3.And(x >= 0, x < nz))]
      return out
    p.instances.append(inst)
    self.log.append((fun.name(), s, n, size))
    self._s = simp(s + 1)
    f = a.fn
    if size is None:
      return mk(f(fun(s, z3.IntVal(0))))
    return HArr(_shape(size), lambda *j: f(fun(s, _int(j[0]))), 'i')

  def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
    a = self._pool(a)
    if p is not None or a.ndim != 1 or not shuffle or size is not None and len(_shape(size)) != 1:
      raise Unsupported('choice')
    n = a.shape[0]
    if replace:
      return self._take(Draw, a, n, size)
    path().require('not more draws than entries', _int(1 if size is None else size) <= _int(n))
    return self._take(Perm, a, n, size)

  def permutation(self, a, axis=0):
    a = self._pool(a)
    return self._take(Perm, a, a.shape[0], a.shape[0])

  def shuffle(self, a, axis=0):
    a[:] = self._take(Perm, a.copy(), a.shape[0], a.shape[0])

  def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
    if high is None:
      low, high = 0, low
    if endpoint:
      high = high + 1
    n = high - low
    path().require('non-empty range', _int(n) > 0)
    return self._take(Draw, _NP.arange(low, high), n, size)


class SymRandom:
  """Stands for numpy.random."""

  class SeedSequence:
    def __init__(self, entropy=None, **_):
      self.entropy, self.children = entropy, 0
      self.key = ()

    def spawn(self, n):
      out = []
      for k in range(n):
        c = SymRandom.SeedSequence(self.entropy)
        c.key = self.key + (self.children + k,)
        out.append(c)
      self.children += n
      return out

  @staticmethod
  def default_rng(seed=None):
    if isinstance(seed, SymRandom.SeedSequence):
      t = _int(seed.entropy)
      for k in seed.key:
        t = z3.Function('child', I, I, I)(t, z3.IntVal(k))
      return SymRng(Seed(t))
    return SymRng(Seed(_int(seed)))
