"""z3 term layer: normalisation, theory axioms, the prover.

Every obligation ends in :func:`Prover.prove`, which asks z3 for a proof
(``unsat`` of the negation) and cvc5 for a second opinion if z3 gives none.
"""
import fractions
import itertools
import os
import time

from vf import env  # pylint: disable=unused-import
import numpy as onp
import z3

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

# The free algebra of PRNG keys: Seed, Split and FoldIn are injective and have
# disjoint ranges (assumption: no collisions of the counter-based generator).
_K = z3.Datatype('Key')
_K.declare('seed', ('seed_of', I))
_K.declare('split', ('parent', _K), ('num', I), ('child', I))
_K.declare('fold', ('fparent', _K), ('data', I))
_K.declare('root', ('rid', I))
_K.declare('mk', ('w0', I), ('w1', I))
Key = _K.create()
kword = z3.Function('kword', Key, I, I)

Inv = z3.Function('r_inv', R, R)
Sqrt = z3.Function('r_sqrt', R, R)
Exp = z3.Function('r_exp', R, R)
Log = z3.Function('r_log', R, R)
Pow = z3.Function('r_pow', R, R, R)
INFTY = z3.Real('infty')

_PROVER_STATS = {'z3': 0, 'z3-simplify': 0, 'cvc5': 0, 'unknown': 0,
                 'refuted': 0, 'time_z3': 0.0, 'time_cvc5': 0.0,
                 'queries': 0, 'time_simplify': 0.0}


def stats():
  return dict(_PROVER_STATS)


def wrap(t, lo, hi):
  """The integer modulo hi - lo + 1 in lo..hi."""
  s = z3.simplify(t)
  if z3.is_int_value(s):
    return z3.IntVal((s.as_long() - lo) % (hi - lo + 1) + lo)
  return z3.If(z3.And(t >= lo, t <= hi), t, (t - lo) % (hi - lo + 1) + lo)


def is_num(t):
  return (z3.is_int_value(t) or z3.is_rational_value(t)
          or z3.is_algebraic_value(t))


def frac(t):
  if z3.is_int_value(t):
    return fractions.Fraction(t.as_long())
  return fractions.Fraction(t.numerator_as_long(), t.denominator_as_long())


def rv(x):
  """Real numeral; floats are read as their shortest single precision decimal."""
  if isinstance(x, fractions.Fraction):
    return z3.RealVal(str(x))
  if isinstance(x, (int, onp.integer)):
    return z3.RealVal(int(x))
  f = float(x)
  if onp.isinf(f):
    return INFTY if f > 0 else -INFTY
  if onp.isnan(f):
    return z3.Real('nan')
  return z3.RealVal(str(fractions.Fraction(repr(float(str(onp.float32(f)))))))


def to_real(t):
  if z3.is_int(t):
    return z3.simplify(z3.ToReal(t)) if z3.is_int_value(t) else z3.ToReal(t)
  return t


def mul(a, b):
  for x, y in ((a, b), (b, a)):
    if is_num(x):
      f = frac(x)
      if f == 0:
        return z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0)
      if f == 1:
        return y
  return a * b


def add(a, b):
  if is_num(a) and frac(a) == 0:
    return b
  if is_num(b) and frac(b) == 0:
    return a
  return a + b


def inv(t):
  """Reciprocal, pushed through products (all divisors are taken as non-zero)."""
  if is_num(t):
    f = frac(t)
    if f != 0:
      return z3.RealVal(str(1 / f))
    return Inv(t)
  if z3.is_app(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
      out = None
      for c in t.children():
        out = inv(c) if out is None else mul(out, inv(c))
      return out
    if k == z3.Z3_OP_UMINUS:
      return -inv(t.arg(0))
    if t.decl().eq(Inv):
      return t.arg(0)
    if t.decl().eq(Exp):
      return exp(-t.arg(0))
    if t.decl().eq(Sqrt):
      return sqrt(inv(t.arg(0)))
    if k == z3.Z3_OP_ITE:
      return z3.If(t.arg(0), inv(t.arg(1)), inv(t.arg(2)))
  return Inv(t)


def sqrt(t):
  if is_num(t):
    f = frac(t)
    if f >= 0:
      import math
      n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
      if n * n == f.numerator and d * d == f.denominator:
        return rv(fractions.Fraction(n, d))
  if z3.is_app(t) and t.decl().eq(Exp):
    return exp(t.arg(0) / 2)
  return Sqrt(t)


def ipow(t, n):
  if n == 0:
    return z3.RealVal(1)
  if n < 0:
    return inv(ipow(t, -n))
  out = t
  for _ in range(n - 1):
    out = out * t
  return out


def power(x, y):
  if is_num(y):
    f = frac(y)
    if f.denominator == 1 and abs(f.numerator) <= 8:
      return ipow(x, int(f))
    if f == fractions.Fraction(1, 2):
      return sqrt(x)
    if f == fractions.Fraction(-1, 2):
      return inv(sqrt(x))
  # the base is positive: x^y := exp(y log x)
  return exp(mul(y, log(x)))


def exp(t):
  if is_num(t) and frac(t) == 0:
    return z3.RealVal(1)
  if z3.is_app(t) and t.decl().eq(Log):
    return t.arg(0)
  return Exp(t)


def log(t):
  if is_num(t) and frac(t) == 1:
    return z3.RealVal(0)
  if z3.is_app(t) and t.decl().eq(Exp):
    return t.arg(0)
  if z3.is_app(t) and t.decl().eq(Inv):
    return -log(t.arg(0))
  return Log(t)


def ite(c, a, b):
  if z3.is_true(c):
    return a
  if z3.is_false(c):
    return b
  if a.eq(b):
    return a
  return z3.If(c, a, b)


_SOM = dict(som=True, mul_to_power=False, arith_lhs=False, flat=True,
            hoist_mul=False, sort_sums=True)


def norm(t):
  """Sum-of-monomials normal form; also inside uninterpreted applications."""
  t0 = time.time()
  try:
    return _norm(t, {})
  finally:
    _PROVER_STATS['time_simplify'] += time.time() - t0


def _norm(t, memo):
  k = t.get_id()
  if k in memo:
    return memo[k][1]
  if z3.is_app(t) and t.num_args() > 0:
    ch = [_norm(c, memo) for c in t.children()]
    d = t.decl()
    if d.eq(Inv):
      r = inv(_lead(ch[0]))
    elif d.eq(Sqrt):
      r = sqrt(ch[0])
    elif d.eq(Exp):
      r = exp(ch[0])
    elif d.eq(Log):
      r = log(ch[0])
    elif (d.kind() == z3.Z3_OP_ITE and z3.is_real(t) and is_num(ch[2])
          and frac(ch[2]) == 0 and not is_num(ch[1])):
      r = ch[1] * z3.If(ch[0], z3.RealVal(1), z3.RealVal(0))
    else:
      r = d(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
    r = _logcmp(_cancel(z3.simplify(r, **_SOM)))
  else:
    r = t
  memo[k] = (t, r)
  return r


_CMP = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_LT: lambda a, b: a < b,
        z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_GT: lambda a, b: a > b}


def _logcmp(t):
  """log(a) < b becomes a < exp(b) (a >= 0, log 0 is below every number)."""
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_NOT:
    return z3.Not(_logcmp(t.arg(0)))
  if z3.is_app(t) and t.decl().kind() in _CMP and z3.is_real(t.arg(0)):
    f = _CMP[t.decl().kind()]
    a, b = t.arg(0), t.arg(1)
    if z3.is_app(a) and a.decl().eq(Log):
      return z3.simplify(f(a.arg(0), exp(b)), **_SOM)
    if z3.is_app(b) and b.decl().eq(Log):
      return z3.simplify(f(exp(a), b.arg(0)), **_SOM)
  return t


def _lead(t):
  """Factor what all terms share out of a sum: 2ac + 2bc -> 2c * (a + b)."""
  if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD):
    return t
  cs = [_coef(c) for c in t.children()]
  common, own = [], []
  for f in cs[0][1]:
    if all(any(g.eq(f) for g in fs) for _, fs in cs[1:]):
      common.append(f)
      for _, fs in cs[1:]:
        fs.pop(next(k for k, g in enumerate(fs) if g.eq(f)))
    else:
      own.append(f)
  out = t
  if common:
    parts = []
    for n, (c, fs) in enumerate(cs):
      m = rv(c)
      for f in (own if n == 0 else fs):
        m = m * f
      parts.append(m)
    out = z3.simplify(z3.Sum(parts), **_SOM)
  # the leading coefficient becomes one
  c0 = _coef(out.arg(0))[0] if out.decl().kind() == z3.Z3_OP_ADD else 1
  if c0 not in (0, 1):
    out = z3.simplify(out * rv(1 / c0), **_SOM)
  for f in common:
    out = f * out
  return rv(c0) * out if c0 not in (0, 1) else out


def _coef(t):
  if is_num(t):
    return frac(t), []
  if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
    c, fs = fractions.Fraction(1), []
    for x in t.children():
      if is_num(x):
        c *= frac(x)
      elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL:
        c2, f2 = _coef(x)
        c *= c2
        fs += f2
      else:
        fs.append(x)
    return c, fs
  return fractions.Fraction(1), [t]


def _pair(fs, rule):
  for i, f in enumerate(fs):
    for j, g in enumerate(fs):
      if i != j:
        hit = rule(f, g)
        if hit:
          return i, j, hit[0]
  return None


def _annihilate(f, g):
  d = f.decl()
  if d.eq(Inv):
    if f.arg(0).eq(g):
      return (None,)
    if g.decl().eq(Sqrt) and g.arg(0).eq(f.arg(0)):
      return (sqrt(f),)                    # sqrt(x) / x
  elif d.eq(Sqrt):
    if g.eq(f):
      return (f.arg(0),)
    if f.arg(0).decl().eq(Inv) and f.arg(0).arg(0).eq(g):
      return (sqrt(g),)                    # x sqrt(1 / x)
  return None


def _merge(f, g):
  d = f.decl()
  if d.eq(g.decl()):
    if d.eq(Sqrt):
      return (sqrt(_cancel(z3.simplify(f.arg(0) * g.arg(0), **_SOM))),)
    if d.eq(Exp):
      return (exp(norm_sum(f.arg(0), g.arg(0))),)
  return None


def _cancel(t):
  """x * inv(x) -> 1 and sqrt(x) * sqrt(x) -> x inside monomials.

  Sound where x != 0 (resp. x >= 0), which every obligation states as a
  definedness precondition of the code (no division by zero, no NaN).
  """
  if not (z3.is_app(t) and z3.is_real(t)):
    return t
  k = t.decl().kind()
  if k == z3.Z3_OP_ADD:
    ch = [_cancel(c) for c in t.children()]
    if any(not a.eq(b) for a, b in zip(ch, t.children())):
      t = z3.simplify(z3.Sum(ch), **_SOM)
      if t.decl().kind() != z3.Z3_OP_ADD:
        return _cancel(t)
    return _divide_out(t)
  if k == z3.Z3_OP_MUL:
    c, fs = _coef(t)
    changed = False
    while True:
      hit = _pair(fs, _annihilate) or _pair(fs, _merge)
      if not hit:
        break
      i, j, repl = hit
      fs = [x for n, x in enumerate(fs) if n not in (i, j)]
      if repl is not None:
        c2, f2 = _coef(repl)
        c *= c2
        fs += f2
      changed = True
    if changed:
      out = rv(c)
      for f in fs:
        out = out * f
      return _cancel(z3.simplify(out, **_SOM))
    if len(fs) > 1 and any(f.decl().kind() == z3.Z3_OP_ADD for f in fs):
      # products of long sums are not expanded: their factors get a normal form
      out = []
      for f in fs:
        if f.decl().kind() == z3.Z3_OP_ADD:
          c2, f2 = _coef(_lead(f))
          c *= c2
          out += f2
        else:
          out.append(f)
      if len(out) != len(fs) or any(not a.eq(b) for a, b in zip(out, fs)):
        r = rv(c)
        for f in out:
          r = r * f
        return z3.simplify(r, som=False, flat=True)
  return t


def norm_sum(a, b):
  return _cancel(z3.simplify(a + b, **_SOM))


def _poly(ts):
  """Sum of monomials as {sorted factor ids: coefficient} and the factors by id."""
  out, by = {}, {}
  for t in ts:
    c, fs = _coef(t)
    for f in fs:
      by[f.get_id()] = f
    m = tuple(sorted(f.get_id() for f in fs))
    out[m] = out.get(m, 0) + c
  return {m: c for m, c in out.items() if c != 0}, by


def _mono_div(a, b):
  a = list(a)
  for x in b:
    if x not in a:
      return None
    a.remove(x)
  return tuple(a)


def _divide_out(t):
  """P inv(S) + rest -> Q + rest if the polynomial P is the product Q S."""
  invs = []
  for c in t.children():
    for f in _coef(c)[1]:
      if (z3.is_app(f) and f.decl().eq(Inv) and f.arg(0).decl().kind() == z3.Z3_OP_ADD
          and not any(f.eq(g) for g in invs)):
        invs.append(f)
  for f in invs:
    div, by = _poly(f.arg(0).children())
    group, rest = [], []
    for c in t.children():
      co, fs = _coef(c)
      hit = [n for n, x in enumerate(fs) if x.eq(f)]
      if hit:
        m = rv(co)
        for n, x in enumerate(fs):
          if n != hit[0]:
            m = mul(m, x)
        group.append(m)
      else:
        rest.append(c)
    if len(group) < len(div):
      continue
    num, by2 = _poly(group)
    by.update(by2)
    # powers of a factor order monomials lexicographically by counts
    keys = sorted(by)
    order = lambda m: tuple(m.count(k) for k in keys)
    lead = max(div, key=order)
    quo = {}
    num = dict(num)
    ok = True
    for _ in range(64):
      if not num:
        break
      m = max(num, key=order)
      q = _mono_div(m, lead)
      if q is None:
        ok = False
        break
      c = num[m] / div[lead]
      quo[q] = quo.get(q, 0) + c
      for dm, dc in div.items():
        k = tuple(sorted(q + dm))
        num[k] = num.get(k, 0) - c * dc
        if num[k] == 0:
          del num[k]
    if ok and not num:
      out = list(rest)
      for q, c in quo.items():
        x = rv(c)
        for i in q:
          x = mul(x, by[i])
        out.append(x)
      return _cancel(z3.simplify(z3.Sum(out) if out else rv(0), **_SOM))
  return t


def apps(ts, decl=None, memo=None):
  """All application subterms (of decl) in the terms."""
  seen = set()
  out = []
  stack = list(ts)
  while stack:
    t = stack.pop()
    if t.get_id() in seen:
      continue
    seen.add(t.get_id())
    if z3.is_quantifier(t):
      stack.append(t.body())
      continue
    if z3.is_app(t):
      if decl is None or t.decl().eq(decl):
        out.append(t)
      stack.extend(t.children())
  return out


# ---------------------------------------------------------------- fingerprints
# Value of a term under one fixed pseudo-random interpretation of all symbols.
# Terms with different values are not equal; used to reject candidate equalities
# quickly, never to accept one.
_FP = {}
_FP_KEEP = []


def _fh(*parts):
  import zlib
  return zlib.crc32(repr(parts).encode())


def _q(v):
  if isinstance(v, float):
    if v != v or abs(v) == float('inf'):
      return 'nan'
    return float('%.5g' % v)
  return v


def _fp_const(name, sort):
  h = _fh(name)
  if sort == I:
    if name.startswith('dim_'):
      return 40 + h % 20
    if name.startswith('g!c'):
      return h % max(1, int(name[3:].split('_')[0]))
    return 1 + h % 37
  if sort == B:
    return bool(h & 1)
  if sort == R:
    return 0.5 + (h % 100003) / 100003.0 * 1.5
  return ('k', h)


def fp(t):
  k = t.get_id()
  if k in _FP:
    return _FP[k]
  stack = [t]
  while stack:
    x = stack[-1]
    if x.get_id() in _FP:
      stack.pop()
      continue
    if not z3.is_app(x):
      v = ('q', x.get_id())
    else:
      todo = [c for c in x.children() if c.get_id() not in _FP]
      if todo:
        stack.extend(todo)
        continue
      v = _fp_app(x, [_FP[c.get_id()] for c in x.children()])
    _FP[x.get_id()] = v
    _FP_KEEP.append(x)
    stack.pop()
  return _FP[k]


def _fp_app(t, a):
  import math
  k = t.decl().kind()
  try:
    if is_num(t):
      return t.as_long() if z3.is_int_value(t) else float(frac(t))
    if k == z3.Z3_OP_TRUE:
      return True
    if k == z3.Z3_OP_FALSE:
      return False
    if any(isinstance(x, tuple) and x and x[0] == 'q' for x in a):
      return ('q', t.get_id())
    if k == z3.Z3_OP_ADD:
      return sum(a)
    if k == z3.Z3_OP_MUL:
      r = 1
      for x in a:
        r = r * x
      return r
    if k == z3.Z3_OP_SUB:
      r = a[0]
      for x in a[1:]:
        r -= x
      return r
    if k == z3.Z3_OP_UMINUS:
      return -a[0]
    if k == z3.Z3_OP_DIV:
      return a[0] / a[1]
    if k == z3.Z3_OP_IDIV:
      return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
    if k == z3.Z3_OP_MOD:
      return a[0] % abs(a[1])
    if k == z3.Z3_OP_TO_REAL:
      return float(a[0])
    if k == z3.Z3_OP_TO_INT:
      return math.floor(a[0] + 1e-9)
    if k == z3.Z3_OP_ITE:
      return a[1] if a[0] else a[2]
    if k == z3.Z3_OP_NOT:
      return not a[0]
    if k == z3.Z3_OP_AND:
      return all(a)
    if k == z3.Z3_OP_OR:
      return any(a)
    if k == z3.Z3_OP_IMPLIES:
      return (not a[0]) or a[1]
    if k == z3.Z3_OP_XOR:
      return a[0] != a[1]
    if k == z3.Z3_OP_EQ:
      return fp_close(a[0], a[1])
    if k == z3.Z3_OP_DISTINCT:
      return all(not fp_close(x, y) for i, x in enumerate(a) for y in a[i + 1:])
    if k == z3.Z3_OP_LE:
      return a[0] <= a[1]
    if k == z3.Z3_OP_LT:
      return a[0] < a[1]
    if k == z3.Z3_OP_GE:
      return a[0] >= a[1]
    if k == z3.Z3_OP_GT:
      return a[0] > a[1]
    d = t.decl()
    if d.eq(Inv):
      return 1.0 / a[0]
    if d.eq(Sqrt):
      return math.sqrt(abs(a[0]))
    if d.eq(Exp):
      return math.exp(min(a[0], 300.))
    if d.eq(Log):
      return math.log(abs(a[0]))
    if d.eq(Pow):
      return abs(a[0]) ** a[1]
  except (ZeroDivisionError, OverflowError, ValueError):
    return float('nan')
  name = t.decl().name()
  if not a:
    return _fp_const(name, t.sort())
  h = _fh(name, tuple(_q(x) for x in a))
  if t.sort() == I:
    return h % 41
  if t.sort() == B:
    return bool(h & 1)
  if t.sort() == R:
    return 0.5 + (h % 100003) / 100003.0 * 1.5
  return ('k', name, tuple(_q(x) for x in a))


def fp_close(x, y):
  if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, tuple) or isinstance(y, tuple):
    return x == y
  if x != x or y != y:
    return True
  return abs(x - y) <= 1e-5 * (1 + abs(x) + abs(y))


def may_equal(a, b):
  """False only if the terms differ under the fixed interpretation."""
  x, y = fp(a), fp(b)
  if (isinstance(x, tuple) and x[0] == 'q') or (isinstance(y, tuple) and y[0] == 'q'):
    return True
  return fp_close(x, y)


class NumericModel:
  """Value of terms under a pseudo-random interpretation of the inputs.

  Everything else has its real meaning: elementary functions, sums, loops (by
  running them) and callees known by contract (a fixed smooth function of their
  arguments). Used to refute an obligation whose terms contain symbols that z3
  only knows by axioms. Comparisons of nearly equal numbers have no value, so
  rounding never decides.
  """
  NA = ('na',)
  LIMIT = 200000

  def __init__(self, seed, sites=None, loops=None):
    self.seed, self.memo, self.keep = seed, {}, []
    self.sites = sites or {}
    self.loops = loops or {}
    self.arrays = {}
    self.count = 0

  def _num(self, *parts):
    h = _fh(self.seed, *parts)
    v = 0.1 + (h % 100003) / 100003.0 * 1.8
    return -v if (h >> 20) % 6 == 0 else v

  def _sym(self, name, sort, a):
    h = _fh(self.seed, name, a)
    if sort == I:
      if not a and name.startswith('dim_'):
        return 1 + h % 3
      return h % 7 if a or not name.startswith(('g!', 'it!')) else h % 3
    if sort == B:
      return bool((h >> 7) & 1)
    if sort == R:
      if name.startswith('rng_uniform'):
        return (h % 100003) / 100003.0
      return self._num(name, a)
    return ('k', name, a)

  def value(self, t):
    stack = [t]
    memo = self.memo
    while stack:
      x = stack[-1]
      if x.get_id() in memo:
        stack.pop()
        continue
      if z3.is_app(x):
        if x.decl().kind() == z3.Z3_OP_ITE and x.num_args():
          c = x.arg(0)
          if c.get_id() not in memo:
            stack.append(c)
            continue
          cv = memo[c.get_id()]
          if cv is True or cv is False:
            b = x.arg(1) if cv else x.arg(2)
            if b.get_id() not in memo:
              stack.append(b)
              continue
            memo[x.get_id()] = memo[b.get_id()]
            self.keep.append(x)
            stack.pop()
            continue
        todo = [c for c in x.children() if c.get_id() not in memo]
        if todo:
          stack.extend(todo)
          continue
        v = self._app(x, [memo[c.get_id()] for c in x.children()])
      else:
        v = self.NA
      memo[x.get_id()] = v
      self.keep.append(x)
      stack.pop()
      self.count += 1
      if self.count > self.LIMIT:
        raise ValueError('too large')
    return memo[t.get_id()]

  def _cmp(self, x, y):
    """-1, 0, 1 or None; exact for integers and structures."""
    if isinstance(x, (bool, tuple)) or isinstance(y, (bool, tuple)):
      return 0 if x == y else 2
    if isinstance(x, int) and isinstance(y, int):
      return (x > y) - (x < y)
    if x != x or y != y:
      return None
    if abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y)):
      return None
    return 1 if x > y else -1

  # applications with meaning
  def _dim(self, d):
    return d if isinstance(d, int) else self.value(d)

  def _array(self, a, lead, skip):
    """Values of a symbolic array; lead: values of the first indices."""
    shape = [self._dim(s) for s in a.shape[skip:]]
    if any(not isinstance(s, int) or isinstance(s, bool) or s > 40 for s in shape):
      return None
    out = []
    for p in itertools.product(*[range(s) for s in shape]):
      out.append(self.value(_z(a.at(*lead, *p))))
    return shape, out

  def _site(self, s, idx):
    import math
    nb = s.nb
    lead = idx[:nb]
    if any(not isinstance(i, int) for i in idx):
      return self.NA
    if s.name in ('sum', 'rmax', 'rmin', 'ror', 'rand', 'rprod'):
      a = s.args[0]
      r = self._array(a, lead, nb)
      if r is None or any(v is self.NA for v in r[1]):
        return self.NA
      vals = r[1]
      if s.name == 'sum':
        return sum(vals)
      if s.name == 'rprod':
        return math.prod(vals)
      if not vals:
        return self.NA
      return {'rmax': max, 'rmin': min, 'ror': any, 'rand': all}[s.name](vals)
    key = (s.name, lead, id(s))
    if key not in self.arrays:
      acc, exact = 0.0, []
      for n, a in enumerate(s.args):
        r = self._array(a, lead, nb)
        if r is None or any(v is self.NA for v in r[1]):
          acc = None
          break
        for k, v in enumerate(r[1]):
          if isinstance(v, tuple):
            exact.append((n, k, v))
          else:
            acc += (0.3 + _fh(s.name, n, k) % 1009 / 1009.0) * (0.9 + 0.3 * math.sin(3 * float(v)) + float(v))
      self.arrays[key] = (acc, tuple(exact))
    acc, exact = self.arrays[key]
    if acc is None:
      return self.NA
    h = _fh(s.name, exact, idx[nb:])
    v = math.sin(acc * (0.4 + h % 997 / 997.0) + h % 89)
    if s.out_kind == 'f':
      return 0.9 + 0.8 * v
    if s.out_kind == 'b':
      return self.NA if abs(v) < 1e-3 else v > 0
    if s.out_kind == 'i':
      f = 1000 * (v + 1)
      return self.NA if abs(f - round(f)) > 0.4999 else round(f)
    return ('k', s.name, exact, _q(acc))

  def _app(self, t, a):
    import math
    k = t.decl().kind()
    NA = self.NA
    if k == z3.Z3_OP_ITE:
      if a[0] is NA:
        return a[1] if self._cmp(a[1], a[2]) == 0 else NA
      return a[1] if a[0] else a[2]
    if k == z3.Z3_OP_AND:
      return False if any(x is False for x in a) else NA if any(x is NA for x in a) else True
    if k == z3.Z3_OP_OR:
      return True if any(x is True for x in a) else NA if any(x is NA for x in a) else False
    if k == z3.Z3_OP_IMPLIES:
      if a[0] is False or a[1] is True:
        return True
      return NA if a[0] is NA or a[1] is NA else False
    if any(x is NA for x in a):
      return NA
    try:
      if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        c = self._cmp(a[0], a[1])
        if c is None:
          # equal up to rounding: consistent with an equation, else undecided
          return True if k == z3.Z3_OP_EQ else NA
        return {z3.Z3_OP_EQ: c == 0, z3.Z3_OP_LE: c <= 0, z3.Z3_OP_LT: c < 0,
                z3.Z3_OP_GE: c in (0, 1), z3.Z3_OP_GT: c == 1}[k]
      if k == z3.Z3_OP_DISTINCT:
        cs = [self._cmp(x, y) for n, x in enumerate(a) for y in a[n + 1:]]
        return NA if None in cs else all(c != 0 for c in cs)
      d = t.decl()
      if d.eq(Sqrt) and a[0] < 0:
        return NA
      if d.eq(Log):
        return math.log(a[0]) if a[0] > 0 else NA
      if d.eq(Inv) and abs(a[0]) < 1e-6:
        return NA
      if d.eq(Pow):
        return a[0] ** a[1] if a[0] > 0 else NA
      if d.eq(Exp) and a[0] > 200:
        return NA
      if (k != z3.Z3_OP_UNINTERPRETED or d.eq(Inv) or d.eq(Sqrt) or d.eq(Exp)):
        if k == z3.Z3_OP_DT_CONSTRUCTOR or t.sort() == Key:
          return ('k', d.name(), tuple(a))
        v = _fp_app(t, a)
        return NA if isinstance(v, float) and v != v else v
    except (ZeroDivisionError, OverflowError, ValueError):
      return NA
    name = t.decl().name()
    if name in self.sites:
      return self._site(self.sites[name], tuple(a))
    if name in self.loops:
      lp, j, what = self.loops[name]
      if what == 'final':
        n = self._dim(lp.length)
        idx = a
      else:
        n, idx = a[0], a[1:]
      if not isinstance(n, int) or any(not isinstance(i, int) for i in idx):
        return NA
      for u in range(1, n):       # fills the memo from the start
        self._carry(lp, j, what, u, idx)
      return self._carry(lp, j, what, n, idx)
    return self._sym(name, t.sort(), tuple(_q(x) for x in a))

  def _carry(self, lp, j, what, t, idx):
    key = ('loop', id(lp), j, t, tuple(idx), what.endswith('key'))
    if key in self.arrays:
      return self.arrays[key]
    if t < 0 or t > 40:
      return self.NA
    src = lp.init[j] if t == 0 else lp.next[j]
    term = lp.key_of(src, *idx) if lp.is_key[j] else _z(src.at(*idx))
    if t > 0:
      term = z3.substitute(term, (lp.t, z3.IntVal(t - 1)))
    v = self.value(z3.simplify(term))
    self.arrays[key] = v
    return v


def _z(t):
  return t if z3.is_expr(t) else z3.IntVal(t)


def numeric_refutation(hyps, goal, sites=None, loops=None, tries=200, budget=4.0, need=2):
  """Interpretations which satisfy the hypotheses but not the goal."""
  t0 = time.time()
  found = None
  hits = 0
  hyps = sorted(hyps, key=lambda h: h.num_args() if z3.is_app(h) else 99)
  for n in range(tries):
    if time.time() - t0 > budget:
      break
    m = NumericModel(n, sites, loops)
    try:
      if not all(m.value(h) is True for h in hyps):
        continue
      if m.value(goal) is not False:
        continue
    except (ValueError, RecursionError):
      continue
    hits += 1
    if found is None:
      found = {}
      for t in apps([goal]):
        if t.num_args() == 0 or t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
          v = m.memo.get(t.get_id())
          if isinstance(v, (int, float)) and not is_num(t):
            found[str(t)[:120]] = v
    if hits >= need:
      return found
  return None


def has_var(t):
  """Contains a de Bruijn variable."""
  stack, seen = [t], set()
  while stack:
    t = stack.pop()
    if t.get_id() in seen:
      continue
    seen.add(t.get_id())
    if z3.is_var(t):
      return True
    if z3.is_app(t):
      stack.extend(t.children())
  return False


def theory_axioms(ts):
  """Instances of the axioms of inv, sqrt, exp, log, pow for the given terms."""
  out = []
  todo = list(ts)
  for t in apps(todo):
    if t.num_args() == 0 or has_var(t):
      continue
    d = t.decl()
    if d.eq(Inv):
      x = t.arg(0)
      out.append(z3.Implies(x != 0, z3.And(t * x == 1, t != 0)))
      out.append(z3.Implies(x > 0, t > 0))
      out.append(z3.Implies(x < 0, t < 0))
    elif d.eq(Sqrt):
      x = t.arg(0)
      out.append(z3.Implies(x >= 0, z3.And(t * t == x, t >= 0)))
      out.append(z3.Implies(x > 0, t > 0))
    elif d.eq(Exp):
      out.append(t > 0)
      x = t.arg(0)
      out.append((x <= 0) == (t <= 1))
      out.append((x >= 0) == (t >= 1))
    elif d.eq(Log):
      x = t.arg(0)
      out.append(z3.Implies(x > 0, z3.And((t <= 0) == (x <= 1),
                                          (t >= 0) == (x >= 1))))
    elif d.eq(Pow):
      x, y = t.arg(0), t.arg(1)
      out.append(z3.Implies(x > 0, t > 0))
      out.append(z3.Implies(x == 1, t == 1))
      out.append(z3.Implies(y == 0, t == 1))
      out.append(z3.Implies(y == 1, t == x))
  exps = [t for t in apps(todo, Exp) if not has_var(t)]
  for a, b in itertools.islice(itertools.combinations(exps, 2), 60):
    out.append((a.arg(0) < b.arg(0)) == (a < b))
    out.append((a.arg(0) == b.arg(0)) == (a == b))
  logs = [t for t in apps(todo, Log) if not has_var(t)]
  for a, b in itertools.islice(itertools.combinations(logs, 2), 60):
    out.append(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0),
                          (a.arg(0) < b.arg(0)) == (a < b)))
  for a in logs[:12]:
    for b in exps[:12]:
      out.append(z3.Implies(a.arg(0) >= 0, (a < b.arg(0)) == (a.arg(0) < b)))
  pows = [t for t in apps(todo, Pow) if not has_var(t)]
  for a, b in itertools.islice(itertools.combinations(pows, 2), 60):
    xa, ya, xb, yb = a.arg(0), a.arg(1), b.arg(0), b.arg(1)
    # monotone in the base for a common exponent, in the exponent for a base
    pos = z3.And(xa > 0, xb > 0, ya == yb)
    out.append(z3.Implies(z3.And(pos, ya > 0), (xa < xb) == (a < b)))
    out.append(z3.Implies(z3.And(pos, ya < 0), (xa < xb) == (a > b)))
    out.append(z3.Implies(z3.And(pos, xa == xb), a == b))
    # (x^y)^z = x^(y z)
  for a in pows:
    for b in pows:
      if a.arg(0).eq(b):
        out.append(z3.Implies(z3.And(b.arg(0) > 0, a.arg(1) * b.arg(1) == 1),
                              a == b.arg(0)))
  return out


class Result:
  """Outcome of one obligation."""

  def __init__(self, status, backend='', model=None, reason='', secs=0.0):
    self.status = status      # proved | refuted | unknown
    self.backend = backend
    self.model = model
    self.reason = reason
    self.secs = secs

  def __repr__(self):
    return f"<{self.status} {self.backend} {self.reason}>"


def _check_cvc5(assertions, timeout_ms):
  t0 = time.time()
  try:
    import cvc5
    s = z3.Solver()
    s.add(*assertions)
    text = s.to_smt2().replace('(check-sat)', '')
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    slv.setOption('tlimit-per', str(int(timeout_ms)))
    slv.setLogic('ALL')
    sm = cvc5.SymbolManager(tm) if tm is not None else cvc5.SymbolManager(slv)
    p = cvc5.InputParser(slv, sm)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
    while True:
      c = p.nextCommand()
      if c.isNull():
        break
      c.invoke(slv, sm)
    r = slv.checkSat()
    return ('unsat' if r.isUnsat() else 'sat' if r.isSat() else 'unknown')
  except Exception as e:  # the second back end is optional
    return f'error {type(e).__name__}: {str(e)[:80]}'
  finally:
    _PROVER_STATS['time_cvc5'] += time.time() - t0


def _ite_conds(t, limit=6):
  out = []
  seen = set()
  for a in apps([t]):
    if a.decl().kind() == z3.Z3_OP_ITE:
      c = a.arg(0)
      if c.get_id() not in seen and not has_var(c):
        seen.add(c.get_id())
        out.append(c)
  return out if len(out) <= limit else None


def eq_by_normal_form(a, b, depth=0):
  """a == b by rewriting; case split over the conditions of if-then-else."""
  na, nb = norm(a), norm(b)
  if na.eq(nb):
    return True
  if z3.is_bool(na):
    return False
  if z3.is_arith(na):
    d = norm(na - nb)
    if is_num(d):
      return frac(d) == 0
    cs = _ite_conds(d)
    if cs and depth < 6:
      # innermost conditions first
      c = cs[-1]
      for val in (z3.BoolVal(True), z3.BoolVal(False)):
        x = z3.substitute(na, (c, val))
        y = z3.substitute(nb, (c, val))
        if not eq_by_normal_form(z3.simplify(x), z3.simplify(y), depth + 1):
          return False
      return True
  return False


def resolve_conditions(hyps, goal, limit=8):
  """Replaces the conditions of if-then-else that the hypotheses decide."""
  conds = []
  for a in apps([goal]):
    if a.decl().kind() == z3.Z3_OP_ITE and not has_var(a.arg(0)):
      if not any(a.arg(0).eq(c) for c in conds):
        conds.append(a.arg(0))
  if not conds or len(conds) > limit:
    return goal
  s = z3.Solver()
  s.set('timeout', 150)
  s.add(*[h for h in hyps if not z3.is_quantifier(h)])
  sub = []
  for c in conds:
    for val in (True, False):
      s.push()
      s.add(z3.Not(c) if val else c)
      r = s.check()
      s.pop()
      if r == z3.unsat:
        sub.append((c, z3.BoolVal(val)))
        break
  return z3.simplify(z3.substitute(goal, *sub)) if sub else goal


def prove(hyps, goal, extra=None, timeout=8000, use_cvc5=True, nf=True):
  """Is goal a consequence of the hypotheses (and the theory axioms)?"""
  t0 = time.time()
  _PROVER_STATS['queries'] += 1
  goal = z3.simplify(goal)
  if z3.is_true(goal):
    _PROVER_STATS['z3-simplify'] += 1
    return Result('proved', 'z3-simplify', secs=time.time() - t0)
  if nf and z3.is_eq(goal) and not z3.is_bool(goal.arg(0)):
    if may_equal(goal.arg(0), goal.arg(1)) and eq_by_normal_form(goal.arg(0), goal.arg(1)):
      _PROVER_STATS['z3-simplify'] += 1
      return Result('proved', 'z3-simplify', secs=time.time() - t0)
  ax = list(hyps)
  if nf:
    g2 = resolve_conditions(ax, goal)
    if not g2.eq(goal):
      goal = g2
      if z3.is_true(goal) or (z3.is_eq(goal) and not z3.is_bool(goal.arg(0))
                              and eq_by_normal_form(goal.arg(0), goal.arg(1))):
        _PROVER_STATS['z3'] += 1
        return Result('proved', 'z3', secs=time.time() - t0)
  if extra is not None:
    ax += list(extra([goal] + ax))
  ax += theory_axioms([goal] + ax)
  s = z3.Solver()
  s.set('timeout', int(timeout))
  s.set('random_seed', 7)
  s.add(*ax)
  s.add(z3.Not(goal))
  t1 = time.time()
  r = s.check()
  _PROVER_STATS['time_z3'] += time.time() - t1
  if r == z3.unsat:
    _PROVER_STATS['z3'] += 1
    return Result('proved', 'z3', secs=time.time() - t0)
  if r == z3.sat:
    _PROVER_STATS['refuted'] += 1
    return Result('refuted', 'z3', model=s.model(), secs=time.time() - t0)
  # A first attempt with normalised terms
  reason = s.reason_unknown()
  if use_cvc5:
    c = _check_cvc5(ax + [z3.Not(goal)], timeout)
    if c == 'unsat':
      _PROVER_STATS['cvc5'] += 1
      return Result('proved', 'cvc5', secs=time.time() - t0)
    reason += f'; cvc5: {c}'
  _PROVER_STATS['unknown'] += 1
  return Result('unknown', '', reason=reason, secs=time.time() - t0)


def satisfiable(hyps, timeout=5000):
  """Vacuity guard: the hypotheses have a model (or at least no refutation)."""
  s = z3.Solver()
  s.set('timeout', timeout)
  s.add(*hyps)
  s.add(*theory_axioms(list(hyps)))
  return s.check() != z3.unsat
