"""Free algebra of component calls: wiring of compositions.

The functions of the composed modules are replaced by their weakest contract:
an uninterpreted function of *all* its arguments, bound by the signature of the
real function with its defaults applied. The composing code runs under CPython
with opaque settings, so an equality of terms holds for all values of the
settings. A comparison of a setting with a number splits the execution: each
outcome is a path with the comparison as its condition, and the equality is an
obligation of each path. Every other inspection is outside of the engine and
leaves the obligation undecided.
"""
import inspect
import math
import types


class Unsupported(Exception):
  pass


class Tok:
  """A term of the free algebra."""

  def __init__(self, op, args=()):
    self.__dict__['op'] = op
    self.__dict__['args'] = tuple(args)

  def __call__(self, *args, **kwargs):
    return Tok('call', (self,) + tuple(args) + tuple(sorted(
      ((k, v) for k, v in kwargs.items()), key=lambda kv: kv[0])))

  def __getitem__(self, i):
    if not isinstance(i, int):
      raise Unsupported('index')
    return Tok(f'item {i}', (self,))

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return Tok(f'attribute {name}', (self,))

  def __iter__(self):
    if self.op in TRIPLES:
      return iter([self[0], self[1], self[2]])
    raise Unsupported(f'iteration over {self.op}')

  def _no(self, *a, **k):
    LOOKED.append((self.op, a[0] if a and isinstance(a[0], (int, float)) else None))
    raise Unsupported('inspection of an opaque value')
  def _compare(op):
    def f(self, other):
      if PATH.of is None or self.op not in PATH.numbers or isinstance(other, bool) or \
         not isinstance(other, (int, float, Tok)):
        self._no(other)
      if isinstance(other, Tok):
        if other.op not in PATH.numbers:
          self._no()
        if other.op == self.op:
          return op in ('<=', '>=', '==')
        LOOKED.append((self.op, other.op))
        return PATH.decide(f'{self.op} - {other.op}', op, 0.0)
      LOOKED.append((self.op, other))
      return PATH.decide(self.op, op, float(other))
    return f
  __lt__, __le__, __gt__, __ge__ = map(_compare, ('<', '<=', '>', '>='))
  __eq__, __ne__ = map(_compare, ('==', '!='))

  def __bool__(self):
    return self != 0

  __len__ = _no
  __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
  __truediv__ = __rtruediv__ = __neg__ = __float__ = __int__ = _no
  __hash__ = object.__hash__


class Path:
  """Outcomes of the comparisons of one execution: bounds of the settings."""

  def __init__(self):
    self.of, self.numbers = None, ()

  def start(self, choices):
    self.of, self.asked, self.bounds, self.facts = list(choices), [], {}, []

  def decide(self, var, op, c):
    can = [v for v in (True, False) if self._after(var, op, c, v) is not None]
    if len(can) == 1:
      self.bounds[var] = self._after(var, op, c, can[0])
      return can[0]
    n = len(self.asked)
    v = self.of[n] if n < len(self.of) else True
    self.asked.append(v)
    if n > 64:
      raise Unsupported('number of comparisons')
    self.bounds[var] = self._after(var, op, c, v)
    self.facts.append(f'{"" if v else "not "}{var.partition(" ")[2]} {op} {c:g}')
    return v

  def _after(self, var, op, c, v):
    """Bounds (lower, strict, upper, strict, excluded), None if infeasible."""
    lo, ls, hi, hs, ne = self.bounds.get(var, (-math.inf, False, math.inf, False, frozenset()))
    if not v:
      op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
    if op in ('<', '<=', '=='):
      if c < hi or (c == hi and op == '<'):
        hi, hs = c, op == '<'
    if op in ('>', '>=', '=='):
      if c > lo or (c == lo and op == '>'):
        lo, ls = c, op == '>'
    if op == '==' and not (lo == c == hi):
      return None
    if op == '!=':
      ne = ne | {c}
    if lo > hi or (lo == hi and (ls or hs or lo in ne)):
      return None
    return lo, ls, hi, hs, ne

  def value(self, var):
    if self.of is None or var not in self.bounds:
      return None
    lo, _, hi, _, _ = self.bounds[var]
    return lo if lo == hi else None


PATH = Path()


def paths(fn, numbers=()):
  """(condition, result) of each path of fn()."""
  todo = [[]]
  PATH.numbers = frozenset(numbers)
  n = 0
  try:
    while todo:
      n += 1
      if n > 512:
        raise Unsupported('number of paths')
      pre = todo.pop()
      PATH.start(pre)
      out = fn()
      todo += [PATH.asked[:k] + [False] for k in range(len(pre), len(PATH.asked))]
      yield ' and '.join(PATH.facts), out
  finally:
    PATH.of, PATH.numbers = None, ()


# components which are triples of functions
TRIPLES = {f'jax_sgmc.{m}.{f}' for m, fs in {
  'solver': ('sgmc', 'amagold', 'sggmc', 'obabo', 'parallel_tempering'),
  'integrator': ('langevin_diffusion', 'reversible_leapfrog', 'obabo', 'friction_leapfrog'),
  'adaption': ('rms_prop', 'mass_matrix', 'fisher_information'),
  'data': ('random_reference_data', 'full_reference_data'),
  'io': ('save', 'no_save'),
  'scheduler': ('init_scheduler',)}.items() for f in fs}
# opaque values which the code inspects and the number they meet: the code might
# treat values of this setting differently (hints for the search)
LOOKED = []


def canon(x):
  """Canonical form of a term; equal forms denote equal results."""
  if isinstance(x, Tok):
    if PATH.value(x.op) is not None:
      return ('number', PATH.value(x.op))
    return (x.op,) + tuple(canon(a) for a in x.args)
  if x is None or isinstance(x, (bool, str)):
    return x
  if isinstance(x, (int, float)):
    return ('number', float(x))
  if isinstance(x, dict):
    return ('dict',) + tuple((k, canon(x[k])) for k in sorted(x))
  if isinstance(x, (list, map)):
    return ('list',) + tuple(canon(a) for a in x)
  if isinstance(x, tuple):
    return ('tuple',) + tuple(canon(a) for a in x)
  if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, type)):
    return ('function', x.__module__, x.__qualname__, id(x))
  raise Unsupported(f'value {type(x).__name__}')


def stub(fn, name):
  sig = inspect.signature(fn)

  def call(*args, **kwargs):
    b = sig.bind(*args, **kwargs)
    b.apply_defaults()
    items = []
    for k, v in b.arguments.items():
      if sig.parameters[k].kind == inspect.Parameter.VAR_KEYWORD:
        v = dict(v)
      items.append((k, v))
    return Tok(name, items)
  call.real = fn
  return call


class Module:
  """A module whose functions are known by contract only."""

  def __init__(self, mod):
    self._mod = mod

  def __getattr__(self, name):
    v = getattr(self._mod, name)
    return wrap(v, f'{self._mod.__name__}.{name}')


def wrap(v, name):
  if isinstance(v, types.ModuleType):
    return Module(v) if v.__name__.startswith('jax_sgmc') else v
  if callable(v) and getattr(v, '__module__', '').startswith('jax_sgmc'):
    return stub(v, f'{v.__module__}.{getattr(v, "__qualname__", name)}')
  return v


class contracts:
  """Context: the globals of `mod` refer to contracts of other modules."""

  def __init__(self, mod):
    self.mod = mod

  def __enter__(self):
    self.saved = dict(self.mod.__dict__)
    for k, v in self.saved.items():
      if k.startswith('__'):
        continue
      if isinstance(v, types.ModuleType) or (
          callable(v) and getattr(v, '__module__', '').startswith('jax_sgmc')
          and v.__module__ != self.mod.__name__):
        self.mod.__dict__[k] = wrap(v, k)
    return self

  def __exit__(self, *a):
    for k, v in self.saved.items():
      self.mod.__dict__[k] = v


def show(x, depth=0):
  s = repr(x)
  return s if len(s) < 300 else s[:300] + '...'


def diff(a, b, path=''):
  """First difference of two canonical terms."""
  if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1]:
    for n, (x, y) in enumerate(zip(a, b)):
      if x != y:
        return diff(x, y, f'{path}/{a[0] if isinstance(a[0], str) else n}')
  return f'{path}: {show(a)} is not {show(b)}'
