"""C07: pytrees as dictionaries."""
import collections
import contextlib
import itertools
import types

import jax
import numpy as onp
import z3
from jax import tree_util

from vf import env, host as H, literals, terms as T
from vf.check import Check, Unit, Failure
from vf.props import dcommon as D

IO = 'jax_sgmc/io.py: '
n, i, j, w = z3.Ints('n i j w')


class Sub:
  """Arbitrary subtree."""

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return f'Sub({self.name})'


# --------------------------------------------------------- keys with numbers
class Text:
  """Registry of the numbers formatted into texts."""
  terms = {}


def fmt(self, spec=''):
  if spec not in ('', 'd'):
    raise H.Unsupported('format of a number')
  k = f'⟦{len(Text.terms)}⟧'
  Text.terms[k] = H._int(self.t if isinstance(self, H.SymInt) else self.term())
  return k


@contextlib.contextmanager
def formatting():
  """f-strings with symbolic numbers."""
  classes = (H.SymInt, H.HArr)
  old = [(c, nm, c.__dict__.get(nm)) for c in classes for nm in ('__format__', '__str__')]
  for c, nm, _ in old:
    setattr(c, nm, fmt)
  try:
    yield
  finally:
    for c, nm, f in old:
      if f is None:
        delattr(c, nm)
      else:
        setattr(c, nm, f)


def text(s):
  """z3 string of a text with numbers."""
  out, rest = [], s
  while rest:
    k = rest.find('⟦')
    if k < 0:
      out.append(z3.StringVal(rest))
      break
    if k:
      out.append(z3.StringVal(rest[:k]))
    e = rest.index('⟧') + 1
    out.append(z3.IntToStr(Text.terms[rest[k:e]]))
    rest = rest[e:]
  return z3.Concat(*out) if len(out) > 1 else out[0]


def at_index(s, old, new):
  return z3.substitute(text(s), (old, new))


class Children:
  """n children; iterating gives the arbitrary child i (loop rule: what happens for i
  happens for every child in turn)."""

  def __len__(self):
    raise H.Unsupported('number of children')

  def __iter__(self):
    yield Child(i)

  def __getitem__(self, k):
    if not isinstance(k, (H.SymInt, int)):
      raise H.Unsupported('children')
    return Child(H._int(k))


class FakeList(Children, list):
  __len__, __iter__, __getitem__ = Children.__len__, Children.__iter__, Children.__getitem__


class FakeTuple(Children, tuple):
  __len__, __iter__, __getitem__ = Children.__len__, Children.__iter__, Children.__getitem__


class Child:
  def __init__(self, k):
    self.k = k


class Range:
  """The numbers below n: the arbitrary one."""

  def __iter__(self):
    yield H.mk(i)


def _len(x):
  return H.mk(n) if isinstance(x, Children) else H.hlen(x)


def _enumerate(x, start=0):
  if isinstance(x, Children):
    return iter([(H.mk(H.simp(i + start)), Child(i))])
  return enumerate(x, start)


def _range(*a):
  if len(a) == 1 and isinstance(a[0], H.SymInt):
    return Range()
  return range(*a)


def _zip(*a):
  if any(isinstance(x, Children) for x in a):
    return zip(*[list(iter(x)) for x in a])
  return zip(*a)


def shims(**more):
  from jax_sgmc import io
  return H.patched(io, **{**dict(len=_len, enumerate=_enumerate, range=_range, zip=_zip), **more})


def prove_rules(obs):
  """Rules of the nodes: one pair per child, keys are different."""
  from jax_sgmc import io
  for name, node in (('list', FakeList()), ('tuple', FakeTuple())):
    def run():
      with formatting(), shims(tree_util=types.SimpleNamespace(tree_leaves=lambda x: [1])):
        pairs = list(io._dictionize(node))
      return [(text(k), v) for k, v in pairs]
    ps = D.Paths(obs, name, run, [n >= 1, i >= 0, i < n], (), [n], IO + f'_{name}_to_dict')
    ps.safe()
    ps.ensure('one pair for every child', lambda p: z3.And(z3.BoolVal(
      len(p.result) == 1), p.result[0][1].k == i))

    def distinct(p):
      """Different children have different keys: decimal texts of numbers are injective."""
      key = p.result[0][0]
      other = z3.substitute(key, (i, w))
      ints = [a for a in T.apps([key]) if a.decl().kind() == z3.Z3_OP_INT_TO_STR]
      val = [z3.StrToInt(a) == a.arg(0) for a in ints] + [
        z3.StrToInt(z3.substitute(a, (i, w))) == z3.substitute(a.arg(0), (i, w)) for a in ints]
      return z3.Implies(z3.And(w >= 0, w < n, w != i, *val), key != other)
    ps.ensure('keys of the children are different', distinct)

  def default():
    with formatting(), shims(tree_util=types.SimpleNamespace(tree_leaves=lambda x: FakeList())):
      return [(text(k), v) for k, v in io._default_dictionize(Sub('node'))]
  ps = D.Paths(obs, 'other nodes', default, [n >= 1, i >= 0, i < n], (), [n],
               IO + '_default_dictionize')
  ps.safe()
  ps.ensure('one pair for every leaf', lambda p: z3.And(
    z3.BoolVal(len(p.result) == 1), p.result[0][1].k == i))

  def distinct2(p):
    key = p.result[0][0]
    ints = [a for a in T.apps([key]) if a.decl().kind() == z3.Z3_OP_INT_TO_STR]
    val = [z3.StrToInt(a) == a.arg(0) for a in ints] + [
      z3.StrToInt(z3.substitute(a, (i, w))) == z3.substitute(a.arg(0), (i, w)) for a in ints]
    return z3.Implies(z3.And(w >= 0, w < n, w != i, *val), key != z3.substitute(key, (i, w)))
  ps.ensure('keys of the leaves are different', distinct2)


Pair = collections.namedtuple('Pair', ['second', 'first'])
Names = collections.namedtuple('Names', ['value', 'value_', 'Value', 'v__', 'V1', 'count'])


@tree_util.register_pytree_node_class
class Node:
  """Registered node type without a rule."""

  def __init__(self, *children):
    self.children = list(children)

  def tree_flatten(self):
    return self.children, len(self.children)

  @classmethod
  def tree_unflatten(cls, _, children):
    return cls(*children)

  def __eq__(self, o):
    return type(o) is Node and same(self.children, o.children)


def prove_named(obs):
  """Dictionaries and named tuples with arbitrary subtrees, dispatch of the rules."""
  from jax_sgmc import io
  a, b, c = Sub('a'), Sub('b'), Sub('c')
  cases = {
    'dict': (dict(z=a, b=b), [('z', a), ('b', b)]),
    'dict, numbers': ({3: a, 1: b, 20: c}, [(3, a), (1, b), (20, c)]),
    'dict, tuples': ({(3, 'b'): a, (1, 'c'): b}, [((3, 'b'), a), ((1, 'c'), b)]),
    'ordered dict': (collections.OrderedDict([('z', a), ('b', b)]), [('z', a), ('b', b)]),
    'named tuple': (Pair(a, b), [('second', a), ('first', b)]),
    'named tuple, similar names': (Names(a, b, c, a, b, c), [
      ('value', a), ('value_', b), ('Value', c), ('v__', a), ('V1', b), ('count', c)]),
    'dict, similar names': (dict(value=a, value_=b, Value=c, _value=a), [
      ('value', a), ('value_', b), ('Value', c), ('_value', a)]),
    'list': ([a, b, c], [None] * 3), 'tuple': ((a, b), [None] * 2),
    'no leaves': ([None, {}, ()], []), 'nothing': (None, [])}
  for name, (node, want) in cases.items():
    def run():
      return list(io._dictionize(node))
    ps = D.Paths(obs, name, run, (), (), (), IO + '_dictionize')
    ps.safe()

    def pairs(p):
      got = p.result
      if want and want[0] is None:
        return z3.BoolVal([v for _, v in got] == list(node)
                          and len({k for k, _ in got}) == len(want))
      return z3.BoolVal(sorted(map(repr, got)) == sorted(map(repr, want)))
    ps.ensure('pairs of the children', pairs)


def prove_convert(obs):
  """pytree_to_dict: induction step over the tree."""
  from jax_sgmc import io
  for width in range(4):
    children = [Sub(f'c{k}') for k in range(width)]
    keys = [f'k{k}' for k in range(width)]

    def run():
      node = Node(*children) if width else []
      real, calls = io.pytree_to_dict, []

      def contract(sub):
        calls.append(sub)
        return ('dict of', sub)
      with H.patched(io, pytree_to_dict=contract,
                     _dictionize=lambda t: zip(keys, children) if t is node else None):
        return real(node), calls
    ps = D.Paths(obs, f'node with {width} children', run, (), (), (), IO + 'pytree_to_dict')
    ps.safe()
    ps.ensure('children at their keys', lambda p: z3.BoolVal(
      p.result[0] == {k: ('dict of', c) for k, c in zip(keys, children)}))

  def leaf():
    x = Sub('leaf')
    return io.pytree_to_dict(x), x
  ps = D.Paths(obs, 'leaf', leaf, (), (), (), IO + 'pytree_to_dict')
  ps.safe()
  ps.ensure('is unchanged', lambda p: z3.BoolVal(p.result[0] is p.result[1]))


def nested(fn, test):
  """Function defined inside of fn, extracted from its code object."""
  for c in fn.__code__.co_consts:
    if isinstance(c, types.CodeType) and test(c):
      return c
  raise H.Unsupported('inner function')


class Prefix(list):
  """Path of any length: 'p' stands for any number of keys."""

  def __getitem__(self, k):
    raise H.Unsupported('part of a path')

  def __len__(self):
    raise TypeError('length of a path')

  __reversed__ = pop = __getitem__


def prove_keys(obs):
  """Inner function of pytree_dict_keys: induction step over the dictionary."""
  from jax_sgmc import io
  code = nested(io.pytree_dict_keys, lambda c: c.co_name in c.co_freevars and c.co_argcount == 2)
  store = [v for v in code.co_freevars if v != code.co_name]
  if len(store) != 1:
    raise H.Unsupported('state of the inner function')

  class Keys(dict):
    pass
  for name, node in (('dictionary', {'b': Sub('x'), 'a': Sub('y'), 3: Sub('z')}),
                     ('empty dictionary', {}), ('leaf', 7), ('nothing', None)):
    def run():
      keys, calls = Keys(), []
      cells = {code.co_name: lambda *a: calls.append((a[0], list(a[1]))), store[0]: keys}
      f = types.FunctionType(code, io.__dict__, code.co_name, None, tuple(
        types.CellType(cells[v]) for v in code.co_freevars))
      path = Prefix(['p', 'q'])
      f(node, path)
      return keys, calls, path
    ps = D.Paths(obs, name, run, (), (), (), IO + 'pytree_dict_keys')
    ps.safe()

    def step(p):
      keys, calls, path = p.result
      if path != ['p', 'q']:
        return z3.BoolVal(False)
      if isinstance(node, dict):
        want = [(v, ['p', 'q', k]) for k, v in node.items()]
        return z3.BoolVal(not keys and sorted(map(repr, calls)) == sorted(map(repr, want)))
      if node is None:
        return z3.BoolVal(not keys and not calls)
      return z3.BoolVal({k: list(v) for k, v in keys.items()} == {7: ['p', 'q']} and not calls)
    ps.ensure('keys of the subtrees are the path and their key', step)


def prove_restore(obs):
  """dict_to_pytree with the contract of pytree_dict_keys: leaves from their paths."""
  from jax_sgmc import io
  for depth in range(9):
    def run():
      paths = [tuple(f'k{d}' for d in range(depth - 1)) + (('last',) if depth else ()),
               ('other',)][:1 if depth == 0 else 2]
      leaves = [Sub('deep'), Sub('other')][:len(paths)]
      tree = leaves[0]
      for k in reversed(paths[0]):
        tree = {'junk': Sub('junk'), k: tree}
      if depth:
        tree = {**tree, 'other': leaves[1]}
      before = repr(tree)
      target = Sub('target') if depth == 0 else Node(Sub('t'), Sub('u'))
      with H.patched(io, pytree_dict_keys=lambda t: paths if t is target else None):
        res = io.dict_to_pytree(tree, target)
      return res, leaves, before == repr(tree)
    ps = D.Paths(obs, f'depth {depth}', run, (), (), (), IO + 'dict_to_pytree')
    ps.safe()
    ps.ensure('every leaf comes from its path', lambda p: z3.BoolVal(
      p.result[2] and (p.result[0] is p.result[1][0] if depth == 0 else
                       type(p.result[0]) is Node and p.result[0].children == p.result[1])))


# ------------------------------------------------------------- running code
def same(a, b):
  """Equal structure, types and leaves."""
  la, ta = tree_util.tree_flatten(a)
  lb, tb = tree_util.tree_flatten(b)
  return ta == tb and len(la) == len(lb) and all(x is y or type(x) is type(y) and onp.shape(
    x) == onp.shape(y) and bool(onp.all(x == y)) for x, y in zip(la, lb))


def shapes(size):
  """All trees with the given number of nodes: ('kind', children)."""
  if size == 1:
    yield 'leaf', ()
    yield 'none', ()
  kinds = ('dict', 'list', 'tuple', 'node', 'ordered')
  for parts in splits(size - 1):
    for ch in itertools.product(*[list(shapes(s)) for s in parts]):
      for k in kinds:
        yield k, ch
      if len(ch) == 2:
        yield 'named', ch


def splits(total, most=3):
  if total == 0:
    yield ()
    return
  if most:
    for first in range(1, total + 1):
      for rest in splits(total - first, most - 1):
        yield (first,) + rest


def build(shape, counter):
  kind, ch = shape
  if kind == 'leaf':
    k = next(counter)
    return onp.arange(k % 3 + 1) + 10. * k if k % 2 else onp.float32(k + 0.5)
  if kind == 'none':
    return None
  names = ('z', 'a', 'm1', 'm10', 'm1_', 'M1')
  ch = [build(c, counter) for c in ch]
  if kind == 'dict':
    return {(names[k % 6] if k < 6 else f'x{k}'): c for k, c in enumerate(ch)}
  if kind == 'ordered':
    return collections.OrderedDict((names[k % 6] if k < 6 else f'x{k}', c)
                                   for k, c in enumerate(ch))
  return {'list': list, 'tuple': tuple, 'node': lambda c: Node(*c),
          'named': lambda c: (Pair if len(c) == 2 else Names)(*c)}[kind](ch)


def no_containers(d):
  return not isinstance(d, (list, tuple, Node)) and (
    not isinstance(d, dict) or all(no_containers(v) for v in d.values()))


def named(tree, d, case):
  """Entries keep their names (nodes without leaves may be left out)."""
  items = None
  if isinstance(tree, dict):
    items = tree.items()
  elif hasattr(tree, '_fields'):
    items = tree._asdict().items()
  for k, v in items or ():
    if not tree_util.tree_leaves(v):
      continue
    if k not in d:
      raise Failure(f'entry {k} is missing in {d}', **case)
    if not isinstance(v, (dict, list, tuple, Node)) and d[k] is not v:
      raise Failure(f'entry {k} is {d[k]} instead of {v}', **case)
    named(v, d[k], case)


def check_tree(tree, case):
  from jax_sgmc import io
  leaves = tree_util.tree_leaves(tree)
  d = io.pytree_to_dict(tree)
  keys = io.pytree_dict_keys(tree)
  if not no_containers(d):
    raise Failure(f'not a dictionary: {d}', **case)
  named(tree, d, case)
  if len(keys) != len(leaves) or len(set(keys)) != len(keys):
    raise Failure(f'key paths {keys}', **case)
  for path, x in zip(keys, leaves):
    v = d
    try:
      for k in path:
        v = v[k]
    except (KeyError, TypeError, IndexError):
      raise Failure(f'{path} is not in the dictionary {d}', **case)
    if v is not x:
      raise Failure(f'{path} addresses {v} instead of {x}', **case)
  target = tree_util.tree_map(onp.zeros_like, tree)
  for t in (tree, target):
    back = io.dict_to_pytree(d, t)
    if not same(back, tree):
      raise Failure(f'restored {back}', **case)
  if len(tree_util.tree_leaves(d)) != len(leaves):
    raise Failure(f'leaves lost: {d}', **case)


def search(se):
  done = 0
  for size in range(1, 5 if not env.THOROUGH else 6):
    for shape in shapes(size):
      tree = build(shape, itertools.count())
      case = dict(tree=repr(tree)[:300])
      se.now = case
      check_tree(tree, case)
      done += 1
      if done % 40 == 0:
        se.count(case)
  for kind in ('dict', 'list', 'tuple', 'node', 'ordered'):
    for width in (9, 10, 11, 23, 101, *[v for v in literals.sizes()[:8] if 0 < v <= 400]):
      for outer in ('list', 'dict'):
        tree = build((outer, ((kind, (('leaf', ()),) * width), ('leaf', ()))), itertools.count())
        case = dict(kind=kind, width=width)
        se.now = case
        check_tree(tree, case)
        se.count(case)

  def rnd(depth):
    r = se.rng.random()
    if depth == 0 or r < 0.25:
      return ('leaf', ()) if r < 0.2 else ('none', ())
    kind = se.rng.choice(('dict', 'list', 'tuple', 'node', 'ordered', 'named'))
    k = se.rng.choice((2, 6)) if kind == 'named' else se.rng.randrange(0, 13 if depth < 3 else 4)
    return kind, tuple(rnd(depth - 1) for _ in range(k))
  for depth in (*range(5, 16), *[v for v in literals.sizes()[:8] if 15 < v <= 60]):
    tree = ('leaf', ())
    for d in range(depth):
      tree = (('dict', 'list', 'tuple', 'node', 'ordered')[(d * depth) % 5], (
        tree, ('leaf', ())))
    tree = build(tree, itertools.count())
    case = dict(depth=depth)
    se.now = case
    check_tree(tree, case)
    se.count(case)
  for k in itertools.count():
    if not se.more() and k >= 60:
      break
    tree = build(rnd(2 + k % 4), itertools.count())
    case = dict(tree=repr(tree)[:300])
    se.now = case
    check_tree(tree, case)
    if k % 10 == 0:
      se.count(case)


def search_rules(se):
  """New rules take part, a second rule for a type is rejected."""
  from jax_sgmc import io

  @tree_util.register_pytree_node_class
  class Special(Node):
    @classmethod
    def tree_unflatten(cls, _, children):
      return cls(*children)
  old = dict(io._dictionize_rules)
  try:
    io.register_dictionize_rule(Special)(
      lambda s: ((f'special{k}', c) for k, c in enumerate(s.children)))
    tree = [Special(onp.ones(2), {'a': onp.zeros(3), 'b': Special(onp.ones(1))}), onp.ones(4)]
    case = dict(tree='node with a rule')
    se.now = case
    check_tree(tree, case)
    if not any(isinstance(v, dict) and 'special1' in v
               for v in io.pytree_to_dict(tree).values()):
      raise Failure('rule is not used', **case)
    try:
      io.register_dictionize_rule(Special)(lambda s: ())
    except AssertionError:
      pass
    else:
      raise Failure('a second rule for a type was accepted', **case)
    se.count(case)
  finally:
    io._dictionize_rules.clear()
    io._dictionize_rules.update(old)


def check():
  return Check(
    'C07', 'Pytrees as dictionaries', units=[
      Unit('rules of lists, tuples and other nodes', [
        IO + '_list_to_dict', IO + '_namedtuple_to_dict', IO + '_default_dictionize'],
           prove_rules, search, soft=True),
      Unit('rules of dictionaries and named tuples', [
        IO + '_dictionize', IO + '_dict_to_dict', IO + '_namedtuple_to_dict'], prove_named,
           search_rules, soft=True),
      Unit('conversion', IO + 'pytree_to_dict', prove_convert, soft=True),
      Unit('key paths', IO + 'pytree_dict_keys', prove_keys, soft=True),
      Unit('restoration', IO + 'dict_to_pytree', prove_restore, soft=True,
           bounded='key paths up to depth 8')],
    assumptions=['jax.tree_util flattens and unflattens trees of the registered types '
                 'consistently', 'the recursion ends (finite trees)',
                 'induction over the tree composes the steps'],
    note='Lists, tuples and nodes of any width; trees of any depth by induction (recursive '
         'calls enter by contract); dictionaries and named tuples up to three entries '
         'symbolically; all trees up to four nodes and wide ones on the running code.')
