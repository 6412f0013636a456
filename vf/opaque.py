"""Opaque callees.

A callee that is known only by its contract is represented by the JAX primitive
``opaque``: a total function of its arguments about which nothing is known but
that equal arguments give equal results.  The primitive can be traced,
differentiated (the derivative is again opaque), vmapped and - to replay a
counterexample on the real code - evaluated with a deterministic function.
"""
import zlib

from vf import env  # pylint: disable=unused-import
import jax
import jax.numpy as jnp
import numpy as onp
from jax import core, tree_util
from jax.interpreters import ad, batching, mlir

try:
  from jax.extend.core import Primitive  # type: ignore
except ImportError:
  from jax.core import Primitive

opaque_p = Primitive('opaque')
opaque_p.multiple_results = True


def _abstract(*avals, name, outs, nb):
  lead = avals[0].shape[:nb] if avals else ()
  return [core.ShapedArray(tuple(lead) + tuple(s), jnp.dtype(d))
          for s, d in outs]


opaque_p.def_abstract_eval(_abstract)


def _h(*parts):
  return (zlib.crc32(repr(parts).encode()) % 100003) / 100003.0


def _concrete_one(args, name, outs):
  acc = 0.0
  for n, a in enumerate(args):
    a = jnp.asarray(a)
    if jnp.issubdtype(a.dtype, jnp.floating):
      v = a
    else:
      v = a.astype(jnp.float32) % 97.0
    size = int(onp.prod(a.shape)) if a.shape else 1
    w = onp.array([0.3 + _h(name, 'w', n, k) for k in range(size)],
                  dtype=onp.float32).reshape(a.shape)
    acc = acc + jnp.sum(w * jnp.tanh(v * 0.7) + 0.1 * w * v)
  res = []
  for o, (s, d) in enumerate(outs):
    size = int(onp.prod(s)) if len(s) else 1
    c = onp.array([_h(name, 'c', o, k) for k in range(size)],
                  dtype=onp.float32).reshape(s)
    f = onp.array([0.5 + _h(name, 'f', o, k) for k in range(size)],
                  dtype=onp.float32).reshape(s)
    v = jnp.sin(f * acc + 3.0 * c) + 0.3 * c
    if jnp.issubdtype(jnp.dtype(d), jnp.floating):
      res.append(v.astype(d))
    elif jnp.dtype(d) == jnp.bool_:
      res.append(v > 0)
    else:
      res.append(jnp.floor(jnp.abs(v) * 1000).astype(d))
  return res


def _impl(*args, name, outs, nb):
  fn = lambda *a: _concrete_one(a, name, outs)
  for _ in range(nb):
    fn = jax.vmap(fn)
  return fn(*args)


opaque_p.def_impl(_impl)
mlir.register_lowering(opaque_p, mlir.lower_fun(_impl, multiple_results=True))


def _jvp(primals, tangents, *, name, outs, nb):
  out = opaque_p.bind(*primals, name=name, outs=outs, nb=nb)
  tans = []
  for o, (s, d) in enumerate(outs):
    if not jnp.issubdtype(jnp.dtype(d), jnp.floating):
      tans.append(ad.Zero.from_value(out[o]))
      continue
    total = None
    for n, (p, t) in enumerate(zip(primals, tangents)):
      if type(t) is ad.Zero or not jnp.issubdtype(p.dtype, jnp.floating):
        continue
      ashape = tuple(p.shape[nb:])
      g, = opaque_p.bind(*primals, name=f"{name}.d{o}.{n}",
                         outs=((tuple(s) + ashape, str(p.dtype)),), nb=nb)
      lead = tuple(p.shape[:nb])
      tt = jnp.reshape(t, lead + (1,) * len(s) + ashape) if len(s) else t
      prod = g * tt
      ax = tuple(range(nb + len(s), nb + len(s) + len(ashape)))
      term = jnp.sum(prod, axis=ax) if ax else prod
      total = term if total is None else total + term
    tans.append(ad.Zero.from_value(out[o]) if total is None else total)
  return out, tans


ad.primitive_jvps[opaque_p] = _jvp


def _batch(args, dims, *, name, outs, nb):
  size = next(a.shape[d] for a, d in zip(args, dims)
              if d is not batching.not_mapped)
  new = []
  for a, d in zip(args, dims):
    if d is batching.not_mapped:
      a = jnp.broadcast_to(a, (size,) + tuple(a.shape))
    else:
      a = batching.moveaxis(a, d, 0)
    new.append(a)
  out = opaque_p.bind(*new, name=name, outs=outs, nb=nb + 1)
  return out, [0] * len(out)


batching.primitive_batchers[opaque_p] = _batch


def call(name, out_struct, *args):
  """Applies the opaque function ``name``; out_struct is a tree of shapes."""
  leaves = [jnp.asarray(l) for l in tree_util.tree_leaves(args)]
  outs, treedef = tree_util.tree_flatten(
    out_struct, is_leaf=lambda x: isinstance(x, jax.ShapeDtypeStruct))
  spec = tuple((tuple(o.shape), str(jnp.dtype(o.dtype))) for o in outs)
  # one primitive per output: each output is its own function of the arguments
  res = []
  for n, s in enumerate(spec):
    nm = name if len(spec) == 1 else f"{name}#{n}"
    res.append(opaque_p.bind(*leaves, name=nm, outs=(s,), nb=0)[0])
  return tree_util.tree_unflatten(treedef, res)


def S(shape=(), dtype='float32'):
  return jax.ShapeDtypeStruct(shape, jnp.dtype(dtype))


# Effects: a host callback observed by contract. The effect appends to a trace.
effect_p = Primitive('effect')
effect_p.multiple_results = True
EFFECTS = []


def _eff_abs(*avals, name, outs):
  return [core.ShapedArray(tuple(s), jnp.dtype(d)) for s, d in outs]


effect_p.def_abstract_eval(_eff_abs)


def _eff_impl(*args, name, outs):
  EFFECTS.append((name, [onp.asarray(a) for a in args]))
  return [jnp.zeros(s, d) for s, d in outs]


effect_p.def_impl(_eff_impl)


def _eff_lower(ctx, *args, name, outs):
  raise NotImplementedError('effects are observed outside of jit')


def request(name, state):
  """Records a request made in this state; the result is not used."""
  effect_p.bind(jnp.asarray(state), name=name, outs=(((), 'int32'),))
