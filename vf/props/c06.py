"""C06: checkpoints of the data loader."""
import copy
import itertools
import pickle

import numpy as onp
import z3

from vf import env, host as H, terms as T
from vf.check import Check, Unit, Failure
from vf.props import c02, c03, dcommon as D
from vf.props.dcommon import N, M, NL, row

MODES = dict(c02.MODES, ordered=None)
S1 = z3.Int('s1')                  # generator of the other chain
D1, R1, O, O1 = z3.Ints('d1 r1 o o1')
Other = z3.Function('other', H.I, H.I)


def this_chain(mode, g, first):
  if mode == 'ordered':
    return {'type': 'ordered', 'rng': None, 'idx_offset': H.mk(O), 'mb_size': H.mk(M),
            'cache_size': 1}
  return g.chain(1, first)


def other_chain(mode, g, fresh):
  """A chain registered in the same way in an unrelated state."""
  if mode == 'ordered':
    return {'type': 'ordered', 'rng': None, 'idx_offset': H.mk(z3.IntVal(0) if fresh else O1),
            'mb_size': H.mk(M), 'cache_size': 1}
  c = g.chain(1, True)
  c['rng'] = H.SymRng(S1)
  if not fresh and mode != 'draw':
    c['draws'], c['remaining_samples'] = H.mk(D1), H.mk(R1 if mode == 'shuffle' else z3.IntVal(0))
    c['random_indices'] = H.HArr((g.L,), lambda i: Other(i), 'i')
  return c


def other_range(ts):
  return [z3.And(x >= 0, x < N) for x in H.apps(ts, Other) if not T.has_var(x)]


def prove(mode, first, fresh, draws):
  def p(obs):
    g = c02.Ghost(mode) if mode != 'ordered' else None

    def run():
      if g:
        g.shared()
      mod = D.loader_module()
      a, b = D.sym_loader(mod), D.sym_loader(mod)
      a._chains += [{'type': 'ordered'}, this_chain(mode, g, first), other_chain(mode, g, fresh)]
      b._chains += [other_chain(mode, g, fresh)]
      before = copy.deepcopy(a._chains[1])
      fn = lambda l, k: l._get_indices(k)
      snap = a.save_state(1)
      saved = copy.deepcopy(a._chains[1])
      outs = [[fn(a, 1) for _ in range(draws)]]
      b.load_state(0, snap)
      loaded = copy.deepcopy(b._chains[0])
      outs.append([fn(b, 0) for _ in range(draws)])
      a.load_state(2, snap)               # once more, into the same loader
      outs.append([fn(a, 2) for _ in range(draws)])
      again = copy.deepcopy(a._chains[1])
      a.load_state(1, snap)               # back to the checkpoint
      return before, saved, outs, loaded, again, copy.deepcopy(a._chains[1]), a._chains, b._chains
    hyps = (g.hyps() if g else D.SIZE_HYPS + [O >= 0, O < N, O1 >= 0, O1 < N]) + [S1 != c02.S0]
    ps = D.Paths(obs, 'history', run, hyps, [c02.junk_range, other_range],
                 func=NL + 'save_state, load_state')
    ps.safe()
    j = z3.Int('j')
    rows = [j >= 0, j < M]
    ps.ensure('saving does not change the chain', lambda q: c03.same_chain(
      q.result[0], q.result[1]))
    ps.ensure('state of the chain which loads it', lambda q: z3.And(
      c03.same_chain(q.result[0], q.result[3]), c03.same_chain(q.result[0], q.result[5])))

    def stream(k):
      def goal(q):
        out = []
        for (i0, m0), (i, m) in zip(q.result[2][0], q.result[2][k]):
          out += [D.dims(i, 1, M), D.dims(m, 1, M), row(i0, 0, j) == row(i, 0, j),
                  row(m0, 0, j) == row(m, 0, j)]
        return z3.And(*out)
      return goal
    ps.ensure('same batches in another loader', stream(1), rows)
    ps.ensure('same batches when loaded again', stream(2), rows)

    def frame(q):
      """Loading shares nothing with the chain which was saved."""
      c1, c2, cb = q.result[6][1], q.result[6][2], q.result[7][0]
      same = z3.BoolVal(len({id(c) for c in (c1, c2, cb)}) == 3 and len(q.result[6]) == 3)
      arrs = [c.get('random_indices') for c in (c1, c2, cb)]
      arrs = [x.store for x in arrs if isinstance(x, H.HArr)]
      rngs = [c.get('rng') for c in (c1, c2, cb) if c.get('rng') is not None]
      return z3.And(same, z3.BoolVal(len({id(x) for x in arrs}) == len(arrs)
                                     and len({id(x) for x in rngs}) == len(rngs)))
    ps.ensure('nothing is shared between the chains', frame)
  return p


def prove_invalid(obs):
  def run():
    mod = D.loader_module()
    a = D.sym_loader(mod)
    a._chains.append({'type': 'something', 'rng': None})
    try:
      a.save_state(0)
    except ValueError:
      return a
    return None
  ps = D.Paths(obs, 'unknown type', run, (), func=NL + 'save_state')
  ps.safe()
  ps.ensure('rejected', lambda q: z3.BoolVal(q.result is not None))


# ------------------------------------------------------------ running code
def search(se):
  """Histories of draws, saving and loading against a loader which replays the draws."""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  modes = [m for m in MODES]

  def draw(loader, chain):
    data, mask = loader.get_batches(chain)
    return onp.asarray(data['x']).tolist(), onp.asarray(mask).tolist()
  for k, (n, m) in enumerate(D.cases(se, 4, 12)):
    if not se.more() and k >= 24:
      break
    mode, c = modes[k % 4], se.size([1 + k // 4 % 3], 'c', limit=70)
    reg = lambda l, seed: (l.register_ordered_pipeline(c, m) if mode == 'ordered' else
                           l.register_random_pipeline(c, m, seed=seed, **MODES[mode]))
    loaders = [NumpyDataLoader(x=onp.arange(n)) for _ in range(2)]
    # chain -> [seed of the stream, position]
    chains = [(l, reg(l, s)) for s, l in ((1, loaders[0]), (2, loaders[0]), (3, loaders[1]))]
    where = [[1, 0], [2, 0], [3, 0]]
    ref = {}

    def want(seed, pos):
      if seed not in ref:
        l = NumpyDataLoader(x=onp.arange(n))
        ref[seed] = (l, reg(l, seed), [])
      l, ch, got = ref[seed]
      while len(got) <= pos:
        got.append(draw(l, ch))
      return got[pos]
    saves, hist = [], []
    case = dict(observations=n, batch=m, cache=c, mode=mode, history=hist)
    se.now = case
    for _ in range(30):
      op = se.rng.choice(('draw', 'draw', 'draw', 'save', 'load', 'load'))
      i = se.rng.randrange(3)
      if op == 'draw':
        hist.append(['draw', i])
        got = draw(*chains[i])
        if got != want(*where[i]):
          raise Failure(f'{got} instead of {want(*where[i])}', **case)
        where[i][1] += 1
      elif op == 'save':
        hist.append(['save', i])
        l, ch = chains[i]
        s = l.save_state(ch)
        saves.append((pickle.loads(pickle.dumps(s)) if len(saves) % 3 == 2 else s, list(where[i])))
      elif saves:
        q = se.rng.randrange(len(saves))
        hist.append(['load', i, q])
        l, ch = chains[i]
        l.load_state(ch, saves[q][0])
        where[i] = list(saves[q][1])
    se.count(dict(case, history=len(hist)))


def check():
  units, first = [], True
  for mode in MODES:
    for init, fresh in ((False, True), (False, False), (True, False)):
      if mode in ('ordered', 'draw') and init:
        continue
      if mode == 'draw' and not fresh:
        continue
      draws = 2 if env.THOROUGH and mode != 'shuffle' else 1
      nm = (f'{mode}: {"before the first draw" if init else "any state"}, loaded into a '
            f'{"new" if fresh else "used"} chain')
      units.append(Unit(nm, [NL + 'save_state', NL + 'load_state'],
                        prove(mode, init, fresh, draws), search if first else None, soft=True))
      first = False
  units.append(Unit('unknown type', NL + 'save_state', prove_invalid, soft=True))
  return Check(
    'C06', 'Checkpoints of the data loader', units=units, assumptions=[
      'the state of a numpy generator determines its draws, reading it returns a copy',
      'the chain which loads a checkpoint was registered in the same way',
      'following batches are functions of the state of the chain (index functions under '
      'contract in C01, C02)'],
    note='Unbounded in observations, batch size and history: arbitrary states which satisfy '
         'the invariant of the draws; one batch is drawn after every load, equality of the '
         'states gives all following ones.')
