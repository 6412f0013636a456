"""C05: requests to the host."""
import copy
import itertools
import pickle
import threading
import time
import types
import uuid as _uuid
import warnings

import jax
import jax.numpy as jnp
import numpy as onp
import z3

from vf import env, hjax, host as H, literals, terms as T
from vf.check import Check, Unit, Failure
from vf.props import dcommon as D

CORE = 'jax_sgmc/data/core.py: '
UU = 'jax_sgmc/util/uuid.py: JaxUUID.'
DEV, CNT, CNT2 = z3.Ints('devices counter counter2')


# ------------------------------------------------------- requests, any state
class Locks:
  """threading with a lock that knows whether it is held."""

  def __init__(self):
    self.held = 0

  def __getattr__(self, name):
    return getattr(threading, name)

  def Lock(self):
    return _Lock(self)
  RLock = Lock


class _Lock:
  def __init__(self, owner):
    self.owner = owner

  def acquire(self, *a, **k):
    self.owner.held += 1
    return True

  def release(self):
    self.owner.held -= 1

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *a):
    self.release()


class Guarded(dict):
  """State of the requests: reads and writes need the lock."""
  locks = None

  def _use(self):
    if self.locks is not None and self.locks.held < 1:
      self.locks.outside = True


def _guard(name):
  def f(self, *a, **k):
    self._use()
    return getattr(dict, name)(self, *a, **k)
  return f


for _n in ('__getitem__', '__setitem__', '__delitem__', '__contains__', 'get', 'keys', 'pop',
           'setdefault', 'items', 'values', 'update'):
  setattr(Guarded, _n, _guard(_n))

TOKENS = ('current', 'other chain', 'served, still cached', 'other request, cached', 'unknown')


def prove_request(known, current, token_is, strict):
  """One request in an arbitrary state: ``current``: the chain was served before,
  ``token_is``: which of the tokens is presented. The cases are complete: the code
  only compares tokens."""
  def prove(obs):
    core = D.core_module()
    from jax_sgmc.util.uuid import JaxUUID

    def run():
      locks = Locks()
      locks.outside = False
      ids = {k: JaxUUID() for k in ('uuid', 'uuid2', 'T', 'T1', 'Tc', 'Tn', 'Td', 'Tm', 'X')}
      calls = []

      class Loader:
        def get_batches(self, chain):
          calls.append((int(chain), locks.held))
          return ('batches', len(calls))
      with H.patched(core, threading=locks, int=H.hint):
        req = core._Requests()
      req._host_data_loaders = {ids['uuid'].as_uuid: Loader(), ids['uuid2'].as_uuid: Loader()}
      mine = {4: ids['T1'].as_uuid}
      if current:
        mine[3] = ids['T'].as_uuid
      req._requests = Guarded({ids['uuid2'].as_uuid: Guarded({3: ids['X'].as_uuid})})
      if known:
        req._requests[ids['uuid'].as_uuid] = Guarded(mine)
      req._cached_requests = Guarded({
        ids['Tc'].as_uuid: [H.mk(CNT), ('old', 1), ids['Tn']],
        ids['Td'].as_uuid: [H.mk(CNT2), ('old', 2), ids['Tm']]})
      before = (dict(mine if known else {}), dict(req._requests[ids['uuid2'].as_uuid]),
                {k: list(v) for k, v in req._cached_requests.items()})
      for d in (req._requests, req._cached_requests, *req._requests.values()):
        d.locks = locks
      tok = {'current': ids['T'], 'other chain': ids['T1'], 'served, still cached': ids['Tc'],
             'other request, cached': ids['Td'], 'unknown': JaxUUID()}[token_is]
      issued = [t.as_uuid for t in ids.values()] + [tok.as_uuid]
      err, res = None, None
      with warnings.catch_warnings(record=True) as w, H.patched(core, int=H.hint):
        warnings.simplefilter('always')
        try:
          res = req(jnp.array(3), tok, ids['uuid'], H.mk(DEV), strict=strict)
        except RuntimeError as e:
          err = e
      held, outside = locks.held, locks.outside
      locks.held = 1
      after = (dict(req._requests.get(ids['uuid'].as_uuid, {})),
               dict(req._requests[ids['uuid2'].as_uuid]),
               {k: list(v) for k, v in req._cached_requests.items()})
      return dict(res=res, err=err, warned=len(w), calls=calls, before=before, after=after,
                  tok=tok, issued=issued, held=held, outside=outside, ids=ids)
    ps = D.Paths(obs, 'request', run, [DEV >= 1, CNT >= 1, CNT2 >= 1], (), [DEV, CNT, CNT2],
                 CORE + '_Requests.__call__')
    ps.safe()
    cached = 'cached' in token_is
    first = not current or not known
    accepted = token_is == 'current' or first

    def entries(p, skip=()):
      """Cached answers of other requests are unchanged."""
      r = p.result
      b, a = r['before'][2], r['after'][2]
      out = []
      for k in set(b) | set(a):
        if k in skip:
          continue
        if k not in a or k not in b:
          return z3.BoolVal(False)
        out += [H._int(a[k][0]) == H._int(b[k][0]),
                z3.BoolVal(a[k][1] == b[k][1] and a[k][2] is b[k][2])]
      return z3.And(*out)
    ps.ensure('the lock protects the state and is released', lambda p: z3.BoolVal(
      p.result['held'] == 0 and not p.result['outside']
      and all(h == 1 for _, h in p.result['calls'])))
    ps.ensure('other loaders and chains are not touched', lambda p: z3.BoolVal(
      p.result['before'][1] == p.result['after'][1]
      and {k: v for k, v in p.result['before'][0].items() if k != 3}
      == {k: v for k, v in p.result['after'][0].items() if k != 3}))
    if cached:
      def repeated(p):
        r = p.result
        k = r['tok'].as_uuid
        old, a = r['before'][2][k], r['after'][2]
        left = H._int(old[0]) - 1
        kept = z3.And(left >= 1, H._int(a[k][0]) == left,
                      z3.BoolVal(a[k][1] == old[1] and a[k][2] is old[2])) if k in a else left == 0
        return z3.And(z3.BoolVal(
          r['err'] is None and not r['calls'] and r['res'][0] == old[1]
          and r['res'][1].as_uuid == old[2].as_uuid
          and r['before'][0].get(3) == r['after'][0].get(3)), kept, entries(p, (k,)))
      ps.ensure('answered from the cache, once per device', repeated)
    elif accepted or not strict:
      def served(p):
        r = p.result
        a = r['after'][2]
        k = r['tok'].as_uuid
        if r['err'] is not None or [c for c, _ in r['calls']] != [3]:
          return z3.BoolVal(False)
        new = r['res'][1].as_uuid
        shared = z3.And(DEV >= 2, H._int(a[k][0]) == DEV - 1, z3.BoolVal(
          a[k][1] == r['res'][0] and a[k][2].as_uuid == new)) if k in a else DEV == 1
        return z3.And(z3.BoolVal(r['res'][0] == ('batches', 1) and new not in r['issued']
                                 and r['after'][0].get(3) == new), shared, entries(p, (k,)))
      ps.ensure('served exactly one new batch and a new token', served)
      ps.ensure('warned exactly if the request is not valid', lambda p: z3.BoolVal(
        bool(p.result['warned']) == (not accepted)))
    else:
      ps.ensure('rejected without consuming data', lambda p: z3.And(z3.BoolVal(
        p.result['err'] is not None and not p.result['calls']
        and p.result['before'][0] == p.result['after'][0]), entries(p)))
  return prove


def prove_unknown(obs):
  """Unknown loader or chain: an error, later requests are served as before."""
  core = D.core_module()
  from jax_sgmc.util.uuid import JaxUUID
  for what, strict in itertools.product(('loader', 'chain'), (False, True)):
    def run():
      calls = []

      class Loader:
        def get_batches(self, chain):
          calls.append(int(chain))
          if chain != 0:
            raise IndexError(chain)
          return ('batches', len(calls))
      locks = Locks()
      with H.patched(core, threading=locks):
        req = core._Requests()
      u, t = JaxUUID(), JaxUUID()
      req._host_data_loaders[u.as_uuid] = Loader()
      _, t1 = req(0, t, u, strict=strict)
      err = None
      try:
        req(0 if what == 'loader' else 7, t1 if what == 'loader' else JaxUUID(),
            JaxUUID() if what == 'loader' else u, H.mk(DEV), strict=strict)
      except (LookupError, RuntimeError) as e:
        err = e
      held = locks.held
      mid = list(calls)
      res, t2 = req(0, t1, u, strict=True)
      return err, mid, calls, res, t2.as_uuid not in (t1.as_uuid, t.as_uuid), held
    ps = D.Paths(obs, f'unknown {what}' + (', strict' if strict else ''), run, [DEV >= 1], (),
                 [DEV], CORE + '_Requests.__call__')
    ps.safe()
    ps.ensure('error, no data consumed, next request served', lambda p: z3.BoolVal(
      p.result[0] is not None and p.result[1] == [0] + ([7] if what == 'chain' else [])
      and p.result[2][-1] == 0 and len(p.result[2]) == len(p.result[1]) + 1
      and p.result[3] == ('batches', len(p.result[2])) and p.result[4] and p.result[5] == 0))


def prove_pickle(obs):
  core = D.core_module()
  from jax_sgmc.util.uuid import JaxUUID

  def run():
    locks = Locks()
    u, t = JaxUUID(), JaxUUID()
    with H.patched(core, threading=locks):
      req = core._Requests()
      req._host_data_loaders[u.as_uuid] = 'loader'
      req._requests[u.as_uuid] = {3: t.as_uuid}
      req._cached_requests[t.as_uuid] = [2, 'answer', u]
      state = req.__getstate__()
      new = core._Requests.__new__(core._Requests)
      new.__setstate__(dict(state))
      h = core._FullDataHelper.__new__(core._FullDataHelper)
      h.__dict__.update(_unused_states=['s'], _lock=locks.Lock(), _map_fn='f')
      hs = h.__getstate__()
      hn = core._FullDataHelper.__new__(core._FullDataHelper)
      hn.__setstate__(dict(hs))
    old = {k: v for k, v in req.__dict__.items() if not isinstance(v, _Lock)}
    return req, state, new, old, h, hs, hn
  ps = D.Paths(obs, 'state', run, (), (), (), CORE + '_Requests.__getstate__, __setstate__')
  ps.safe()

  def ok(p):
    req, state, new, old, h, hs, hn = p.result
    out = True
    for obj, st, nw, want in ((req, state, new, old), (h, hs, hn, {
        k: v for k, v in h.__dict__.items() if not isinstance(v, _Lock)})):
      lock = [v for v in nw.__dict__.values() if isinstance(v, _Lock)]
      olds = [v for v in obj.__dict__.values() if isinstance(v, _Lock)]
      out = (out and len(lock) == 1 and len(olds) == 1 and lock[0] is not olds[0]
             and not any(isinstance(v, _Lock) for v in st.values())
             and {k: v for k, v in nw.__dict__.items() if not isinstance(v, _Lock)} == want)
    return z3.BoolVal(out)
  ps.ensure('everything but the lock is kept, the lock is new', ok)


# ------------------------------------------------------------------- tokens
class Word:
  """Non-negative number below 2^160 as bit vector."""
  W = 160

  def __init__(self, t):
    self.t = t

  @classmethod
  def of(cls, x):
    if isinstance(x, cls):
      return x.t
    if isinstance(x, (int, onp.integer)):
      return z3.BitVecVal(int(x), cls.W)
    raise H.Unsupported(f'number {type(x).__name__}')

  def _op(f, fits=None):  # pylint: disable=no-self-argument
    def op(self, o):
      return Word(f(self.t, Word.of(o)))
    return op
  __and__ = __rand__ = _op(lambda a, b: a & b)
  __or__ = __ror__ = _op(lambda a, b: a | b)
  __xor__ = __rxor__ = _op(lambda a, b: a ^ b)
  __rshift__ = _op(z3.LShR)
  __floordiv__ = _op(z3.UDiv)
  __mod__ = _op(z3.URem)

  def __lshift__(self, o):
    o = Word.of(o)
    hjax.obligation('shift does not lose bits', z3.LShR(self.t << o, o) == self.t)
    return Word(self.t << o)

  def __add__(self, o):
    o = Word.of(o)
    hjax.obligation('sum does not overflow', z3.UGE(self.t + o, self.t))
    return Word(self.t + o)
  __radd__ = __add__

  def __mul__(self, o):
    o = Word.of(o)
    hjax.obligation('product does not overflow', z3.BVMulNoOverflow(self.t, o, False))
    return Word(self.t * o)
  __rmul__ = __mul__

  def __int__(self):
    raise H.Unsupported('number of a word')
  __index__ = __int__


class Words(list):
  dtype = onp.dtype('uint32')
  shape = (4,)

  def tolist(self):
    return list(self)


class _Np:
  """numpy: arrays of 32 bit words."""

  def __getattr__(self, name):
    return getattr(onp, name)

  @staticmethod
  def array(a, dtype=None):
    if not any(isinstance(x, Word) for x in a):
      return onp.array(a, dtype=dtype)
    if onp.dtype(dtype) != onp.dtype('uint32'):
      raise H.Unsupported(f'words of type {dtype}')
    for x in a:
      hjax.obligation('word fits', z3.ULT(x.t, 2 ** 32))
    return Words(a)
  asarray = array


class Hex:
  def __init__(self, t, width=0):
    self.t, self.width = t, width

  def replace(self, a, b):
    if (a, b) not in (('0x', ''), ('-', '')):
      raise H.Unsupported('text of a number')
    return self

  def zfill(self, n):
    return Hex(self.t, n)


class SymUUID:
  def __init__(self, hex=None, *, int=None):
    if isinstance(hex, Hex) and hex.width != 32:
      raise H.Unsupported('digits of a number')
    self.int = Word(hex.t if isinstance(hex, Hex) else Word.of(int))
    hjax.obligation('number has 128 bits', z3.ULT(self.int.t, z3.BitVecVal(2 ** 128, Word.W)))


class _IntMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, (int, Word))


class wint(metaclass=_IntMeta):
  def __new__(cls, x=0, *a):
    return x if isinstance(x, Word) else int(x, *a)

  @staticmethod
  def from_bytes(*a, **k):
    return int.from_bytes(*a, **k)


def prove_token(obs):
  from jax_sgmc.util import uuid as mod
  n, words = z3.BitVec('n', Word.W), z3.BitVecs('w0 w1 w2 w3', Word.W)
  other = z3.BitVecs('v0 v1 v2 v3', Word.W)
  fits = [z3.ULT(x, 2 ** 32) for x in words + other]

  def shims():
    return H.patched(mod, uuid=types.SimpleNamespace(
      uuid4=lambda: types.SimpleNamespace(int=Word(n)), UUID=SymUUID), onp=_Np(), int=wint,
      hex=lambda x: Hex(x.t) if isinstance(x, Word) else hex(x))

  def run():
    with shims():
      tok = mod.JaxUUID()
      kids, aux = tok.tree_flatten()
      back = mod.JaxUUID.tree_unflatten(aux, kids)
      a, b = [mod.JaxUUID(Words(map(Word, w))) for w in (words, other)]
      return (tok.as_uuid.int.t, back.as_uuid.int.t, a.as_uuid.int.t, b.as_uuid.int.t,
              len(kids), kids[0] is tok.as_int32s)
  ps = D.Paths(obs, 'token', run, [z3.ULT(n, z3.BitVecVal(2 ** 128, Word.W))] + fits, (), (),
               UU + 'as_uuid')
  ps.safe()
  ps.ensure('identity of a new token', lambda p: z3.And(p.result[0] == n, p.result[1] == n))
  ps.ensure('tokens are equal only if they are the same', lambda p: z3.Implies(
    p.result[2] == p.result[3], z3.And(*[a == b for a, b in zip(words, other)])))
  ps.ensure('transferred as one array', lambda p: z3.BoolVal(
    p.result[4] == 1 and p.result[5]))


# ------------------------------------------------------------- running code
class Stream:
  def __init__(self, chains=2, delay=0.0):
    self.k, self.delay = [0] * chains, delay

  def get_batches(self, chain):
    k = self.k[chain]
    time.sleep(self.delay)
    self.k[chain] = k + 1
    return int(chain), k


class Reference:
  """Answers as documented; None if the request is not specified."""

  def __init__(self):
    self.cur, self.cached, self.k = {}, {}, [0, 0]

  def __call__(self, chain, token, devices, strict):
    if token in self.cached:
      e = self.cached[token]
      if e[1][0] != chain:
        return None
      e[0] -= 1
      if not e[0]:
        del self.cached[token]
      return ('cached', e[1], token)
    cur = self.cur.get(chain)
    bad = cur is not None and cur != token
    if bad and strict:
      return ('error',)
    ans = (chain, self.k[chain])
    self.k[chain] += 1
    return ('warn' if bad else 'new', ans, token)

  def issue(self, chain, token, devices, ans, new):
    self.cur[chain] = new
    if devices > 1:
      self.cached[token] = [devices - 1, ans, new]


def play(history):
  """Runs a history of (chain, token index, devices, strict) on the code."""
  from jax_sgmc.data import core
  from jax_sgmc.util.uuid import JaxUUID
  req, ref = core._Requests(), Reference()
  u = JaxUUID()
  loader = Stream()
  req._host_data_loaders[u.as_uuid] = loader
  toks = [JaxUUID(), JaxUUID(), JaxUUID()]    # initial tokens and a foreign one
  log = []
  for chain, ti, dev, strict in history:
    if ti >= len(toks):
      return True
    tok = toks[ti]
    case = dict(history=[list(h) for h in history])
    want = ref(chain, tok.as_uuid, dev, strict)
    if want is None:
      return True
    count = list(loader.k)
    got = None
    with warnings.catch_warnings(record=True) as w:
      warnings.simplefilter('always')
      try:
        # a token arrives as array from the device
        sent = JaxUUID(jnp.asarray(tok.as_int32s)) if ti % 2 else tok
        got = req(onp.array(chain, onp.int32) if dev > 1 else chain, sent, u, dev, strict=strict)
      except RuntimeError:
        pass
    if want[0] == 'error':
      if got is not None or loader.k != count:
        raise Failure('invalid request was answered', **case)
      continue
    if got is None:
      raise Failure('request was not answered', **case)
    if got[0] != want[1]:
      raise Failure(f'answer {got[0]} instead of {want[1]}', **case)
    if bool(w) != (want[0] == 'warn'):
      raise Failure('warning', **case)
    new = got[1].as_uuid
    if want[0] == 'cached':
      if loader.k != count:
        raise Failure('data consumed', **case)
      e = [x for x in log if x[0] == tok.as_uuid][-1]
      if new != e[1]:
        raise Failure('another token for the same answer', **case)
      continue
    if new in [t.as_uuid for t in toks]:
      raise Failure('token was issued before', **case)
    count[chain] += 1
    if loader.k != count:
      raise Failure(f'consumed {loader.k} instead of {count}', **case)
    ref.issue(chain, tok.as_uuid, dev, got[0], new)
    log.append((tok.as_uuid, new))
    toks.append(got[1])
  return False


def search_history(se):
  steps = list(itertools.product((0, 1), range(5), (1, 2, 3), (False, True)))
  done = 0
  for depth in (1, 2):
    for h in itertools.product(steps, repeat=depth):
      se.now = dict(history=[list(x) for x in h])
      play(h)
      done += 1
      if done % 200 == 0:
        se.count(dict(history=[list(x) for x in h]))
  while se.more() or done < 4500:
    h = []
    strict = se.rng.choice((True, False, None))
    for _ in range(se.size([se.rng.randrange(3, 12)], low=3, limit=300)):
      h.append((se.rng.randrange(2), se.rng.randrange(3 + len(h)), se.rng.choice((1, 1, 2, 3)),
                se.rng.random() < 0.5 if strict is None else strict))
    se.now = dict(history=[list(x) for x in h])
    play(h)
    done += 1
    if done % 50 == 0:
      se.count(dict(history=[list(x) for x in h]))


def search_devices(se):
  """Replicated programs on any number of devices (one after another)."""
  from jax_sgmc.data import core
  from jax_sgmc.util.uuid import JaxUUID
  numbers = [h['devices'] for h in se.hints if 1 <= h.get('devices', 0) <= 3000][:12]
  numbers += [v for v in literals.sizes() if 2 <= v <= 3000][:6]
  for k in range(12 + len(numbers)):
    dev = numbers[k] if k < len(numbers) else [2, 3, 5, 8, 16, 64, 257][k] if (
      k < 7) else se.rng.randrange(1, 100)
    strict = bool(k % 2)
    case = dict(devices=dev, strict=strict)
    se.now = case
    req, u, loader = core._Requests(), JaxUUID(), Stream()
    req._host_data_loaders[u.as_uuid] = loader
    tok = JaxUUID()
    for r in range(3):
      with warnings.catch_warnings():
        warnings.simplefilter('error')
        out = [req(r * 0, tok, u, dev, strict=strict) for _ in range(dev)]
      if any(a != (0, r) for a, _ in out) or len({t.as_uuid for _, t in out}) != 1:
        raise Failure(f'answers {sorted({a for a, _ in out})} to request {r}', **case)
      if req._cached_requests:
        raise Failure('answers are kept after all devices were served', **case)
      tok = out[0][1]
    se.count(case)


def search_threads(se):
  """Replicated programs ask for the same batch at the same time."""
  from jax_sgmc.data import core
  from jax_sgmc.util.uuid import JaxUUID
  for k in range(4):
    dev = 2 + k % 3
    case = dict(devices=dev)
    se.now = case
    req, u, loader = core._Requests(), JaxUUID(), Stream(delay=0.02)
    req._host_data_loaders[u.as_uuid] = loader
    tok = JaxUUID()
    for r in range(3):
      out, fail = [], []
      gate = threading.Barrier(dev)

      def ask():
        try:
          gate.wait()
          out.append(req(0, tok, u, dev, strict=True))
        except Exception as e:  # pylint: disable=broad-except
          fail.append(e)
      ts = [threading.Thread(target=ask) for _ in range(dev)]
      [t.start() for t in ts]
      [t.join() for t in ts]
      if fail or {a for a, _ in out} != {(0, r)} or len({t.as_uuid for _, t in out}) != 1:
        raise Failure(f'{[a for a, _ in out]} {fail}', **case)
      tok = out[0][1]
    twin = pickle.loads(pickle.dumps(req))
    if twin(0, tok, u, strict=True)[0] != (0, 3) or req(0, tok, u, strict=True)[0] != (0, 3):
      raise Failure('state after serialization', **case)
    cp = copy.deepcopy(req)
    cp._lock.acquire()
    if not req._lock.acquire(blocking=False):
      raise Failure('the lock is shared after serialization', **case)
    se.count(case)


def search_token(se):
  from jax_sgmc.util import uuid as mod
  seen = set()
  for k in range(40):
    bits = [0, 1, 2 ** 128 - 1, 1 << 31, 1 << 32, 1 << 127, (1 << 64) - 1, 0xFFFFFFFF << 96]
    n = bits[k] if k < len(bits) else se.rng.getrandbits(se.rng.choice((3, 40, 90, 128)))
    case = dict(number=hex(n))
    se.now = case
    real = _uuid.uuid4
    with H.patched(mod, uuid=types.SimpleNamespace(
        uuid4=lambda: _uuid.UUID(int=n), UUID=_uuid.UUID)):
      t = mod.JaxUUID()
    views = [t, jax.jit(lambda x: x)(t), jax.device_put(t), copy.deepcopy(t),
             pickle.loads(pickle.dumps(t)),
             jax.tree_util.tree_map(lambda x: jax.lax.cond(True, lambda v: v, lambda v: v * 0, x), t)]
    for v in views:
      if v.as_uuid != _uuid.UUID(int=n):
        raise Failure(f'{v.as_uuid} after the transfer', **case)
    seen.add(n)
    se.count(case)
  many = {mod.JaxUUID().as_uuid for _ in range(300)}
  if len(many) != 300:
    raise Failure('tokens are repeated', tokens=300)


def check():
  units, first = [], True
  for known, current in ((True, True), (True, False), (False, False)):
    for strict in (True, False):
      for tk in TOKENS:
        if tk == 'current' and not current or tk == 'other chain' and not known:
          continue
        nm = (f'{"chain served before" if current else "first request" + ("" if known else " of the loader")}'
              f', token {tk}{", strict" if strict else ""}')
        units.append(Unit(nm, CORE + '_Requests.__call__',
                          prove_request(known, current, tk, strict),
                          search_history if first else None, soft=True))
        first = False
  units += [
    Unit('unknown loader or chain', CORE + '_Requests.__call__', prove_unknown, search_threads,
         soft=True),
    Unit('serialization', [CORE + '_Requests.__getstate__, __setstate__',
                           CORE + '_FullDataHelper.__getstate__, __setstate__'], prove_pickle,
         search_devices, soft=True),
    Unit('tokens', [UU + '__init__', UU + 'as_uuid', UU + 'tree_flatten, tree_unflatten'],
         prove_token, search_token, soft=True)]
  return Check(
    'C05', 'Requests to the host', units=units, assumptions=[
      'uuid4 never repeats a number', 'uuid.UUID of the zero-padded hexadecimal text has the '
      'value of the number', 'threading.Lock excludes other threads',
      'a token is only presented by chains of its own loader'],
    note='Unbounded in the number of devices, counters and history (one request in an arbitrary '
         'state); complete cases of equality of tokens.')
