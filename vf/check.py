"""Check driver: contracts -> obligations -> verdict -> evidence.

A *unit* is a contract on one or more functions of the repository. Its prover
generates named obligations from the current source and discharges them; its
searcher evaluates the same contract on the running code (CPython/JAX) for
concrete inputs. The searcher serves three purposes: cross-check of the engine,
replay of refuted obligations and - where an obligation is undecided - bounded
stand-in, reported as such and never counted as proved.
"""
import contextlib
import json
import os
import random
import signal
import sys
import time
import traceback

from vf import env, literals

CHECKER_CMD = '/opt/venv/bin/python -m vf.run'

TRUSTED_COMMON = [
  'z3 5.3 (python bindings) and its simplifier; cvc5 1.4 where z3 is undecided',
  'CPython 3.12 and the symbolic engines in /verif/vf (jx.py: meaning of JAX '
  'primitives; host.py: meaning of numpy operations), cross-checked on every run '
  'by evaluating the same contracts on the running code',
  'floating point numbers are treated as reals, int32/int64 as mathematical integers',
]


class Failure(Exception):
  """A contract does not hold for a concrete input of the running code."""

  def __init__(self, what, **inputs):
    super().__init__(what)
    self.what = what
    self.inputs = inputs


class OutOfTime(Exception):
  """The time of a unit is used up: what is left stays undecided."""


@contextlib.contextmanager
def limit(seconds):
  """Raises OutOfTime in the enclosed code after the given time."""
  def handler(*_):
    raise OutOfTime('time budget')
  old = signal.signal(signal.SIGALRM, handler)
  # repeated, as an exception raised inside of a finalizer is lost
  signal.setitimer(signal.ITIMER_REAL, max(0.1, seconds), 1.0)
  try:
    yield
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)


def sizes(obligations):
  """Numbers in the counterexamples of obligations: hints for the search."""
  return [o.result.sizes for o in obligations if getattr(o.result, 'sizes', None)]


class Obligation:
  def __init__(self, unit, name, func, result, bounded=None):
    self.unit, self.name, self.func = unit, name, func
    self.result = result
    self.bounded = bounded

  def as_dict(self):
    r = self.result
    d = {'unit': self.unit, 'name': self.name, 'function': self.func,
         'status': r.status, 'backend': r.backend, 'seconds': round(r.secs, 3)}
    if r.reason:
      d['reason'] = str(r.reason)[:300]
    if self.bounded:
      d['bounded'] = self.bounded
    return d


class Obs:
  """Collects the obligations of one unit."""

  def __init__(self, check, unit):
    self.check, self.unit = check, unit
    self.items, self.hints = [], []
    self.covers = 0
    self.t0 = time.time()
    self.patience = 60

  def trial(self):
    """Collects obligations which are not (yet) part of the verdict."""
    o = Obs(self.check, self.unit)
    o.patience = 1e9
    return o

  def add(self, name, result, func=None, bounded=None):
    o = Obligation(self.unit.name, name, func or self.unit.funcs[0], result, bounded)
    self.items.append(o)
    if not self.unit.soft and time.time() - self.t0 > self.patience and any(
        o.result.status == 'refuted' for o in self.items):
      raise OutOfTime('an obligation is refuted, the others were not examined')
    return result.status == 'proved'

  def equal(self, ctx, name, a, b, func=None, hyps=(), bounded=None, timeout=None):
    """Obligation: two trees of symbolic arrays are equal."""
    from jax import tree_util
    from vf import jx, terms as T
    la, ta = tree_util.tree_flatten(a, is_leaf=lambda x: isinstance(x, jx.SV))
    lb, tb = tree_util.tree_flatten(b, is_leaf=lambda x: isinstance(x, jx.SV))
    if ta != tb:
      return self.add(name, T.Result('refuted', 'structure', reason=f'{ta} != {tb}'),
                      func, bounded)
    ok = True
    for n, (x, y) in enumerate(zip(la, lb)):
      x = x if isinstance(x, jx.SV) else jx.from_concrete(x)
      y = y if isinstance(y, jx.SV) else jx.from_concrete(y)
      r = ctx.prove_equal(x, y, hyps, timeout)
      nm = name if len(la) == 1 else f'{name}[{n}]'
      ok = self.add(nm, r, func, bounded) and ok
    return ok

  def prove(self, ctx, name, goal, hyps=(), func=None, bounded=None, timeout=None):
    return self.add(name, ctx.prove(goal, hyps, timeout), func, bounded)

  def cover(self, name, hyps):
    """Vacuity guard: the preconditions are satisfiable."""
    from vf import terms as T
    self.covers += 1
    if not T.satisfiable(hyps):
      self.add('cover:' + name, T.Result('unknown', 'z3', reason='vacuous precondition'))

  def true(self, name, cond, func=None, reason='', bounded=None, backend='structural'):
    from vf import terms as T
    return self.add(name, T.Result('proved' if cond else 'refuted', backend,
                                   reason='' if cond else reason), func, bounded)


class Unit:
  def __init__(self, name, funcs, prove=None, search=None, bounded=None,
               assumptions=(), search_note='', soft=False):
    # soft: the obligations speak about the representation of private state; a
    # refutation counts if the running code breaks the property as well
    self.soft = soft
    self.name = name
    self.funcs = [funcs] if isinstance(funcs, str) else list(funcs)
    self.prove = prove
    self.search = search
    self.bounded = bounded
    self.assumptions = list(assumptions)
    self.search_note = search_note


class Searcher:
  """Budgeted random/exhaustive evaluation of a contract on the running code."""

  def __init__(self, seed, budget, factor=1):
    self.rng = random.Random(seed)
    self.budget = budget
    self.t0 = time.time()
    self.evals = 0
    self.hints = []
    self.distinct = set()
    self.samples = []
    self.factor = factor

  def more(self):
    return time.time() - self.t0 < self.budget

  def size(self, options, *names, low=1, limit=100):
    """A size: one of the options, of a counterexample or a number of the code."""
    extra = {h[n] for h in self.hints for n in names if n in h} | set(literals.sizes())
    extra = sorted(v for v in extra if low <= v <= limit)
    if extra and self.rng.random() < 0.5:
      return self.rng.choice(extra)
    return self.rng.choice(options)

  def value(self, options, low=-1e9, limit=1e9):
    extra = [v for v in literals.values() if low <= v <= limit]
    if extra and self.rng.random() < 0.5:
      return self.rng.choice(extra)
    return self.rng.choice(options)

  def count(self, case, nontrivial=True):
    self.evals += 1
    if nontrivial:
      self.distinct.add(json.dumps(case, sort_keys=True, default=str))
    if len(self.samples) < 3:
      self.samples.append(case)


class Check:
  def __init__(self, pid, title, level='proof', units=(), assumptions=(),
               trusted=(), rule='', technique=None, note=''):
    self.pid, self.title, self.level = pid, title, level
    self.units = list(units)
    self.assumptions = list(assumptions)
    self.trusted = list(trusted)
    self.rule = rule
    self.note = note
    self.technique = technique or (
      'contract-based deductive verification: verification conditions generated from '
      'the current code, discharged by z3/cvc5 for all inputs')

  def level_note(self):
    funcs = sorted({f for u in self.units for f in u.funcs})
    bounded = [f'{u.name} ({u.bounded})' for u in self.units if u.bounded]
    return ((self.note + ' ' if self.note else '') + 'Under contract: ' + '; '.join(funcs)
            + '. Assumed: ' + '; '.join(list(self.assumptions)
                                        + [a for u in self.units for a in u.assumptions]
                                        + ['reals for floats'])
            + ('. Bounded: ' + '; '.join(bounded) if bounded else '') + '.')

  def run(self):
    from vf import terms as T
    t0 = time.time()
    obligations, violations = [], []
    undecided, softened = [], []
    evals, distinct, samples = 0, 0, []
    unit_info, hints = [], []
    base = 30.0 if env.THOROUGH else 4.0
    proving, total = (2400, 3300) if env.THOROUGH else (400, 700)
    for unit in self.units:
      tu = time.time()
      confirmed = any(v[2] is not None for v in violations)
      if confirmed and tu - t0 > 60:
        undecided.append(Obligation(unit.name, 'not examined after a violation',
                                    unit.funcs[0], T.Result('unknown', '', reason='')))
        obligations.append(undecided[-1])
        continue
      obs = Obs(self, unit)
      err = None
      if unit.prove is not None:
        try:
          obs.patience = 20 if confirmed else 60
          with limit(max(10, min(60 if confirmed else 1e9, proving - (time.time() - t0)))):
            self._prove(unit, obs)
        except Exception as e:  # engine limit: undecided, never a violation
          err = f'{type(e).__name__}: {str(e)[:300]}'
          if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
          obs.items.append(Obligation(
            unit.name, 'generation of obligations', unit.funcs[0],
            T.Result('unknown', '', reason=err)))
        if not obs.items:
          obs.items.append(Obligation(
            unit.name, 'generation of obligations', unit.funcs[0],
            T.Result('unknown', '', reason='no obligation generated')))
      obligations += obs.items
      hints += obs.hints
      refuted = [o for o in obs.items if o.result.status == 'refuted']
      unknown = [o for o in obs.items if o.result.status == 'unknown']
      undecided += unknown
      factor = 4 if (refuted or unknown) else 1
      fail = None
      se = None
      if unit.search is not None:
        se = Searcher(env.SEED, base * factor, factor)
        se.hints = sizes(refuted) + obs.hints + sizes(
          o for o in obligations if o not in refuted)
        fail = self._search(unit, se, total - (time.time() - t0))
        evals += se.evals
        distinct += len(se.distinct)
        samples += [{'unit': unit.name, 'case': s} for s in se.samples[:1]]
      if fail is not None:
        violations.append((unit, refuted, fail))
      elif unit.soft:
        for o in refuted:
          o.result.status = 'unknown'
          o.result.reason = f'not confirmed on the running code: {o.result.reason}'
        undecided += refuted
        softened += refuted
      elif refuted:
        violations.append((unit, refuted, None))
      unit_info.append({
        'unit': unit.name, 'functions': unit.funcs,
        'obligations': len(obs.items),
        'discharged': len([o for o in obs.items if o.result.status == 'proved']),
        'bounded': unit.bounded or '',
        'vacuity_guards': obs.covers,
        'contract_evaluations_on_running_code': se.evals if se else 0,
        'seconds': round(time.time() - tu, 2),
        **({'engine_error': err} if err else {})})
    open_ = undecided + [o for v in violations for o in v[1]]
    alone = {u.name for u in self.units if u.search is None} & {o.unit for o in open_}
    if alone and not any(v[2] is not None for v in violations):
      # obligations of units without a search of their own: the searches of the
      # other units are continued with other inputs
      for unit in self.units:
        if unit.search is None or unit.name in {o.unit for o in open_}:
          continue
        se = Searcher(env.SEED + 1000, base * 4, 4)
        se.hints = sizes(open_) + hints
        fail = self._search(unit, se, total - (time.time() - t0))
        evals += se.evals
        distinct += len(se.distinct)
        if fail is not None:
          violations.append((unit, [], fail))
          break
    wall = time.time() - t0
    confirmed = [n for n, v in enumerate(violations) if v[2] is not None]
    if confirmed and softened:
      # the running code breaks the property: the refutations stand
      for o in softened:
        o.result.status = 'refuted'
        undecided.remove(o)
      v = violations[confirmed[0]]
      violations[confirmed[0]] = (v[0], v[1] + softened, v[2])
    rc = self._report(violations)
    self._evidence(obligations, undecided, unit_info, evals, distinct, samples,
                   wall, len(violations))
    n_ok = len([o for o in obligations if o.result.status == 'proved'])
    print(f"{self.pid}: {n_ok}/{len(obligations)} obligations discharged, "
          f"{len(undecided)} undecided (bounded stand-in), {evals} contract "
          f"evaluations on the running code, {wall:.1f}s")
    for o in undecided:
      print(f"  undecided: {o.unit} / {o.name}: {str(o.result.reason)[:200]}")
    if not obligations and not evals:
      print(f'{self.pid}: nothing was checked')
      return 2
    return rc

  def _prove(self, unit, obs):
    """Obligations of all cases of the sizes that the code distinguishes."""
    from vf import jx
    for case in jx.Cases():
      start = len(obs.items)
      try:
        unit.prove(obs)
      finally:
        if case.label():
          obs.hints += case.sizes()
          for o in obs.items[start:]:
            o.name += f' [{case.label()}]'

  def _search(self, unit, se, seconds):
    try:
      with limit(max(10, seconds)):
        unit.search(se)
    except Failure as f:
      return f
    except OutOfTime:
      return None
    except Exception as e:
      if os.environ.get('VF_DEBUG'):
        traceback.print_exc()
      return self._classify(e, getattr(se, 'now', {}))
    return None

  def _classify(self, e, case=None):
    """An exception while evaluating a contract on the running code."""
    tb = traceback.extract_tb(e.__traceback__)
    inside = any(os.path.join(env.REPO, 'jax_sgmc') in f.filename for f in tb)
    inside = inside or 'CpuCallback error' in str(e)   # raised in a callback of the code
    text = ''.join(traceback.format_exception(e))[-3000:]
    if inside and not isinstance(e, (ImportError, MemoryError)):
      return Failure(f'the code raised {type(e).__name__}: {str(e)[:300]} on a valid input',
                     traceback=text, **(case or {}))
    if isinstance(e, (ImportError, MemoryError)):
      print(f'{self.pid}: {text}')
      return None
    print(f'{self.pid}: error in harness\n{text}')
    if os.environ.get('VF_STRICT'):
      raise e
    return None

  def _report(self, violations):
    if not violations:
      return 0
    known = known_findings(self.pid)
    rc = 0
    listed = lambda v: any(k['match'] in f'{v[0].name}: {v[2].what if v[2] else v[1][0].name}'
                           for k in known)
    confirmed = [v for v in violations if v[2] is not None and not listed(v)]
    if confirmed:
      # failed obligations of other units are reported with the failing input
      rest = [o for v in violations if v[2] is None and not listed(v) for o in v[1]]
      violations = [v for v in violations if v[2] is not None or listed(v)]
      for n, v in enumerate(violations):
        if v is confirmed[0]:
          violations[n] = (v[0], v[1] + rest, v[2])
    d = os.path.join(env.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    for n, (unit, refuted, fail) in enumerate(violations):
      what = fail.what if fail else refuted[0].name
      hit = [k for k in known if k['match'] in f'{unit.name}: {what}']
      if hit:
        print(f"KNOWN-FINDING: property={self.pid} {hit[0]['what']}")
        continue
      path = os.path.join(d, f'{self.pid}-{n}.json')
      body = {
        'property': self.pid, 'title': self.title, 'unit': unit.name,
        'functions': unit.funcs, 'seed': env.SEED, 'tier': env.TIER,
        'failed_obligations': [o.as_dict() for o in refuted],
        'verifier_output': [str(o.result.model)[:4000] for o in refuted],
        'failing_input': ({'what': fail.what,
                           **{k: _js(v) for k, v in fail.inputs.items()}}
                          if fail else None),
        'replay': f'cd /verif && VERIF_SEED={env.SEED} VERIF_TIER={env.TIER} '
                  f'{CHECKER_CMD} {self.pid}  # re-evaluates unit "{unit.name}"'}
      with open(path, 'w') as f:
        json.dump(body, f, indent=1, default=str)
      for o in refuted[:12]:
        print(f'  failed obligation: {o.unit} / {o.name} ({o.func}): {o.result.reason}')
      if fail:
        print(f'  failing input: {fail.what} {json.dumps({k: _js(v) for k, v in fail.inputs.items() if k != "traceback"}, default=str)[:600]}')
      tail = '' if fail else ' no-failing-input-found'
      print(f'VIOLATION property={self.pid} replay={path}{tail}')
      rc = 1
    return rc

  def _evidence(self, obligations, undecided, unit_info, evals, distinct,
                samples, wall, nviol):
    from vf import terms as T
    st = T.stats()
    by = {}
    for o in obligations:
      if o.result.status == 'proved':
        by[o.result.backend] = by.get(o.result.backend, 0) + 1
    funcs = sorted({f for u in self.units for f in u.funcs})
    bounded = [o for o in obligations if o.bounded]
    cov = {
      'obligations': len(obligations),
      'discharged': len([o for o in obligations if o.result.status == 'proved']),
      'checker_cmd': f'{CHECKER_CMD} {self.pid}',
      'trusted_base': TRUSTED_COMMON + self.trusted,
      'functions_under_contract': funcs,
      'discharged_by_backend': by,
      'solver_seconds': {k: round(v, 2) for k, v in st.items() if k.startswith('time')},
      'solver_queries': st['queries'],
      'obligations_with_stated_bound': [f'{o.unit}/{o.name}: {o.bounded}' for o in bounded],
      'undecided': [o.as_dict() for o in undecided],
      'units': unit_info,
      'evaluations': evals,
      'distinct_nontrivial': distinct,
      'rule': self.rule or 'bounded evaluation of the same contracts on the '
              'running code; inputs drawn from VERIF_SEED; distinct by input',
      'samples': samples or [{'note': 'no concrete evaluation'}],
      'obligation_list': [o.as_dict() for o in obligations][:400],
    }
    ev = {'property': self.pid, 'tier': env.TIER, 'seed': env.SEED,
          'level': self.level, 'coverage': cov,
          'assumptions': self.assumptions + [a for u in self.units for a in u.assumptions],
          'wall_s': round(wall, 2), 'violations': nviol}
    d = os.path.join(env.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{self.pid}.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)


def _js(v):
  try:
    json.dumps(v)
    return v
  except TypeError:
    return repr(v)[:2000]


def known_findings(pid):
  """Unrepaired defects listed in known-findings.jsonl (never 'fixed:' lines)."""
  path = os.path.join(env.VERIF, 'known-findings.jsonl')
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('{'):
        k = json.loads(line)
        if k.get('property') == pid:
          out.append(k)
  return out
