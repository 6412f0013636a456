"""C25: ready-to-use solvers are the documented compositions.

The wiring is an equality in the free algebra of the components (vf/free.py):
integrators, solvers, schedules, loaders and driver enter as uninterpreted
functions of all their arguments, the settings are opaque, so the equality
holds for all settings. Where the terms differ the composition might still be
equivalent; then the running code decides."""
import contextlib
import functools
import inspect
import io as sysio

import jax
import jax.numpy as jnp
import numpy as onp

from vf import free
from vf.check import Check, Unit, Failure
from vf.props import common as C

F = 'jax_sgmc/alias.py: '
NAMES = ('sgld', 're_sgld', 'amagold', 'sggmc', 'sghmc', 'obabo')
STOCHASTIC = dict(cache_size=512, batch_size=32, first_step_size=0.05, last_step_size=0.001,
                  burn_in=0, accepted_samples=1000, save_to_numpy=True)
METROPOLIS = dict(cache_size=512, batch_size=32, integration_steps=10, first_step_size=0.001,
                  last_step_size=0.001, adaptive_step_size=False, stabilization_constant=10,
                  decay_constant=0.75, speed_constant=0.05, target_acceptance_rate=0.25,
                  burn_in=0, accepted_samples=None, mass=None, save_to_numpy=True)
# documented defaults
DEFAULTS = {
  'sgld': dict(STOCHASTIC, rms_prop=False, alpha=0.9, lmbd=1e-5),
  're_sgld': dict(STOCHASTIC, temperature=1000.0, accepted_samples=100),
  'amagold': dict(METROPOLIS, friction=0.25),
  'sggmc': dict(METROPOLIS, friction_coefficient=1.0),
  'sghmc': dict(STOCHASTIC, integration_steps=10, friction=1.0, mass=None,
                adapt_noise_model=False, diagonal_noise=True),
  'obabo': dict(STOCHASTIC, integration_steps=10, friction=1.0, mass=None)}
ITERATIONS = 1000
# settings which are numbers (others might be trees)
NUMBERS = {f'setting {k}' for k in (
  'cache_size', 'batch_size', 'first_step_size', 'last_step_size', 'burn_in',
  'accepted_samples', 'temperature', 'integration_steps', 'stabilization_constant',
  'decay_constant', 'speed_constant', 'target_acceptance_rate', 'alpha', 'lmbd',
  'friction_coefficient')} | {'iterations'}
SWITCHES = {'sgld': ('rms_prop', 'save_to_numpy'), 're_sgld': ('save_to_numpy',),
            'amagold': ('adaptive_step_size', 'accepted_samples', 'save_to_numpy'),
            'sggmc': ('adaptive_step_size', 'accepted_samples', 'save_to_numpy'),
            'sghmc': ('adapt_noise_model', 'save_to_numpy'), 'obabo': ('save_to_numpy',)}


def composition(name, M, pots, loader, p, progress):
  """The documented composition of integrator, solver, schedule and driver."""
  batches = M.data.random_reference_data(loader, p['cache_size'], p['batch_size'])
  full = lambda: M.data.full_reference_data(loader, p['cache_size'], p['batch_size'])
  burn = M.scheduler.initial_burn_in(p['burn_in'])
  if p.get('adaptive_step_size', False) is True:
    step = M.scheduler.adaptive_step_size(
      burn_in=p['burn_in'], initial_step_size=p['first_step_size'],
      stabilization_constant=p['stabilization_constant'], decay_constant=p['decay_constant'],
      speed_constant=p['speed_constant'], target_acceptance_rate=p['target_acceptance_rate'])
  else:
    step = M.scheduler.polynomial_step_size_first_last(
      first=p['first_step_size'], last=p['last_step_size'])
  thin = None
  if p['accepted_samples'] is not None:
    thin = M.scheduler.random_thinning(step, burn, selections=p['accepted_samples'])
  kw = dict(temperature=M.scheduler.constant_temperature(1.0)) if name == 're_sgld' else {}
  schedule = M.scheduler.init_scheduler(
    step_size=step, burn_in=burn, thinning=thin,
    progress_bar=False if name == 're_sgld' else progress, **kw)
  first = {}
  if name == 'sgld':
    ad = M.adaption.rms_prop() if p['rms_prop'] is True else None
    sol = M.solver.sgmc(M.integrator.langevin_diffusion(pots[0], batches, adaption=ad))
    first = dict(adaption_kwargs={'alpha': p['alpha'], 'lmbd': p['lmbd']})
  elif name == 're_sgld':
    sol = M.solver.parallel_tempering(M.integrator.langevin_diffusion(pots[0], batches))
  elif name == 'amagold':
    sol = M.solver.amagold(
      M.integrator.reversible_leapfrog(pots[0], batches, steps=p['integration_steps'],
                                       friction=p['friction'], const_mass=p['mass']),
      pots[1], full())
  elif name == 'sggmc':
    sol = M.solver.sggmc(
      M.integrator.obabo(pots[0], batches, steps=p['integration_steps'],
                         friction=p['friction_coefficient'], const_mass=p['mass']),
      pots[1], full())
  elif name == 'sghmc':
    nm = None
    if p['adapt_noise_model'] is True:
      nm = M.adaption.fisher_information(minibatch_potential=pots[0],
                                         diagonal=p['diagonal_noise'])
    sol = M.solver.sgmc(M.integrator.friction_leapfrog(
      pots[0], batches, steps=p['integration_steps'], friction=p['friction'],
      const_mass=p['mass'], noise_model=nm))
  else:
    sol = M.solver.sgmc(M.integrator.obabo(
      pots[0], batches, steps=p['integration_steps'], friction=p['friction'],
      const_mass=p['mass']))
  saving = M.io.save(M.io.MemoryCollector()) if p['save_to_numpy'] is True else None
  run = M.solver.mcmc(sol, schedule, strategy='map', saving=saving)

  def run_fn(*samples, init_model_state=None, iterations=ITERATIONS):
    if name == 're_sgld':
      sts = [sol[0](a, b, init_model_state=init_model_state) for a, b in samples]
      return run(*sts, iterations=iterations, schedulers=[{'temperature': {
        'tau': p['temperature']}}])
    sts = [sol[0](s, init_model_state=init_model_state, **first) for s in samples]
    return run(*sts, iterations=iterations)
  return run_fn


class Mods:
  def __init__(self, symbolic):
    from jax_sgmc import data, adaption, integrator, scheduler, solver, io
    for m in (data, adaption, integrator, scheduler, solver, io):
      setattr(self, m.__name__.split('.')[-1], free.Module(m) if symbolic else m)


def settings(name, switch):
  """Opaque settings; those which select a component take each of their values."""
  p = {}
  for k in DEFAULTS[name]:
    p[k] = switch[k] if k in switch else free.Tok(f'setting {k}')
  return p


def variants(name):
  sw = SWITCHES[name]
  out = [{}]
  for k in sw:
    vals = (None, free.Tok('setting accepted_samples')) if k == 'accepted_samples' else (
      True, False)
    out = [dict(o, **{k: v}) for o in out for v in vals]
  return [o for o in out if not (o.get('adaptive_step_size') is True
                                 and o['accepted_samples'] is not None)]


def label(v):
  return ', '.join(f'{k} {"given" if isinstance(x, free.Tok) else x}' for k, x in v.items())


def prove(name):
  def run(obs):
    from jax_sgmc import alias
    free.LOOKED.clear()
    f = F + name
    T = free.Tok
    pots = [T('potential'), T('full potential')][:2 if name in ('amagold', 'sggmc') else 1]
    loader = T('loader')
    samples = [(T('cold 0'), T('hot 0')), (T('cold 1'), T('hot 1')), (T('cold 2'), T('hot 2'))]
    if name != 're_sgld':
      samples = [T('sample 0'), T('sample 1'), T('sample 2')]
    M = Mods(True)

    def compare(nm, kw, p, progress, chains, call_kw, its):
      def both():
        with free.contracts(alias):
          got = getattr(alias, name)(*pots, loader, **kw)(*samples[:chains], **call_kw)
        want = composition(name, M, pots, loader, p, progress)(
          *samples[:chains], init_model_state=call_kw.get('init_model_state'), iterations=its)
        return free.canon(got), free.canon(want)
      from vf import terms as TT
      for cond, (a, b) in free.paths(both, NUMBERS):
        obs.add(nm + (f', {cond}' if cond else ''), TT.Result(
          'proved' if a == b else 'unknown', 'free algebra',
          reason='' if a == b else free.diff(a, b)), f)
    for v in variants(name):
      p = settings(name, v)
      bar = T('setting progress_bar')
      its, ms = T('iterations'), T('model state')
      for chains in (1, 3):
        compare(f'composition: {label(v)}, {chains} chains', dict(p, progress_bar=bar), p, bar,
                chains, dict(init_model_state=ms, iterations=its), its)
    compare('composition: defaults', {}, DEFAULTS[name], True, 2, {}, ITERATIONS)
    # positional settings
    sig = list(inspect.signature(getattr(alias, name)).parameters)[len(pots) + 1:]
    p = settings(name, variants(name)[0])
    obs.add('all settings are accepted by name', _res(set(sig) - {'progress_bar'} == set(p),
                                                      str(sig)), f)
  return run


def _res(ok, why):
  from vf import terms as TT
  return TT.Result('proved' if ok else 'unknown', 'structural', reason='' if ok else why)


# ------------------------------------------------------------ running code
def problem(seed, flat=False):
  from jax_sgmc import potential
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  rng = onp.random.default_rng(seed)
  x = rng.normal(size=(40, 2)).astype('f')
  y = (x @ onp.array([0.5, -1.0])).astype('f')
  loader = lambda: NumpyDataLoader(x=x, y=y)

  def like(s, o):
    if flat:  # bounded: exchanges of the chains are accepted at all temperatures
      return -0.01 * jnp.mean(jnp.tanh(o['y'] - jnp.dot(o['x'], s['w'])) ** 2) * jnp.tanh(s['s'])
    return -0.5 * jnp.sum((o['y'] - jnp.dot(o['x'], s['w'])) ** 2) * jnp.exp(-s['s'])
  like_state = lambda st, s, o: (like(s, o) * st['c'], {'c': st['c'] * 1.01})
  prior = lambda s: -0.5 * jnp.sum(s['w'] ** 2) - 0.5 * s['s'] ** 2
  if flat:
    prior = lambda s: -0.1 * jnp.sum(jnp.tanh(s['w']) ** 2) - 0.1 * jnp.tanh(s['s']) ** 2
  return loader, like, like_state, prior, potential


def configs(name, rng):
  """Settings which all differ from the defaults and from each other."""
  base = dict(cache_size=rng.choice([3, 4]), batch_size=rng.choice([2, 5]), first_step_size=0.02,
              last_step_size=0.007, burn_in=rng.choice([3, 4]), save_to_numpy=True,
              accepted_samples=5)
  if name == 'sgld':
    return [dict(base, rms_prop=True, alpha=0.4, lmbd=0.05), dict(base, rms_prop=False,
                                                                save_to_numpy=False)]
  if name == 're_sgld':
    return [dict(base, temperature=3.0), dict(base, temperature=40.0, save_to_numpy=False)]
  if name in ('amagold', 'sggmc'):
    fr = {'friction': 0.6} if name == 'amagold' else {'friction_coefficient': 2.5}
    mass = {'w': jnp.array([2.0, 0.7]), 's': jnp.array(1.4)}
    return [dict(base, integration_steps=3, mass=mass, adaptive_step_size=False, **fr),
            dict(base, integration_steps=2, adaptive_step_size=True, accepted_samples=None,
                 stabilization_constant=4, decay_constant=0.6, speed_constant=0.3,
                 target_acceptance_rate=0.7, **fr),
            dict(base, integration_steps=2, accepted_samples=None, save_to_numpy=False)]
  if name == 'sghmc':
    mass = {'w': jnp.array([2.0, 0.7]), 's': jnp.array(1.4)}
    return [dict(base, integration_steps=3, friction={'w': jnp.array([0.5, 2.0]),
                                                      's': jnp.array(1.5)}, mass=mass),
            dict(base, integration_steps=2, friction=1.7, adapt_noise_model=True,
                 diagonal_noise=True, save_to_numpy=False),
            dict(base, integration_steps=2, friction=2.7, adapt_noise_model=True,
                 diagonal_noise=False)]
  mass = {'w': jnp.array([2.0, 0.7]), 's': jnp.array(1.4)}
  return [dict(base, integration_steps=3, friction=0.6, mass=mass),
          dict(base, integration_steps=2, friction=1.9, save_to_numpy=False)]


def paired(k, v):
  """A setting and those which have to fit to it."""
  if k == 'burn_in':
    return {k: v, 'accepted_samples': min(5, max(1, 13 - v))}
  if k == 'first_step_size':
    return {k: v, 'last_step_size': v / 2}
  if k == 'last_step_size':
    return {k: v, 'first_step_size': 2 * v}
  return {k: v}


def hinted(name, every):
  """Settings the code inspects, around the numbers they are compared with."""
  out = []
  for op, lit in dict.fromkeys(free.LOOKED):
    k = op.partition('setting ')[2]
    if k not in DEFAULTS[name]:
      continue
    if isinstance(lit, str):  # another setting
      o = lit.partition('setting ')[2]
      for base in every:
        if k in base and o in base:
          kind = int if isinstance(DEFAULTS[name][k], int) else float
          out += [{**base, k: kind(v), 'guess': True}
                  for v in (base[o] * 2, base[o] / 2, base[o]) if kind(v)]
      continue
    for v in (0, 1, 0.5) if lit is None else (lit, 2 * lit + 1, lit / 2, lit + 1, -lit):
      if isinstance(DEFAULTS[name][k], int) and not isinstance(DEFAULTS[name][k], bool):
        v = int(v)
      out += [{**base, **paired(k, v), 'guess': True}
              for base in ([c for c in every if k in c] or every[:1])]
  return out


def search(name):
  def run(se):
    from jax_sgmc import alias
    M = Mods(False)
    i = 0
    todo = configs(name, se.rng)
    if se.factor == 1:
      todo = todo[:1] if not env_thorough() else todo
    todo.append(None)
    every = configs(name, se.rng)
    for k in dict.fromkeys(k for c in every for k in c if isinstance(c[k], float)):
      v = se.value([None], 1e-4, 10)
      if v is not None:
        todo.insert(0, {**next(c for c in every if k in c), **paired(k, v), 'guess': True})
    for over in hinted(name, every):
      todo.insert(0, over)
    while todo:
      over = todo.pop(0)
      guess = bool(over) and over.pop('guess', False)
      i += 1
      full = name in ('amagold', 'sggmc')
      noise = bool(over and over.get('adapt_noise_model'))
      state = i % 2 == 1 and not noise
      loader, like, like_state, prior, potential = problem(i, name == 're_sgld' and guess)
      args = dict(likelihood=like_state if state else like, prior=prior, strategy='vmap',
                  has_state=state)
      pots = [potential.minibatch_potential(**args)]
      if full:
        pots.append(potential.full_potential(**args))
      p = dict(DEFAULTS[name], **(over or {}))
      chains = 2 if over else 1
      its = 13 if over else ITERATIONS
      sample = lambda k: {'w': jnp.array([0.1 * k, 0.3]), 's': jnp.array(0.2 * k)}
      xs = [(sample(k), sample(k + 2)) if name == 're_sgld' else sample(k)
            for k in range(chains)]
      ms = {'c': jnp.array(1.0)} if state else None
      case = dict(alias=name, chains=chains, iterations=its,
                  settings={k: str(v) for k, v in (over or {}).items()})
      se.now = case
      kw = dict(over or {}, progress_bar=False)
      with contextlib.redirect_stdout(sysio.StringIO()):
        lg, lw = loader(), loader()
        sg, sw = transfers(lg), transfers(lw)
        try:
          want = composition(name, M, pots, lw, p, False)(
            *xs, init_model_state=ms, iterations=its)
        except Exception:
          if guess:  # not a valid setting
            continue
          raise
        got = getattr(alias, name)(*pots, lg, **kw)(
          *xs, init_model_state=ms, **({'iterations': its} if over else {}))
      if sg != sw:
        raise Failure(f'transfers of {sorted(sg)} batches instead of {sorted(sw)}', **case)
      if len(got) != len(want):
        raise Failure(f'results of {len(got)} instead of {len(want)} chains', **case)
      for c, (g, w) in enumerate(zip(got, want)):
        gs, ws = g['samples'], w['samples']
        if sorted(gs) != sorted(ws):
          raise Failure(f'returned {sorted(gs)} instead of {sorted(ws)}', **case)
        if (jax.tree_util.tree_structure(gs) != jax.tree_util.tree_structure(ws)):
          raise Failure('structure of the samples', **case)
        for k in sorted(ws):
          for a, b in zip(C.tleaves(gs[k]), C.tleaves(ws[k])):
            if isinstance(a, onp.ndarray) != isinstance(b, onp.ndarray):
              raise Failure(f'{k}: samples are of type {type(a).__name__}', **case)
            a, b = onp.asarray(a), onp.asarray(b)
            if a.shape != b.shape:
              raise Failure(f'{k} of chain {c}: {a.shape} instead of {b.shape}', **case)
            if not onp.allclose(a, b, rtol=1e-3, atol=1e-4, equal_nan=True):
              raise Failure(f'{k} of chain {c}: {a.ravel()[:4].tolist()} instead of '
                            f'{b.ravel()[:4].tolist()}', **case)
      se.count(case)
      if not se.more() and se.factor == 1 and not env_thorough():
        break
  return run


def transfers(loader):
  """Numbers of batches of one transfer to the device and their sizes."""
  seen = set()
  original = loader.batch_format

  @functools.wraps(original)
  def batch_format(*a, **k):
    out = original(*a, **k)
    seen.add(tuple(tuple(onp.shape(l)[:2]) if hasattr(l, 'shape') else l
                   for l in C.tleaves(out)))
    return out
  loader.batch_format = batch_format
  return seen


def env_thorough():
  from vf import env
  return env.THOROUGH


def check():
  return Check('C25', 'Ready-to-use solvers', units=[
    Unit(n, F + n, prove(n), search(n)) for n in NAMES], assumptions=[
      'the composed components enter by contract: functions of their arguments (their own '
      'behaviour is decided in the other properties)',
      'constructing a component twice with the same arguments gives equivalent components',
      'one to three chains; progress reports are not part of the property'])
