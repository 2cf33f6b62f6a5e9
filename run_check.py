#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  run_check.py C04 [--tier quick|thorough] [--seed N] [--only SCENARIO[#REP]]
  run_check.py --replay evidence/replay/C04.json

Exit 0: held on everything observed.  1: VIOLATION line.  3: inconclusive.
"""
import argparse
import ast
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
DEADLINE = {'quick': 780., 'thorough': 3600. * 3}
CASE_LIMIT = {'quick': 400., 'thorough': 2400.}
ENVS = ('x32', 'x64', 'x64d')


def worker_env(env):
  e = dict(os.environ)
  e.update(
      PYTHONPATH=os.pathsep.join([HERE, '/opt/optax-compat']),
      JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
      JAX_ENABLE_X64='0' if env == 'x32' else '1',
      XLA_FLAGS='--xla_cpu_multi_thread_eigen=false '
                'intra_op_parallelism_threads=1',
      OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TF_CPP_MIN_LOG_LEVEL='3',
      MPLBACKEND='Agg')
  if env == 'x64d':  # four devices
    e['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4 ' + e['XLA_FLAGS']
  e.pop('JAX_DISABLE_JIT', None)
  return e


class Worker(threading.Thread):
  """Feeds one worker process from the queue of its environment."""

  def __init__(self, prop, tier, seed, env, todo, results, t_end):
    super().__init__(daemon=True)
    self.args = (prop, tier, seed)
    self.env, self.todo, self.results, self.t_end = env, todo, results, t_end
    self.proc = None
    self.started_case = None
    self.current = None

  def spawn(self):
    prop, tier, seed = self.args
    self.err = open(os.path.join(
        HERE, 'evidence', 'log', f'{prop}-{self.env}-{self.ident}.err'), 'w')
    self.proc = subprocess.Popen(
        [VENV, '-W', 'ignore', '-m', 'mon.worker', prop, tier, str(seed)],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
        cwd=HERE, env=worker_env(self.env), text=True)
    line = self.proc.stdout.readline()
    if not line:
      with open(self.err.name) as f:
        raise RuntimeError('worker did not start: ' + f.read()[-2000:])

  def run(self):
    try:
      self.spawn()
      while time.time() < self.t_end:
        try:
          case = self.todo.get_nowait()
        except queue.Empty:
          break
        self.current, self.started_case = case, time.time()
        self.proc.stdin.write(json.dumps(case) + '\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        self.started_case = None
        if not line:
          self.results.append({'harness_error': 'worker died',
                               'case': '%s#%s' % tuple(case)})
          return
        res = json.loads(line)
        res['wall'] = time.time()
        self.results.append(res)
    except Exception as e:  # pylint: disable=broad-except
      self.results.append({'harness_error': f'{type(e).__name__}: {e}',
                           'case': str(self.current)})
    finally:
      if self.proc is not None:
        try:
          self.proc.stdin.close()
          self.proc.wait(timeout=10)
        except Exception:  # pylint: disable=broad-except
          self.proc.kill()


def load_scenarios(prop):
  """Reads scenario declarations without importing JAX in the driver."""
  path = os.path.join(HERE, 'mon', 'props', prop.lower() + '.py')
  with open(path) as f:
    tree = ast.parse(f.read())
  out, meta = [], {}
  for node in tree.body:
    if isinstance(node, ast.FunctionDef):
      for d in node.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'scenario':
          kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
          kw.setdefault('env', 'x64')
          kw.setdefault('quick', 8)
          kw.setdefault('thorough', None)
          kw.setdefault('cost', 1.)
          if kw['thorough'] is None:
            kw['thorough'] = kw['quick'] * 8
          out.append((node.name, kw))
    elif isinstance(node, ast.Assign) and len(node.targets) == 1:
      name = getattr(node.targets[0], 'id', '')
      if name in ('RULE', 'ASSUMPTIONS', 'MIN_EVALS', 'MIN_DISTINCT',
                  'MIN_COUNTERS'):
        meta[name] = ast.literal_eval(node.value)
  return out, meta


def load_known(prop):
  """KNOWN_FINDINGS lines 'known: property=ID key=KEY text'."""
  out = {}
  with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
    for line in f:
      line = line.strip()
      if line.startswith('known:'):
        parts = line.split(None, 3)
        p, k = parts[1].split('=', 1)[1], parts[2].split('=', 1)[1]
        if p == prop:
          out[k] = parts[3]
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('--tier', default=None)
  ap.add_argument('--seed', type=int, default=None)
  ap.add_argument('--only')
  ap.add_argument('--replay')
  ap.add_argument('--jobs', type=int, default=int(
      os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
  ap.add_argument('--smoke', action='store_true')
  a = ap.parse_args()
  t0 = time.time()
  if a.smoke:  # the library and the monitors import and agree on the catalogue
    return subprocess.call(
        [VENV, '-W', 'ignore', '-c',
         'from mon import catalog, core, ref, sched, seq, spies, gauss\n'
         'print(len(catalog.NAMES), "transformations")'],
        cwd=HERE, env=worker_env('x64'))
  if a.replay:
    with open(a.replay) as f:
      r = json.load(f)
    a.prop, a.tier, a.seed = r['property'], r['tier'], r['seed']
    a.only = ','.join(r['cases'])
  tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
  seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
  prop = a.prop
  evdir = os.path.join(HERE, 'evidence')
  os.makedirs(os.path.join(evdir, 'log'), exist_ok=True)
  os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)

  scen, meta = load_scenarios(prop)
  cases = {env: [] for env in ENVS}
  cost = {env: 0. for env in ENVS}
  only = a.only.split(',') if a.only else None
  for name, kw in scen:
    for rep in range(kw[tier]):
      if only and not (name in only or f'{name}#{rep}' in only):
        continue
      cases[kw['env']].append((kw['cost'], name, rep))
      cost[kw['env']] += kw['cost']
  total = sum(len(c) for c in cases.values())
  if not total:
    print('no such case')
    return 2
  t_end = t0 + DEADLINE[tier]
  results, workers = [], []
  jobs = max(2, a.jobs)
  for env in ENVS:
    if not cases[env]:
      continue
    share = cost[env] / sum(cost.values())
    n = max(1, min(len(cases[env]), round(jobs * share)))
    q = queue.Queue()
    for _, name, rep in sorted(cases[env], key=lambda c: (-c[0], c[2], c[1])):
      q.put((name, rep))
    for _ in range(n):
      workers.append(Worker(prop, tier, seed, env, q, results, t_end))
  for w in workers:
    w.start()
  timed_out = None
  while any(w.is_alive() for w in workers):
    time.sleep(0.05)
    now = time.time()
    for w in workers:
      s = w.started_case
      if s is not None and (now - s > CASE_LIMIT[tier] or now > t_end + 60):
        timed_out = w.current
        w.proc.kill()

  errors = [r for r in results if 'harness_error' in r]
  good = [r for r in results if 'harness_error' not in r]
  distinct = set()
  counters, known, samples, violations = {}, {}, [], []
  evals = 0
  margins = {}  # per scenario: error / tolerance of its closest call
  for r in sorted(good, key=lambda r: r['case']):
    m = tuple(r['margin'])
    margins[r['case'].split('#')[0]] = max(
        margins.get(r['case'].split('#')[0], (0., '', '')), m + (r['case'],))
    evals += r['evals']
    distinct.update(r['distinct'])
    for k, v in r['counters'].items():
      counters[k] = counters.get(k, 0) + v
    known.update(r['known'])
    violations += r['violations']
    for s in r['samples']:
      if len(samples) < 12:
        samples.append(dict(s, case=r['case']))
  if not samples:
    for r in sorted(good, key=lambda r: r['case']):
      if r['note'] and len(samples) < 12:
        samples.append(dict(r['note'], case=r['case']))
  listed = load_known(prop)
  for key, what in sorted(known.items()):
    if key not in listed:
      violations.append({'case': f'known:{key}', 'what': what, 'note': {},
                         'detail': {}})

  scen_seen = sorted({r['case'].split('#')[0] for r in good})
  evidence = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': {
          'evaluations': evals,
          'distinct_nontrivial': len(distinct),
          'rule': meta.get('RULE', '') + ' Evaluations are oracle decisions on '
                  'observed executions; distinct non-trivial ones are counted '
                  'by the digest of the observed, not-all-zero values or of '
                  'the observed event.',
          'samples': samples or [r['case'] for r in good[:5]],
          'cases_run': len(good), 'cases_planned': total,
          'scenarios': scen_seen, 'events': counters,
          'closest_calls': {
              k: {'error_over_tolerance': round(v[0], 4), 'what': v[1],
                  'case': v[2]} for k, v in sorted(margins.items()) if v[0]},
      },
      'assumptions': meta.get('ASSUMPTIONS', []),
      'wall_s': round(time.time() - t0, 2),
      'violations': len(violations),
  }
  if not a.replay and not only:
    with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
      json.dump(evidence, f, indent=1)

  for key in sorted(listed):
    if key in known:
      print(f'KNOWN-FINDING: property={prop} {listed[key]}')
  if violations:
    bad = sorted({v['case'] for v in violations})
    path = os.path.join(evdir, 'replay', f'{prop}.json')
    if not a.replay:
      with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed,
                   'cases': bad[:20], 'violations': violations[:20]}, f,
                  indent=1)
    else:
      path = a.replay
    for v in violations[:6]:
      d = dict(v['detail'])
      if 'traceback' in d:
        d['traceback'] = d['traceback'][-500:]
      print(f"  {v['case']}: {v['what']}\n    note={json.dumps(v['note'])[:500]}"
            f"\n    detail={json.dumps(d)[:800]}")
    print(f'VIOLATION property={prop} replay={path}')
    return 1
  if errors or timed_out:
    for e in errors[:3]:
      print('INCONCLUSIVE:', e.get('case'), e['harness_error'][-1500:])
    if timed_out:
      print('INCONCLUSIVE: time limit in case', timed_out)
    return 3
  if not only and not a.replay:
    problems = []
    if len(good) < 0.6 * total:
      problems.append(f'only {len(good)} of {total} cases ran')
    if evals < meta.get('MIN_EVALS', 100):
      problems.append(f'only {evals} oracle decisions')
    if len(distinct) < meta.get('MIN_DISTINCT', 20):
      problems.append(f'only {len(distinct)} distinct observations')
    for k, v in meta.get('MIN_COUNTERS', {}).items():
      if counters.get(k, 0) < v:
        problems.append(f'event {k} seen {counters.get(k, 0)} times')
    if problems:
      print('INCONCLUSIVE:', '; '.join(problems))
      return 3
  print(f'held: property={prop} tier={tier} seed={seed} cases={len(good)} '
        f'evaluations={evals} distinct={len(distinct)} events={counters} '
        f'wall={time.time() - t0:.1f}s')
  return 0


if __name__ == '__main__':
  sys.exit(main())
