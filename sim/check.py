#!/usr/bin/env python3
"""Runs the simulation of one property.

  check.py PROPERTY [--tier quick|thorough]    search (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE                       replay a recorded failure

Exit 0: every simulated run satisfied the property. Exit 1: VIOLATION line.
Any other exit status is an error of the check itself.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as ccbuild
import meta

WORKERS = 8
PY = '/opt/venv/bin/python'


def env():
  e = dict(os.environ)
  e.update(TF_CPP_MIN_LOG_LEVEL='3', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
           PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION='python', WODSIM_REPO=ccbuild.REPO)
  e.pop('PYTHONPATH', None)
  return e


def build(prop, scratch):
  m = meta.PROPS[prop]
  if m['engine'] == 'cc':
    exe = ccbuild.build(scratch + '/b', [m['src']] + m.get('extra', []), tools=m.get('tools', ()),
                        ops=m.get('ops', True), dirs=m.get('dirs', ()))
    return [exe]
  gen = scratch + '/gen'
  os.makedirs(gen)
  protos = sorted(subprocess.run('find waymo_open_dataset -name "*.proto"', shell=True, cwd=ccbuild.SRC,
                                 stdout=subprocess.PIPE, check=True).stdout.decode().split())
  subprocess.run(['/usr/bin/protoc', '-I.', '--python_out=' + gen] + protos, cwd=ccbuild.SRC, check=True,
                 stderr=subprocess.DEVNULL)
  return [PY, '-B', HERE + '/py/main.py', '--gen', gen, '--repo', ccbuild.SRC]


def known_findings(prop):
  out = []
  path = ROOT + '/known_findings.json'
  for k in json.load(open(path))['findings']:
    if k['property'] == prop and k.get('status') == 'known':
      out.append(k)
  return out


def search(prop, tier, seed, cmd, scratch, replay_dir):
  m = meta.PROPS[prop]
  count, limit = m[tier]
  if os.environ.get('WODSIM_COUNT'):
    count = int(os.environ['WODSIM_COUNT'])
  per = (count + WORKERS - 1) // WORKERS
  known = known_findings(prop)
  procs = []
  for w in range(WORKERS):
    out = '%s/out-%d.json' % (scratch, w)
    a = cmd + ['--property', prop, '--seed', str(seed), '--start', str(w), '--stride', str(WORKERS),
               '--count', str(per), '--time', str(limit), '--out', out, '--replay-dir', scratch,
               '--tag', str(w), '--min-time', '25' if tier == 'quick' else '90']
    if known:
      a += ['--known', ','.join(k['class'] for k in known)]
    log = open('%s/log-%d' % (scratch, w), 'wb')
    procs.append((w, out, subprocess.Popen(a, stdout=log, stderr=subprocess.STDOUT, env=env(), cwd=scratch)))
  pending = dict((w, (out, p)) for w, out, p in procs)
  results, found, stop_at = {}, [], None
  while pending:
    for w in list(pending):
      out, p = pending[w]
      rc = p.poll()
      if rc is None:
        if stop_at and time.time() > stop_at:
          p.kill()
          p.wait()
          del pending[w]
        continue
      del pending[w]
      if os.path.exists(out):
        results[w] = json.load(open(out))
      if rc == 1 and w in results:
        found.append(results[w])
        stop_at = stop_at or time.time() + 2  # the rest of the batch adds nothing
      elif rc != 0:
        tail = open('%s/log-%d' % (scratch, w), errors='replace').read()[-3000:]
        raise SystemExit('worker %d ended with status %s:\n%s' % (w, rc, tail))
    time.sleep(0.05)
  return list(results.values()), found, known


def determinism(prop, seed, cmd, scratch, n):
  """Runs the first n runs again, elsewhere and in a different environment."""
  digests = []
  procs = []
  for i, extra in enumerate(({}, {'PADDING': 'x' * 2500, 'PYTHONHASHSEED': '77'})):
    e = env()
    e.update(extra)
    d = '%s/cwd%d' % (scratch, i)
    os.makedirs(d, exist_ok=True)
    procs.append(subprocess.Popen(
        cmd + ['--property', prop, '--seed', str(seed), '--count', str(n), '--time', '120', '--digest'],
        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=d))
  for p in procs:
    o = p.communicate()[0].decode(errors='replace')
    digests.append([l for l in o.splitlines() if l.startswith('D ')])
  same = sum(a == b for a, b in zip(*digests))
  return same, max(len(d) for d in digests)


def merge(results):
  t = dict(runs=0, skips=0, steps=0, switches=0, nontrivial=0, multi=0, choice_overflow=0)
  w, tr, d = set(), set(), set()
  probes, faults, samples, known = {}, {}, [], {}
  extra = {}
  for r in results:
    for k in t:
      t[k] += r.get(k, 0)
    w.update(r['workloads'])
    tr.update(r['traces'])
    d.update(r['distinct'])
    for src, dst in ((r['probes'], probes), (r['faults'], faults)):
      for k, v in src.items():
        x = dst.setdefault(k, [0, 0])
        x[0] += v[0]
        x[1] += v[1]
    for k, v in r.get('known', {}).items():
      known[k] = known.get(k, 0) + v
    for k, v in r.get('extra', {}).items():
      extra[k] = extra.get(k, 0) + v
    samples += r['samples']
  return t, w, tr, d, probes, faults, samples, known, extra


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property', nargs='?')
  ap.add_argument('--tier', default=None)
  ap.add_argument('--replay')
  ap.add_argument('--keep', action='store_true')
  a = ap.parse_args()
  prop = json.load(open(a.replay))['property'] if a.replay else a.property
  tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
  seed = int(os.environ.get('VERIF_SEED') or 1)
  m = meta.PROPS[prop]
  scratch = tempfile.mkdtemp(prefix='wodsim-')
  try:
    t0 = time.time()
    cmd = build(prop, scratch)
    t_build = time.time() - t0
    if a.replay:
      p = subprocess.run(cmd + ['--replay', os.path.abspath(a.replay)], env=env(), cwd=scratch,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
      out = p.stdout.decode(errors='replace')
      print(out)
      return 1 if 'REPRODUCED' in out.split() else 0
    t1 = time.time()
    results, found, known = search(prop, tier, seed, cmd, scratch, scratch)
    t_search = max(time.time() - t1, 1e-3)
    nd = 24 if tier == 'quick' else 200
    same, of = (0, 0) if found else determinism(prop, seed, cmd, scratch, nd)
    t, w, tr, d, probes, faults, samples, known_hits, extra = merge(results)
    ev = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=t['runs'],
            distinct_nontrivial=len(d),
            rule=m['rule'] + ' Distinct: by the pair (hash of the generated workload, hash of the recorded '
                 'event log, which holds every scheduling decision and injected fault).',
            samples=samples[:3] or ['no non-trivial run'],
            runs_per_hour=int(t['runs'] / t_search * 3600),
            seeds_per_hour=int(t['runs'] / t_search * 3600),
            workers=WORKERS,
            simulated_steps=t['steps'],
            simulated_time='%d scheduler steps; the simulated clock advances 100 ns per step' % t['steps']
            if m['engine'] == 'cc' else '%.1f simulated seconds' % (extra.get('sim_ms', 0) / 1000.0),
            context_switches=t['switches'],
            runs_with_more_than_one_context_switch=t['multi'],
            distinct_workloads=len(w),
            distinct_event_logs=len(tr),
            runs_given_up_as_ambiguous=t['skips'],
            faults_injected={k: dict(times=v[0], runs=v[1]) for k, v in sorted(faults.items())},
            probes={k: dict(times=v[0], runs=v[1]) for k, v in sorted(probes.items())},
            determinism='%d of %d runs repeated in two further processes (other working directory, '
                        'environment size and PYTHONHASHSEED) gave identical event logs' % (same, of),
            real_code=m['real'], stubbed=m['stub'],
            build_s=round(t_build, 1), search_s=round(t_search, 1)),
        assumptions=m.get('assumptions', []) + [
            'seeded search samples schedules, faults and inputs; a clean batch is evidence, not proof'],
        wall_s=round(time.time() - t0, 2), violations=len(found))
    if extra:
      ev['coverage']['extra'] = extra
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (ROOT, prop), 'w') as f:
      json.dump(ev, f, indent=1)
      f.write('\n')
    for k in known:
      if known_hits.get(k['class']):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
      else:
        print('note: known finding %s of %s was not met by this batch' % (k['class'], prop))
    print('%s %s: %d runs (%d non-trivial distinct) in %.0f s, build %.0f s, %d/%d repeated identically' %
          (prop, tier, t['runs'], len(d), t_search, t_build, same, of))
    if found:
      os.makedirs(ROOT + '/replays', exist_ok=True)
      best = min(found, key=lambda r: os.path.getsize(r['replay']))
      dst = '%s/replays/%s-seed%d.json' % (ROOT, prop, seed)
      shutil.copy(best['replay'], dst)
      r = json.load(open(dst))
      print('class: %s' % r['class'])
      print('message: %s' % r['message'][:1500])
      # The minimised file must fail again, identically, in a fresh process.
      p = subprocess.run(cmd + ['--replay', dst], env=env(), cwd=scratch, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL)
      if 'REPRODUCED' not in p.stdout.decode(errors='replace').split():
        print('the minimised failure did not replay in a fresh process')
        if r['class'] != 'hang':
          return 3
      print('VIOLATION property=%s replay=%s' % (prop, dst))
      return 1
    if of and same != of:
      print('warning: the simulation is not deterministic on this tree')
    if t['runs'] == 0 or not d:
      print('nothing non-trivial was explored')
      return 3
    return 0
  finally:
    if a.keep:
      print('kept', scratch)
    else:
      shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
  sys.exit(main())
