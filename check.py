#!/usr/bin/env python3-vt
"""Decides one property: symbolic exploration of the current /repo source, replay of counterexamples on the
unmodified code, evidence.   check.py --property C01 [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
GEO = '/opt/venv/lib/python3.12/site-packages'
if GEO not in sys.path:
    sys.path.append(GEO)


def run_concrete(h, inputs, repo):
    """One concrete execution of harness h on the unmodified code."""
    from sx import api
    import contextlib
    import io
    out = {'status': 'ok', 'label': '', 'detail': '', 'trace': []}
    c = api.Concrete(inputs, {})
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            h.run(c)
    except api.ConcreteViolation as e:
        out.update(status='violation', label=e.label)
    except api.AssumeFailed:
        out['status'] = 'assume'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(os.path.realpath(f.filename).startswith(repo) for f in tb)
        out.update(status='violation' if inside else 'harness-error',
                   label='exception:' + type(e).__name__,
                   detail='%s: %s at %s' % (type(e).__name__, str(e)[:200],
                                            ', '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                                      for f in tb[-3:])))
    out['trace'] = c.trace[:60]
    out['witness'] = sorted(c.witness)
    return out


def replay_main(prop, path):
    """Run counterexamples (or sampled paths) on the unmodified code.  Prints a JSON line."""
    from sx import loader
    loader.install_concrete(HERE)
    with open(path) as fh:
        rp = json.load(fh)
    try:
        mod = importlib.import_module(prop)
        hs = {h.name: h for h in mod.harnesses(rp.get('tier', 'quick'))}
        repo = os.path.realpath(loader.REPO) + '/'
        if 'batch' in rp:
            out = [run_concrete(hs[n], i, repo) for n, i in rp['batch']]
        else:
            out = run_concrete(hs[rp['harness']], rp['inputs'], repo)
    except Exception as e:
        out = {'status': 'harness-error', 'label': type(e).__name__, 'detail': str(e)[:300], 'trace': []}
    sys.stdout.write('\n@@' + json.dumps(out) + '\n')


def validate(prop, tier, hs, info, seed, path, limit):
    """Re-run a sample of the explored paths on the unmodified code: the engine must agree with CPython."""
    import random
    items = [t for h in hs for t in info[h.name]['traces']]
    random.Random(seed).shuffle(items)
    items = items[:limit]
    if not items:
        return [], []
    with open(path, 'w') as fh:
        json.dump({'tier': tier, 'batch': [(hs[hi].name, inp) for hi, inp, _ in items]}, fh)
    out = run_replay(prop, path, 120)
    os.unlink(path)
    return items, out if isinstance(out, list) else []


def run_replay(prop, path, seconds=40):
    """Runs on the unmodified code.  The limit is processor time, so that a busy machine is not taken for a
    parser that does not end; the time on the clock only ends a run that waits for ever."""
    over = {'status': 'violation', 'label': 'timeout', 'detail': 'no result within %d s' % seconds, 'trace': []}

    def limit():
        resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds + 5))
    try:
        p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'check.py'), '--property', prop, '--replay', path],
                           capture_output=True, text=True, timeout=3 * seconds, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return over
    if p.returncode == -signal.SIGXCPU:
        return over
    for line in reversed(p.stdout.splitlines()):
        if line.startswith('@@'):
            return json.loads(line[2:])
    if p.returncode in (-signal.SIGKILL, -signal.SIGTERM):
        return {'status': 'harness-error', 'label': 'no answer', 'detail': 'ended from outside', 'trace': []}
    if p.returncode < 0:
        return {'status': 'violation', 'label': 'crash', 'detail': 'signal %d' % -p.returncode, 'trace': []}
    return {'status': 'harness-error', 'label': 'no answer', 'detail': p.stderr[-300:], 'trace': []}


def known_findings(prop):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as fh:
            return [f for f in json.load(fh)['findings'] if f['property'] == prop]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--only')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    prop = a.property
    if a.replay:
        return replay_main(prop, a.replay)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seconds = a.seconds or (300 if tier == 'quick' else 780)

    from sx import loader, explore
    loader.install(HERE)
    mod = importlib.import_module(prop)
    hs = mod.harnesses(tier)
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    known = known_findings(prop)
    state = {'n': 0, 'violation': None, 'tried': {}, 'spurious': [], 'known': {}, 'spent': 0.0}

    def on_candidate(cand):
        hi, label, inputs, detail = cand
        h = hs[hi]
        key = (h.name, label)
        state['tried'][key] = state['tried'].get(key, 0) + 1
        # unconfirmed ones: a few of each, and after many of them one of each
        if state['tried'][key] > (6 if state['n'] < 60 else 1) or state['spent'] > (120 if tier == 'quick' else 300):
            return False
        state['n'] += 1
        path = os.path.join(rdir, '%s-%d.json' % (prop, state['n']))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'tier': tier, 'harness': h.name, 'label': label, 'inputs': inputs,
                       'symbolic_detail': detail}, fh, indent=1)
        t1 = time.time()
        r = run_replay(prop, path)
        state['spent'] += time.time() - t1
        if a.verbose:
            print('candidate', h.name, label, detail, r, file=sys.stderr)
        if r['status'] != 'violation':
            state['spurious'].append({'harness': h.name, 'label': label, 'detail': detail,
                                      'replay': r['status'] + ' ' + r['label'] + ' ' + r['detail']})
            os.unlink(path)
            return False
        for kf in known:
            if kf.get('label') == r['label'] and kf.get('harness') == h.name:
                state['known'][kf['what']] = True
                os.unlink(path)
                return False
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'tier': tier, 'harness': h.name, 'label': r['label'],
                       'detail': r['detail'], 'values': r['trace'], 'inputs': inputs}, fh, indent=1)
        state['violation'] = (path, h.name, r)
        return True

    for kf in known:
        # a finding identified by a concrete input: still there?
        if 'inputs' in kf:
            path = os.path.join(rdir, '%s-known-%d.json' % (prop, os.getpid()))
            with open(path, 'w') as fh:
                json.dump({'tier': tier, 'harness': kf['harness'], 'inputs': kf['inputs']}, fh)
            r = run_replay(prop, path)
            os.unlink(path)
            if r['status'] == 'violation' and r['label'] == kf['label']:
                state['known'][kf['what']] = True
    runs = [h for h in hs if not getattr(h, 'known_only', False)]
    hs[:] = runs
    stats, info, left, seen, crashes, stopped = explore.explore(hs, seconds, on_candidate, seed=seed)
    val = {'ok': 0, 'diverged': 0, 'samples': []}
    if not state['violation']:
        items, outs = validate(prop, tier, hs, info, seed, os.path.join(rdir, '%s-batch-%d.json' % (prop, os.getpid())),
                               160 if tier == 'quick' else 600)
        for (hi, inp, wit), r in zip(items, outs):
            if r['status'] == 'violation' and on_candidate((hi, r['label'], inp, 'found on a sampled path')):
                break
            if r['status'] == 'ok' and r['witness'] == wit:
                val['ok'] += 1
                if len(val['samples']) < 8:
                    val['samples'].append({'harness': hs[hi].name, 'values': r['trace'][-6:]})
            else:
                val['diverged'] += 1
                if a.verbose:
                    print('diverged', hs[hi].name, wit, r, file=sys.stderr)
    for w in sorted(state['known']):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    ev = evidence(prop, tier, seed, mod, hs, stats, info, left, seen, crashes, state, val, time.time() - t0)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    tot = ev['coverage']
    print('%s %s: %d harnesses, %d paths, %d obligations, %d solver queries, %.1f s solver, %.1f s wall%s' % (
        prop, tier, len(hs), tot['states'], tot['obligations'], tot['solver_queries'], tot['solver_seconds'],
        time.time() - t0, '' if not tot['incomplete'] else '; incomplete: ' + ', '.join(tot['incomplete'][:4])))
    if a.verbose:
        for h in hs:
            print('  %-40s %s left=%d %s' % (h.name, stats[h.name].as_dict(), left[h.name], info[h.name]))
        print(crashes)
        print(state['spurious'][:5])
    if state['violation']:
        path, name, r = state['violation']
        print('%s: %s %s' % (name, r['label'], r['detail']))
        for t in r['trace'][-6:]:
            print('   ' + t[:300])
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
        return 1
    return 0


def evidence(prop, tier, seed, mod, hs, stats, info, left, seen, crashes, state, val, wall):
    tot = {}
    for s in stats.values():
        for k, v in s.as_dict().items():
            tot[k] = tot.get(k, 0) + v
    inc = []
    per = []
    for h in hs:
        s = stats[h.name].as_dict()
        if left[h.name]:
            inc.append('%s: time budget ended with %d open branches' % (h.name, left[h.name]))
        for k in info[h.name]['incomplete']:
            inc.append('%s: %s' % (h.name, k))
        for k in info[h.name]['engine']:
            inc.append('%s: solver %s' % (h.name, k))
        per.append({'harness': h.name, 'bounds': h.bounds, 'paths': s['paths'],
                    'complete': not left[h.name] and not info[h.name]['incomplete'],
                    'obligations': s['obligations'], 'obligation_queries': s['oblig_queries'],
                    'decided_without_query': s['trivial'], 'feasibility_queries': s['sat_checks'],
                    'solver_s': round(s['sat_time'], 2), 'reached': info[h.name]['witness']})
    for cr in crashes:
        inc.append('worker: ' + cr.strip().splitlines()[-1][:200])
    for sp in state['spurious']:
        inc.append('%s: candidate "%s" not confirmed on the real code (%s)' % (sp['harness'], sp['label'],
                                                                              (sp['detail'] or sp['replay'])[:160]))
    samples = [{'harness': p['harness'], 'bounds': p['bounds'], 'paths': p['paths']} for p in per[:12]]
    return {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0), 'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': val['ok'] + (1 if state['violation'] else 0),
            'traces_diverging': val['diverged'],
            'samples': val['samples'] or samples,
            'explanation': 'Bounded symbolic execution of the repository code itself: states = program paths, '
                           'transitions = branch decisions; on every path the property is discharged by an SMT '
                           'query over all values that follow it. Every counterexample is replayed on the '
                           'unmodified code before it is reported.',
            'functions_encoded': sorted(seen), 'harnesses': per,
            'obligations': tot.get('obligations', 0),
            'solver_queries': tot.get('sat_checks', 0), 'solver_seconds': round(tot.get('sat_time', 0), 2),
            'solver_unknown': tot.get('unknown', 0), 'incomplete': sorted(set(inc))[:40],
            'outside_the_bounds': getattr(mod, 'OUTSIDE', ''),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': 1 if state['violation'] else 0,
        'violation': None if not state['violation'] else {
            'harness': state['violation'][1], 'label': state['violation'][2]['label'],
            'replay': os.path.relpath(state['violation'][0], HERE)},
    }


if __name__ == '__main__':
    sys.exit(main())
