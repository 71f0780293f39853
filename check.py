#!/opt/venv/bin/python
"""check.py <ID> quick|thorough   decide one property on /repo's current tree
   check.py --replay FILE         re-run a reported counterexample on the real code
   check.py --list                properties and cases"""
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '4')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
PY = sys.executable
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def find_case(pid, key):
    from vp import driver
    for c in driver.CASES.get(pid, []):
        if c.key == key:
            return c
    raise KeyError(key)


# ------------------------------------------------------------ concrete child
def conc_main(jobfile, outfile):
    import faulthandler
    with open(jobfile) as f:
        job = json.load(f)
    from vp import build, driver
    import warnings
    warnings.simplefilter('ignore')
    build.install()
    driver.load_harnesses()
    c = find_case(job['pid'], job['case'])
    with open(outfile, 'w') as out:
        for i, r in enumerate(job['runs']):
            out.write(json.dumps({'start': i}) + '\n')
            out.flush()
            res = driver.run_conc(c, r['inputs'], r['seed'])
            out.write(json.dumps({'done': i, 'res': res}, default=str) + '\n')
            out.flush()


def run_conc_batch(pid, key, runs, timeout):
    """list of result dicts (None where not run); a crash is a result"""
    results = [None] * len(runs)
    todo = list(range(len(runs)))
    t_end = time.time() + timeout
    while todo:
        with tempfile.TemporaryDirectory(prefix='vpc_') as d:
            jf, of = os.path.join(d, 'job'), os.path.join(d, 'out')
            with open(jf, 'w') as f:
                json.dump({'pid': pid, 'case': key, 'runs': [runs[i] for i in todo]}, f)
            left = t_end - time.time()
            if left < 5:
                break
            hung = False
            try:
                p = subprocess.run([PY, os.path.join(HERE, 'check.py'), '--conc', jf, of], cwd=d,
                                   capture_output=True, text=True, timeout=left)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                rc, err, hung = None, '', True
            started, done = None, set()
            try:
                with open(of) as f:
                    for line in f:
                        try:
                            m = json.loads(line)
                        except ValueError:
                            continue
                        if 'start' in m:
                            started = m['start']
                        else:
                            done.add(m['done'])
                            results[todo[m['done']]] = m['res']
            except OSError:
                pass
            if rc == 0:
                break
            if started is None:
                return results, 'concrete run could not start: ' + err[-800:]
            k = todo[started]
            if started in done:
                break
            if hung:
                results[k] = {'status': 'hang', 'inputs': runs[k]['inputs'], 'label': 'no answer in time'}
                break
            results[k] = {'status': 'violation' if rc is not None and rc < 0 else 'error', 'inputs': runs[k]['inputs'],
                          'seed': runs[k]['seed'],
                          'label': 'the process died (exit %s) %s' % (rc, err[-300:] if rc is not None and rc >= 0 else '')}
            todo = todo[started + 1:]
    return results, None


# ------------------------------------------------------------ one case
def worker(pid, key, deadline, outfile):
    from vp import driver
    driver.load_harnesses()
    c = find_case(pid, key)
    os.setpgid(0, 0)
    res = driver.explore(c, min(deadline, time.time() + c.budget))
    with open(outfile + '.part', 'w') as f:
        json.dump(res, f, default=str)
    conc_phase(c, res, max(60, min(240, deadline + 60 - time.time())))
    with open(outfile, 'w') as f:
        json.dump(res, f, default=str)


def conc_phase(c, res, timeout):
    runs, tag = [], []
    k = 0
    for cand in res['cands']:
        if not cand.get('unknown'):
            runs.append({'inputs': cand['inputs'], 'seed': SEED * 1000 + k})
            tag.append('candidate')
        ch = {n: v for n, v in cand['inputs'].items() if n.startswith('choice:')}
        for j in range(4):
            k += 1
            runs.append({'inputs': ch, 'seed': SEED * 1000 + k})
            tag.append('candidate')
    for w in res['witnesses']:
        k += 1
        runs.append({'inputs': w, 'seed': SEED * 1000 + k})
        tag.append('witness')
    n = 3 if not res['unsupported'] and res['complete'] else max(3, c.samples)
    for j in range(n):
        k += 1
        runs.append({'inputs': {}, 'seed': SEED * 1000 + 500 + k})
        tag.append('battery')
    out, err = run_conc_batch(c.pid, c.key, runs, timeout)
    res['conc_error'] = err
    res['conc'] = {'ok': 0, 'skip': 0, 'empty': 0, 'error': 0, 'notrun': 0, 'hang': 0, 'violation': 0}
    res['violations'] = []
    res['errors'] = []
    res['samples'] = []
    for t, r, job in zip(tag, out, runs):
        if r is None:
            res['conc']['notrun'] += 1
            continue
        res['conc'][r['status']] = res['conc'].get(r['status'], 0) + 1
        if r['status'] == 'violation':
            r['origin'] = t
            # keep a run replayable from its recorded inputs alone
            r['job'] = {'inputs': dict(job['inputs'], **r.get('inputs', {})), 'seed': job['seed']}
            res['violations'].append(r)
        elif r['status'] in ('error', 'hang'):
            res['errors'].append(r)
        elif r['status'] == 'ok' and len(res['samples']) < 2:
            res['samples'].append({'origin': t, 'inputs': r['inputs']})


def load_known(pid):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == pid]
    except OSError:
        return []


def main(pid, tier):
    t0 = time.time()
    from vp import driver
    driver.load_harnesses()
    cases = [c for c in driver.CASES.get(pid, []) if tier == 'thorough' or c.tier == 'quick']
    only = os.environ.get('VP_CASE')
    if only:
        cases = [c for c in cases if re.search(only, c.key)]
    if not cases:
        print('no such property', pid)
        return 2
    limit = float(os.environ.get('VP_LIMIT', '360' if tier == 'quick' else '780'))
    deadline = t0 + limit
    from vp import build
    try:
        for s in build.EXTS:
            build.build_ext(s)
    except Exception as e:
        print('build:', e)
    scratch = tempfile.TemporaryDirectory(prefix='vpr_')
    ctx = mp.get_context('fork')
    pending = list(enumerate(cases))
    running, results = {}, {}
    ncpu = max(1, min(8, os.cpu_count() or 4))
    while pending or running:
        while pending and len(running) < ncpu:
            i, c = pending.pop(0)
            of = os.path.join(scratch.name, '%d.json' % i)
            p = ctx.Process(target=worker, args=(pid, c.key, deadline, of))
            p.start()
            running[i] = (p, c, of, time.time())
        for i, (p, c, of, ts) in list(running.items()):
            stuck = time.time() > max(deadline, ts) + 120 or time.time() - ts > c.budget + 330
            if p.is_alive() and stuck:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    p.kill()
                p.join()
            if not p.is_alive():
                p.join()
                del running[i]
                r = None
                try:
                    with open(of) as f:
                        r = json.load(f)
                except (OSError, ValueError):
                    try:
                        with open(of + '.part') as f:
                            r = json.load(f)
                        r.setdefault('unsupported', []).append('worker ended (exit %s) in the concrete phase' % p.exitcode)
                    except (OSError, ValueError):
                        r = {'case': c.key, 'paths': 0, 'obligations': 0, 'discharged': 0, 'transitions': 0, 'cands': [],
                             'witnesses': [], 'unsupported': ['worker ended (exit %s)' % p.exitcode], 'unknown': [],
                             'complete': False, 'queries': 0, 'solver_s': 0, 'functions': [], 'by_normal_form': 0}
                        try:
                            conc_phase(c, r, 120)
                        except Exception as e:
                            r['conc_error'] = str(e)
                r['params'] = c.params
                results[i] = r
        time.sleep(0.02)
    scratch.cleanup()
    return report(pid, tier, cases, [results[i] for i in sorted(results)], t0)


def report(pid, tier, cases, results, t0):
    known = load_known(pid)
    rc = 0
    nviol = 0
    reported = set()
    for k in known:
        k['seen'] = False
    for c, r in zip(cases, results):
        for v in r.get('violations', []):
            hit = None
            for k in known:
                if re.fullmatch(k['case'], c.key) and re.search(k['label'], v['label']):
                    hit = k
                    break
            if hit:
                hit['seen'] = True
                continue
            sig = (c.name, re.split(r'[\[:]', v['label'])[0][:60])
            nviol += 1
            if sig in reported or len(reported) >= 5:
                continue
            reported.add(sig)
            d = os.path.join(HERE, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (pid, len(reported)))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'case': c.key, 'label': v['label'], 'origin': v.get('origin'), 'job': v['job'],
                           'tb': v.get('tb')}, f, indent=1)
            print('case %s: %s (%s)' % (c.key, v['label'][:300], v.get('origin')))
            for l in v.get('tb') or []:
                print('    ' + l)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    tot = lambda f: sum(r.get(f, 0) or 0 for r in results)
    inc = []
    for r in results:
        if not r.get('complete') or r.get('conc_error') or r.get('errors'):
            inc.append({'case': r['case'], 'unsupported': r.get('unsupported'), 'unknown': r.get('unknown'),
                        'unconfirmed': [x['label'] for x in r.get('cands', [])][:5], 'conc_error': r.get('conc_error'),
                        'errors': [(e.get('status'), e.get('label'), e.get('tb')) for e in r.get('errors', [])][:3]})
    cov = {
        'states': tot('paths'), 'transitions': tot('transitions'),
        'traces_validated_against_impl': sum(r.get('conc', {}).get('ok', 0) for r in results),
        'samples': [dict(s, case=r['case']) for r in results for s in r.get('samples', [])[:1]][:6],
        'obligations': tot('obligations'), 'discharged': tot('discharged'),
        'discharged_by_normal_form': tot('by_normal_form'),
        'queries': tot('queries'), 'solver_s': round(tot('solver_s'), 3),
        'functions_encoded': sorted({f for r in results for f in r.get('functions', [])}),
        'bounds': [{'case': r['case'], 'params': r.get('params'), 'paths': r.get('paths'), 'complete': r.get('complete'),
                    'obligations': r.get('obligations'), 'wall_s': r.get('wall')} for r in results],
        'inconclusive': inc,
        'reachable_cases': sum(1 for r in results if r.get('witnesses')),
        'concrete_runs': {k: sum(r.get('conc', {}).get(k, 0) for r in results) for k in
                          ('ok', 'skip', 'empty', 'error', 'notrun', 'hang', 'violation')},
        'explanation': 'states = symbolic paths completed; transitions = branch decisions on them; every obligation of '
                       'every path is decided by z3 (those whose sides have one normal form reduce to a constant)',
    }
    notes = sorted({c.note for c in cases if c.note})
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['exact real arithmetic stands for floating point (rounding error is outside the model)',
                          'numpy/scipy/h5py primitives behave as their documented mathematical functions'] + notes,
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths, %d/%d obligations discharged (%d by normal form), %d queries, %.1f s solver, '
          '%d concrete runs ok, %d inconclusive cases, %.1f s' % (
              pid, tier, len(results), cov['states'], cov['discharged'], cov['obligations'],
              cov['discharged_by_normal_form'], cov['queries'], cov['solver_s'], cov['traces_validated_against_impl'],
              len(inc), ev['wall_s']))
    for x in inc:
        print('  inconclusive:', json.dumps(x, default=str)[:700])
    return rc


def replay(path):
    with open(path) as f:
        r = json.load(f)
    out, err = run_conc_batch(r['property'], r['case'], [r['job']], 300)
    print(json.dumps(out[0], indent=1, default=str) if out[0] else err)
    return 1 if out[0] and out[0]['status'] == 'violation' else 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--conc':
        conc_main(a[1], a[2])
        sys.exit(0)
    if a[0] == '--replay':
        sys.exit(replay(a[1]))
    if a[0] == '--list':
        from vp import driver
        driver.load_harnesses()
        for p in sorted(driver.CASES):
            for c in driver.CASES[p]:
                print(p, c.tier, c.key)
        sys.exit(0)
    sys.exit(main(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))
