"""usage: run.py PROP --seed S --worker K --workers N --budget SECONDS --out FILE
          run.py --replay FILE"""
import argparse
import contextlib
import importlib
import io
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
warnings.simplefilter('ignore')
ALARM = 60


def hang(*a):
    raise TimeoutError('no result after %d s' % ALARM)


def one(fn, name, i, seed, base):
    t = base.Tester(name, i, seed)
    signal.signal(signal.SIGALRM, hang)
    signal.alarm(ALARM)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(t)
        return t, None
    except base.Fail as e:
        return t, {'what': str(e)[:3000]}
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.format_exc()
        return t, {'what': 'raised %s: %s' % (type(e).__name__, str(e)[:500]), 'traceback': tb[-3000:]}
    finally:
        signal.alarm(0)


def known(prop):
    """failures recorded in known_findings.txt: substrings of the failure text, per test"""
    out = []
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--worker', type=int, default=0)
    ap.add_argument('--workers', type=int, default=1)
    ap.add_argument('--budget', type=float, default=5)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    from concrete import base
    os.chdir(tempfile.mkdtemp(prefix='verif_concrete_'))
    if a.replay:
        r = json.load(open(a.replay))
        r = r.get('concrete', r)
        if os.environ.get('PYTHONHASHSEED') != str(r['hashseed']):
            os.environ['PYTHONHASHSEED'] = str(r['hashseed'])
            os.execv(sys.executable, [sys.executable] + sys.argv)
        mod = importlib.import_module('concrete.' + r['property'].lower())
        fn = dict(mod.TESTS)[r['test']]
        t, f = one(fn, r['test'], r['i'], r['seed'], base)
        for k, v in t.notes:
            print('%s = %s' % (k, v))
        print('FAILS: ' + f['what'] if f else 'holds')
        if f and 'traceback' in f:
            print(f['traceback'])
        sys.exit(1 if f else 0)
    res = {'tests': {}, 'failure': None, 'property': a.prop, 'samples': []}
    t0 = time.time()
    try:
        mod = importlib.import_module('concrete.' + a.prop.lower())
    except BaseException:
        # the tested package itself may fail to import
        tb = traceback.format_exc()
        res['failure'] = {'property': a.prop, 'test': 'import', 'i': 0, 'seed': a.seed, 'hashseed': os.environ.get('PYTHONHASHSEED'), 'what': 'import fails', 'traceback': tb, 'notes': []}
        json.dump(res, open(a.out, 'w'))
        return
    tests = [(n, f) for n, f in mod.TESTS if not a.only or n == a.only]
    counts = {n: 0 for n, _ in tests}
    distinct = set()
    spent = {n: 0.0 for n, _ in tests}
    i = a.worker
    while not res['failure']:
        n, f = min(tests, key=lambda x: (spent[x[0]] if counts[x[0]] else -1))
        k = counts[n] * a.workers + a.worker
        t1 = time.time()
        t, fail = one(f, n, k, a.seed, base)
        spent[n] += time.time() - t1 + 1e-6
        counts[n] += 1
        distinct.add(hash((n, str(t.notes))))
        if len(res['samples']) < 2 and counts[n] == 5:
            res['samples'].append({'test': n, 'i': k, 'inputs': dict((x, y[:300]) for x, y in t.notes)})
        for key, what in t.knowns:
            line = next((l for l in known(a.prop) if key in l), None)
            if line is None:
                fail = fail or {'what': '%s: %s' % (key, what)}
            elif line.split(' ', 2)[2] not in res.setdefault('known', []):
                res['known'].append(line.split(' ', 2)[2])
        if fail:
            res['failure'] = dict(fail, property=a.prop, test=n, i=k, seed=a.seed, hashseed=os.environ.get('PYTHONHASHSEED', 'random'), notes=t.notes)
            break
        if time.time() - t0 > a.budget and min(counts.values()) > 0:
            break
    res['tests'] = counts
    res['distinct'] = len(distinct)
    res['wall'] = time.time() - t0
    out = a.out or '/dev/stdout'
    json.dump(res, open(out, 'w'), indent=1)


if __name__ == '__main__':
    d = os.getcwd()
    try:
        main()
    finally:
        w = os.getcwd()
        if os.path.basename(w).startswith('verif_concrete_'):
            os.chdir(d)
            import shutil
            shutil.rmtree(w, ignore_errors=True)
