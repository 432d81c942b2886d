#!/usr/bin/env python3-vt
"""check.py PROP [--thorough]: decides one property for /repo's current working tree.

Deductive part: every contract tagged with the property, and every contract those rely on, is
verified against the body of its function as it stands in /repo (engine/), obligation by obligation.
Concrete part: the same contracts' definitions judge the real code on generated inputs
(concrete/, run by the interpreter fca is installed for); it supplies failing inputs for
failed obligations and is the bounded stand-in for functions listed as such in propconf.py."""
import glob
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CORES = max(2, min(8, os.cpu_count() or 2))
stop = mp.Value('i', 0)         # set when a failing input is known: the remaining obligations are not attempted


def load_contracts():
    cs = []
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n != '__init__':
            cs += getattr(importlib.import_module('contracts.' + n), 'contracts', [])
    return cs


def verify_one(c, prog, reg, loops, out, sem, deadline, scale):
    """runs in its own process: generate the obligations of one contract and discharge them"""
    from engine import solve
    t0 = time.time()
    r = {'label': c.label, 'qual': c.qual, 'obligations': [], 'used': [], 'inlined': [], 'gen_s': 0, 'paths': 0}
    try:
        def late(*_):
            raise TimeoutError('generating the obligations takes too long')
        signal.signal(signal.SIGALRM, late)
        with sem:
            signal.alarm(max(20, int(deadline - time.time())))
            it = c.verify(prog, reg, loops)
            signal.alarm(0)
        r['gen_s'] = time.time() - t0
        r['paths'] = getattr(it, 'paths', 0)
        r['used'] = sorted(it.used_contracts)
        r['inlined'] = sorted(it.inlined)
        obs = list(it.obligations.items())
        if not obs:
            r['error'] = 'no obligation was generated'
    except BaseException:
        r['error'] = traceback.format_exc()[-3000:]
        json.dump(r, open(out, 'w'))
        return
    nproc = max(1, min(CORES, len(obs) // 12))
    counter = mp.Value('i', 0)

    def solver(k):
        res = []
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(obs) + 1:
                break
            if i == len(obs):
                with sem:
                    res.append(('vacuous', bool(it.exits) and solve.vacuous(it.exits)))
                continue
            key, ob = obs[i]
            with sem:
                try:
                    if stop.value:
                        d = {'status': 'skipped', 'backend': None, 'time': 0, 'reason': 'a failing input was found first', 'axioms': []}
                    elif time.time() > deadline:
                        d = {'status': 'failed', 'backend': None, 'time': 0, 'reason': 'out of time', 'axioms': []}
                    else:
                        d = solve.discharge(ob, scale)
                except BaseException:
                    d = {'status': 'failed', 'backend': None, 'time': 0, 'reason': traceback.format_exc()[-1500:], 'axioms': []}
            d.update(name=ob.name, kind=ob.kind, line=ob.line, index=i)
            if d['status'] == 'failed':
                d['goal'] = str(ob.goal)[:3000]
                d['hyps'] = [str(h)[:400] for h in ob.hyps][-60:]
            res.append(d)
        json.dump(res, open('%s.%d' % (out, k), 'w'))

    ps = []
    for k in range(nproc):
        p = mp.Process(target=solver, args=(k,))
        p.start()
        ps.append(p)
    for p in ps:
        p.join()
    seen = set()
    for k in range(nproc):
        f = '%s.%d' % (out, k)
        if os.path.exists(f):
            for d in json.load(open(f)):
                if isinstance(d, list):
                    r['vacuous'] = d[1]
                else:
                    r['obligations'].append(d)
                    seen.add(d['index'])
    for i, (key, ob) in enumerate(obs):
        if i not in seen:
            r['obligations'].append({'status': 'failed', 'name': ob.name, 'kind': ob.kind, 'line': ob.line, 'index': i, 'backend': None, 'time': 0, 'reason': 'the solver process ended', 'axioms': []})
    r['obligations'].sort(key=lambda d: d['index'])
    r['wall_s'] = time.time() - t0
    json.dump(r, open(out, 'w'))


def prove(prop, tmp, deadline, scale, all_=False, only=None, enough=None):
    from engine.program import Program
    cs = load_contracts()
    prog = Program(REPO)
    reg, loops, by = {}, {}, {}
    for c in cs:
        reg.setdefault(c.qual, []).append(c)
        loops.setdefault(c.qual, c.loops)
        by[c.label] = c
    todo = [c.label for c in cs if (all_ or prop in c.props) and (only is None or only in c.label)]
    seen, results, running = set(), {}, {}
    trusted = set()
    sem = mp.Semaphore(CORES)
    n = 0
    todo = list(todo)
    while todo or running:
        while todo and len(running) < 2 * CORES:
            l = todo.pop(0)
            if l in seen:
                continue
            seen.add(l)
            c = by[l]
            if c.trusted:
                trusted.add('%s: %s' % (l, c.trusted))
                continue
            n += 1
            out = os.path.join(tmp, 'c%d.json' % n)
            p = mp.Process(target=verify_one, args=(c, prog, reg, loops, out, sem, deadline, scale))
            p.start()
            running[l] = (p, out)
        time.sleep(0.02)
        if enough is not None and not stop.value and enough():
            stop.value = 1
        for l, (p, out) in list(running.items()):
            if not p.is_alive():
                p.join()
                del running[l]
                try:
                    results[l] = json.load(open(out))
                except Exception as e:
                    results[l] = {'label': l, 'qual': by[l].qual, 'obligations': [], 'used': [], 'inlined': [], 'error': 'the verifier process ended: %s' % e, 'gen_s': 0}
                if only is None:
                    todo += [u for u in results[l]['used'] if u not in seen]
                    # lemmas the solvers were given are obligations too
                    todo += sorted({'lemma:' + a for d in results[l]['obligations'] for a in d.get('axioms', []) if 'lemma:' + a in by} - seen)
    return results, trusted


def failures(results):
    out = []
    for l, r in results.items():
        if r.get('error'):
            out.append({'contract': l, 'name': 'verification of the function', 'reason': r['error']})
        if r.get('vacuous'):
            out.append({'contract': l, 'name': 'some normal exit is reachable', 'reason': 'the hypotheses of every exit contradict each other'})
        for d in r['obligations']:
            if d['status'] not in ('proved', 'skipped'):
                out.append(dict(d, contract=l))
    return out


class Concrete:
    def __init__(self, prop, tmp, workers, budget, seed, tag='', only=None, grace=240):
        self.procs = []
        self.seen = set()
        env = dict(os.environ)
        env.setdefault('OPENBLAS_NUM_THREADS', '1')
        for k in range(workers):
            out = os.path.join(tmp, 'conc%s%d.json' % (tag, k))
            e = dict(env, PYTHONHASHSEED=str((int(seed) * 1009 + k * 7919) % 4294967295), VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
            cmd = [PY, os.path.join(HERE, 'concrete', 'run.py'), prop, '--seed', '%s%s' % (seed, tag), '--worker', str(k), '--workers', str(workers), '--budget', str(budget), '--out', out]
            if only:
                cmd += ['--only', only]
            log = open(out + '.log', 'w')
            self.procs.append((subprocess.Popen(cmd, env=e, stdout=log, stderr=log, start_new_session=True), out))
        self.limit = time.time() + budget + grace

    def failed(self):
        """has a worker found a failing input?"""
        for p, out in self.procs:
            if p.poll() is not None and out not in self.seen:
                self.seen.add(out)
                try:
                    if json.load(open(out))['failure']:
                        return True
                except Exception:
                    pass
        return False

    def wait(self):
        res = []
        for p, out in self.procs:
            try:
                p.wait(max(1, self.limit - time.time()))
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            try:
                res.append(json.load(open(out)))
            except Exception:
                log = open(out + '.log').read()[-2000:] if os.path.exists(out + '.log') else ''
                res.append({'tests': {}, 'failure': None, 'error': 'worker gave no result (exit %s): %s' % (p.returncode, log), 'distinct': 0, 'samples': []})
        return res


def confirm(f, tmp):
    """re-run a failing input on its own"""
    p = os.path.join(tmp, 'confirm.json')
    json.dump(f, open(p, 'w'))
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONHASHSEED=str(f['hashseed']), PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run([PY, os.path.join(HERE, 'concrete', 'run.py'), '--replay', p], env=env, capture_output=True, text=True, timeout=150)
        return r.returncode == 1, (r.stdout + r.stderr)[-4000:]
    except subprocess.TimeoutExpired:
        return True, 'the replay does not end within 150 s'


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = 'thorough' if '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from propconf import PROPS, ENGINE_ASSUMPTIONS, ENGINE_TRUST
    conf = PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    quick = tier == 'quick'
    try:
        conc = Concrete(prop, tmp, 2 if quick else 4, conf.get('budget', 14) if quick else 150, seed)
        results, trusted = prove(prop, tmp, t0 + (330 if quick else 3000), 1.0 if quick else 3.0, enough=conc.failed)
        fails = failures(results)
        cres = conc.wait()
        if fails and len(fails) <= 12 and not any(r['failure'] for r in cres):
            # once more, with more time for the solvers: a failure must not be an effect of load
            again, _ = retry(prop, {f['contract'] for f in fails}, tmp, t0 + (450 if quick else 4000), 4.0)
            results.update(again)
            fails = failures(results)
        runs = list(cres)
        hit = next((r['failure'] for r in cres if r['failure']), None)
        errors = [r['error'] for r in cres if r.get('error')]
        if fails and not hit:
            more = Concrete(prop, tmp, CORES, 75 if quick else 400, seed, tag='x', grace=75).wait()
            runs += more
            hit = next((r['failure'] for r in more if r['failure']), None)
        replay_text = None
        if hit:
            ok, replay_text = confirm(hit, tmp)
            if not ok:
                replay_text = 'NOT REPRODUCED in a run of its own (the failure may depend on earlier inputs of the same process)\n' + replay_text
        violation = bool(hit or fails or errors)
        obs = [d for r in results.values() for d in r['obligations']]
        proved = [d for d in obs if d['status'] == 'proved']
        tests = {}
        for r in runs:
            for k, v in (r['tests'] or {}).items():
                tests[k] = tests.get(k, 0) + v
        backends = {}
        for d in proved:
            backends[d['backend']] = backends.get(d['backend'], 0) + 1
        axioms = sorted({a for d in proved for a in d['axioms'] if 'lemma:' + a not in results})
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': conf['level'],
            'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
            'assumptions': ENGINE_ASSUMPTIONS + conf.get('assumptions', []),
            'coverage': {
                'obligations': len(obs), 'discharged': len(proved),
                'checker_cmd': 'cd /verif && python3-vt check.py %s%s' % (prop, '' if quick else ' --thorough'),
                'trusted_base': ENGINE_TRUST + sorted('contract taken on trust: ' + x for x in trusted) + ['axiom: ' + a for a in axioms],
                'functions_under_contract': [
                    {'contract': l, 'obligations': len(r['obligations']), 'discharged': sum(d['status'] == 'proved' for d in r['obligations']),
                     'paths': r.get('paths', 0), 'solver_s': round(sum(d['time'] for d in r['obligations']), 2), 'generation_s': round(r['gen_s'], 2),
                     'relies_on_contracts': r['used'], 'inlined_bodies': r['inlined']} for l, r in sorted(results.items())],
                'backends': backends, 'solver_s': round(sum(d['time'] for d in obs), 2),
                'bounded_stand_ins': conf.get('bounded', []),
                'bounded_runs_on_real_code': {'evaluations': sum(tests.values()), 'by_test': tests, 'distinct_inputs': sum(r.get('distinct', 0) for r in runs),
                                              'rule': 'inputs come from concrete/%s.py (exhaustive small tables first, then random ones); counted as distinct by their recorded inputs' % prop.lower(),
                                              'samples': [s for r in runs for s in r.get('samples', [])][:3]},
                'evaluations': sum(tests.values()), 'distinct_nontrivial': sum(r.get('distinct', 0) for r in runs),
                'explanation': conf['explanation'],
            },
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        for r in runs:
            for k in r.get('known', []):
                if 'KNOWN:' + k not in tests:
                    tests['KNOWN:' + k] = 1
                    print('KNOWN-FINDING: property=%s %s' % (prop, k))
        print('%s: %d of %d obligations of %d contracts discharged; %d concrete inputs; %.1f s' % (prop, len(proved), len(obs), len(results), sum(tests.values()), time.time() - t0))
        for f in fails[:20]:
            print('failed obligation: %s: %s (line %s): %s' % (f['contract'], f['name'], f.get('line'), str(f.get('reason'))[-300:]))
        for e in errors:
            print('concrete worker: ' + e[-1500:])
        if violation:
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            path = os.path.join(HERE, 'replays', prop + '.json')
            doc = {'property': prop, 'failed_obligations': fails[:20]}
            if hit:
                doc['concrete'] = hit
                doc['replay_cmd'] = '%s %s/concrete/run.py --replay %s' % (PY, HERE, path)
                doc['replay_output'] = replay_text
                print('failing input (%s): %s' % (hit['test'], hit['what'][:1500]))
                for k, v in hit['notes'][:12]:
                    print('   %s = %s' % (k, v[:600]))
            else:
                doc['note'] = 'no failing input was found: the replay names the failed obligations and carries the verifier output'
                doc['errors'] = errors
            json.dump(doc, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if hit else ' no-failing-input-found'))
            sys.exit(1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def retry(prop, labels, tmp, deadline, scale):
    from engine.program import Program
    cs = load_contracts()
    prog = Program(REPO)
    reg, loops = {}, {}
    for c in cs:
        reg.setdefault(c.qual, []).append(c)
        loops.setdefault(c.qual, c.loops)
    sem = mp.Semaphore(CORES)
    ps = []
    for k, c in enumerate(c for c in cs if c.label in labels):
        out = os.path.join(tmp, 'r%d.json' % k)
        p = mp.Process(target=verify_one, args=(c, prog, reg, loops, out, sem, deadline, scale))
        p.start()
        ps.append((c.label, p, out))
    res = {}
    for l, p, out in ps:
        p.join()
        try:
            res[l] = json.load(open(out))
        except Exception:
            pass
    return res, None


if __name__ == '__main__':
    main()
