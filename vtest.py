"""development aid: vtest.py modules regex [-v] [-d] [-q]"""
import sys, importlib, time, re, multiprocessing as mp
sys.path.insert(0,'/verif')
from engine.program import Program
from engine.core import *
from engine import solve
OBS = []
solve.FAST = '-f' in sys.argv


def one(k):
    return k, solve.discharge(OBS[k])


def gen(c, prog, reg, loops, i):
    t = time.time()
    it = c.verify(prog, reg, loops)
    return it, time.time() - t


def child(c, prog, reg, loops, v, q):
    global OBS
    import io, contextlib
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            t = time.time()
            it = c.verify(prog, reg, loops)
            dt = time.time() - t
            OBS = [(k, ob) for k, ob in it.obligations.items()]
            keys, OBS = [k for k, _ in OBS], [o for _, o in OBS]
            with mp.get_context('fork').Pool(v['j']) as p:
                rs = [r for _, r in sorted(p.imap_unordered(one, range(len(OBS))), key=lambda x: x[0])]
            bad = sum(r['status'] != 'proved' for r in rs)
            print('== %s %d obligations, %d open, %s paths, %.1fs gen %.1fs total%s' % (c.label, len(OBS), bad, getattr(it, 'paths', '?'), dt, time.time() - t, ' VACUOUS' if solve.vacuous(it.exits) else ''))
            for k, ob, r in zip(keys, OBS, rs):
                if r['status'] != 'proved' or v['v'] or (r['time'] > 3 and not v['q']):
                    print('  ', r['status'], '%.1f' % r['time'], ob.name, 'line', ob.line, k[0], r.get('reason', ''), r['backend'])
                    if v['d'] and r['status'] != 'proved':
                        for h in ob.hyps: print('      H', h)
                        print('      G', ob.goal)
            if v['v'] or v['u']:
                print('   used', sorted(it.used_contracts), 'inlined', sorted(it.inlined))
        except Exception as e:
            import traceback
            print('== %s EXCEPTION' % c.label)
            tb = traceback.format_exc().splitlines()
            print('\n'.join(tb if v['t'] else tb[-6:]))
    q.put((c.label, buf.getvalue()))


def main(mods, pat):
    cs = []
    for m in mods: cs += importlib.import_module('contracts.' + m).contracts
    prog = Program(os.environ.get('VERIF_REPO', '/repo'))
    reg, loops = {}, {}
    for c in cs:
        reg.setdefault(c.qual, []).append(c); loops.setdefault(c.qual, c.loops)
    todo = [c for c in cs if re.search(pat, c.label) and not c.trusted]
    v = {x: '-' + x in sys.argv for x in 'vdqut'}
    par = max(1, min(4, len(todo)))
    v['j'] = max(2, 8 // par)
    q = mp.Queue()
    run = []
    todo = list(todo)
    left = len(todo)
    n = 0
    active = 0
    while left:
        while active < par and todo:
            p = mp.get_context('fork').Process(target=child, args=(todo.pop(0), prog, reg, loops, v, q)); p.start(); active += 1
        lab, out = q.get()
        active -= 1
        left -= 1
        print(out, end='', flush=True)


main(sys.argv[1].split(','), sys.argv[2] if len(sys.argv) > 2 else '')
