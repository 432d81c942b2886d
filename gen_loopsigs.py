"""writes loopsigs.json and localnames.json: what the loops of the functions under contract look like and their local variables,
for engine/align.py"""
import json
import os
from check import load_contracts
from engine.program import Program
from engine.ev import loops_of
from engine.align import signatures, tokens, functions, locals_of
HERE = os.path.dirname(os.path.abspath(__file__))
prog = Program(os.environ.get('VERIF_REPO', '/repo'))
out = {}
for c in load_contracts():
    for q in [c.qual] + list(getattr(c, 'inner_loops', ())) if hasattr(c, 'qual') else []:
        try:
            n = prog.find(q)[2]
        except Exception:
            continue
        ls = loops_of(n)
        if ls:
            out[q] = [sorted(x) for x in signatures(ls)]
json.dump(out, open(os.path.join(HERE, 'loopsigs.json'), 'w'), indent=0, sort_keys=True)
print(len(out))
names = {}
for m in prog.mods.values():
    for q, n in functions(m.tree, m.path):
        if locals_of(n):
            names[q] = tokens(n)
json.dump(names, open(os.path.join(HERE, 'localnames.json'), 'w'), separators=(',', ':'), sort_keys=True)
print(len(names))
