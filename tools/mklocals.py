"""specs/locals.json: the local names of every function under contract on the verified tree, in order of first assignment, each with a
fingerprint of what it is first bound to.  Only hints for the proof (invariants, ghost code) are matched through it; run with python3-vt."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.check import load_specs, ROOT
from pyvc.engine import local_prints, loop_header, loops_of, Unsupported
f = os.path.join(ROOT, 'specs', 'locals.json')
if os.path.exists(f):
    os.remove(f)
v = load_specs()
out = {'$loops': {}}
for c in v.variants.values():
    if c.kind == 'lemma' or c.key in out:
        continue
    try:
        fn, _ = v.find_function(c.key)
    except Unsupported:
        print('no source:', c.key)
        continue
    p, l = local_prints(fn.node), [loop_header(n) for n in loops_of(fn.node)]
    if p:
        out[c.key] = p
    if l:
        out['$loops'][c.key] = l
json.dump(out, open(f, 'w'), indent=0, sort_keys=True, ensure_ascii=False)
print(len(out), 'functions')
