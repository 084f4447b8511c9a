"""Write MANIFEST.json from the properties claimed by the specification files.

  python3-vt tools/mkmanifest.py
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyvc.check import load_specs       # noqa: E402

NA = {
    'C22': 'the Spark pipeline is a lazily composed chain of pyspark RDD transformations executed by worker processes; its statement is about the '
           'composition of the semantics of zipWithIndex, join, flatMap, mapPartitionsWithIndex and the JVM shuffle, of which the repository holds only calls; a '
           'contract proof would assume all of that as axioms and prove nothing about the code',
}
v = load_specs()
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    d = json.loads(l)
    p = d['id']
    if p in v.props and p not in NA:
        q = v.props[p]
        note = (f'Deductive: verification conditions generated from the current source of the functions under contract ({len(q["labels"])} root contracts, their callees and lemmas), each discharged by Z3 or cvc5 for all inputs. '
                + ('Bounded, not proved: ' + '; '.join(q['bounded']) + '. ' if q['bounded'] else '')
                + ('Not covered: ' + '; '.join(q['not_covered']) + '. ' if q['not_covered'] else '')
                + 'Trusted: the generator pyvc with its models of Python and of library functions (listed in the evidence), the solvers, reals for floats. '
                + ('Assumed: ' + '; '.join(q['assume']) + '. ' if q['assume'] else '')
                + 'A bounded replay search on the real code accompanies the proof and supplies failing inputs; it is never counted as proof.')
        checks.append(dict(property=p, quick_cmd=f'python3-vt -m pyvc.check {p} --tier quick', thorough_cmd=f'python3-vt -m pyvc.check {p} --tier thorough',
                           technique='contract-based deductive verification (contracts on the real functions, VC generation from source, SMT)', level='proof', level_note=note))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'not yet under contract')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && z3-new --version && cvc5 --version | head -1', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
