"""Check of one property: contracts -> obligations from the current source -> solvers; then the bounded replay search.

  python3-vt -m pyvc.check C18 [--tier quick|thorough] [--only LABEL] [--no-refute] [--verbose]
"""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

from pyvc import solve                                          # noqa: E402
from pyvc.engine import Contract, Unsupported, local_prints, match_names                # noqa: E402
from pyvc.values import Unsupported                             # noqa: E402
from pyvc.verify import Verifier                                # noqa: E402

PY = '/opt/venv/bin/python'
REPO = os.environ.get('NLC_REPO', '/repo')
EVID = os.path.join(ROOT, 'evidence')


import z3                                                       # noqa: E402
z3.set_param("warning", False)


class Specs(Verifier):
    """the contracts of all specification files"""

    def __init__(self):
        super().__init__(REPO)
        self.variants = {}          # label -> contract
        self.props = {}             # property -> dict
        self.replaced = set()

    def contract(self, key, label=None, default=True, variant=False, **kw):
        c = Contract(key, label=label or key, **kw)
        c.order = len(self.lemmas)
        if c.label in self.variants:
            raise ValueError(f'duplicate contract {c.label}')
        self.variants[c.label] = c
        if variant:
            self.alt.setdefault(key, []).append(c)
        elif default:
            if key in self.contracts:
                raise ValueError(f'second default contract for {key}')
            self.contracts[key] = c
        return c

    def prop(self, pid, labels=(), lemmas=(), **kw):
        p = self.props.setdefault(pid, dict(labels=[], lemmas=[], bounded=[], not_covered=[], assume=[]))
        p['labels'] += list(labels)
        p['lemmas'] += list(lemmas)
        for k, v in kw.items():
            p.setdefault(k, [])
            p[k] += v

    def renamed_params(self):
        """contracts follow parameters that were renamed in place"""
        for c in self.variants.values():
            base = self.baseline_locals.get(c.key)
            if not base or c.trusted or c.kind == 'lemma':
                continue
            try:
                fn, _ = self.find_function(c.key)
            except Unsupported:
                continue
            now = local_prints(fn.node)
            was = [n for n, w in base if w.startswith('#')]
            cur = [n for n, w in now if w.startswith('#')]
            if was == cur or len(was) != len(cur):
                continue
            al = match_names(base, now)
            ren = {a: b for a, b in zip(was, cur) if a != b and al.get(a) == b}
            c.params = {ren.get(k, k): t for k, t in c.params.items()}
            c.consts = {ren.get(k, k): t for k, t in c.consts.items()}
            c.modifies = ['.'.join([ren.get(m.split('.')[0], m.split('.')[0])] + m.split('.')[1:]) for m in c.modifies]


def load_specs(files=None):
    v = Specs()
    lf = os.path.join(ROOT, 'specs', 'locals.json')
    if os.path.exists(lf):
        v.baseline_locals = json.load(open(lf))
        v.baseline_loops = v.baseline_locals.pop('$loops', {})
    d = os.path.join(ROOT, 'specs')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            spec = importlib.util.spec_from_file_location('specs_' + f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            m.load(v)
    v.renamed_params()
    return v


V = None
SOLVER = None


def gen_one(job):
    """worker: obligations of one contract or lemma as text"""
    kind, label = job
    v, s = V, SOLVER
    st = time.time()
    v.obls = []
    v.used_lemmas = set()
    v.used_contracts = set()
    v.inlined = set()
    v.libuse = set()
    s.used_axioms = set()
    res = dict(kind=kind, label=label, obls=[], error=None)
    con = v.lemma_by_name[label] if kind == 'lemma' else v.variants[label]
    try:
        v.verify(con)
    except Unsupported as x:
        res['error'] = f'{x} (line {v.cur_line})'
    except (RecursionError, Exception) as x:       # noqa
        res['error'] = f'internal: {type(x).__name__}: {x} (line {v.cur_line})'
        res['trace'] = traceback.format_exc()
    res['gen_error_time'] = time.time() - st
    if res['error'] is None or os.environ.get('PYVC_PARTIAL'):
        import z3
        reach = {}
        for ob in v.obls:
            if ob.expect_sat and ob.name in reach:      # another path to the same place
                reach[ob.name]['alts'].append(s.smt2(ob))
                continue
            d = dict(name=ob.name, kind=ob.kind, fn=label, line=ob.line, expect_sat=ob.expect_sat, status=None, backend=None, time=0.0, output='')
            if not ob.expect_sat and z3.is_true(z3.simplify(ob.goal)):
                d['status'], d['backend'] = 'proved', 'simplifier'
            else:
                try:
                    d['text'] = s.smt2(ob)
                    if ob.expect_sat:
                        d['alts'] = []
                        reach[ob.name] = d
                except Unsupported as x:
                    res['error'] = str(x)
                    break
            res['obls'].append(d)
    res.update(lemmas=sorted(v.used_lemmas), contracts=sorted(v.used_contracts), inlined=sorted(v.inlined),
               libuse=sorted(v.libuse), axioms=sorted(s.used_axioms), gen_time=time.time() - st, paths=getattr(con, 'paths', 0))
    return res


class Run:
    def __init__(self, v, jobs=8, stages=None, deadline=None):
        global V, SOLVER
        V = v
        self.v = v
        self.jobs = jobs
        self.tmp = tempfile.mkdtemp(prefix='pyvc')
        SOLVER = solve.Solver(v, jobs, self.tmp, stages)
        self.results = {}
        self.ex = ThreadPoolExecutor(jobs)
        self.futs = []
        self.lock = threading.Lock()
        self.cnt = 0
        self.deadline = deadline
        self.solver_time = 0.0

    def go(self, todo, fail_fast=False):
        seen = set(todo)
        ctx = mp.get_context('fork')
        self.failed = threading.Event()
        with ctx.Pool(self.jobs, maxtasksperchild=8) as pool:
            pend = {j: pool.apply_async(gen_one, (j,)) for j in todo}
            while pend:
                for j, r in list(pend.items()):
                    if not r.ready():
                        continue
                    del pend[j]
                    try:
                        res = r.get()
                    except Exception as x:      # noqa
                        res = dict(kind=j[0], label=j[1], obls=[], error=f'internal: {x}', lemmas=[], contracts=[], inlined=[], libuse=[], axioms=[], gen_time=0, paths=0)
                    self.results[j] = res
                    if res['error']:
                        self.failed.set()
                    for d in res['obls']:
                        if d['status'] is None:
                            self.futs.append(self.ex.submit(self.solve, d))
                    for c in res['contracts']:
                        con = self.v.variants[c]
                        k = ('code', con.label)
                        if k not in seen and not con.trusted:
                            seen.add(k)
                            pend[k] = pool.apply_async(gen_one, (k,))
                    for l in res['lemmas']:
                        k = ('lemma', l)
                        if k not in seen:
                            seen.add(k)
                            pend[k] = pool.apply_async(gen_one, (k,))
                time.sleep(0.01)
        for f in self.futs:
            f.result()
        self.ex.shutdown()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def solve(self, d):
        class Ob:
            pass
        ob = Ob()
        ob.expect_sat = d['expect_sat']
        text = d.pop('text')
        if self.deadline is not None and time.time() > self.deadline:
            d['status'], d['output'] = 'failed' if not ob.expect_sat else 'ok', 'not attempted: time limit of the check reached'
            return
        SOLVER.solve_one(ob, text)
        for alt in d.pop('alts', []):
            if ob.status != 'unreachable':
                break
            SOLVER.solve_one(ob, alt)
        d['status'], d['backend'], d['time'], d['output'] = ob.status, ob.backend, ob.time, ob.output
        if ob.status in ('failed', 'unreachable'):
            d['text'] = text
            self.failed.set()
        with self.lock:
            self.solver_time += ob.time or 0


class Refuter:
    """bounded replay searches in the background"""

    def __init__(self, pid, seed, seconds, procs, first=True):
        self.dir = tempfile.mkdtemp(prefix='refute')
        self.ps = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', NLC_REPO=REPO, PYTHONHASHSEED=str(seed), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        self.limit = seconds + 180
        for i in range(procs):
            out = os.path.join(self.dir, f'{i}.json')
            cmd = [PY, os.path.join(ROOT, 'refute', 'run.py'), pid, '--time', str(seconds), '--seed', str(seed * 1000 + i + (0 if first else 100)),
                   '--start', '0' if first and i == 0 else '1', '--out', out]
            self.ps.append((subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd='/tmp', start_new_session=True), out))

    def watch(self, found):
        """calls found() as soon as one of the searches has found a failing input"""
        def run():
            left = list(self.ps)
            while left:
                time.sleep(0.3)
                for p, out in list(left):
                    if p.poll() is None:
                        continue
                    left.remove((p, out))
                    try:
                        if json.loads(open(out).read().splitlines()[-1])['failure']:
                            return found()
                    except Exception:       # noqa
                        pass
        threading.Thread(target=run, daemon=True).start()

    def join(self):
        res = []
        for p, out in self.ps:
            try:
                p.wait(self.limit)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            try:
                res.append(json.loads(open(out).read().splitlines()[-1]))
            except Exception:       # noqa
                res.append(dict(evaluations=0, nontrivial=0, failure=None, samples=[], error=f'search ended without a report (status {p.returncode})'))
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)
        return res


TRUSTED = [
    'the verification condition generator pyvc (symbolic interpreter of the Python subset used by /repo) and its models of built-in and library functions, listed under library_models',
    'Z3 5.3.2, Z3 4.8.12 and cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)',
    'background theory of sequences, insertion-ordered dictionaries, counts and sums (pyvc/theory.py, pyvc/lib.py)',
    'floats are treated as mathematical reals; integers are unbounded as in Python',
    'generator functions are verified as eager sequences of the values they yield (interleaving with the consumer is not modelled)',
    'calls of log.* have no effect (their arguments are not evaluated) and tqdm is the identity on its iterable',
    'CPython itself, and the absence of memory exhaustion, signals and concurrent mutation of arguments',
]


def known_findings(pid):
    f = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid:
                    out.append(d)
    return out


def run_property(a):
    pid = a.prop
    st = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    quick = tier == 'quick'
    has_ref = os.path.exists(os.path.join(ROOT, 'refute', pid.lower() + '.py')) and not a.no_refute
    ref = Refuter(pid, seed, 12 if quick else 240, 2 if quick else 4) if has_ref else None
    problems, results = [], {}
    solver_time = 0.0
    try:
        v = load_specs()
        p = v.props[pid]
        todo = [('code', l) for l in p['labels']] + [('lemma', l) for l in p['lemmas']]
        r = Run(v, jobs=8, stages=None if quick else solve.THOROUGH, deadline=st + (400 if quick else 3000))
        if ref:         # the verdict is settled by a failing input: give the proof a little more time to name the obligations that fail
            ref.watch(lambda: setattr(r, 'deadline', min(r.deadline, time.time() + 60)))
        r.go(todo)
        results, solver_time = r.results, r.solver_time
    except Exception as x:      # noqa
        problems.append(dict(name=f'specifications can not be loaded against the current source: {type(x).__name__}: {x}', output=traceback.format_exc()[-3000:]))
        v, p = None, dict(labels=[], lemmas=[], bounded=[], not_covered=[], assume=[])
    obls = [d for res in results.values() for d in res['obls']]
    real = [d for d in obls if not d['expect_sat']]
    for (k, l), res in sorted(results.items()):
        if res['error']:
            problems.append(dict(name=f'{l}: no obligations: {res["error"]}', output=res.get('trace', '')))
        for d in res['obls']:
            if d['status'] == 'failed':
                problems.append(dict(name=d['name'], line=d['line'], output=d['output'], smt2=d.get('text', '')))
            elif d['status'] == 'unreachable':
                problems.append(dict(name=d['name'] + ' (contradictory hypotheses)', line=d['line'], output=d['output']))
    if v is not None and not real:
        problems.append(dict(name='no obligation was generated', output=''))
    refs = ref.join() if ref else []
    fails = [x['failure'] for x in refs if x['failure']]
    if problems and has_ref and not fails:
        more = Refuter(pid, seed, 75 if quick else 300, 7, first=False).join()
        refs += more
        fails = [x['failure'] for x in more if x['failure']]
    deadrefs = [x['error'] for x in refs if x['error']]
    discharged = sum(1 for d in real if d['status'] == 'proved')
    backs = {}
    for d in real:
        if d['status'] == 'proved':
            backs[d['backend']] = backs.get(d['backend'], 0) + 1
    violations = 0
    lines = []
    for kf in known_findings(pid):
        if kf.get('status') == 'open':
            lines.append(f"KNOWN-FINDING: property={pid} {kf['what']}")
    if fails:
        violations = len(fails)
        rp = os.path.join(EVID, 'replay', f'{pid}.json')
        json.dump(dict(property=pid, case=fails[0]['case'], error=fails[0]['error'], trace=fails[0].get('trace', ''), failed_obligations=[x['name'] for x in problems][:40],
                       replay_cmd=f'{PY} {ROOT}/refute/run.py {pid} --replay {rp}'), open(rp, 'w'), indent=1)
        print(f"{pid}: failing input: {json.dumps(fails[0]['case'])[:600]}\n{pid}: {fails[0]['error'][:1500]}")
        for x in problems[:5]:
            print(f'{pid}: failed obligation: {x["name"][:400]}')
        lines.append(f'VIOLATION property={pid} replay={rp}')
    elif problems:
        violations = len(problems)
        rp = os.path.join(EVID, 'replay', f'{pid}.obligation.txt')
        with open(rp, 'w') as f:
            for x in problems:
                f.write(f'FAILED OBLIGATION {x["name"]}\n  line {x.get("line")}\n  verifier output: {x["output"]}\n\n')
            for x in problems[:3]:
                if x.get('smt2'):
                    f.write(f'; ---- {x["name"]}\n{x["smt2"]}\n')
        for x in problems[:12]:
            print(f'{pid}: failed obligation: {x["name"][:600]}')
        lines.append(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
    contracts = sorted(l for k, l in results if k == 'code')
    trusted_contracts = sorted(c for c in {c for res in results.values() for c in res['contracts']} if v and v.variants[c].trusted) if v else []
    libuse = sorted({x for res in results.values() for x in res['libuse']})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=len(real), discharged=discharged,
            reachability_checks=sum(1 for d in obls if d['expect_sat']),
            checker_cmd=f'python3-vt -m pyvc.check {pid} --tier {tier}',
            trusted_base=TRUSTED + [f'trusted contract (not verified): {c}: {v.variants[c].note}' for c in trusted_contracts],
            functions_under_contract=contracts,
            functions_inlined=sorted({x for res in results.values() for x in res['inlined']}),
            lemmas=sorted(l for k, l in results if k == 'lemma'),
            by_backend=backs, solver_time_s=round(solver_time, 2),
            library_models=libuse,
            library_axioms=[f'{n}: {w}' for n, _, w in (v.lib_axioms if v else [])],
            paths=sum(res['paths'] for res in results.values()),
            per_contract={l: dict(obligations=len(res['obls']), gen_s=round(res['gen_time'], 2), error=res['error']) for (k, l), res in sorted(results.items())},
            bounded_search=dict(label='bounded: replay search on the real code, never counted as proved', evaluations=sum(x['evaluations'] for x in refs),
                                distinct_nontrivial=sum(x['nontrivial'] for x in refs), rule=next((x.get('rule') for x in refs if x.get('rule')), ''),
                                samples=[s for x in refs for s in x['samples']][:4], errors=deadrefs),
            bounded_functions=p['bounded'], not_covered=p['not_covered'],
            samples=[d['name'][:300] for d in real[:3]],
        ),
        assumptions=p['assume'] + libuse,
        wall_s=round(time.time() - st, 2), violations=violations)
    json.dump(ev, open(os.path.join(EVID, f'{pid}.json'), 'w'), indent=1)
    print(f'{pid}: {discharged}/{len(real)} obligations discharged over {len(contracts)} contracts, solver {solver_time:.1f}s; bounded search {sum(x["evaluations"] for x in refs)} inputs; wall {ev["wall_s"]}s')
    for l in lines:
        print(l)
    if deadrefs and not fails and not problems and all(x['error'] for x in refs):
        print(f'{pid}: the replay search gave no report: {deadrefs[0]}')
        sys.exit(2)
    sys.exit(1 if violations else 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', action='append')
    ap.add_argument('--lemma', action='append')
    ap.add_argument('--no-refute', action='store_true')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--keep', help='directory for the text of failed obligations')
    ap.add_argument('--fast', action='store_true')
    ap.add_argument('--no-deps', action='store_true')
    ap.add_argument('--dev', action='store_true', help='development: list every contract, no evidence')
    a = ap.parse_args()
    if not (a.dev or a.only or a.lemma):
        return run_property(a)
    st = time.time()
    v = load_specs()
    if a.only or a.lemma:
        todo = [('code', l) for c in (a.only or []) for l in v.variants if l == c or (c.endswith('*') and l.startswith(c[:-1]))] + [('lemma', l) for l in (a.lemma or [])]
    else:
        p = v.props[a.prop]
        todo = [('code', l) for l in p['labels']] + [('lemma', l) for l in p['lemmas']]
    r = Run(v, stages=solve.FAST if a.fast else None)
    if a.no_deps:
        v.lemma_by_name_keep = True
    r.go(todo)
    nf = 0
    for (k, l), res in sorted(r.results.items()):
        o = res['obls']
        nf += report(res, a, v)
    print(f'{a.prop}: wall {time.time() - st:.1f}s, solver {r.solver_time:.1f}s, {sum(len(x["obls"]) for x in r.results.values())} obligations, {nf} problems')
    sys.exit(1 if nf else 0)


def report(res, a, v):
    o = res['obls']
    bad = [d for d in o if d['status'] in ('failed', 'unreachable')]
    slow = sorted(o, key=lambda d: -d['time'])[:3]
    print(f'{"FAIL" if bad or res["error"] else "ok  "} {res["kind"]} {res["label"]}: {len(o)} obligations, gen {res["gen_time"]:.1f}s, paths {res["paths"]}, slowest ' + ', '.join(f'{d["time"]:.1f}s' for d in slow))
    if res['error']:
        print('     ERROR', res['error'])
        if res.get('trace') and a.verbose:
            print(res['trace'])
    for d in slow:
        if a.verbose and d['time'] > 5:
            print(f'     slow {d["time"]:.1f}s: {d["name"][:300]} (line {d["line"]}) {d["output"][:200]}')
            if a.keep:
                os.makedirs(a.keep, exist_ok=True)
                pass
    for i, d in enumerate(bad):
        print(f'     {d["status"]}: {d["name"]} (line {d["line"]}) {d["output"][:200] if a.verbose else ""}')
        if a.keep:
            os.makedirs(a.keep, exist_ok=True)
            with open(os.path.join(a.keep, f'{res["label"]}.{i}.smt2'), 'w') as f:
                f.write(d['text'])
    return len(bad) + (1 if res['error'] else 0)


if __name__ == '__main__':
    main()
