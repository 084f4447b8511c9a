"""Discharging obligations: SMT-LIB text to external solvers, in parallel."""
import os
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
import z3
from .theory import TH, _symbols

Z3OPTS = ['auto_config=false', 'smt.mbqi=false', 'smt.case_split=3', 'smt.qi.eager_threshold=100', 'smt.delay_units=true', 'smt.arith.solver=2', 'type_check=true']
BACKENDS = {
    'z3-5.3': lambda f, t: ['z3-new', f'-T:{t}'] + Z3OPTS + [f],
    'z3-5.3b': lambda f, t: ['z3-new', f'-T:{t}', 'auto_config=false', 'smt.mbqi=false', 'smt.random_seed=7', 'smt.qi.eager_threshold=20', f],
    'z3-4.8': lambda f, t: ['z3', f'-T:{t}'] + Z3OPTS[:5] + [f],
    'z3-5.3m': lambda f, t: ['z3-new', f'-T:{t}', f],
    'cvc5': lambda f, t: ['cvc5', f'--tlimit={t * 1000}', '--lang=smt2', f],
}
STAGES = [[('z3-5.3', 2)], [('z3-5.3m', 1), ('cvc5', 2), ('z3-4.8', 3), ('z3-5.3', 5), ('z3-5.3m', 4), ('z3-5.3b', 10), ('z3-4.8', 10)], [('cvc5', 20), ('z3-5.3m', 20), ('z3-5.3', 40)]]
THOROUGH = STAGES + [[('z3-5.3', 120), ('cvc5', 120), ('z3-4.8', 120)]]
REACH = [[('z3-5.3', 3)]]
FAST = [[('z3-5.3', 4)], [('z3-5.3m', 3), ('cvc5', 3), ('z3-4.8', 6), ('z3-5.3b', 6)]]


def goal_pieces(g):
    """conjuncts of a goal"""
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += goal_pieces(c)
        return out
    if z3.is_implies(g) and z3.is_and(g.arg(1)):
        return [z3.Implies(g.arg(0), c) for c in goal_pieces(g.arg(1))]
    return [g]


_litcache = {}


def literals(f, acc):
    """string literals (maximal ground chains of build over the empty string) in a formula"""
    key = f.get_id()
    hit = _litcache.get(key)
    if hit is None:
        out, seen, stack = {}, set(), [f]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                if x.decl().name() == 'build.Str':
                    y, text = x, []
                    while y.decl().name() == 'build.Str' and z3.is_int_value(y.arg(1)):
                        text.append(chr(y.arg(1).as_long()))
                        y = y.arg(0)
                        if not z3.is_app(y):
                            break
                    if z3.is_app(y) and y.decl().name() == 'empty.Str':
                        out[''.join(reversed(text))] = x
                        continue
                stack.extend(x.children())
        hit = (f, out)
        _litcache[key] = hit
    acc.update(hit[1])


class Solver:
    def __init__(self, eng, jobs=8, tmp=None, stages=None):
        self.eng, self.jobs = eng, jobs
        self.tmp = tmp or tempfile.mkdtemp(prefix='pyvc')
        self.stages = stages or STAGES
        self.solver_time = 0.0
        self.n = 0

    def lemma_axioms(self, cutoff, syms):
        out = []
        for c in self.eng.lemmas:
            if not c.auto or (cutoff is not None and c.order >= cutoff):
                continue
            f = self.eng.lemma_axiom(c)
            if any(acc <= syms for acc in c.axiom_syms):
                out.append((c, f))
        return out

    def smt2(self, ob):
        hyps = list(ob.hyps)
        goal = ob.goal
        fs = hyps + [goal]
        lem = []
        # closure of axioms and lemmas over the symbols present
        while True:
            ax = TH.prune(fs + [f for _, f in lem])
            syms = set()
            for f in fs:
                _symbols(f, syms)
            for a in ax:
                _symbols(a[1], syms)
            for _, f in lem:
                _symbols(f, syms)
            new = self.lemma_axioms(ob.uses, syms)
            if len(new) == len(lem):
                break
            lem = new
        for c, _ in lem:
            self.eng.used_lemmas.add(c.key)
        self.used_axioms.update(a[0] for a in ax)
        s = z3.Solver()
        for a in ax:
            s.add(a[1])
        for _, f in lem:
            s.add(f)
        pc = PatternCleaner()
        fs = [pc.walk(h) for h in hyps]
        if not ob.expect_sat:
            fs.append(pc.walk(z3.Not(goal)))
        for d in pc.defs:
            s.add(d)
        for h in fs:
            s.add(h)
        lits = {}
        for h in fs:
            literals(h, lits)
        if len(lits) > 1:
            s.add(z3.Distinct(*[lits[k] for k in sorted(lits)]))
        return s.to_smt2()

    used_axioms = set()

    def run(self, backend, path, t):
        st = time.time()
        try:
            p = subprocess.run(BACKENDS[backend](path, t), capture_output=True, text=True, timeout=t + 5)
            out = (p.stdout + p.stderr).strip()
        except subprocess.TimeoutExpired:
            out = 'timeout'
        dt = time.time() - st
        first = out.splitlines()[0] if out else ''
        return first, out, dt

    def solve_one(self, ob, text):
        self.n += 1
        path = os.path.join(self.tmp, f'o{id(ob)}.smt2')
        with open(path, 'w') as f:
            f.write(text)
        total = 0.0
        outs = []
        stages = REACH if ob.expect_sat else self.stages
        for stage in stages:
            for b, t in stage:
                first, out, dt = self.run(b, path, t)
                total += dt
                outs.append(f'{b}: {first} ({dt:.1f}s)')
                if first == 'unsat':
                    ob.status = 'unreachable' if ob.expect_sat else 'proved'
                    ob.backend, ob.time, ob.output = b, total, '; '.join(outs)
                    os.unlink(path)
                    return ob
                if first == 'sat' and ob.expect_sat:
                    break
                if first == 'sat' and b in ('z3-5.3m', 'cvc5'):
                    break
                if first.startswith('(error'):
                    outs.append(out[:500])
        ob.status = 'ok' if ob.expect_sat else 'failed'
        ob.backend, ob.time, ob.output = (b if ob.expect_sat else None), total, '; '.join(outs)
        os.unlink(path)
        return ob

    def discharge(self, obls, progress=None):
        """z3 terms are turned into text in this thread; solvers run in parallel"""
        todo = []
        for ob in obls:
            if not ob.expect_sat and z3.is_true(z3.simplify(ob.goal)):
                ob.status, ob.backend, ob.time = 'proved', 'simplifier', 0.0
                continue
            todo.append(ob)
        with ThreadPoolExecutor(self.jobs) as ex:
            futs = []
            for ob in todo:
                futs.append(ex.submit(self.solve_one, ob, self.smt2(ob)))
            for f in futs:
                f.result()
        self.solver_time += sum(o.time or 0 for o in todo)
        return obls


# ---------------------------------------------------------------- triggers without connectives
_BAD = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT}


class PatternCleaner:
    """solvers reject triggers with if-then-else or connectives inside: closed ones are named, others dropped"""

    def __init__(self):
        self.defs = []
        self.names = {}
        self.memo = {}
        self.info = {}
        self.keep = []

    def scan(self, t):
        """(has bound variable, has bad operator)"""
        k = t.get_id()
        r = self.info.get(k)
        if r is None:
            if z3.is_var(t):
                r = (True, False)
            elif z3.is_quantifier(t):
                r = (True, True)
            else:
                v = b = False
                for c in t.children():
                    cv, cb = self.scan(c)
                    v, b = v or cv, b or cb
                if z3.is_app(t) and t.decl().kind() in _BAD:
                    b = True
                r = (v, b)
            self.info[k] = r
            self.keep.append(t)
        return r

    def name(self, t):
        k = t.get_id()
        if k not in self.names:
            c = z3.Const(f'pt!{len(self.names)}', t.sort())
            self.names[k] = c
            self.defs.append(c == t)
            self.keep.append(t)
        return self.names[k]

    def pat(self, t):
        v, b = self.scan(t)
        if not b:
            return t
        if not v:
            return self.name(t)
        if z3.is_app(t) and t.decl().kind() in _BAD or z3.is_quantifier(t):
            return None
        ch = [self.pat(c) for c in t.children()]
        if any(c is None for c in ch):
            return None
        return t.decl()(*ch)

    def has_bad_pattern(self, q):
        for i in range(q.num_patterns()):
            p = q.pattern(i)
            for j in range(p.num_args()):
                if self.scan(p.arg(j))[1]:
                    return True
        return False

    def walk(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r
        self.keep.append(t)
        if z3.is_quantifier(t):
            body = self.walk(t.body())
            pats, changed = [], not body.eq(t.body())
            for i in range(t.num_patterns()):
                p = t.pattern(i)
                args = [p.arg(j) for j in range(p.num_args())]
                new = [self.pat(a) for a in args]
                if any(n is None for n in new):
                    changed = True
                    continue
                if any(not n.eq(a) for n, a in zip(new, args)):
                    changed = True
                pats.append(new)
            if changed:
                vs = [z3.Const(f'{t.var_name(i)}', t.var_sort(i)) for i in range(t.num_vars())]
                vs = [z3.Const(f'{t.var_name(i)}~{len(self.keep)}', t.var_sort(i)) for i in range(t.num_vars())]
                sub = list(reversed(vs))
                b = z3.substitute_vars(body, *sub)
                ps = []
                for p in pats:
                    ts = [z3.substitute_vars(x, *sub) for x in p]
                    ps.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
                f = z3.ForAll if t.is_forall() else z3.Exists
                r = f(vs, b, patterns=ps) if ps else f(vs, b)
            else:
                r = t
        elif z3.is_app(t) and t.num_args():
            ch = [self.walk(c) for c in t.children()]
            if all(a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            elif t.decl().kind() == z3.Z3_OP_AND:
                r = z3.And(ch)
            elif t.decl().kind() == z3.Z3_OP_OR:
                r = z3.Or(ch)
            else:
                r = t.decl()(*ch)
        else:
            r = t
        self.memo[k] = r
        return r
