"""Verification condition generator: a symbolic interpreter over the real Python source of /repo.

Paths are explored by replaying the function with a growing prefix of decisions; loops are cut by
their invariants, calls to functions under contract are replaced by the contract, all other repo
functions are inlined.  Every check the Python program needs (assertions, index/key errors,
preconditions, invariants, postconditions) becomes an obligation.
"""
import ast
import re
import os
import z3
from .theory import TH, Ty, INT, BOOL, REAL, STR, SeqT, TupT, OptT, DictT, SetT, RefT, RecT, OpaqueT
from .values import *

REPO = os.environ.get('NLC_REPO', '/repo')


class Obligation:
    __slots__ = ('name', 'kind', 'hyps', 'goal', 'fn', 'line', 'path', 'expect_sat', 'status', 'backend', 'time', 'output', 'uses')

    def __init__(self, name, kind, hyps, goal, fn, line, path='', expect_sat=False, uses=None):
        self.name, self.kind, self.hyps, self.goal, self.fn, self.line, self.path = name, kind, hyps, goal, fn, line, path
        self.expect_sat = expect_sat
        self.status = self.backend = self.time = None
        self.output = ''
        self.uses = uses


class Decisions:
    def __init__(self, prefix):
        self.prefix, self.made, self.alts, self.sites = prefix, [], [], {}

    def replaying(self):
        return len(self.made) < len(self.prefix)

    def choose(self, n, order=None, site=None, cover=None):
        """n-way choice"""
        if self.replaying():
            c = self.prefix[len(self.made)]
        elif site is not None and cover.get(site, 0) >= 4:      # enough has been seen of this place
            c = 0
        else:
            c = 0
            if site is not None:
                cover[site] = cover.get(site, 0) + 1
            for a in range(n - 1, 0, -1):
                self.alts.append(self.made + [a])
        self.made.append(c)
        return c


class Frame:
    def __init__(self, fn, mod, env, contract=None):
        self.fn, self.mod, self.env, self.contract = fn, mod, env, contract
        self.out = None
        self.loops = None
        self.entry = None
        self.entry_env = None
        self.loopinfo = []
        self.cls = None
        self.recv = None
        self.alias = {}
        self.owner = None
        self.handlers = []


class Contract:
    def __init__(self, key, params=None, requires=(), ensures=(), raises=None, modifies=(), returns=None,
                 loops=None, ghost=None, entry=None, exit=None, decreases=None, inline=False, kind='code', self_ty=None,
                 body=None, auto=None, uses=(), trusted=False, opts=None, note='', locals=None, consts=None, vacuous_ok=False, closure=None, label=None, assume_entry=()):
        self.key, self.params, self.requires, self.ensures = key, params or {}, list(requires), list(ensures)
        self.raises, self.modifies, self.returns, self.loops = raises or {}, list(modifies), returns, loops or {}
        self.ghost, self.entry, self.exit, self.decreases, self.inline, self.kind = ghost or {}, entry, exit, decreases, inline, kind
        self.self_ty, self.body, self.auto, self.uses, self.trusted = self_ty, body, auto, list(uses), trusted
        self.opts = opts or {}
        self.note = note
        self.consts = consts or {}
        self.vacuous_ok = vacuous_ok
        self.closure = closure
        self.label = label or key
        self.assume_entry = list(assume_entry)
        self.used_by = set()

    def __repr__(self):
        return f'<contract {self.key}>'


def ordered_locals(node):
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for p in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else []):
            add(p.arg)

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                add(n.id)

        def visit_FunctionDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_For(self, n):
            self.visit(n.target)
            self.visit(n.iter)
            for s in n.body + n.orelse:
                self.visit(s)

        def visit_Assign(self, n):
            for t in n.targets:
                self.visit(t)
            self.visit(n.value)

    for s in (node.body if isinstance(node.body, list) else []):
        V().visit(s)
    return out


def local_prints(node):
    """[[name, what it is first bound to], ...] in the order of ordered_locals; parameters carry '#<position>'"""
    names = ordered_locals(node)
    if not isinstance(node, ast.FunctionDef):
        return [[n, ''] for n in names]
    a = node.args
    params = [p.arg for p in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else [])]
    first = {p: f'#{i}' for i, p in enumerate(params)}

    def bind(t, what):
        if isinstance(t, ast.Name):
            first.setdefault(t.id, what)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                bind(x, f'{what}[{i}]')
        elif isinstance(t, ast.Starred):
            bind(t.value, what + '*')

    for n in ast.walk(node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                bind(t, ast.unparse(n.value))
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
            bind(n.target, ast.unparse(n.value))
        elif isinstance(n, ast.For):
            bind(n.target, 'for ' + ast.unparse(n.iter))
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    bind(i.optional_vars, 'with ' + ast.unparse(i.context_expr))
    return [[n, first.get(n, '')] for n in names]


def match_names(base, now, strict=False):
    """baseline name -> current name for the locals that were renamed: the same binding first, then, if as many are left on both sides, in order"""
    have, old = {n for n, _ in now}, {n for n, _ in base}
    gone = [x for x in base if x[0] not in have]
    new = [x for x in now if x[0] not in old]
    out = {}
    while True:     # the text of a binding mentions other renamed locals
        def subst(w):
            return re.sub(r'[A-Za-z_]\w*', lambda m: out.get(m.group(0), m.group(0)), w)
        hit = False
        for g in list(gone):
            w = subst(g[1])
            c = [n for n in new if n[1] == w and w]
            if c:
                out[g[0]] = c[0][0]
                gone.remove(g)
                new.remove(c[0])
                hit = True
        if not hit:
            break
    if len(gone) == len(new) and not strict:
        out.update(zip((g[0] for g in gone), (n[0] for n in new)))
    return out


def loop_header(n):
    return f'for {ast.unparse(n.target)} in {ast.unparse(n.iter)}' if isinstance(n, ast.For) else f'while {ast.unparse(n.test)}'


def loops_of(node):
    out = []

    def walk(stmts):
        for s in stmts:
            if isinstance(s, (ast.For, ast.While)):
                out.append(s)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None):
                    walk(getattr(s, f))
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    walk(h.body)
    walk(node.body if isinstance(node.body, list) else [])
    return out


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    for n in _walk_fn(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _walk_fn(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                stack.append(c)
            elif isinstance(c, ast.GeneratorExp):
                stack.append(c.generators[0].iter)


class Engine:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.contracts = {}
        self.alt = {}      # key -> contracts that apply for particular arguments
        self.schemas = {}           # class full name -> {field: type str}
        self.refclasses = {}        # short name -> dict(full, fields{name:type}, ghost_init)
        self.ctor_views = {}        # full class name -> dict(value, requires): objects represented by a value of the constructor's arguments
        self.recclasses = {}        # short name -> dict(full, fields)
        self.specfns = {}           # name -> Spec
        self.lemmas = []            # ordered
        self.type_alias = {}
        self.assumptions = set()
        self.libuse = set()
        self.obls = []
        self.ctx_reset()
        self.called = set()
        self.used_lemmas = set()
        self.prune_paths = True
        self.baseline_locals = {}
        self.baseline_loops = {}
        self._aliases = {}
        self.max_paths = 4000
        self.inlined = set()
        from . import lib, libio, libnp, libbytes, libfs
        globals()['libio'] = libio
        globals()['libnp'] = libnp
        globals()['libfs'] = libfs
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------------ context
    def ctx_reset(self):
        self.heap = {}
        self.frozen = set()
        self.sort_info = {}
        self.fields = {}
        self.frames = []
        self.hyps = []
        self.hyp_qs = None
        self.dec = [Decisions([])]
        self.counter = 0
        self.loccnt = 0
        self.spec_mode = 0
        self.pure = 0
        self.quiet = 0
        self.writes = None
        self.fresh_log = None
        self.top = None
        self.cur_line = 0
        self._qsolver = None
        self._qseen = set()
        self.snapshots = []
        self.no_exc = 0

    def qsolver(self):
        if self._qsolver is None:
            self._qsolver = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
            self._qsolver.set('timeout', 150)
        return self._qsolver

    def snapshot(self):
        return (dict(self.heap), dict(self.fields), [dict(f.env) for f in self.frames], len(self.hyps), self.loccnt)

    def restore(self, s, hyps=True):
        self.heap, self.fields = dict(s[0]), dict(s[1])
        for f, e in zip(self.frames, s[2]):
            f.env = dict(e)
        del self.frames[len(s[2]):]

    def fresh_name(self, base):
        self.counter += 1
        return f'{base}!{self.counter}'

    def fresh(self, ty, base='v'):
        c = z3.Const(self.fresh_name(base), TH.sort(ty))
        if self.fresh_log is not None:
            self.fresh_log.append(c)
        return c

    def named(self, t, ty, base='n'):
        """a name for a value that depends on the path, for use in patterns"""
        if self.fresh_log is not None or self.spec_mode:
            return t
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                c = self.fresh(ty, base)
                self.assume(c == t)
                return c
            if z3.is_app(x):
                todo.extend(x.children())
        return t

    def fresh_fn(self, base, *tys):
        f = z3.Function(self.fresh_name(base), *[TH.sort(t) for t in tys])
        if self.fresh_log is not None:
            self.fresh_log.append(f)
        return f

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self.hyps.append(z3.BoolVal(False))
                raise Infeasible()
            return
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.hyps.append(f)
        if not has_quant(f):
            self.qadd(f)

    def qadd(self, f):
        s = self.qsolver()
        for g in self.len_facts(f):
            s.add(g)
        s.add(f)

    def len_facts(self, f):
        out, stack = [], [f]
        while stack:
            x = stack.pop()
            if x.get_id() in self._qseen:
                continue
            self._qseen.add(x.get_id())
            self._keep.append(x)
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                nm = x.decl().name()
                if nm.startswith('len.'):
                    out.append(x >= 0)
                    a = x.arg(0)
                    an = a.decl().name()
                    sfx = nm[4:]
                    ln = x.decl()
                    if an == 'app.' + sfx:
                        out.append(x == ln(a.arg(0)) + ln(a.arg(1)))
                        stack += [ln(a.arg(0)), ln(a.arg(1))]
                    elif an == 'build.' + sfx:
                        out.append(x == ln(a.arg(0)) + 1)
                        stack.append(ln(a.arg(0)))
                    elif an == 'take.' + sfx:
                        out.append(z3.Implies(z3.And(0 <= a.arg(1), a.arg(1) <= ln(a.arg(0))), x == a.arg(1)))
                        stack.append(ln(a.arg(0)))
                    elif an == 'drop.' + sfx:
                        out.append(z3.Implies(z3.And(0 <= a.arg(1), a.arg(1) <= ln(a.arg(0))), x == ln(a.arg(0)) - a.arg(1)))
                        stack.append(ln(a.arg(0)))
                    elif an == 'upd.' + sfx:
                        out.append(x == ln(a.arg(0)))
                    elif an == 'empty.' + sfx:
                        out.append(x == 0)
                stack.extend(x.children())
        return out

    _keep = []

    def quick(self, f):
        """True if f is entailed by the quantifier-free hypotheses (cheap, sound, incomplete)"""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f) and False:
            return False
        if has_quant(f):
            return False
        s = self.qsolver()
        for g in self.len_facts(f):
            s.add(g)
        s.push()
        s.add(z3.Not(f))
        r = s.check()
        s.pop()
        return r == z3.unsat

    def emit_ok(self):
        return not self.quiet and not any(d.replaying() for d in self.dec)

    def obligation(self, goal, kind, text, line=None):
        if self.quiet or self.spec_mode > 100:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.emit_ok():
            name = f'{self.top_name}: {kind}: {text}'
            self.obls.append(Obligation(name, kind, list(self.hyps) + TH.congruence_hints(goal, self.hyps), goal, self.top_name, line or self.cur_line,
                                        path='.'.join(''.join(map(str, d.made)) for d in self.dec), uses=self.lemma_cutoff))

    def check(self, cond, exc, text):
        """runtime check: cond must hold, otherwise python raises exc"""
        if self.spec_mode:
            return
        if isinstance(cond, bool):
            if cond:
                return
            cond = z3.BoolVal(False)
        else:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return
        if self.pure and self.quiet > 1000:     # discovery: a comprehension writes nothing
            self.assume(cond)
            return
        if self.may_catch(exc):
            if not self.branch(cond):
                raise PyExc(exc, value=None)
            return
        if z3.is_false(cond):
            self.obligation(cond, 'no ' + exc, text)
            raise Infeasible()
        self.obligation(cond, 'no ' + exc, text)
        self.assume(cond)

    def may_catch(self, exc):
        if self.quiet > 1000:
            return True
        for f in reversed(self.frames):
            for hs in reversed(f.handlers):
                if any(h is None or exc_match(exc, h) for h in hs):
                    return True
        c = self.top
        return c is not None and exc in c.raises

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.prune_paths:
            if self.quick(cond):
                return True
            if self.quick(z3.Not(cond)):
                return False
        c = self.dec[-1].choose(2, site=self.site() if self.cover is not None else None, cover=self.cover)
        if c == 0:
            self.conds[-1].append(cond)
            self.assume(cond)
            return True
        nc = z3.Not(cond)
        self.conds[-1].append(nc)
        self.assume(nc)
        return False

    conds = [[]]
    cover = None

    def site(self):
        """where a branch is taken: line, function and how many before it on the line"""
        f = self.frames[-1]
        k = (self.cur_line, f.fn.qual if isinstance(f.fn, FuncV) else None, len(self.frames))
        n = self.dec[-1].sites.get(k, 0)
        self.dec[-1].sites[k] = n + 1
        return k + (n,)

    def choose(self, n):
        return self.dec[-1].choose(n)

    # ------------------------------------------------------------------ nested exploration
    def explore(self, thunk, limit=256, keep=True):
        """run thunk on all its paths from the current state; returns list of outcomes
        (conds, hyps added, kind, value, state-after). The state before is restored."""
        base = self.snapshot()
        nh = len(self.hyps)
        outs, todo = [], [[]]
        spec = self.spec_mode
        while todo:
            prefix = todo.pop()
            self.restore(base)
            del self.hyps[nh:]
            qs = self.qsolver()
            qs.push()
            seen = set(self._qseen)
            d = Decisions(prefix)
            self.dec.append(d)
            self.conds = self.conds + [[]]
            cnt = self.counter
            nframes = len(self.frames)
            handlers = [list(f.handlers) for f in self.frames]
            kind, val = 'ok', None
            try:
                val = thunk()
            except Infeasible:
                kind = 'dead'
            except PathEnd:
                kind = 'end'
            except PyExc as e:
                kind, val = 'exc', e
            except ReturnX as e:
                kind, val = 'ret', e.value
            except BreakX:
                kind = 'break'
            except ContinueX:
                kind = 'continue'
            finally:
                self.dec.pop()
                myconds = self.conds[-1]
                self.conds = self.conds[:-1]
                self.spec_mode = spec
            del self.frames[nframes:]
            for f, h in zip(self.frames, handlers):
                f.handlers = h
            outs.append((list(myconds), list(self.hyps[nh:]), kind, val, self.snapshot()) if keep else None)
            qs.pop()
            self._qseen = seen
            todo.extend(d.alts)
            if not keep and len(outs) == 40 and self.cover is None:
                self.cover = {}
            if len(outs) > limit:
                raise Unsupported('too many paths in nested exploration')
        self.restore(base)
        del self.hyps[nh:]
        return outs

    def merged(self, thunk, pure=True):
        """evaluate thunk on all paths and merge the results (values, facts, and state) with conditionals"""
        outs = self.explore(thunk)
        live = []
        for conds, hyps, kind, val, st in outs:
            if kind == 'dead':
                continue
            if kind == 'end':
                continue
            if kind == 'exc':
                return None, outs
            if kind != 'ok':
                return None, outs
            live.append((conds, hyps, val, st))
        if not live:
            raise Infeasible()
        if len(live) == 1 and len(outs) == 1:
            conds, hyps, val, st = live[0]
            for h in hyps:
                self.assume(h)
            self.restore_state_only(st)
            return (val,), outs
        # facts
        for conds, hyps, val, st in live:
            g = conj_of(conds)
            cset = {c.get_id() for c in conds}
            for h in hyps:
                if h.get_id() in cset:
                    continue
                self.assume(z3.Implies(g, h))
        dead = [o for o in outs if o[2] in ('dead', 'end')]
        if dead:
            self.assume(z3.Or([conj_of(c) for c, _, _, _ in live]))
        self._merge_states(live)
        val = live[-1][2]
        for conds, hyps, v, st in reversed(live[:-1]):
            val = self.merge(conj_of(conds), v, val)
        return (val,), outs

    def restore_state_only(self, st):
        self.heap, self.fields = dict(st[0]), dict(st[1])
        for f, e in zip(self.frames, st[2]):
            f.env = dict(e)
        self.loccnt = max(self.loccnt, st[4])

    def _merge_states(self, live):
        states = [l[3] for l in live]
        guards = [conj_of(l[0]) for l in live]
        self.loccnt = max(s[4] for s in states)
        # frames
        for fi, f in enumerate(self.frames):
            names = set().union(*[set(s[2][fi]) for s in states])
            env = {}
            for nme in names:
                if not all(nme in s[2][fi] for s in states):
                    continue        # possibly unbound
                v = states[-1][2][fi][nme]
                for g, s in list(zip(guards, states))[-2::-1]:
                    v = self.merge(g, s[2][fi][nme], v)
                env[nme] = v
            f.env = env
        keys = set().union(*[set(s[0]) for s in states])
        heap = {}
        for k in keys:
            cs = [s[0].get(k) for s in states]
            have = [c for c in cs if c is not None]
            v = None
            for g, c in list(zip(guards, cs))[::-1]:
                if c is None:
                    continue
                v = c if v is None else (v if v is c else self.merge_content(g, c, v))
            heap[k] = v
        self.heap = heap
        fk = set().union(*[set(s[1]) for s in states])
        fl = {}
        for k in fk:
            v = None
            for g, s in list(zip(guards, states))[::-1]:
                x = s[1].get(k)
                if x is None:
                    x = self.field_init(k)
                v = x if v is None else (v if v.eq(x) else z3.If(g, x, v))
            fl[k] = v
        self.fields = fl

    def dtypes(self):
        """storage types of numbers are part of the proof"""
        return self.top is None or self.top.opts.get('dtypes')       # definitions speak of storage types

    def arrays_only(self):
        return self.top is not None and self.top.opts.get('arrays')

    def merge_content(self, g, a, b):
        if a is b:
            return a
        if isinstance(a, LC) and isinstance(b, LC) and 'array' in (a.kind, b.kind) and a.kind != b.kind:
            raise Unsupported('merge of a list and an array')
        if isinstance(a, LC) and isinstance(b, LC):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items) and a.kind == b.kind == 'list':
                if all(x is y for x, y in zip(a.items, b.items)):
                    return a
                return LC(items=[self.merge(g, x, y) for x, y in zip(a.items, b.items)], ety=a.ety, kind=a.kind)
            ety = a.ety or b.ety or self.lc_ety(a) or self.lc_ety(b)
            if ety is None:
                return a
            t = self.named(z3.If(g, self.lc_term(a, ety), self.lc_term(b, ety)), SeqT(ety), 'l')
            pos = None
            if a.kind == 'stream':
                pos = z3.If(g, to_int(a.pos), to_int(b.pos))
            dt = None
            if a.dt is not None and b.dt is not None:
                dt = a.dt if a.dt.eq(b.dt) else z3.If(g, a.dt, b.dt)
            return LC(ety=ety, term=t, kind=a.kind, pos=pos, dt=dt)
        if isinstance(a, DC) and isinstance(b, DC):
            if a.items is not None and b.items is not None and list(a.items) == list(b.items):
                return DC(items={k: self.merge(g, a.items[k], b.items[k]) for k in a.items}, default=a.default, kind=a.kind)
            ty = a.ty or b.ty or self.dc_ty(a) or self.dc_ty(b)
            if a.term is not None and b.term is not None:
                # removing an absent key changes nothing
                if a.term.decl().name().startswith('remove') and a.term.num_args() == 2 and a.term.arg(0).eq(b.term) and TH.d_has(ty, b.term, a.term.arg(1)).eq(g):
                    return a
                ng = z3.simplify(z3.Not(g))
                if b.term.decl().name().startswith('remove') and b.term.num_args() == 2 and b.term.arg(0).eq(a.term) and TH.d_has(ty, a.term, b.term.arg(1)).eq(ng):
                    return b
            return DC(ty=ty, term=self.named(z3.If(g, self.dc_term(a, ty), self.dc_term(b, ty)), ty, 'd'), default=a.default, kind=a.kind)
        if isinstance(a, SC) and isinstance(b, SC):
            ety = a.ety or b.ety or self.sc_ety(a) or self.sc_ety(b)
            return SC(ety=ety, term=z3.If(g, self.sc_term(a, ety), self.sc_term(b, ety)))
        if isinstance(a, OC) and isinstance(b, OC) and a.cls is b.cls:
            fs = {}
            for k in set(a.fields) & set(b.fields):
                fs[k] = self.merge(g, a.fields[k], b.fields[k])
            return OC(a.cls, fs)
        raise Unsupported('merge of different contents')

    def merge(self, g, a, b):
        if a is b:
            return a
        if isinstance(a, (int, str, float)) and not isinstance(a, T) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, libnp.NpS) or isinstance(b, libnp.NpS):
            t = self.merge(g, T(a.term, a.ty) if isinstance(a, T) else a, T(b.term, b.ty) if isinstance(b, T) else b)
            if isinstance(t, T):
                x, y = getattr(a, 'dt', None), getattr(b, 'dt', None)
                t = libnp.NpS(t.term, t.ty, x if x is not None and y is not None and x.eq(y) else None)
            return t
        if isinstance(a, T) and isinstance(b, T) and a.ty is b.ty:
            if a.term.eq(b.term):
                return a
            if a.ty.kind == 'Rec' and a.term.decl().eq(b.term.decl()) and a.term.decl().name().startswith('mk.'):
                return T(a.term.decl()(*[x if x.eq(y) else z3.If(g, x, y) for x, y in zip(a.term.children(), b.term.children())]), a.ty)
            return T(z3.If(g, a.term, b.term), a.ty)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(g, x, y) for x, y in zip(a, b))
        if isinstance(a, (Loc, View)) and isinstance(b, (Loc, View)):
            if a == b:
                return a
            ca, cb = self.content(a), self.content(b)
            return self.alloc(self.merge_content(g, ca, cb))
        if isinstance(a, (Loc, View)) != isinstance(b, (Loc, View)) and (isinstance(a, T) or isinstance(b, T)):
            return self.alloc(self.merge_content(g, self.content(a), self.content(b)))
        if a is IGNORE or b is IGNORE:
            return IGNORE
        if isinstance(a, (ClassV, FuncV, Lib)) or isinstance(b, (ClassV, FuncV, Lib)):
            if a == b:
                return a
            raise Unsupported('merge of functions or classes')
        ta, tb = self.type_of(a), self.type_of(b)
        ty = join_ty(ta, tb)
        if ty is None:
            raise Unsupported(f'merge of {a!r} and {b!r}')
        return self.from_term(z3.If(g, self.lift(a, ty), self.lift(b, ty)), ty)

    # ------------------------------------------------------------------ heap
    def alloc(self, content):
        self.loccnt += 1
        l = Loc(self.loccnt)
        self.heap[l.id] = content
        return l

    def content(self, v):
        if isinstance(v, Loc):
            return self.heap[v.id]
        if isinstance(v, View):
            t = self.view_term(v)
            return self.wrap_content(t, v.ty, v.default)
        if isinstance(v, T):
            if v.ty.is_seq:
                return LC(term=v.term, ety=v.ty.elem if v.ty is not STR else None, kind='value')
            if v.ty.kind == 'Dict':
                return DC(term=v.term, ty=v.ty)
            if v.ty.kind == 'Set':
                return SC(term=v.term, ety=v.ty.args[0])
        if isinstance(v, tuple):
            return LC(items=list(v), kind='tuple')
        raise Unsupported(f'no content for {v!r}')

    def wrap_content(self, t, ty, default=None):
        if ty.kind == 'Seq':
            return LC(term=t, ety=ty.args[0])
        if ty.kind == 'Dict':
            return DC(term=t, ty=ty, default=default, kind='defaultdict' if default else 'dict')
        if ty.kind == 'Set':
            return SC(term=t, ety=ty.args[0])
        raise Unsupported(f'content of type {ty}')

    def view_term(self, v):
        if v.kind == 'field':
            cls, fname, ref = v.parent
            return z3.Select(self.field_arr(cls, fname), ref)
        if v.kind == 'dget':
            d = self.content(v.parent)
            return TH.d_get(d.ty, d.term, v.key)
        if v.kind == 'lidx':
            c = self.content(v.parent)
            return TH.idx(SeqT(c.ety), c.term, v.key)
        raise Unsupported(v.kind)

    def set_content(self, v, content):
        if self.spec_mode and not self.ghost_write:
            raise Unsupported('mutation in a specification')
        if isinstance(v, Loc):
            if v.id in self.frozen:
                raise Unsupported('mutation of an object that was stored by value in a symbolic container')
            self.heap[v.id] = content
            self.note_write(('heap', v.id), content)
            return
        if isinstance(v, View):
            t = self.content_term(content, v.ty)
            if v.kind == 'field':
                cls, fname, ref = v.parent
                self.set_field_arr(cls, fname, z3.Store(self.field_arr(cls, fname), ref, t))
                return
            if v.kind == 'dget':
                d = self.content(v.parent)
                self.set_content(v.parent, DC(ty=d.ty, term=TH.d_store(d.ty, d.term, v.key, t), default=d.default, kind=d.kind))
                return
            if v.kind == 'lidx':
                c = self.content(v.parent)
                self.set_content(v.parent, LC(term=TH.upd(SeqT(c.ety), c.term, v.key, t), ety=c.ety, kind=c.kind, pos=c.pos))
                return
        raise Unsupported(f'mutation of an immutable value {v!r}')

    ghost_write = False
    type_hint = None
    sort_info = {}

    def freeze(self, v):
        """v was copied by value into a symbolic container: later mutation would be lost"""
        if isinstance(v, Loc) and isinstance(self.heap.get(v.id), (LC, DC, SC, OC)):
            self.frozen.add(v.id)
        elif isinstance(v, tuple):
            for x in v:
                self.freeze(x)

    def note_counter(self, d, t, ty):
        pass

    def content_term(self, c, ty):
        if isinstance(c, LC):
            return self.lc_term(c, ty.elem)
        if isinstance(c, DC):
            return self.dc_term(c, ty)
        if isinstance(c, SC):
            return self.sc_term(c, ty.args[0])
        raise Unsupported(f'content {c!r} as term')

    def note_write(self, key, val):
        if self.writes is not None:
            self.writes.setdefault(key, []).append(val)

    # heap-class fields
    def fieldty(self, cls, fname):
        ts = self.refclasses[cls]['fields'].get(fname)
        if ts is None:
            raise Unsupported(f'field {cls}.{fname} not declared in the specification')
        return parse_ty(ts.split('=')[0])

    def field_init(self, key):
        cls, fname = key
        ty = BOOL if fname == '$alloc' else self.fieldty(cls, fname)
        return z3.Const(f'H0.{cls}.{fname}', z3.ArraySort(self.idx_sort(cls), TH.sort(ty)))

    def idx_sort(self, cls):
        """what the fields of a class are indexed with: objects; those of the file system with paths"""
        return TH.sort(parse_ty('opq:Path') if cls == 'FS' else RefT(cls))

    def field_arr(self, cls, fname):
        k = (cls, fname)
        if k not in self.fields:
            self.fields[k] = self.field_init(k)
        return self.fields[k]

    def set_field_arr(self, cls, fname, arr):
        self.fields[(cls, fname)] = arr
        self.note_write(('field', cls, fname), arr)

    # list content
    def lc_ety(self, c):
        if c.ety is not None:
            return c.ety
        if c.kind == 'value' and c.term is not None:
            return None
        if c.items:
            ty = None
            for x in c.items:
                ty = join_ty(ty, self.type_of(x)) if ty is not None else self.type_of(x)
                if ty is None:
                    return None
            return ty
        return None

    def lc_term(self, c, ety):
        if c.term is not None:
            if c.ety is not None and c.ety is not ety and ety is not None:
                if c.ety is INT and ety is REAL:
                    raise Unsupported('int list as real list')
                if c.ety.kind == 'Opt' and c.ety.args[0] is ety:
                    return self.somes(c.term, SeqT(c.ety), SeqT(ety))
                raise Unsupported(f'list element type {c.ety} used as {ety}')
            return c.term
        ty = SeqT(ety) if ety is not INT or c.kind != 'str' else STR
        return TH.lit(SeqT(ety), [self.lift(x, ety) for x in c.items])

    def dc_ty(self, c):
        if c.ty is not None:
            return c.ty
        if c.items:
            kt = vt = None
            for k, v in c.items.items():
                a, b = self.type_of(k), self.type_of(v)
                kt = a if kt is None else join_ty(kt, a)
                vt = b if vt is None else join_ty(vt, b)
            if kt is not None and vt is not None:
                return DictT(kt, vt)
        return None

    def dc_term(self, c, ty):
        if c.term is not None:
            return c.term
        d = TH.d_empty(ty)
        for k, v in c.items.items():
            d = TH.d_store(ty, d, self.lift(k, ty.args[0]), self.lift(v, ty.args[1]))
        return d

    def sc_ety(self, c):
        if c.ety is not None:
            return c.ety
        ty = None
        for x in c.items or []:
            ty = self.type_of(x) if ty is None else join_ty(ty, self.type_of(x))
        return ty

    def sc_term(self, c, ety):
        if c.term is not None:
            return c.term
        s = z3.K(TH.sort(ety), z3.BoolVal(False))
        for x in c.items:
            s = z3.Store(s, self.lift(x, ety), z3.BoolVal(True))
        return s

    # ------------------------------------------------------------------ typing, lifting
    def type_of(self, v):
        if isinstance(v, T):
            return v.ty
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, float):
            return REAL
        if isinstance(v, str):
            return STR
        if v is None:
            return NONE_TY
        if isinstance(v, tuple):
            ts = [self.type_of(x) for x in v]
            return None if any(t is None for t in ts) else TupT(*ts)
        if isinstance(v, (Loc, View)):
            c = self.content(v)
            if isinstance(c, LC):
                if c.kind == 'value' and c.ety is None and c.term is not None:
                    return STR
                e = self.lc_ety(c)
                return SeqT(e) if e is not None else EMPTY_TY
            if isinstance(c, DC):
                t = self.dc_ty(c)
                return t if t is not None else EMPTY_TY
            if isinstance(c, SC):
                e = self.sc_ety(c)
                return SetT(e) if e is not None else EMPTY_TY
            if isinstance(c, OC) and libfs.origin_of(self, v) is not None:
                return libfs.LOADED
        return None

    def lift(self, v, ty):
        """value -> term of type ty"""
        if isinstance(v, Lib) and ty is libnp.DT:
            return libnp.dtype_of(self, v)
        if isinstance(v, T):
            if v.ty is ty:
                return v.term
            if v.ty is libio.JSON and ty in (STR, INT):     # a JSON value used as what it was made of
                libio.json_fns()
                t = TH.fn('json.tostr', v.ty, STR)(v.term) if ty is STR else TH.fn('json.toint', v.ty, INT)(v.term)
                self.check(TH.fn('json.str' if ty is STR else 'json.int', ty, v.ty)(t) == v.term, 'TypeError', f'the JSON value is of type {ty}')
                return t
            if v.ty is INT and ty is REAL:
                return z3.ToReal(v.term)
            if v.ty is BOOL and ty is INT:
                return z3.If(v.term, z3.IntVal(1), z3.IntVal(0))
            if ty.kind == 'Opt' and v.ty is ty.args[0]:
                return TH.some(ty, v.term)
            if v.ty.kind == 'Opt' and v.ty.args[0] is ty:
                self.check(z3.Not(TH.is_none(v.ty, v.term)), 'TypeError', 'the value is not None')
                return TH.opt_val(v.ty, v.term)
            if v.ty.kind == 'Seq' and ty.kind == 'Seq' and v.ty.elem.kind == 'Opt' and v.ty.elem.args[0] is ty.elem:
                return self.somes(v.term, v.ty, ty)
            if ty.kind == 'Opt' and v.ty.kind == 'Opt':
                pass
            if v.ty is STR and ty is SeqT(STR):
                pass
            raise Unsupported(f'value of type {v.ty} used as {ty}')
        if v is None:
            if ty.kind in ('Opt', 'Ref'):
                return TH.none(ty)
            raise Unsupported(f'None used as {ty}')
        if ty.kind == 'Opt':
            return TH.some(ty, self.lift(v, ty.args[0]))
        if ty is INT and isinstance(v, (bool, int)):
            return z3.IntVal(int(v))
        if ty is REAL and isinstance(v, (int, float)):
            return real_val(v)
        if ty is BOOL and isinstance(v, bool):
            return z3.BoolVal(v)
        if ty is STR and isinstance(v, str):
            return TH.strlit(v)
        if ty.kind == 'Tup' and isinstance(v, tuple) and len(v) == len(ty.args):
            return TH.mk_tup(ty, [self.lift(x, t) for x, t in zip(v, ty.args)])
        if ty.kind == 'Seq' and isinstance(v, tuple):
            return TH.lit(ty, [self.lift(x, ty.elem) for x in v])
        if isinstance(v, (Loc, View)):
            c = self.content(v)
            if isinstance(c, OC) and ty is libfs.LOADED:
                x = libfs.as_loaded(self, v)
                if x is not None:
                    return x.term
            if isinstance(c, LC) and ty.kind == 'Seq':
                if c.kind == 'stream':
                    return TH.drop(ty, self.lc_term(c, ty.elem), to_int(c.pos))
                return self.lc_term(c, ty.elem)
            if isinstance(c, DC) and ty.kind == 'Dict':
                return self.dc_term(c, ty)
            if isinstance(c, SC) and ty.kind == 'Set':
                return self.sc_term(c, ty.args[0])
            if isinstance(c, GC) and ty.kind == 'Seq':
                self.force(v)
                return self.lift(v, ty)
        raise Unsupported(f'{v!r} can not be used as {ty}')

    def somes(self, t, st, rt):
        """sequence of optional values, none of them None, as a sequence of values"""
        f = TH.fn('somes.' + rt.name(), st, rt)
        s, i = z3.Const('so!s', TH.sort(st)), z3.Int('so!i')
        el = TH.idx(st, s, i)
        TH.axiom('somes.' + rt.name(), z3.ForAll([s], TH.len(rt, f(s)) == TH.len(st, s), patterns=[f(s)]), [f.name()])
        TH.axiom('somes.idx.' + rt.name(), z3.ForAll([s, i], z3.Implies(z3.And(0 <= i, i < TH.len(st, s)), TH.idx(rt, f(s), i) == TH.opt_val(st.elem, el)), patterns=[TH.idx(rt, f(s), i)]), [f.name()])
        k = z3.Int('so!k%d' % id(t))
        self.check(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < TH.len(st, t)), z3.Not(TH.is_none(st.elem, TH.idx(st, t, k)))), patterns=[TH.idx(st, t, k)]), 'TypeError', 'no item is None')
        return f(t)

    def from_term(self, t, ty):
        if ty.kind == 'Tup':
            return tuple(self.from_term(TH.proj(ty, t, i), a) for i, a in enumerate(ty.args))
        if ty is INT and z3.is_int_value(t):
            return t.as_long()
        if ty is BOOL and (z3.is_true(t) or z3.is_false(t)):
            return z3.is_true(t)
        return T(t, ty)

    def fresh_value(self, ts, name):
        """symbolic input of a declared type"""
        if isinstance(ts, Ty):
            return self.from_term(self.fresh(ts, name), ts)
        ts = self.type_alias.get(ts, ts).strip()
        if ts.startswith('='):          # concrete python constant
            r = eval(ts[1:], {})
            return self.alloc(LC(items=r)) if isinstance(r, list) else r
        head = ts.split('[', 1)[0].split(':', 1)[0].strip()
        if head == 'list':
            ty = parse_ty(ts)
            return self.alloc(LC(ety=ty.elem, term=self.fresh(ty, name)))
        if head == 'array':
            ty = parse_ty(ts)
            return libnp.fresh_array(self, ty, name)
        if head in ('iter', 'stream'):
            ty = parse_ty(ts)
            return self.alloc(LC(ety=ty.elem, term=self.fresh(ty, name), kind='stream', pos=0))
        if head in ('dict', 'counter', 'defaultdict'):
            ty = parse_ty(ts)
            default = {'counter': 0, 'defaultdict': 'auto'}.get(head)
            return self.alloc(DC(ty=ty, term=self.fresh(ty, name), kind=head, default=default_of(ty.args[1]) if head != 'dict' else None))
        if head == 'set':
            ty = parse_ty(ts)
            return self.alloc(SC(ety=ty.args[0], term=self.fresh(ty, name)))
        if head == 'obj':
            full = ts[4:]
            return self.fresh_obj(full, name)
        if head == 'sink':
            return libio.new_sink(self, self.fresh(STR, name))
        if head == 'items':             # dictionary with known keys: items[key=type,..]
            inner = ts.split('[', 1)[1][:-1]
            kv = [x.split('=', 1) for x in split_args(inner)] if inner else []
            return self.alloc(DC(items={k.strip(): self.fresh_value(t, k.strip()) for k, t in kv}))
        if head == 'abs':               # object of an abstract class: its methods are specification functions
            full, _, sch = ts[4:].partition('/')
            v = self.fresh_obj(full, name, self.schemas['abs:' + sch])
            return v
        if head == 'opt':
            inner = ts.split('[', 1)[1][:-1]
            ty = parse_ty(ts)
            return T(self.fresh(ty, name), ty)
        if head == 'class':
            return self.find_class(ts[6:])
        if head == 'fn':
            return self.specfns[ts[3:]]
        if head == 'lib':
            return Lib(ts[4:])
        if head == 'tup':               # python tuple of components of any kind
            inner = split_args(ts.split('[', 1)[1][:-1])
            return tuple(self.fresh_value(x, f'{name}{i}') for i, x in enumerate(inner))
        ty = parse_ty(ts)
        return self.from_term(self.fresh(ty, name), ty)

    def fresh_obj(self, full, name, more=None):
        cls = self.find_class(full)
        fs = {}
        for c in reversed(cls.mro()):
            for k, t in self.schemas.get(c.full, {}).items():
                fs[k] = t
        fs.update(more or {})
        return self.alloc(OC(cls, {k: self.fresh_value(t, f'{name}.{k}') for k, t in fs.items()}))

    # ------------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        p = path + '.py' if os.path.exists(path + '.py') else os.path.join(path, '__init__.py')
        if not os.path.exists(p):
            raise Unsupported(f'no module {name}')
        m = ModV(name)
        m.path = p
        self.modules[name] = m
        src = open(p, encoding='utf8').read()
        m.src = src
        m.tree = ast.parse(src)
        m.env['__name__'] = name
        m.env['__file__'] = p
        for st in m.tree.body:
            self.module_stmt(m, st)
        return m

    def module_stmt(self, m, st):
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            self.do_import(m.env, st)
        elif isinstance(st, ast.FunctionDef):
            m.env[st.name] = FuncV(st, m, deco=[ast.unparse(d) for d in st.decorator_list])
        elif isinstance(st, ast.ClassDef):
            m.env[st.name] = self.make_class(m, st, m.env)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            self.lazy_assign(m.env, m, st)
        elif isinstance(st, ast.If) or isinstance(st, (ast.Expr, ast.Assert, ast.Try)):
            pass

    def lazy_assign(self, env, m, st):
        """module or class level assignment: evaluated concretely, when possible"""
        if isinstance(st, ast.AnnAssign):
            if st.value is None:
                return
            targets = [st.target]
        else:
            targets = st.targets
        save = (self.frames, self.heap, self.quiet)
        try:
            fr = Frame(None, m, env)
            self.frames = [fr]
            v = self.eval(st.value)
            for t in targets:
                if isinstance(t, ast.Name):
                    env[t.id] = self.freeze_const(v)
                elif isinstance(t, ast.Tuple):
                    for a, b in zip(t.elts, v):
                        env[a.id] = b
        except (Unsupported, PyExc, KeyError, TypeError, AttributeError, PathEnd) as e:
            for t in targets:
                if isinstance(t, ast.Name):
                    env[t.id] = Lib(f'{m.name}.{t.id}')
        finally:
            self.frames = save[0]

    def freeze_const(self, v):
        """module level constants survive heap resets: keep lists as ConstList"""
        if isinstance(v, Loc):
            c = self.heap[v.id]
            if isinstance(c, LC) and c.items is not None:
                return ConstV('list', [self.freeze_const(x) for x in c.items])
            if isinstance(c, DC) and c.items is not None:
                return ConstV('dict', {k: self.freeze_const(x) for k, x in c.items.items()})
            raise Unsupported('module level container')
        return v

    def thaw(self, v):
        if isinstance(v, ConstV):
            if v.kind == 'list':
                return self.alloc(LC(items=[self.thaw(x) for x in v.val]))
            return self.alloc(DC(items={k: self.thaw(x) for k, x in v.val.items()}))
        return v

    def make_class(self, m, node, env, outer=None):
        bases = []
        for b in node.bases:
            bn = b.value if isinstance(b, ast.Subscript) else b
            try:
                bv = self.static_name(bn, env)
            except Unsupported:
                bv = None
            if isinstance(bv, ClassV):
                bases.append(bv)
            elif bv is not None:
                bases.append(bv)
        c = ClassV(node.name, m, node, bases, outer)
        decos = [ast.unparse(d) for d in node.decorator_list]
        c.is_dataclass = any(d.startswith('dataclass') for d in decos)
        cenv = _ClassEnv(env, c.attrs)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                c.attrs[st.name] = FuncV(st, m, cls=c, deco=[ast.unparse(d) for d in st.decorator_list])
            elif isinstance(st, ast.ClassDef):
                c.attrs[st.name] = self.make_class(m, st, env, outer=c)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                if isinstance(st, ast.AnnAssign):
                    c.fields.append((st.target.id, st.value))
                if getattr(st, 'value', None) is not None:
                    self.lazy_assign(cenv, m, st)
        return c

    def static_name(self, node, env):
        if isinstance(node, ast.Name):
            if node.id in env:
                return env[node.id]
            raise Unsupported(node.id)
        if isinstance(node, ast.Attribute):
            b = self.static_name(node.value, env)
            if isinstance(b, Lib):
                return Lib(b.name + '.' + node.attr)
            if isinstance(b, ClassV):
                return b.lookup(node.attr)[0]
            if isinstance(b, ModV):
                return b.env.get(node.attr)
        raise Unsupported(ast.dump(node))

    def do_import(self, env, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                nm = a.name
                if nm.split('.')[0] == 'nlcodec':
                    env[a.asname or nm.split('.')[0]] = self.load_module(nm if a.asname else nm.split('.')[0])
                else:
                    env[a.asname or nm.split('.')[0]] = Lib(LIBALIAS.get(nm, nm) if a.asname else nm.split('.')[0])
            return
        mod = st.module or ''
        cur = env.get('__name__') or (self.frames[-1].mod.name if self.frames else '')
        if isinstance(env, dict) and '__name__' not in env and self.frames:
            cur = self.frames[-1].mod.name
        if st.level:
            parts = cur.split('.')
            # a package's __init__ counts as the package itself
            p = os.path.join(self.repo, *parts)
            base = parts if os.path.isdir(p) else parts[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in st.names:
            nm = a.asname or a.name
            if mod.split('.')[0] == 'nlcodec':
                if mod == 'nlcodec':
                    # avoid import cycles: resolve names of the package lazily
                    sub = os.path.join(self.repo, 'nlcodec', a.name)
                    if os.path.exists(sub + '.py') or os.path.isdir(sub):
                        env[nm] = LazyMod(self, f'nlcodec.{a.name}')
                    else:
                        env[nm] = self.pkg_name(a.name)
                else:
                    env[nm] = LazyName(self, mod, a.name)
            else:
                env[nm] = Lib(f'{mod}.{a.name}')

    def pkg_name(self, name):
        """names defined by nlcodec/__init__.py"""
        if name == 'log':
            return Lib('log')
        return LazyName(self, 'nlcodec', name)

    def resolve(self, v):
        while isinstance(v, (LazyName, LazyMod)):
            v = v.get()
        return v

    def find_class(self, full):
        full = self.type_alias.get(full, full)
        parts = full.split('.')
        for i in range(len(parts) - 1, 0, -1):
            try:
                m = self.load_module('.'.join(parts[:i]))
            except Unsupported:
                continue
            v = m.env.get(parts[i])
            v = self.resolve(v)
            for p in parts[i + 1:]:
                v = v.attrs.get(p) if isinstance(v, ClassV) else None
            if isinstance(v, ClassV):
                return v
        raise Unsupported(f'no class {full}')

    def find_function(self, key):
        """'mod.func' or 'mod.Class.method' (method resolved along the class hierarchy)"""
        parts = key.split('@')[0].split('.')
        for i in range(len(parts) - 1, 0, -1):
            try:
                m = self.load_module('.'.join(parts[:i]))
            except Unsupported:
                continue
            if parts[i] not in m.env:
                continue
            v = self.resolve(m.env.get(parts[i]))
            cls = None
            for p in parts[i + 1:]:
                if isinstance(v, ClassV):
                    cls = v
                    v, _ = v.lookup(p)
                else:
                    v = None
            if isinstance(v, FuncV):
                return v, cls
        raise Unsupported(f'function {key} not found in the source')


class ConstV:
    def __init__(self, kind, val):
        self.kind, self.val = kind, val


class LazyName:
    def __init__(self, eng, mod, name):
        self.eng, self.mod, self.name = eng, mod, name

    def get(self):
        m = self.eng.load_module(self.mod)
        if self.name in m.env:
            return self.eng.resolve(m.env[self.name])
        return self.eng.load_module(self.mod + '.' + self.name)


class LazyMod:
    def __init__(self, eng, name):
        self.eng, self.name = eng, name

    def get(self):
        return self.eng.load_module(self.name)


class _ClassEnv(dict):
    def __init__(self, outer, attrs):
        self.outer, self.attrs = outer, attrs

    def __contains__(self, k):
        return k in self.attrs or k in self.outer

    def __getitem__(self, k):
        return self.attrs[k] if k in self.attrs else self.outer[k]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        self.attrs[k] = v


LIBALIAS = {'collections': 'collections', 'numpy': 'numpy', 'multiprocessing': 'multiprocessing', 'logging': 'log'}
def conj_of(cs):
    return cs[0] if len(cs) == 1 else z3.And(cs) if cs else z3.BoolVal(True)


NONE_TY = Ty('NoneTy')
EMPTY_TY = Ty('EmptyTy')


def join_ty(a, b):
    if a is b:
        return a
    if a is None or b is None:
        return None
    if a is EMPTY_TY:
        return b
    if b is EMPTY_TY:
        return a
    if a is NONE_TY:
        return OptT(b)
    if b is NONE_TY:
        return OptT(a)
    if {a, b} == {INT, REAL}:
        return REAL
    if {a, b} == {INT, BOOL}:
        return INT
    if a.kind == 'Opt' and a.args[0] is b:
        return a
    if b.kind == 'Opt' and b.args[0] is a:
        return b
    if a.kind == 'Tup' and b.kind == 'Tup' and len(a.args) == len(b.args):
        xs = [join_ty(x, y) for x, y in zip(a.args, b.args)]
        return None if any(x is None for x in xs) else TupT(*xs)
    return None


def default_of(vty):
    if vty is INT:
        return 'int'
    if vty.kind == 'Set':
        return 'set'
    if vty.kind == 'Seq':
        return 'list'
    return None


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '[(':
            depth += 1
        elif ch in '])':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def to_int(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def real_val(v):
    if isinstance(v, int):
        return z3.RealVal(v)
    from fractions import Fraction
    if v == float('inf'):
        raise Unsupported('inf as a real')
    f = Fraction(str(v))       # decimal meaning of the literal
    return z3.RealVal(str(f))


_hq = {}


def has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is None:
        r = (f, _has_quant(f))
        _hq[k] = r
    return r[1]


def _has_quant(f):
    stack, seen = [f], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


EXC_PARENTS = {'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
               'AssertionError': ['Exception'], 'ValueError': ['Exception'], 'TypeError': ['Exception'],
               'StopIteration': ['Exception'], 'ZeroDivisionError': ['ArithmeticError', 'Exception'],
               'AttributeError': ['Exception'], 'NotImplementedError': ['RuntimeError', 'Exception'],
               'UnicodeEncodeError': ['ValueError', 'Exception'], 'OverflowError': ['ArithmeticError', 'Exception'],
               'JSONDecodeError': ['ValueError', 'Exception'], 'FileNotFoundError': ['OSError', 'Exception']}


def exc_match(exc, handler):
    return exc == handler or handler in EXC_PARENTS.get(exc, ['Exception']) or handler == 'BaseException'
