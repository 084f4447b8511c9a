"""Logical types, sorts and the first-order theory (sequences, dictionaries, sets, options, records).

Every logical type is a `Ty`.  Sequences, strings and dictionaries are uninterpreted sorts with
trigger-annotated axioms (the axiom schemas are instantiated per element type); tuples and options
are SMT datatypes; sets are SMT arrays to Bool; heap references are an uninterpreted sort with a
`null` constant.  Integers are mathematical integers (as in Python), floats are reals.
"""
import z3
from functools import lru_cache

z3.set_param('smt.random_seed', 1)


class Ty:
    _cache = {}

    def __new__(cls, kind, *args):
        key = (kind,) + args
        t = Ty._cache.get(key)
        if t is None:
            t = object.__new__(cls)
            t.kind, t.args = kind, args
            Ty._cache[key] = t
        return t

    def __repr__(self):
        return self.name()

    def name(self):
        if not self.args:
            return self.kind
        return self.kind + '_' + '_'.join(a.name() if isinstance(a, Ty) else str(a) for a in self.args) + '_E'

    @property
    def is_seq(self):
        return self.kind in ('Seq', 'Str')

    @property
    def elem(self):
        if self.kind == 'Str':
            return INT
        return self.args[0]


INT, BOOL, REAL, STR = Ty('Int'), Ty('Bool'), Ty('Real'), Ty('Str')


def SeqT(t): return Ty('Seq', t)
def TupT(*ts): return Ty('Tup', *ts)
def OptT(t): return t if t.kind in ('Opt', 'Ref') else Ty('Opt', t)
def DictT(k, v): return Ty('Dict', k, v)
def SetT(t): return Ty('Set', t)
def RefT(c): return Ty('Ref', c)
def RecT(c): return Ty('Rec', c)
def OpaqueT(c): return Ty('Opq', c)


def has_var(t):
    """does the term contain a bound variable?"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if z3.is_var(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


class Theory:
    def __init__(self):
        self.sorts = {}
        self.decls = {}
        self.axioms = []        # (name, formula, frozenset(keys))
        self.ax_names = set()
        self.dts = {}
        self.pre_dt = {}

    # ---------- sorts
    def sort(self, ty):
        s = self.sorts.get(ty)
        if s is not None:
            return s
        k = ty.kind
        if k == 'Int':
            s = z3.IntSort()
        elif k == 'Bool':
            s = z3.BoolSort()
        elif k == 'Real':
            s = z3.RealSort()
        elif k in ('Str', 'Seq', 'Dict', 'Rec', 'Opq'):
            s = z3.DeclareSort(ty.name())
        elif k == 'Ref':
            s = z3.DeclareSort('Ref_' + ty.args[0])
        elif k == 'Set':
            s = z3.ArraySort(self.sort(ty.args[0]), z3.BoolSort())
        elif k == 'Tup':
            if not ty.args:
                s = z3.DeclareSort('Unit0')
            else:
                d = z3.Datatype(ty.name())
                d.declare('mk_' + ty.name(), *[(f'p{i}_{ty.name()}', self.sort(a)) for i, a in enumerate(ty.args)])
                s = d.create()
                self.dts[ty] = s
        elif k == 'Opt':
            d = z3.Datatype(ty.name())
            d.declare('none_' + ty.name())
            d.declare('some_' + ty.name(), ('val_' + ty.name(), self.sort(ty.args[0])))
            s = d.create()
            self.dts[ty] = s
        elif k == 'Arr':        # total map, used for heap fields
            s = z3.ArraySort(self.sort(ty.args[0]), self.sort(ty.args[1]))
        else:
            raise TypeError(f'no sort for {ty}')
        self.sorts[ty] = s
        if k in ('Str', 'Seq'):
            self._seq_axioms(ty)
        elif k == 'Dict':
            self.sort(SeqT(ty.args[0]))
            self._dict_axioms(ty)
        return s

    def fn(self, name, *sorts):
        f = self.decls.get(name)
        if f is None:
            f = z3.Function(name, *[self.sort(s) if isinstance(s, Ty) else s for s in sorts])
            self.decls[name] = f
        return f

    def const(self, name, ty):
        f = self.fn(name, ty)
        return f()

    def axiom(self, name, formula, keys):
        if name in self.ax_names:
            return
        self.ax_names.add(name)
        self.axioms.append((name, formula, frozenset(keys)))

    # ---------- tuples, options
    def mk_tup(self, ty, terms):
        if not ty.args:
            return self.const('unit0', ty)
        s = self.sort(ty)
        return s.constructor(0)(*terms)

    def proj(self, ty, t, i):
        s = self.sort(ty)
        if z3.is_app(t) and t.decl().eq(s.constructor(0)):
            return t.arg(i)
        return s.accessor(0, i)(t)

    def none(self, ty):
        if ty.kind == 'Ref':
            return self.null(ty)
        return self.sort(ty).constructor(0)()

    def some(self, ty, t):
        return self.sort(ty).constructor(1)(t)

    def is_none(self, ty, t):
        if ty.kind == 'Ref':
            return t == self.null(ty)
        s = self.sort(ty)
        if z3.is_app(t):
            if t.decl().eq(s.constructor(0)):
                return z3.BoolVal(True)
            if t.decl().eq(s.constructor(1)):
                return z3.BoolVal(False)
        return z3.Not(s.recognizer(1)(t))

    def opt_val(self, ty, t):
        s = self.sort(ty)
        if z3.is_app(t) and t.decl().eq(s.constructor(1)):
            return t.arg(0)
        return s.accessor(1, 0)(t)

    def null(self, ty):
        return self.const('null_' + ty.args[0], ty)

    # ---------- sequences
    def _n(self, op, ty):
        return f'{op}.{ty.name()}'

    def len(self, ty, s):
        if z3.is_app(s) and s.decl().name() == self._n('empty', ty):
            return z3.IntVal(0)
        if z3.is_app(s) and s.decl().name() == self._n('build', ty):
            return z3.simplify(self.len(ty, s.arg(0)) + 1)
        return self.fn(self._n('len', ty), ty, INT)(s)

    def idx(self, ty, s, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        if z3.is_app(s) and s.decl().name() == self._n('build', ty) and z3.is_int_value(i):
            n = self.len(ty, s.arg(0))
            if z3.is_int_value(n):
                if n.as_long() == i.as_long():
                    return s.arg(1)
                if i.as_long() < n.as_long():
                    return self.idx(ty, s.arg(0), i)
        return self.fn(self._n('idx', ty), ty, INT, ty.elem)(s, i)

    def empty(self, ty):
        self.sort(ty)
        return self.const(self._n('empty', ty), ty)

    def build(self, ty, s, e):
        return self.fn(self._n('build', ty), ty, ty.elem, ty)(s, e)

    def lit(self, ty, elems):
        s = self.empty(ty)
        for e in elems:
            s = self.build(ty, s, e)
        return s

    def strlit(self, text):
        return self.lit(STR, [z3.IntVal(ord(c)) for c in text])

    def is_empty_term(self, ty, s):
        return z3.is_app(s) and s.decl().name() == self._n('empty', ty)

    def app(self, ty, s, t):
        if self.is_empty_term(ty, s):
            return t
        if self.is_empty_term(ty, t):
            return s
        # append of a literal tail becomes builds
        if z3.is_app(t) and t.decl().name() == self._n('build', ty):
            return self.build(ty, self.app(ty, s, t.arg(0)), t.arg(1))
        return self.fn(self._n('app', ty), ty, ty, ty)(s, t)

    def take(self, ty, s, n):
        if isinstance(n, int):
            n = z3.IntVal(n)
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() == 0:
            return self.empty(ty)
        if n.eq(z3.simplify(self.len(ty, s))):
            return s
        return self.fn(self._n('take', ty), ty, INT, ty)(s, n)

    def drop(self, ty, s, n):
        if isinstance(n, int):
            n = z3.IntVal(n)
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() == 0:
            return s
        if n.eq(z3.simplify(self.len(ty, s))):
            return self.empty(ty)
        return self.fn(self._n('drop', ty), ty, INT, ty)(s, n)

    def upd(self, ty, s, i, v):
        return self.fn(self._n('upd', ty), ty, INT, ty.elem, ty)(s, i, v)

    def eq(self, ty, a, b):
        """Boolean term for value equality of two terms of type ty"""
        if a.eq(b):
            return z3.BoolVal(True)
        if ty.is_seq:
            return self.fn(self._n('eq', ty), ty, ty, z3.BoolSort())(a, b)
        if ty.kind == 'Tup' and any(x.kind in ('Seq', 'Str', 'Tup', 'Opt') for x in ty.args):
            return z3.And([self.eq(x, self.proj(ty, a, i), self.proj(ty, b, i)) for i, x in enumerate(ty.args)])
        if ty.kind == 'Opt' and ty.args[0].kind in ('Seq', 'Str', 'Tup'):
            na, nb = self.is_none(ty, a), self.is_none(ty, b)
            return z3.And(na == nb, z3.Or(na, self.eq(ty.args[0], self.opt_val(ty, a), self.opt_val(ty, b))))
        return a == b

    def congruence_hints(self, goal, hyps=()):
        """To show f(a) = f(b) for sequences a, b it is enough that they agree element by element: mention their extensional equality (a tautology)"""
        bysort = {self.sorts[t].name(): t for t in self.sorts if t.is_seq}
        found, out = {}, []

        defs = {}
        for h in hyps:
            if z3.is_app(h) and h.num_args() == 2 and (z3.is_eq(h) or h.decl().name().startswith('eq.')):
                for x, y in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_app(y) and y.num_args() > 0:
                        defs.setdefault(x.get_id(), []).append(y)

        def pair(a, b, top, n=0):
            if a.eq(b) or a.sort() != b.sort() or n > 6:
                return
            for x, y in ((a, b), (b, a)):
                if z3.is_const(x) and x.get_id() in defs and not (z3.is_const(y) and y.get_id() in defs):
                    for d in defs[x.get_id()][:3]:
                        pair(d, y, False, n + 1)
            same = z3.is_app(a) and z3.is_app(b) and a.num_args() > 0 and a.decl().eq(b.decl())
            ty = bysort.get(a.sort().name()) if a.sort().kind() == z3.Z3_UNINTERPRETED_SORT else None
            if ty is not None and not top and (a.get_id(), b.get_id()) not in found and not has_var(a) and not has_var(b):
                found[(a.get_id(), b.get_id())] = (a, b)
                d, e = z3.Bool(f'same!{len(out)}'), self.fn(self._n('eq', ty), ty, ty, z3.BoolSort())(a, b)
                out.append(z3.Or(d, e))         # stated as clauses, so that the solvers split on it
                out.append(z3.Or(z3.Not(d), z3.Not(e)))
            if same:
                for x, y in zip(a.children(), b.children()):
                    pair(x, y, False, n + 1)

        def walk(g):
            if z3.is_eq(g) or (z3.is_app(g) and g.num_args() == 2 and g.decl().name().startswith('eq.')):
                pair(g.arg(0), g.arg(1), True)
            elif z3.is_and(g) or z3.is_or(g) or z3.is_implies(g) or z3.is_not(g):
                for c in g.children():
                    walk(c)
        walk(goal)
        return out

    def _seq_axioms(self, ty):
        S, E = self.sorts[ty], self.sort(ty.elem)
        I = z3.IntSort()
        n = lambda op: self._n(op, ty)
        ln = self.fn(n('len'), ty, INT)
        ix = self.fn(n('idx'), ty, INT, ty.elem)
        emp = self.fn(n('empty'), ty)
        bld = self.fn(n('build'), ty, ty.elem, ty)
        app = self.fn(n('app'), ty, ty, ty)
        tk = self.fn(n('take'), ty, INT, ty)
        dr = self.fn(n('drop'), ty, INT, ty)
        up = self.fn(n('upd'), ty, INT, ty.elem, ty)
        eq = self.fn(n('eq'), ty, ty, z3.BoolSort())
        s, t, u = z3.Consts(f's!{ty} t!{ty} u!{ty}', S)
        e = z3.Const(f'e!{ty}', E)
        i, j, k, m = z3.Ints('i! j! k! m!')
        A = lambda nm, vs, body, pats, keys: self.axiom(f'{n("ax")}.{nm}', z3.ForAll(vs, body, patterns=pats) if vs else body, [n(x) for x in keys])
        A('len_nonneg', [s], ln(s) >= 0, [ln(s)], ['len'])
        A('len_empty', [], ln(emp()) == 0, None, ['empty'])
        A('empty_len', [s], z3.Implies(ln(s) == 0, s == emp()), [ln(s)], ['len', 'empty'])
        A('len_build', [s, e], ln(bld(s, e)) == ln(s) + 1, [bld(s, e)], ['build'])
        A('idx_build_last', [s, e], ix(bld(s, e), ln(s)) == e, [bld(s, e)], ['build', 'idx'])
        A('idx_build', [s, e, i], z3.If(i == ln(s), ix(bld(s, e), i) == e, ix(bld(s, e), i) == ix(s, i)), [ix(bld(s, e), i)], ['build', 'idx'])
        A('len_app', [s, t], ln(app(s, t)) == ln(s) + ln(t), [app(s, t)], ['app'])
        A('idx_app', [s, t, i], z3.If(i < ln(s), ix(app(s, t), i) == ix(s, i), ix(app(s, t), i) == ix(t, i - ln(s))), [ix(app(s, t), i)], ['app', 'idx'])
        A('idx_app_l', [s, t, i], z3.Implies(z3.And(0 <= i, i < ln(s)), ix(app(s, t), i) == ix(s, i)), [z3.MultiPattern(app(s, t), ix(s, i))], ['app', 'idx'])
        A('idx_app_r', [s, t, i], z3.Implies(z3.And(0 <= i, i < ln(t)), ix(app(s, t), i + ln(s)) == ix(t, i)), [z3.MultiPattern(app(s, t), ix(t, i))], ['app', 'idx'])
        A('app_assoc', [s, t, u], app(app(s, t), u) == app(s, app(t, u)), [app(app(s, t), u)], ['app'])
        A('app_build', [s, t, e], app(s, bld(t, e)) == bld(app(s, t), e), [app(s, bld(t, e))], ['app', 'build'])
        A('app_empty', [s], z3.And(app(s, emp()) == s, app(emp(), s) == s), [app(s, emp())], ['app'])
        A('app_empty_l', [s], app(emp(), s) == s, [app(emp(), s)], ['app'])
        # the extensional equality predicate
        elem_eq = (lambda a, b: self.eq(ty.elem, a, b))
        A('eq_ext', [s, t], eq(s, t) == z3.And(ln(s) == ln(t), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln(s)), elem_eq(ix(s, i), ix(t, i))), patterns=[ix(s, i), ix(t, i)])), [eq(s, t)], ['eq'])
        A('eq_eq', [s, t], eq(s, t) == (s == t), [eq(s, t)], ['eq'])
        # take / drop
        A('len_take', [s, i], z3.Implies(z3.And(0 <= i, i <= ln(s)), ln(tk(s, i)) == i), [tk(s, i)], ['take'])
        A('idx_take', [s, i, j], z3.Implies(z3.And(0 <= j, j < i, j < ln(s)), ix(tk(s, i), j) == ix(s, j)), [ix(tk(s, i), j), z3.MultiPattern(tk(s, i), ix(s, j))], ['take', 'idx'])
        A('len_drop', [s, i], z3.Implies(z3.And(0 <= i, i <= ln(s)), ln(dr(s, i)) == ln(s) - i), [dr(s, i)], ['drop'])
        A('idx_drop', [s, i, j], z3.Implies(z3.And(0 <= i, 0 <= j, j < ln(s) - i), ix(dr(s, i), j) == ix(s, i + j)), [ix(dr(s, i), j)], ['drop', 'idx'])
        A('idx_drop2', [s, i, j], z3.Implies(z3.And(0 <= i, i <= j, j < ln(s)), ix(dr(s, i), j - i) == ix(s, j)), [z3.MultiPattern(dr(s, i), ix(s, j))], ['drop', 'idx'])
        A('take_all', [s], tk(s, ln(s)) == s, [tk(s, ln(s))], ['take'])
        A('take_0', [s], tk(s, 0) == emp(), [tk(s, 0)], ['take'])
        A('drop_0', [s], dr(s, 0) == s, [dr(s, 0)], ['drop'])
        A('drop_all', [s], dr(s, ln(s)) == emp(), [dr(s, ln(s))], ['drop'])
        A('drop_drop', [s, i, j], z3.Implies(z3.And(0 <= i, 0 <= j, i + j <= ln(s)), dr(dr(s, i), j) == dr(s, i + j)), [dr(dr(s, i), j)], ['drop'])
        A('take_take', [s, i, j], z3.Implies(z3.And(0 <= j, j <= i, i <= ln(s)), tk(tk(s, i), j) == tk(s, j)), [tk(tk(s, i), j)], ['take'])
        A('take_app', [s, t, i], z3.Implies(z3.And(0 <= i, i <= ln(s)), tk(app(s, t), i) == tk(s, i)), [tk(app(s, t), i)], ['take', 'app'])
        A('take_build', [s, e, i], z3.Implies(z3.And(0 <= i, i <= ln(s)), tk(bld(s, e), i) == tk(s, i)), [tk(bld(s, e), i)], ['take', 'build'])
        A('drop_app', [s, t, i], z3.Implies(i == ln(s), dr(app(s, t), i) == t), [dr(app(s, t), i)], ['drop', 'app'])
        A('drop_build', [s, e, i], z3.Implies(z3.And(0 <= i, i <= ln(s)), dr(bld(s, e), i) == bld(dr(s, i), e)), [dr(bld(s, e), i)], ['drop', 'build'])
        A('take_drop', [s, i], z3.Implies(z3.And(0 <= i, i <= ln(s)), app(tk(s, i), dr(s, i)) == s), [z3.MultiPattern(tk(s, i), dr(s, i))], ['take', 'drop', 'app'])
        A('take_succ', [s, i], z3.Implies(z3.And(0 <= i, i < ln(s)), tk(s, i + 1) == bld(tk(s, i), ix(s, i))), [tk(s, i + 1)], ['take', 'build'])
        A('upd_len', [s, i, e], ln(up(s, i, e)) == ln(s), [up(s, i, e)], ['upd'])
        A('upd_idx', [s, i, e, j], z3.Implies(z3.And(0 <= i, i < ln(s)), ix(up(s, i, e), j) == z3.If(j == i, e, ix(s, j))), [ix(up(s, i, e), j), z3.MultiPattern(up(s, i, e), ix(s, j))], ['upd', 'idx'])

    # ---------- dictionaries (insertion ordered)
    def d_has(self, ty, d, k): return self.fn(self._n('has', ty), ty, ty.args[0], z3.BoolSort())(d, k)
    def d_get(self, ty, d, k): return self.fn(self._n('get', ty), ty, ty.args[0], ty.args[1])(d, k)
    def d_keys(self, ty, d): return self.fn(self._n('keys', ty), ty, SeqT(ty.args[0]))(d)
    def d_pos(self, ty, d, k): return self.fn(self._n('kpos', ty), ty, ty.args[0], INT)(d, k)

    def d_store(self, ty, d, k, v): return self.fn(self._n('store', ty), ty, ty.args[0], ty.args[1], ty)(d, k, v)
    def d_remove(self, ty, d, k): return self.fn(self._n('remove', ty), ty, ty.args[0], ty)(d, k)

    def d_empty(self, ty):
        self.sort(ty)
        return self.const(self._n('dempty', ty), ty)

    def _dict_axioms(self, ty):
        K, V = ty.args
        kt = SeqT(K)
        d = z3.Const(f'd!{ty}', self.sorts[ty])
        k, k2 = z3.Consts(f'k!{ty} k2!{ty}', self.sort(K))
        v = z3.Const(f'v!{ty}', self.sort(V))
        i = z3.Int('i!')
        n = lambda op: self._n(op, ty)
        has, get, keys, pos = (lambda d, k: self.d_has(ty, d, k)), (lambda d, k: self.d_get(ty, d, k)), (lambda d: self.d_keys(ty, d)), (lambda d, k: self.d_pos(ty, d, k))
        sto, rem, emp = (lambda d, k, v: self.d_store(ty, d, k, v)), (lambda d, k: self.d_remove(ty, d, k)), self.d_empty(ty)
        has(d, k), get(d, k), keys(d), pos(d, k), sto(d, k, v), rem(d, k)
        A = lambda nm, vs, body, pats, ks: self.axiom(f'{n("ax")}.{nm}', z3.ForAll(vs, body, patterns=pats) if vs else body, [n(x) for x in ks])
        sidx = lambda s, i: self.fn(self._n('idx', kt), kt, INT, K)(s, i)
        slen = lambda s: self.fn(self._n('len', kt), kt, INT)(s)
        E = lambda a, b: self.eq(K, a, b)
        A('empty_has', [k], z3.Not(has(emp, k)), [has(emp, k)], ['dempty'])
        A('empty_keys', [], keys(emp) == self.empty(kt), None, ['dempty', 'keys'])
        A('has_store', [d, k, v, k2], has(sto(d, k, v), k2) == z3.Or(k2 == k, has(d, k2)), [has(sto(d, k, v), k2)], ['store', 'has'])
        A('has_store_same', [d, k, v], has(sto(d, k, v), k), [sto(d, k, v)], ['store'])
        A('has_store_frame', [d, k, v, k2], z3.Implies(has(d, k2), has(sto(d, k, v), k2)), [z3.MultiPattern(sto(d, k, v), has(d, k2))], ['store', 'has'])
        A('get_store', [d, k, v, k2], get(sto(d, k, v), k2) == z3.If(k2 == k, v, get(d, k2)), [get(sto(d, k, v), k2)], ['store', 'get'])
        A('keys_store', [d, k, v], keys(sto(d, k, v)) == z3.If(has(d, k), keys(d), self.build(kt, keys(d), k)), [keys(sto(d, k, v))], ['store', 'keys'])
        A('has_remove', [d, k, k2], has(rem(d, k), k2) == z3.And(k2 != k, has(d, k2)), [has(rem(d, k), k2)], ['remove', 'has'])
        A('has_remove_frame', [d, k, k2], has(rem(d, k), k2) == z3.And(k2 != k, has(d, k2)), [z3.MultiPattern(rem(d, k), has(d, k2))], ['remove', 'has'])
        A('get_remove', [d, k, k2], z3.Implies(k2 != k, get(rem(d, k), k2) == get(d, k2)), [get(rem(d, k), k2)], ['remove', 'get'])
        A('keys_remove', [d, k], z3.Implies(has(d, k), keys(rem(d, k)) == self.fn(self._n('app', kt), kt, kt, kt)(self.fn(self._n('take', kt), kt, INT, kt)(keys(d), pos(d, k)), self.fn(self._n('drop', kt), kt, INT, kt)(keys(d), pos(d, k) + 1))), [keys(rem(d, k))], ['remove', 'keys'])
        A('keys_remove_none', [d, k], z3.Implies(z3.Not(has(d, k)), rem(d, k) == d), [rem(d, k)], ['remove'])
        A('has_pos', [d, k], z3.Implies(has(d, k), z3.And(0 <= pos(d, k), pos(d, k) < slen(keys(d)), sidx(keys(d), pos(d, k)) == k)), [z3.MultiPattern(has(d, k), keys(d)), pos(d, k)], ['has', 'keys'])
        A('has_pos2', [d, k], z3.Implies(has(d, k), 0 <= pos(d, k)), [pos(d, k)], ['kpos'])
        A('pos_has', [d, i], z3.Implies(z3.And(0 <= i, i < slen(keys(d))), z3.And(has(d, sidx(keys(d), i)), pos(d, sidx(keys(d), i)) == i)), [sidx(keys(d), i)], ['keys'])

    # ---------- pruning
    def prune(self, formulas):
        present = set()
        for f in formulas:
            _symbols(f, present)
        out = []
        todo = list(self.axioms)
        changed = True
        while changed:
            changed = False
            rest = []
            for a in todo:
                if a[2] <= present:
                    out.append(a)
                    _symbols(a[1], present)
                    changed = True
                else:
                    rest.append(a)
            todo = rest
        return out


_symcache = {}


def _symbols(f, acc):
    key = f.get_id()
    hit = _symcache.get(key)
    if hit is None:
        out, seen, stack = set(), set(), [f]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                for i in range(x.num_patterns()):
                    stack.append(x.pattern(i))
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                stack.extend(x.children())
        hit = (f, out)
        _symcache[key] = hit
    acc |= hit[1]


TH = Theory()
