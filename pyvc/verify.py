"""Contracts: specification expressions, ghost code, application and verification of contracts, lemmas."""
import ast
import json
import os
import z3
from .engine import *
from .engine import ConstV, split_args, NONE_TY, EMPTY_TY, to_int, has_quant
from .interp import Interp, UNKNOWN, PyObj, qall, contains_all
from .values import *
from .theory import TH, Ty
from . import libnp
from . import libfs

_parsed = {}


def parse_expr(s):
    if not isinstance(s, str):
        return s
    r = _parsed.get(s)
    if r is None:
        r = ast.parse(s.strip().replace('\n', ' '), mode='eval').body
        _parsed[s] = r
    return r


def parse_block(s):
    r = _parsed.get(('b', s))
    if r is None:
        import textwrap
        r = ast.parse(textwrap.dedent(s)).body
        _parsed[('b', s)] = r
    return r


def zbool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def auto_patterns(body, vs):
    """candidate triggers: uninterpreted applications over bound variables, no arithmetic on them"""
    ids = {v.get_id(): v for v in vs}
    memo = {}

    def info(t):
        """(set of bound ids, ok as trigger part)"""
        k = t.get_id()
        if k in memo:
            return memo[k][0], memo[k][1]
        if z3.is_quantifier(t):
            r = (set(), False)
            memo[k] = (*r, t)
            return r
        if k in ids:
            r = ({k}, True)
        elif z3.is_app(t) and t.num_args() == 0:
            r = (set(), True)
        elif z3.is_app(t):
            bs, ok = set(), True
            for c in t.children():
                b, o = info(c)
                bs |= b
                ok = ok and (o or not b)
            dk = t.decl().kind()
            if bs and not (dk == z3.Z3_OP_UNINTERPRETED or dk == z3.Z3_OP_SELECT or dk in (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR)):
                ok = False
            r = (bs, ok)
        else:
            r = (set(), False)
        memo[k] = (*r, t)
        return r
    cands = []
    seen = set()
    stack = [body]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        bs, ok = info(t)
        if bs and ok and z3.is_app(t) and t.num_args() > 0 and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and not t.decl().name().startswith('build.'):
            # selects of a store at the bound variable are poor triggers but harmless
            if not (t.decl().kind() == z3.Z3_OP_SELECT and z3.is_app(t.arg(0)) and t.arg(0).decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE, z3.Z3_OP_CONST_ARRAY)):
                cands.append((bs, t))
        stack.extend(t.children())
    allb = set(ids)
    full = [t for b, t in cands if b == allb]
    # minimal ones only
    def contains(a, b):
        st = [a]
        while st:
            x = st.pop()
            if x.get_id() == b.get_id():
                return True
            st.extend(x.children())
        return False
    if full:
        mins = [t for t in full if not any(u is not t and u.get_id() != t.get_id() and contains(t, u) for u in full)]
        out, sid = [], set()
        for t in mins:
            if t.get_id() not in sid:
                sid.add(t.get_id())
                out.append(t)
        return out[:6]
    # multi pattern: greedy cover
    groups = []
    mins = []
    for b, t in cands:
        if not any(b2 == b and u.get_id() != t.get_id() and contains(t, u) for b2, u in cands):
            mins.append((b, t))
    mins.sort(key=lambda x: -len(x[0]))
    used = set()
    for b0, t0 in mins:
        need = allb - b0
        grp = [t0]
        while need:
            best = None
            for b, t in mins:
                if b & need and (best is None or len(b & need) > len(best[0] & need)):
                    best = (b, t)
            if best is None:
                break
            grp.append(best[1])
            need = need - best[0]
        if not need:
            key = frozenset(g.get_id() for g in grp)
            if key not in used:
                used.add(key)
                groups.append(z3.MultiPattern(*grp) if len(grp) > 1 else grp[0])
        if len(groups) >= 4:
            break
    return groups


class Verifier(Interp):

    # ------------------------------------------------------------------ spec evaluation
    def spec_eval(self, e):
        self.spec_mode += 1
        self.quiet += 1
        try:
            return self.eval(parse_expr(e))
        except PyExc as x:
            raise Unsupported(f'specification {e!r} raises {x.name}')
        except PathEnd:
            raise Unsupported(f'specification {e!r} ends the path')
        finally:
            self.spec_mode -= 1
            self.quiet -= 1

    def spec_bool(self, e):
        try:
            return zbool(self.truth_spec(self.spec_eval(e)))
        except Unsupported as x:
            if 'in spec' in str(x):
                raise
            raise Unsupported(f'{x} in spec {e!r}')

    def truth_spec(self, v):
        self.spec_mode += 1
        try:
            return self.truth(v)
        finally:
            self.spec_mode -= 1

    def spec_int(self, e):
        v = self.spec_eval(e)
        if isinstance(v, tuple):
            raise Unsupported('lexicographic measure')
        return self.lift(v, INT)

    def spec_term(self, node):
        return self.eval(node)

    # quantifiers
    def _quant(self, n, is_all):
        lam = n.args[0]
        if not isinstance(lam, ast.Lambda):
            raise Unsupported('quantifier body')
        names = [a.arg for a in lam.args.args]
        defs = [None] * (len(names) - len(lam.args.defaults)) + [d.value for d in lam.args.defaults]
        old = self.bound_vars
        bv = dict(old)
        vs, guards = [], []
        for nm, ts in zip(names, defs):
            ty = parse_ty(self.type_alias.get(ts, ts)) if ts else INT
            c = z3.Const(self.fresh_name('q_' + nm), TH.sort(ty))
            vs.append(c)
            bv[nm] = self.from_term(c, ty)
        self.bound_vars = bv
        nh = len(self.hyps)
        log_old, self.fresh_log = self.fresh_log, []
        try:
            b = zbool(self.truth(self.eval(lam.body)))
            pats = []
            if len(n.args) > 1 or n.keywords:
                for t in n.args[1:] + [k.value for k in n.keywords]:
                    l = t.elts if isinstance(t, ast.Tuple) else [t]
                    terms = [self.pattern_term(x) for x in l]
                    pats.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
            flog = self.fresh_log
        finally:
            self.bound_vars = old
            self.fresh_log = log_old
        side = self.hyps[nh:]
        del self.hyps[nh:]
        if side:
            if any(mentions(h, vs) for h in side):
                raise Unsupported('specification needs facts under a binder')
            for h in side:
                self.hyps.append(h)
        if z3.is_true(b) or z3.is_false(b):
            return self.from_term(b, BOOL)
        if not pats:
            pats = auto_patterns(b, vs)
        f = z3.ForAll if is_all else z3.Exists
        try:
            q = f(vs, b, patterns=pats) if pats else f(vs, b)
        except z3.Z3Exception:
            q = f(vs, b)
        return T(q, BOOL)

    def pattern_term(self, x):
        v = self.eval(x)
        ty = self.type_of(v)
        if isinstance(v, T):
            return v.term
        return self.lift(v, ty)

    def sp_forall(self, n):
        return self._quant(n, True)

    def sp_exists(self, n):
        return self._quant(n, False)

    def sp_implies(self, n):
        a = self.truth(self.eval(n.args[0]))
        if a is False or (not isinstance(a, bool) and z3.is_false(z3.simplify(a))):
            return True
        b = self.truth(self.eval(n.args[1]))
        if a is True:
            return self.from_term(zbool(b), BOOL)
        return T(z3.Implies(a, zbool(b)), BOOL)

    def sp_iff(self, n):
        a, b = [zbool(self.truth(self.eval(x))) for x in n.args]
        return T(a == b, BOOL)

    def with_state(self, heap, fields, env, thunk):
        f = self.fr()
        save = (self.heap, self.fields, f.env)
        h = dict(self.heap)
        h.update(heap)
        self.heap, self.fields = h, dict(fields)
        if env is not None:
            f.env = env
        try:
            v = thunk()
            # containers are taken by value
            if isinstance(v, (Loc, View)) and not (isinstance(v, Loc) and isinstance(self.heap.get(v.id), (OC, GC))):
                ty = self.type_of(v)
                if ty is EMPTY_TY:
                    c = self.content(v)
                    nl = self.alloc(c)
                    save[0][nl.id] = c
                    return nl
                v = T(self.lift(v, ty), ty)
            return v
        finally:
            self.heap, self.fields, f.env = save

    def sp_old(self, n):
        f = self.fr()
        h, fl = f.entry
        return self.with_state(h, fl, {**f.env, **f.entry_env}, lambda: self.eval(n.args[0]))

    def loop_info(self, n, i=1):
        li = self.fr().loopinfo
        if len(n.args) > i:
            o = n.args[i].value
            for x in li:
                if x['ord'] == o:
                    return x
            raise Unsupported(f'loop {o} is not active')
        return li[-1]

    def sp_at_entry(self, n):
        """value at the entry of the loop"""
        li = self.loop_info(n)
        h, fl, env = li['entry']
        return self.with_state(h, fl, {**li['wentry'], **self.fr().env, **env}, lambda: self.eval(n.args[0]))

    def sp_at_head(self, n):
        """value at the start of the current iteration"""
        li = self.loop_info(n)
        h, fl, env = li['head']
        return self.with_state(h, fl, {**li['whead'], **self.fr().env, **env}, lambda: self.eval(n.args[0]))

    def sp_val(self, n):
        """immutable value of a container"""
        v = self.eval(n.args[0])
        ts = n.args[1].value if len(n.args) > 1 else None
        ty = parse_ty(self.type_alias.get(ts, ts)) if ts else self.type_of(v)
        return T(self.lift(v, ty), ty)

    def sp_field(self, n):
        """the whole heap field as a map"""
        cls, fname = n.args[0].value, n.args[1].value
        ty = BOOL if fname == 'alloc' else self.fieldty(cls, fname)
        if fname == 'alloc':
            fname = '$alloc'
        return T(self.field_arr(cls, fname), Ty('Arr', RefT(cls), ty))

    def sp_sel(self, n):
        m, r = self.eval(n.args[0]), self.eval(n.args[1])
        return self.from_term(z3.Select(m.term, self.lift(r, m.ty.args[0])), m.ty.args[1])

    def sp_allocated(self, n):
        v = self.eval(n.args[0])
        return T(z3.And(v.term != TH.null(v.ty), z3.Select(self.field_arr(v.ty.args[0], '$alloc'), v.term)), BOOL)

    def sp_null(self, n):
        ty = RefT(n.args[0].value)
        return T(TH.null(ty), ty)

    def sp_setof(self, n):
        v = self.eval(n.args[0])
        ty = self.type_of(v)
        return T(self.lift(v, ty), ty)

    def sp_empty(self, n):
        ty = parse_ty(n.args[0].value)
        if ty.kind == 'Dict':
            return T(TH.d_empty(ty), ty)
        if ty.kind == 'Set':
            return T(z3.K(TH.sort(ty.args[0]), z3.BoolVal(False)), ty)
        return T(TH.empty(ty), ty)

    def sp_sadd(self, n):
        """the set with one more member"""
        return self.set_store(n, True)

    def sp_srem(self, n):
        return self.set_store(n, False)

    def set_store(self, n, b):
        s = self.eval(n.args[0])
        ty = self.type_of(s)
        x = self.lift(self.eval(n.args[1]), ty.args[0])
        return T(z3.Store(self.lift(s, ty), x, z3.BoolVal(b)), ty)

    def sp_sub(self, n):
        """sub(s, i, j): the slice s[i:j] (0 <= i <= j <= len s)"""
        s = self.eval(n.args[0])
        i, j = [self.lift(self.eval(x), INT) for x in n.args[1:3]]
        ty = self.type_of(s)
        t = self.lift(s, ty)
        return T(TH.drop(ty, TH.take(ty, t, j), i), ty)

    def sp_take(self, n):
        s = self.eval(n.args[0])
        ty = self.type_of(s)
        if ty is EMPTY_TY:
            return s
        return T(TH.take(ty, self.lift(s, ty), self.lift(self.eval(n.args[1]), INT)), ty)

    def sp_drop(self, n):
        s = self.eval(n.args[0])
        ty = self.type_of(s)
        if ty is EMPTY_TY:
            return s
        return T(TH.drop(ty, self.lift(s, ty), self.lift(self.eval(n.args[1]), INT)), ty)

    def sp_cat(self, n):
        a, b = [self.eval(x) for x in n.args]
        ta, tb = self.type_of(a), self.type_of(b)
        if ta is EMPTY_TY:
            return b
        if tb is EMPTY_TY:
            return a
        ty = join_ty(ta, tb)
        return T(TH.app(ty, self.lift(a, ty), self.lift(b, ty)), ty)

    def sp_zpad(self, n):
        return libfs.zpad(self, self.eval(n.args[0]), self.eval(n.args[1]))

    def sp_tailnum(self, n):
        libfs.zpad_fn()
        return T(TH.fn('str.tailnum', STR, INT)(self.lift(self.eval(n.args[0]), STR)), INT)

    def sp_lsaved(self, n):
        return T(libfs.loaded_fns()[0](self.eval(n.args[0]).term), libfs.SAVED)

    def sp_lrec(self, n):
        return T(libfs.loaded_fns()[1](self.eval(n.args[0]).term), libfs.REC)

    def sp_nfields(self, n):
        return T(libfs.nfields()(self.lift(self.eval(n.args[0]), libfs.REC)), INT)

    def sp_fexists(self, n):
        return libfs.spec_field(self, 'exists', self.eval(n.args[0]))

    def sp_fisdir(self, n):
        return libfs.spec_field(self, 'isdir', self.eval(n.args[0]))

    def sp_ftext(self, n):
        return libfs.spec_field(self, 'text', self.eval(n.args[0]))

    def sp_fsaved(self, n):
        return libfs.spec_field(self, 'saved', self.eval(n.args[0]))

    def sp_unpickled(self, n):
        return libfs.unpickled(self, self.eval(n.args[0]), ast.literal_eval(n.args[1]).split('/'))

    def sp_below(self, n):
        return libfs.below(self, self.eval(n.args[0]), self.eval(n.args[1]))

    def sp_plain(self, n):
        return libfs.sp_plain(self, self.eval(n.args[0]))

    def sp_json(self, n):
        return libfs.sp_json(self, self.eval(n.args[0]))

    def sp_jsonvalid(self, n):
        return libfs.sp_jsonvalid(self, self.eval(n.args[0]))

    def sp_jdict(self, n):
        return libfs.sp_jdict(self, self.eval(n.args[0]))

    def sp_jint(self, n):
        return libfs.sp_jint(self, self.eval(n.args[0]))

    def sp_jnames(self, n):
        return libfs.sp_jnames(self, self.eval(n.args[0]))

    def sp_jisnames(self, n):
        return libfs.sp_jisnames(self, self.eval(n.args[0]))

    def sp_jisdict(self, n):
        return libfs.sp_jisdict(self, self.eval(n.args[0]))

    def sp_jisint(self, n):
        return libfs.sp_jisint(self, self.eval(n.args[0]))

    def sp_utf8(self, n):
        return T(self.lib_bytes().utf8()[0](self.lift(self.eval(n.args[0]), STR)), SeqT(INT))

    def lib_bytes(self):
        from . import libbytes
        return libbytes

    def sp_utf8able(self, n):
        return T(self.lib_bytes().utf8()[2](self.lift(self.eval(n.args[0]), STR)), BOOL)

    def sp_utf8dec(self, n):
        return T(self.lib_bytes().utf8()[1](self.lift(self.eval(n.args[0]), SeqT(INT))), STR)

    def sp_hexs(self, n):
        return T(self.lib_bytes().hexs()[0](self.lift(self.eval(n.args[0]), INT)), STR)

    def sp_hexval(self, n):
        return T(self.lib_bytes().hexs()[1](self.lift(self.eval(n.args[0]), STR)), INT)

    def sp_fromhex(self, n):
        return T(self.lib_bytes().fromhex()[0](self.lift(self.eval(n.args[0]), STR)), SeqT(INT))

    def sp_fromhex_ok(self, n):
        return T(self.lib_bytes().fromhex()[1](self.lift(self.eval(n.args[0]), STR)), BOOL)

    def sp_hexpair(self, n):
        return T(self.lib_bytes().hexs()[2](self.lift(self.eval(n.args[0]), INT)), STR)

    def sp_upd(self, n):
        s = self.spec_eval(n.args[0])
        ty = self.type_of(s)
        if ty is not None and ty.kind == 'Arr':
            return T(z3.Store(s.term, self.lift(self.spec_eval(n.args[1]), ty.args[0]), self.lift(self.spec_eval(n.args[2]), ty.args[1])), ty)
        return T(TH.upd(ty, self.lift(s, ty), self.spec_int(n.args[1]), self.lift(self.spec_eval(n.args[2]), ty.elem)), ty)

    def sp_push(self, n):
        s, e = self.eval(n.args[0]), self.eval(n.args[1])
        ty = self.type_of(s)
        if ty is EMPTY_TY:
            ty = SeqT(self.type_of(e))
            return T(TH.lit(ty, [self.lift(e, ty.elem)]), ty)
        return T(TH.build(ty, self.lift(s, ty), self.lift(e, ty.elem)), ty)

    def sp_keys(self, n):
        d = self.eval(n.args[0])
        ty = self.type_of(d)
        return T(TH.d_keys(ty, self.lift(d, ty)), SeqT(ty.args[0]))

    def sp_at(self, n):
        """raw element access s[i] (no negative index semantics)"""
        s = self.eval(n.args[0])
        ty = self.type_of(s)
        i = self.lift(self.eval(n.args[1]), INT)
        return self.elem(self.lift(s, ty), ty, i)

    def sp_get(self, n):
        d, k = self.eval(n.args[0]), self.eval(n.args[1])
        ty = self.type_of(d)
        return self.from_term(TH.d_get(ty, self.lift(d, ty), self.lift(k, ty.args[0])), ty.args[1])

    def sp_has(self, n):
        d, k = self.eval(n.args[0]), self.eval(n.args[1])
        ty = self.type_of(d)
        if ty is EMPTY_TY:
            return False
        return T(TH.d_has(ty, self.lift(d, ty), self.lift(k, ty.args[0])), BOOL)

    def sp_dpos(self, n):
        """position of a key in the insertion order"""
        d, k = self.eval(n.args[0]), self.eval(n.args[1])
        ty = self.type_of(d)
        return T(TH.d_pos(ty, self.lift(d, ty), self.lift(k, ty.args[0])), INT)

    def sp_count(self, n):
        s, x = self.eval(n.args[0]), self.eval(n.args[1])
        ty = self.type_of(s)
        return T(self.lib.count_fn(ty)(self.lift(s, ty), self.lift(x, ty.elem)), INT)

    def sp_isheap(self, n):
        s = self.eval(n.args[0])
        ty = self.type_of(s)
        if ty is EMPTY_TY:
            return True
        return T(self.lib.heap_pred(ty)(self.lift(s, ty)), BOOL)

    def sp_total(self, n):
        """sum of a sequence of numbers"""
        s = self.eval(n.args[0])
        ty = self.type_of(s)
        if ty.kind == 'Dict':       # sum of the values
            return T(self.lib.dsum_fn(ty)(self.lift(s, ty)), ty.args[1])
        if ty.elem.kind == 'Tup':   # sum of the second components
            return T(self.lib.psum_fn(ty.elem)(self.lift(s, ty)), ty.elem.args[1])
        return T(self.lib.sum_fn(ty.elem)(self.lift(s, ty)), ty.elem)

    def sp_code(self, n):
        """character code of s[i]"""
        s = self.eval(n.args[0])
        t = self.lift(s, STR)
        return T(TH.idx(STR, t, self.lift(self.eval(n.args[1]), INT)), INT)

    def sp_ret(self, n):
        """the result of the last call of the named function under contract"""
        for f in reversed(self.frames):
            if '$ret_' + n.args[0].value in f.env:
                return f.env['$ret_' + n.args[0].value]
        raise Unsupported(f'no call of {n.args[0].value} on this path')

    def sp_is_ws(self, n):
        """is the character with that code whitespace (an uninterpreted set of codes with the known members)"""
        return T(self.lib.is_ws(self.lift(self.eval(n.args[0]), INT)), BOOL)

    def sp_rel(self, n):
        """truth of a named opaque relation"""
        raise Unsupported('rel')

    def sp_pos(self, n):
        """position of a stream"""
        c = self.content(self.eval(n.args[0]))
        return self.wrap_int(to_int(c.pos))

    def sp_whole(self, n):
        """all elements of a stream, consumed or not"""
        c = self.content(self.eval(n.args[0]))
        if c.term is None:
            return tuple(c.items)
        return T(c.term, SeqT(c.ety))

    def sp_lo(self, n):
        """smallest number of a storage type"""
        return self.wrap_int(libnp.dt_lo(libnp.dtype_of(self, self.eval(n.args[0]))))

    def sp_hi(self, n):
        return self.wrap_int(libnp.dt_hi(libnp.dtype_of(self, self.eval(n.args[0]))))

    def sp_dtype(self, n):
        """storage type of an array"""
        c = self.content(self.eval(n.args[0]))
        if c.dt is None:
            raise Unsupported('array of unknown type')
        return T(c.dt, libnp.DT)

    def sp_some(self, n):
        v = self.eval(n.args[0])
        ty = OptT(self.type_of(v))
        return T(self.lift(v, ty), ty)

    def sp_unwrap(self, n):
        v = self.eval(n.args[0])
        if isinstance(v, T) and v.ty.kind == 'Opt':
            return self.from_term(TH.opt_val(v.ty, v.term), v.ty.args[0])
        return v

    def sp_typed(self, n):
        v = self.eval(n.args[0])
        ty = parse_ty(n.args[1].value)
        return T(self.lift(v, ty), ty)

    # ------------------------------------------------------------------ specification functions
    def define(self, name, params, ret, expr=None, rec=False, fuel=1, trigger=None, inline=False):
        if name in self.specfns:
            raise ValueError(f'{name} is already defined')
        """specification function. Without expr: uninterpreted."""
        ptys = [(k, parse_ty(self.type_alias.get(v, v))) for k, v in params.items()]
        rty = parse_ty(self.type_alias.get(ret, ret))
        if inline:
            def call(eng, *args, **kw):
                return eng.spec_apply(dict(zip(params, args)), expr)
            self.specfns[name] = Spec(name, call)
            return
        sorts = [t for _, t in ptys] + [rty]
        fs = [TH.fn(f'{name}' if k == fuel else f'{name}#{k}', *sorts) for k in range(fuel + 1)] if rec else [TH.fn(name, *sorts)]
        top = fs[-1]
        self.specfns[name] = self._spec_for(name, top, ptys, rty)
        if expr is None:
            return
        self._def_axioms(name, fs, ptys, rty, expr, rec)

    def _spec_for(self, name, f, ptys, rty):
        def call(eng, *args):
            if len(args) != len(ptys):
                raise Unsupported(f'{name}: wrong number of arguments')
            return eng.from_term(f(*[eng.lift(a, t) for a, (_, t) in zip(args, ptys)]), rty)
        return Spec(name, call)

    def spec_apply(self, env, expr):
        """evaluate expr with the given names bound"""
        old = self.bound_vars
        self.bound_vars = {**old, **env}
        try:
            return self.eval(parse_expr(expr))
        finally:
            self.bound_vars = old

    def top_eval(self, env, expr):
        """evaluate a specification expression outside of any function"""
        self.frames.append(Frame(None, ModV('spec'), {}))
        self.spec_mode += 1
        self.quiet += 1
        try:
            return self.spec_apply(env, expr)
        finally:
            self.frames.pop()
            self.spec_mode -= 1
            self.quiet -= 1

    def _def_axioms(self, name, fs, ptys, rty, expr, rec):
        vs = [z3.Const(f'{name}.{k}!', TH.sort(t)) for k, t in ptys]
        env = {k: self.from_term(v, t) for (k, t), v in zip(ptys, vs)}
        nh = len(self.hyps)
        if rec:
            for k in range(len(fs) - 1, 0, -1):
                keep = self.specfns[name]
                self.specfns[name] = self._spec_for(name, fs[k - 1], ptys, rty)
                body = self.lift(self.top_eval(env, expr), rty)
                self.specfns[name] = keep
                TH.axiom(f'def.{name}.{k}', z3.ForAll(vs, self.defeq(fs[k](*vs), body, rty), patterns=[fs[k](*vs)]), [fs[k].name()])
                TH.axiom(f'fuel.{name}.{k}', z3.ForAll(vs, fs[k](*vs) == fs[k - 1](*vs), patterns=[fs[k](*vs)]), [fs[k].name()])
        else:
            body = self.lift(self.top_eval(env, expr), rty)
            TH.axiom(f'def.{name}', z3.ForAll(vs, self.defeq(fs[0](*vs), body, rty), patterns=[fs[0](*vs)]), [fs[0].name()])
        if len(self.hyps) > nh:
            raise Unsupported(f'definition of {name} needs side facts')

    def defeq(self, a, b, ty):
        return a == b

    def fold(self, name, params, ret, empty, step, over=None):
        """function defined by recursion on a sequence: f(.., []) = empty ; f(.., s + [e]) = step (may use s, e and f)"""
        ptys = [(k, parse_ty(self.type_alias.get(v, v))) for k, v in params.items()]
        over = over or ptys[-1][0]
        rty = parse_ty(self.type_alias.get(ret, ret))
        f = TH.fn(name, *[t for _, t in ptys], rty)
        self.specfns[name] = self._spec_for(name, f, ptys, rty)
        vs = {k: z3.Const(f'{name}.{k}!', TH.sort(t)) for k, t in ptys}
        sty = dict(ptys)[over]
        e = z3.Const(f'{name}.e!', TH.sort(sty.elem))
        env = {k: self.from_term(vs[k], t) for k, t in ptys}
        ev = self.from_term(e, sty.elem)
        if sty is STR:
            ev = T(TH.build(STR, TH.empty(STR), e), STR)
        env['e'] = ev
        args = lambda s: [s if k == over else vs[k] for k, _ in ptys]
        nil = f(*args(TH.empty(sty)))
        cons = f(*args(TH.build(sty, vs[over], e)))
        others = [vs[k] for k, _ in ptys if k != over]
        b0 = self.lift(self.top_eval({k: v for k, v in env.items() if k != over}, empty), rty)
        TH.axiom(f'fold.{name}.nil', z3.ForAll(others, nil == b0, patterns=[nil]) if others else nil == b0, [f.name()])
        b1 = self.lift(self.top_eval(env, step), rty)
        TH.axiom(f'fold.{name}.cons', z3.ForAll([vs[k] for k, _ in ptys] + [e], cons == b1, patterns=[cons]), [f.name()])

    def defseq(self, name, params, ret, length, elem):
        """total function to sequences, defined pointwise: len == length (>= 0 enforced) and s[i] == elem (may use i)"""
        ptys = [(k, parse_ty(self.type_alias.get(v, v))) for k, v in params.items()]
        rty = parse_ty(self.type_alias.get(ret, ret))
        f = TH.fn(name, *[t for _, t in ptys], rty)
        self.specfns[name] = self._spec_for(name, f, ptys, rty)
        vs = [z3.Const(f'{name}.{k}!', TH.sort(t)) for k, t in ptys]
        env = {k: self.from_term(v, t) for (k, t), v in zip(ptys, vs)}
        ln = self.lift(self.top_eval(env, length), INT)
        app = f(*vs)
        n = TH.len(rty, app)
        i = z3.Int(f'{name}.i!')
        env['i'] = T(i, INT)
        e = self.lift(self.top_eval(env, elem), rty.elem)
        TH.axiom(f'defseq.{name}.len', z3.ForAll(vs, n == z3.If(ln >= 0, ln, 0), patterns=[app]), [f.name()])
        x = TH.fn(TH._n('idx', rty), rty, INT, rty.elem)(app, i)
        TH.axiom(f'defseq.{name}.idx', z3.ForAll(vs + [i], z3.Implies(z3.And(0 <= i, i < ln), x == e), patterns=[x]), [f.name()])

    def axiom(self, name, expr, keys, why):
        """assumed fact about library functions (listed in the evidence)"""
        self.lib_axioms.append((name, expr, why))
        v = self.top_eval({}, expr)
        TH.axiom('lib.' + name, self.lift(v, BOOL), keys)
        self.axiom_why[name] = why

    lib_axioms = []
    axiom_why = {}

    # ------------------------------------------------------------------ ghost code
    def ghost_exec(self, code):
        if not code:
            return
        for s in (code if isinstance(code, list) else [code]):
            for st in parse_block(s):
                self.ghost_stmt(st)

    def ghost_stmt(self, s):
        """Hints about names the code no longer has are skipped: they only ever add facts that are proved"""
        if os.environ.get('PYVC_STRICT') or isinstance(s, (ast.If, ast.Assign)):
            return self.ghost_stmt_(s)
        try:
            return self.ghost_stmt_(s)
        except Unsupported:
            pass

    def ghost_stmt_(self, s):
        if self.disc_ctx and not isinstance(s, ast.Assign) and not any(isinstance(x, ast.Assign) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setfield' for x in ast.walk(s)):
            return          # only effects matter while the writes of a loop are being determined
        if isinstance(s, ast.Assign):
            v = self.spec_eval(s.value)
            if isinstance(v, (Loc, View)):
                ty = self.type_of(v)
                if ty is not EMPTY_TY and ty is not None:
                    v = T(self.lift(v, ty), ty)
            self.ghost_assign(s.targets[0], v)
        elif isinstance(s, ast.If):
            c = zbool(self.truth_spec(self.spec_eval(s.test)))
            if self.branch(c):
                for x in s.body:
                    self.ghost_stmt(x)
            else:
                for x in s.orelse:
                    self.ghost_stmt(x)
        elif isinstance(s, ast.Assert):
            g = zbool(self.truth_spec(self.spec_eval(s.test)))
            self.obligation(g, 'assertion', ast.unparse(s.test)[:150])
            self.assume(g)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            c = s.value
            nm = c.func.id
            if nm == 'use':
                self.use_lemma(c.args[0].value, [self.spec_eval(x) for x in c.args[1:]])
            elif nm == 'useall':       # a lemma for all values of the bound variables
                self.use_all(c)
            elif nm == 'last':         # s == s[:-1] + [s[-1]] when not empty
                v = self.spec_eval(c.args[0])
                ty = self.type_of(v)
                t = self.lift(v, ty)
                n = TH.len(ty, t)
                self.assume(z3.Implies(n > 0, t == TH.build(ty, TH.take(ty, t, n - 1), TH.idx(ty, t, n - 1))))
                self.assume(z3.Implies(n > 0, TH.len(ty, TH.take(ty, t, n - 1)) == n - 1))
            elif nm == 'step':         # take(s, i+1) == take(s, i) + [s[i]]
                v = self.spec_eval(c.args[0])
                ty = self.type_of(v)
                t = self.lift(v, ty)
                i = self.spec_int(c.args[1])
                self.take_step(ty, t, i)
            elif nm == 'split_at':     # s == s[:i] + s[i:]
                v = self.spec_eval(c.args[0])
                ty = self.type_of(v)
                t = self.lift(v, ty)
                i = self.spec_int(c.args[1])
                self.assume(z3.Implies(z3.And(0 <= i, i <= TH.len(ty, t)), t == TH.app(ty, TH.take(ty, t, i), TH.drop(ty, t, i))))
            elif nm == 'dstep':        # drop(s, i) starts with s[i]
                v = self.spec_eval(c.args[0])
                ty = self.type_of(v)
                t = self.lift(v, ty)
                i = self.spec_int(c.args[1])
                self.assume(z3.Implies(z3.And(0 <= i, i < TH.len(ty, t)), TH.drop(ty, t, i) == TH.app(ty, TH.fn(TH._n('build', ty), ty, ty.elem, ty)(TH.empty(ty), TH.idx(ty, t, i)), TH.drop(ty, t, i + 1))))
            elif nm == 'ext':          # extensional equality of two sequences: proved pointwise, then assumed
                a, b = [self.spec_eval(x) for x in c.args]
                ty = join_ty(self.type_of(a), self.type_of(b))
                x, y = self.lift(a, ty), self.lift(b, ty)
                if ty.kind == 'Rec':        # records are equal when their fields are
                    for n, ft in self.recclasses[ty.args[0]]['fields'].items():
                        ft = parse_ty(ft)
                        g = TH.fn(f'{ty.args[0]}.{n}', ty, ft)
                        if self.emit_ok():
                            self.obligation(TH.eq(ft, g(x), g(y)), 'assertion', ast.unparse(s.value)[:150] + ': ' + n)
                elif self.emit_ok():
                    self.obligation(TH.eq(ty, x, y), 'assertion', ast.unparse(s.value)[:150])
                self.assume(x == y)
            elif nm == 'hint':         # terms mentioned, so that axioms are instantiated
                for x in c.args:
                    v = self.spec_eval(x)
                    ty = self.type_of(v)
                    t = self.lift(v, ty)
                    d = z3.Const(self.fresh_name('hint'), TH.sort(ty))
                    self.assume(d == t)
            elif nm == 'setfield':     # ghost heap field
                cls, fn = c.args[0].value, c.args[1].value
                r = self.spec_eval(c.args[2])
                v = self.spec_eval(c.args[3])
                ty = self.fieldty(cls, fn)
                self.set_field_arr(cls, fn, z3.Store(self.field_arr(cls, fn), r.term, self.lift(v, ty)))
            else:
                raise Unsupported(f'ghost call {nm}')
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Raise):
            self.obligation(z3.BoolVal(False), 'unreachable', 'ghost')
            raise Infeasible()
        else:
            raise Unsupported(f'ghost statement {ast.dump(s)[:80]}')

    def ghost_assign(self, t, v):
        if isinstance(t, ast.Name):
            f = self.fr()
            w = f.owner
            if w is not None and t.id not in f.env and t.id not in f.alias and t.id in w.env:     # a loop moved to a helper: ghost variables stay where they were
                i = next(i for i, x in enumerate(self.frames) if x is w)
                w.env = {**w.env, t.id: v}
                self.note_write(('var', i, t.id), v)
                return
            self.setvar(t.id, v)
        elif isinstance(t, ast.Tuple):
            for a, b in zip(t.elts, v):
                self.ghost_assign(a, b)
        else:
            raise Unsupported('ghost assignment target')

    def take_step(self, ty, t, i):
        g = z3.And(0 <= i, i < TH.len(ty, t))
        self.assume(z3.Implies(g, TH.take(ty, t, i + 1) == TH.build(ty, TH.take(ty, t, i), TH.idx(ty, t, i))))

    # ------------------------------------------------------------------ lemmas
    def lemma(self, name, params, requires=(), ensures=(), decreases=None, body=None, auto=None, label=None):
        c = Contract(name, params=params, requires=requires, ensures=ensures, decreases=decreases, body=body, auto=auto, kind='lemma')
        c.order = len(self.lemmas)
        self.lemmas.append(c)
        self.lemma_by_name[name] = c
        return c

    lemma_by_name = {}

    def use_lemma(self, name, args):
        c = self.lemma_by_name[name]
        if self.top is not None and self.top.kind == 'lemma' and c.order > self.top.order:
            raise Unsupported('lemma used before it is proved')
        self.used_lemmas.add(name)
        env = {}
        for (k, ts), a in zip(c.params.items(), args):
            ty = parse_ty(self.type_alias.get(ts, ts))
            env[k] = self.from_term(self.lift(a, ty), ty)
        if c is self.top:
            d = self.lift(self.top_eval(env, c.decreases), INT)
            d0 = self.top_dec
            self.obligation(z3.And(d >= 0, d < d0), 'lemma recursion decreases', name)
        for r in c.requires:
            g = self.lift(self.top_eval(env, r), BOOL)
            self.obligation(g, f'precondition of lemma {name}', r)
            self.assume(g)
        for e in c.ensures:
            self.assume(self.lift(self.top_eval(env, e), BOOL))

    def use_all(self, n):
        """useall(lambda x="T": use('lemma', ...), trigger...): the closure of a proved lemma over x"""
        lam = n.args[0]
        names = [a.arg for a in lam.args.args]
        defs = [None] * (len(names) - len(lam.args.defaults)) + [d.value for d in lam.args.defaults]
        call = lam.body
        c = self.lemma_by_name[call.args[0].value]
        if c is self.top or self.top is not None and self.top.kind == 'lemma' and c.order > self.top.order:
            raise Unsupported('lemma used before it is proved')
        self.used_lemmas.add(c.key)
        old = self.bound_vars
        bv, vs = dict(old), []
        for nm, ts in zip(names, defs):
            ty = parse_ty(self.type_alias.get(ts, ts)) if ts else INT
            x = z3.Const(self.fresh_name('q_' + nm), TH.sort(ty))
            vs.append(x)
            bv[nm] = self.from_term(x, ty)
        self.bound_vars = bv
        self.spec_mode += 1
        self.quiet += 1
        nh = len(self.hyps)
        try:
            args = [self.eval(x) for x in call.args[1:]]
            pats = []
            for t in n.args[1:]:
                terms = [self.pattern_term(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
                pats.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
            env = {}
            for (k, ts), a in zip(c.params.items(), args):
                ty = parse_ty(self.type_alias.get(ts, ts))
                env[k] = self.from_term(self.lift(a, ty), ty)
        finally:
            self.bound_vars = old
            self.spec_mode -= 1
            self.quiet -= 1
        if any(mentions(h, vs) for h in self.hyps[nh:]):
            raise Unsupported('useall needs facts under a binder')
        req = [self.lift(self.top_eval(env, r), BOOL) for r in c.requires]
        ens = [self.lift(self.top_eval(env, e), BOOL) for e in c.ensures]
        body = z3.Implies(z3.And(req), z3.And(ens)) if req else z3.And(ens)
        self.assume(z3.ForAll(vs, body, patterns=pats or auto_patterns(body, vs)))

    def lemma_axiom(self, c):
        """universally quantified statement of a proved lemma"""
        if getattr(c, 'axiom_term', None) is None:
            vs, env = [], {}
            for k, ts in c.params.items():
                ty = parse_ty(self.type_alias.get(ts, ts))
                v = z3.Const(f'{c.key}.{k}!', TH.sort(ty))
                vs.append(v)
                env[k] = self.from_term(v, ty)
            req = [self.lift(self.top_eval(env, r), BOOL) for r in c.requires]
            ens = [self.lift(self.top_eval(env, e), BOOL) for e in c.ensures]
            pats = []
            for tr in c.auto:
                tr = tr if isinstance(tr, tuple) else (tr,)
                ts = []
                for x in tr:
                    v = self.top_eval(env, x)
                    ts.append(self.lift(v, self.type_of(v)))
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            body = z3.Implies(z3.And(req), z3.And(ens)) if req else z3.And(ens)
            c.axiom_term = z3.ForAll(vs, body, patterns=pats)
            c.axiom_syms = [set() for _ in pats]
            from .theory import _symbols
            for p, acc in zip(pats, c.axiom_syms):
                if isinstance(p, z3.PatternRef):
                    for i in range(p.num_args() if hasattr(p, 'num_args') else 0):
                        _symbols(p.arg(i), acc)
                else:
                    _symbols(p, acc)
                acc -= {v.decl().name() for v in vs}
        return c.axiom_term

    # ------------------------------------------------------------------ contracts at call sites
    def alias_map(self, con, fn):
        base = self.baseline_locals.get(con.key)
        if not base:
            return {}
        key = (con.key, id(fn.node))
        if key not in self._aliases:
            self._aliases[key] = match_names(base, local_prints(fn.node)) if isinstance(base[0], list) else {}
        return self._aliases[key]

    def apply_contract(self, con, fn, env, recv):
        con.used_by.add(self.top_name)
        self.used_contracts.add(con.label)
        alias = {}
        base = con.opts.get('param_names')
        fr = Frame(fn, fn.mod, dict(env), con)
        self.coerce_params(con, fr.env)
        for g in con.ghost:         # specification variables of the callee: those of the caller with the same name
            if g not in self.frames[0].env:
                raise Unsupported(f'{con.label}: no value for {g}')
            fr.env[g] = self.frames[0].env[g]
        fr.alias = self.alias_map(con, fn)
        fr.entry = (dict(self.heap), dict(self.fields))
        fr.entry_env = dict(fr.env)
        line = self.cur_line
        self.frames.append(fr)
        try:
            for r in con.requires:
                g = self.spec_bool(r)
                self.obligation(g, f'precondition of {con.label}', r)
                self.assume(g)
            if self.top is con and con.decreases:
                d = self.spec_int(con.decreases)
                self.obligation(z3.And(d >= 0, d < self.top_dec), 'recursion decreases', con.decreases)
            conds = [(x, self.spec_bool(c)) for x, c in con.raises.items()]
            rv = con.opts.get('raise_value', {})
            vals = {}
            for x in rv:        # attributes of the exception object
                vals[x] = (self.find_class(rv[x]['class']), {k: self.spec_eval(e) for k, e in rv[x].items() if k != 'class'})
        finally:
            self.frames.pop()
        for exc, c in conds:
            try:
                self.check(z3.Not(c), exc, f'{con.label} does not raise {exc}')
            except PyExc as e:
                if exc in vals:
                    e.value = self.alloc(OC(vals[exc][0], dict(vals[exc][1])))
                raise
        self.frames.append(fr)
        try:
            libfs.during_call(self, con, fr)
            for m in con.modifies:
                self.havoc_target(m, con)
            if con.returns is None:
                res = None
            else:
                res = self.result_value(con, fr)
            fr.result = res
            for e in con.ensures:
                self.assume(self.spec_bool(e))
        finally:
            self.frames.pop()
            self.cur_line = line
        return res

    def coerce_params(self, con, env):
        """arguments take the declared parameter types (optional values, records)"""
        for k, ts in con.params.items():
            if k in env and isinstance(ts, str):
                v = env[k]
                ts = self.type_alias.get(ts, ts)
                if ts.startswith('iter[') and isinstance(v, IterSpec):
                    src = self.iter_value(v)
                    t, ty = self.lib.as_seq(self, src)
                    if ty is not EMPTY_TY:
                        env[k] = self.alloc(LC(term=t, ety=ty.elem, kind='stream', pos=0))
                elif ts.startswith(('opt[', 'ref:', 'float')) and not isinstance(v, (Loc, View)):
                    try:
                        ty = parse_ty(ts)
                        env[k] = T(self.lift(v, ty), ty)
                    except (TypeError, Unsupported):
                        pass
                elif ts.startswith('list[') and isinstance(v, Loc) and isinstance(self.heap[v.id], LC):
                    c = self.heap[v.id]
                    ety = parse_ty(ts).elem
                    if c.term is not None and c.ety is not None and c.ety.kind == 'Opt' and c.ety.args[0] is ety:   # no item is None: the same list
                        self.heap[v.id] = LC(term=self.lc_term(c, ety), ety=ety, kind=c.kind, pos=c.pos)

    def result_value(self, con, fr):
        r = con.returns
        if callable(r):
            return r(self, fr)
        if r == 'self':
            return fr.env['self']
        return self.fresh_value(r, 'ret')

    def havoc_target(self, m, con):
        f = self.fr()
        if m.startswith('field:'):
            cls, fn = m[6:].split('.')
            fn = '$alloc' if fn == 'alloc' else fn
            old = self.field_arr(cls, fn)
            new = self.fresh_arr(cls, fn)
            self.set_field_arr(cls, fn, new)
            if fn == '$alloc':
                r = z3.Const(self.fresh_name('q_r'), TH.sort(RefT(cls)))
                self.assume(z3.ForAll([r], z3.Implies(z3.Select(old, r), z3.Select(new, r)), patterns=[z3.Select(new, r), z3.Select(old, r)] if z3.is_const(old) else [z3.Select(new, r)]))
            return
        if '.' in m:
            base, attr = m.rsplit('.', 1)
            b = self.spec_eval(base)
            c = self.heap[b.id]
            v = c.fields.get(attr)
            if isinstance(v, Loc):
                self.heap[v.id] = self.havoc_content(self.heap[v.id], self.content_type(self.heap[v.id]), attr)
                self.note_write(('heap', v.id), self.heap[v.id])
            else:
                sch = {}
                for k in reversed(c.cls.mro()):
                    sch.update(self.schemas.get(k.full, {}))
                nv = self.fresh_value(sch[attr], attr) if attr in sch else self.havoc_value(v, attr)
                self.setattr(b, attr, nv)
            return
        v = self.spec_eval(m)
        if isinstance(v, View):
            c = self.content(v)
            self.ghost_write = True
            try:
                self.set_content(v, self.havoc_content(c, None, m))
            finally:
                self.ghost_write = False
            return
        if isinstance(v, Loc):
            c = self.heap[v.id]
            ty = self.content_type(c)
            if isinstance(c, LC) and self.lc_ety(c) is None and m in con.params:
                pt = parse_ty(con.params[m])
                c = LC(term=TH.empty(pt), ety=pt.elem)
                ty = self.content_type(c)
            if isinstance(c, DC) and self.dc_ty(c) is None and m in con.params:
                pt = parse_ty(con.params[m])
                c = DC(term=TH.d_empty(pt), ty=pt, default=c.default, kind=c.kind)
                ty = self.content_type(c)
            self.heap[v.id] = self.havoc_content(c, ty, m)
            self.note_write(('heap', v.id), self.heap[v.id])
            return
        raise Unsupported(f'modifies {m}')

    used_contracts = set()

    # ------------------------------------------------------------------ verification of one contract
    def verify(self, con):
        """generate all obligations of a contract; returns the list"""
        start = len(self.obls)
        self.disc_cache, self.disc_memo, self.joins = {}, {}, {}
        self.disc_ctx = ()
        self.top = con
        self.top_name = con.label
        self.lemma_cutoff = con.order if con.kind == 'lemma' else None
        todo = [[]]
        paths = 0
        exits = 0
        try:
            while todo:
                prefix = todo.pop()
                self.ctx_reset()
                self.conds = [[]]
                self.top = con
                d = Decisions(prefix)
                self.dec = [d]
                self.bound_vars = {}
                try:
                    exits += self.run_contract(con, first=(paths == 0))
                except PathEnd:
                    pass
                if d.replaying():
                    raise Unsupported('replay diverged')
                todo.extend(d.alts)
                paths += 1
                if paths > self.max_paths:
                    raise Unsupported('too many paths')
        finally:
            self.top = None
        out = self.obls[start:]
        if not [o for o in out if not o.expect_sat]:
            raise Unsupported(f'no obligation generated for {con.label}')
        con.paths = paths
        return out

    def run_contract(self, con, first):
        if con.kind == 'lemma':
            return self.run_lemma(con, first)
        fn, cls = self.find_function(con.key)
        node = fn.node
        if con.closure:
            return self.run_closure(con, first)
        env = {}
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        bound_self = fn.cls is not None and 'staticmethod' not in fn.deco
        base = con.opts.get('params_order')
        for i, p in enumerate(names):
            if i == 0 and bound_self:
                st = con.self_ty or ('class:' + cls.full if 'classmethod' in fn.deco else None)
                if st is None:
                    st = 'obj:' + '.'.join(con.key.split('@')[0].split('.')[:-1])
                env[p] = self.fresh_value(st, p)
                continue
            if p in con.params:
                env[p] = self.fresh_value(con.params[p], p)
            else:
                dflt = dict(zip(names[len(names) - len(a.defaults) - len(a.kwonlyargs):], a.defaults))
                dflt.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
                if p in dflt:
                    env[p] = self.eval_default(fn, dflt[p])
                else:
                    raise Unsupported(f'parameter {p} of {con.key} has no type in the contract')
        if a.vararg:
            env[a.vararg.arg] = self.fresh_value(con.params[a.vararg.arg], a.vararg.arg) if a.vararg.arg in con.params else ()
        if a.kwarg:
            if a.kwarg.arg in con.params:
                env[a.kwarg.arg] = self.fresh_value(con.params[a.kwarg.arg], a.kwarg.arg)
            else:
                env[a.kwarg.arg] = self.alloc(DC(items={}))
        f = Frame(fn, fn.mod, env, con)
        f.alias = self.alias_map(con, fn)
        f.closure = fn.closure
        f.cls = cls
        for g, ts in con.ghost.items():
            env[g] = self.fresh_value(ts, g)
        self.frames.append(f)
        self.cur_line = node.lineno
        f.entry = (dict(self.heap), dict(self.fields))
        f.entry_env = dict(env)
        self.inlined.add(fn.qual)
        for v in env.values():
            self.ref_facts(v)
        for r in con.assume_entry:
            self.assume(self.spec_bool(r))
        for r in con.requires:
            self.assume(self.spec_bool(r))
        if first and not con.vacuous_ok:
            self.vacuity('precondition')
        if con.decreases:
            self.top_dec = self.spec_int(con.decreases)
        f.entry = (dict(self.heap), dict(self.fields))
        f.entry_env = dict(f.env)
        self.ghost_exec(con.entry)
        gen = is_generator(node)
        if gen:
            ety = None
            if con.returns and con.returns.split('[')[0] in ('iter', 'stream', 'list', 'seq'):
                ety = parse_ty(con.returns).elem
            f.out = self.alloc(LC(items=[], ety=ety))
        exc = None
        ret = None
        try:
            if isinstance(node, ast.Lambda):
                ret = self.eval(node.body)
            else:
                self.exec_block(node.body)
        except ReturnX as r:
            ret = r.value
        except PyExc as e:
            exc = e
        del self.frames[1:]
        if gen and exc is None:
            c = self.content(f.out)
            ret = self.alloc(LC(items=c.items, ety=c.ety, term=c.term, kind='stream', pos=0))
        if exc is not None:
            if exc.name in con.raises:
                g = self.at_old(con.raises[exc.name])
                self.obligation(g, f'raises {exc.name} only when', con.raises[exc.name])
                for k, e in con.opts.get('raise_value', {}).get(exc.name, {}).items():
                    if k != 'class':
                        want = self.spec_eval(f'old({e})')
                        got = self.getattr(exc.value, k)
                        self.obligation(zbool(self.equal(got, want)), f'{exc.name}.{k}', e)
                if any(m.startswith('field:FS.') for m in con.modifies):     # callers see the files as they were
                    for k, arr in self.fields.items():
                        if k[0] == 'FS':
                            a0 = f.entry[1].get(k)
                            a0 = self.field_init(k) if a0 is None else a0
                            if not a0.eq(arr):
                                r = z3.Const(self.fresh_name('q_r'), self.idx_sort('FS'))
                                self.obligation(z3.ForAll([r], z3.Select(arr, r) == z3.Select(a0, r)), 'frame', f'no file is changed when {exc.name} is raised ({k[1]})')
                return 1
            self.obligation(z3.BoolVal(False), f'no uncaught {exc.name}', f'{exc.name} {exc.value if isinstance(exc.value, str) else ""}')
            return 0
        f.result = self.coerce_result(con, ret)
        self.ghost_exec(con.exit)       # local variables have their values at the return statement
        f.env = {**f.env, **f.entry_env}
        for x, c in con.raises.items():
            if not con.opts.get('may_raise'):
                self.obligation(z3.Not(self.at_old(c)), f'raises {x} whenever', c)
        if first or True:
            self.vacuity('normal exit')
        for e in con.ensures:
            self.obligation(self.spec_bool(e), 'postcondition', e)
        self.check_frame(con, f)
        return 1

    def coerce_result(self, con, ret):
        ts = con.returns
        if isinstance(ts, str) and ts.startswith(('opt[', 'float', 'ref:')) and not isinstance(ret, (Loc, View)):
            ty = parse_ty(ts)
            try:
                return T(self.lift(ret, ty), ty)
            except Unsupported:
                self.obligation(z3.BoolVal(False), 'result type', f'{ts} expected, got {self.type_of(ret)}')
                raise Infeasible()
        if isinstance(ts, str) and ts.startswith('obj:'):
            c = self.heap.get(ret.id) if isinstance(ret, Loc) else None
            if not isinstance(c, OC) or c.cls.full != ts[4:]:
                self.obligation(z3.BoolVal(False), 'result type', f'{ts} expected')
                raise Infeasible()
            return ret
        if isinstance(ts, str) and ts not in ('self',) and not ts.startswith(('obj:', 'abs:', 'sink', 'items[', 'tup[', '=', 'class:')) and isinstance(ret, (Loc, View, T, tuple, int, str)):
            try:
                ty = parse_ty(self.type_alias.get(ts, ts))
            except TypeError:
                return ret
            t = self.type_of(ret)
            if t is not EMPTY_TY and t is not ty and t is not None:
                if not (ty.kind == 'Seq' and t.kind == 'Tup'):
                    try:
                        return T(self.lift(ret, ty), ty)
                    except Unsupported:
                        self.obligation(z3.BoolVal(False), 'result type', f'{ts} expected, got {t}')
                        raise Infeasible()
            if t is EMPTY_TY and isinstance(ret, Loc):
                return T(self.lift(ret, ty), ty)
        return ret

    def at_old(self, e):
        f = self.fr()
        h, fl = f.entry
        return self.with_state(h, fl, {**f.env, **f.entry_env}, lambda: T(self.spec_bool(e), BOOL)).term

    def ref_facts(self, v):
        if isinstance(v, T) and v.ty.kind == 'Ref':
            al = self.field_arr(v.ty.args[0], '$alloc')
            self.assume(z3.Or(v.term == TH.null(v.ty), z3.Select(al, v.term)))
        if isinstance(v, Loc) and isinstance(self.heap.get(v.id), OC):
            for x in self.heap[v.id].fields.values():
                self.ref_facts(x)

    def check_frame(self, con, f):
        """everything not listed in modifies is unchanged"""
        if con.opts.get('noframe'):
            return
        heap0, fields0 = f.entry
        mods = set()
        for m in con.modifies:
            if m.startswith('field:'):
                continue
            try:
                if '.' in m:
                    b, attr = m.rsplit('.', 1)
                    o = self.with_state(heap0, fields0, {**f.env, **f.entry_env}, lambda: self.spec_eval(b))
                    if isinstance(o, Loc):
                        mods.add(('attr', o.id, attr))
                        x = heap0[o.id].fields.get(attr) if isinstance(heap0.get(o.id), OC) else None
                        if isinstance(x, Loc):
                            mods.add(('loc', x.id))
                else:
                    o = f.entry_env[m] if m in f.entry_env else self.with_state(heap0, fields0, {**f.env, **f.entry_env}, lambda: self.spec_eval(m))
                    if isinstance(o, Loc):
                        mods.add(('loc', o.id))
            except (Unsupported, KeyError):
                pass
        for lid, c0 in heap0.items():
            c1 = self.heap.get(lid)
            if c1 is c0 or ('loc', lid) in mods or c1 is None:
                continue
            if isinstance(c0, LC) and c0.kind == 'stream':
                if con.opts.get('keeps_streams'):
                    pass
                continue        # a stream given as argument may be consumed
            if isinstance(c0, GC):
                continue
            if isinstance(c0, OC):
                for k in set(c0.fields) | set(c1.fields):
                    a, b = c0.fields.get(k, MISSING), c1.fields.get(k, MISSING)
                    if a is b or ('attr', lid, k) in mods:
                        continue
                    try:
                        g = zbool(self.equal(a, b, identity=True)) if a is not MISSING and b is not MISSING else z3.BoolVal(False)
                    except Unsupported:
                        g = z3.BoolVal(False)
                    self.obligation(g, 'frame', f'attribute {k} is not modified')
                continue
            try:
                ty = self.content_ty(c0)
                g = TH.eq(ty, self.content_term(c0, ty), self.content_term(c1, ty)) if ty.kind != 'Dict' else self.content_term(c0, ty) == self.content_term(c1, ty)
            except (Unsupported, AttributeError):
                g = z3.BoolVal(False)
            self.obligation(g, 'frame', f'container {lid} is not modified')
        for k, arr in self.fields.items():
            cls, fn = k
            a0 = fields0.get(k)
            if a0 is None:
                a0 = self.field_init(k)
            if a0.eq(arr) or f'field:{cls}.{"alloc" if fn == "$alloc" else fn}' in con.modifies:
                continue
            r = z3.Const(self.fresh_name('q_r'), self.idx_sort(cls))
            if cls == 'FS':
                self.obligation(z3.ForAll([r], z3.Select(arr, r) == z3.Select(a0, r)), 'frame', f'no file is changed ({fn})')
                continue
            al = fields0.get((cls, '$alloc'))
            if al is None:
                al = self.field_init((cls, '$alloc'))
            self.obligation(z3.ForAll([r], z3.Implies(z3.Select(al, r), z3.Select(arr, r) == z3.Select(a0, r))), 'frame', f'{cls}.{fn} of existing objects is not modified')

    def content_ty(self, c):
        if isinstance(c, LC):
            e = self.lc_ety(c)
            return SeqT(e) if e is not None else None
        if isinstance(c, DC):
            return self.dc_ty(c)
        if isinstance(c, SC):
            return SetT(self.sc_ety(c))
        return None

    def run_lemma(self, con, first):
        env = {}
        f = Frame(None, ModV('spec'), env)
        self.frames.append(f)
        for k, ts in con.params.items():
            env[k] = self.fresh_value(parse_ty(self.type_alias.get(ts, ts)), k)
        f.entry = ({}, {})
        f.entry_env = dict(env)
        for r in con.requires:
            self.assume(self.spec_bool(r))
        if first:
            self.vacuity('lemma hypotheses')
        if con.decreases:
            self.top_dec = self.spec_int(con.decreases)
        self.ghost_exec(con.body)
        for e in con.ensures:
            self.obligation(self.spec_bool(e), 'lemma conclusion', e)
        return 1


def mentions(t, vs):
    ids = {v.get_id() for v in vs}
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        stack.extend(x.children())
    return False
