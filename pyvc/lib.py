"""Models (assumed contracts) of the Python builtins and standard library used by /repo.

Every model is a contract that is assumed, not proved; `libuse` collects the ones a proof relied on.
"""
import ast
import sys
import z3
from .theory import TH, Ty, INT, BOOL, REAL, STR, SeqT, TupT, OptT, DictT, SetT, RefT, RecT, OpaqueT
from .values import *
from .engine import EMPTY_TY, NONE_TY, join_ty, default_of, to_int, real_val, has_quant

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'sorted', 'min', 'max', 'sum', 'any', 'all', 'map', 'isinstance', 'getattr', 'setattr', 'hasattr',
            'next', 'iter', 'set', 'dict', 'list', 'tuple', 'str', 'int', 'float', 'bool', 'abs', 'print', 'reversed', 'open', 'type', 'id', 'object',
            'Exception', 'StopIteration', 'ValueError', 'KeyError', 'IndexError', 'NotImplementedError', 'AssertionError', 'RuntimeError', 'TypeError', 'bytes',
            'callable', 'round', 'frozenset', 'super', 'repr', 'chr', 'ord', 'filter', 'BrokenPipeError', 'property', 'classmethod', 'staticmethod'}

B = z3.BoolSort()
HOOKS = {}          # lib name -> fn(eng, args, kwargs)
METHODS = {}        # (kind, name) -> fn(eng, recv, args, kwargs)


def lib(*names):
    def deco(f):
        for n in names:
            HOOKS[n] = f
        return f
    return deco


def install(eng):
    pass


# ---------------------------------------------------------------- helpers
def T_int(t):
    t = z3.simplify(t) if z3.is_expr(t) else t
    if isinstance(t, int):
        return t
    return t.as_long() if z3.is_int_value(t) else T(t, INT)


def seq_ty(eng, v):
    ty = eng.type_of(v)
    return ty


def as_seq(eng, v, ety=None):
    """(term, SeqT/STR) of an iterable value"""
    if isinstance(v, IterSpec):
        v = eng.iter_value(v)
    if isinstance(v, (Loc, View)):
        c = eng.content(v)
        if isinstance(c, GC) or (isinstance(c, LC) and c.kind == 'stream'):
            it = eng.iterspec(v)
            v = eng.iter_value(it)
        elif isinstance(c, (DC, SC)) or isinstance(c, OC):
            v = eng.iter_value(eng.iterspec(v))
    if isinstance(v, T) and v.ty.kind == 'Opt':
        v = eng.unopt(v)
    if isinstance(v, T) and v.ty.kind in ('Dict', 'Set'):
        v = eng.iter_value(eng.iterspec(v))
    ty = eng.type_of(v)
    if ty is STR:
        return eng.lift(v, STR), STR
    if ty is EMPTY_TY or (isinstance(v, tuple) and not v):
        if ety is None:
            return None, EMPTY_TY
        return TH.empty(SeqT(ety)), SeqT(ety)
    if ty is not None and ty.kind == 'Tup':
        e = None
        for a in ty.args:
            e = a if e is None else join_ty(e, a)
        if e is None:
            raise Unsupported('heterogeneous tuple as sequence')
        return TH.lit(SeqT(e), [eng.lift(x, e) for x in v]), SeqT(e)
    if ty is None or ty.kind != 'Seq':
        raise Unsupported(f'{v!r} as a sequence')
    return eng.lift(v, ty), ty


def mk_list(eng, term, ty):
    return eng.alloc(LC(term=term, ety=ty.elem))


def under(eng, thunk):
    """evaluate under a binder: no facts, no exceptions allowed; returns value"""
    nh = len(eng.hyps)
    qs = eng.qsolver()
    qs.push()
    seen = set(eng._qseen)
    eng.pure += 1
    try:
        r, outs = eng.merged(thunk)
        if r is None:
            raise Unsupported('exception under a binder')
        return r[0], eng.hyps[nh:]
    finally:
        eng.pure -= 1
        del eng.hyps[nh:]
        qs.pop()
        eng._qseen = seen


# ---------------------------------------------------------------- lists
def list_append(eng, l, v):
    c = eng.content(l)
    if c.items is not None and c.kind == 'list':
        eng.set_content(l, LC(items=c.items + [v], ety=c.ety, kind=c.kind))
        return
    ety = c.ety
    if c.items is not None:
        ety = eng.lc_ety(c)
    if isinstance(v, Loc):
        eng.freeze(v)
    t = eng.lc_term(c, ety)
    eng.set_content(l, LC(term=TH.build(SeqT(ety), t, eng.lift(v, ety)), ety=ety, kind=c.kind))


def list_extend(eng, l, v):
    c = eng.content(l)
    if isinstance(v, (Loc, View)) and isinstance(eng.content(v), LC) and eng.content(v).kind == 'list':
        cv = eng.content(v)
        items = cv.items
    else:
        it = eng.iterspec(v)
        items = it.items
        if items is None:
            v = eng.iter_value(it)
    if items is not None and c.items is not None:
        eng.set_content(l, LC(items=c.items + list(items), ety=c.ety, kind=c.kind))
        return
    if items is not None:
        for x in items:
            list_append(eng, l, x)
        return
    t, ty = as_seq(eng, v)
    ety = c.ety if c.ety is not None else eng.lc_ety(c)
    if ety is None:
        ety = ty.elem if ty is not STR else STR
    if ty is STR and ety is STR:
        t = chars(eng, t)
    elif ty.elem is not ety:
        raise Unsupported(f'extend {ety} list with {ty}')
    eng.set_content(l, LC(term=TH.app(SeqT(ety), eng.lc_term(c, ety), t), ety=ety, kind=c.kind))


def list_concat(eng, a, b):
    ca, cb = eng.content(a), eng.content(b)
    if isinstance(a, tuple) != isinstance(b, tuple) and not eng.spec_mode and not isinstance(a, T) and not isinstance(b, T):
        raise PyExc('TypeError')
    if ca.items is not None and cb.items is not None:
        return eng.alloc(LC(items=list(ca.items) + list(cb.items)))
    ta, tb = eng.type_of(a), eng.type_of(b)
    ty = ta if tb is EMPTY_TY else tb if ta is EMPTY_TY else join_ty(ta, tb)
    if ty is None or ty.kind != 'Seq':
        if ta.kind == 'Seq' and tb.kind in ('Seq', 'Tup'):
            ty = ta
        else:
            raise Unsupported(f'concatenation of {ta} and {tb}')
    x = TH.empty(ty) if ta is EMPTY_TY else eng.lift(a, ty)
    y = TH.empty(ty) if tb is EMPTY_TY else eng.lift(b, ty)
    return mk_list(eng, TH.app(ty, x, y), ty)


def list_repeat(eng, a, n):
    c = eng.content(a)
    if c.items is not None and isinstance(n, int):
        return eng.alloc(LC(items=c.items * n))
    if c.items is not None and len(c.items) == 1:
        x = c.items[0]
        h = eng.type_hint
        if x is None:
            if h is None:
                raise Unsupported('[None] * n without a declared type')
            ety = parse_ty(h).elem
            xt = TH.none(ety)
        else:
            ety = eng.type_of(x)
            if h is not None:
                ety = parse_ty(h).elem
            xt = eng.lift(x, ety)
        ty = SeqT(ety)
        r = eng.fresh(ty, 'rep')
        nn = to_int(n.term if isinstance(n, T) else n)
        eng.assume(TH.len(ty, r) == z3.If(nn < 0, z3.IntVal(0), nn))
        i = z3.Int(eng.fresh_name('ri'))
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nn), TH.idx(ty, r, i) == xt), patterns=[TH.idx(ty, r, i)]))
        return mk_list(eng, r, ty)
    raise Unsupported('list repetition')


def length(eng, v, truth=False):
    """python len as int or z3 term; truth: as condition"""
    if isinstance(v, T) and v.ty.kind == 'Opt':
        v = eng.unopt(v)
    n = _length(eng, v)
    if truth:
        return n > 0
    return n


def _length(eng, v):
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, IterSpec):
        return v.n
    if isinstance(v, T):
        if v.ty.is_seq:
            return TH.len(v.ty, v.term)
        if v.ty.kind == 'Dict':
            return TH.len(SeqT(v.ty.args[0]), TH.d_keys(v.ty, v.term))
        if v.ty.kind == 'Set':
            return card(eng, v.ty, v.term)
        r = METHODS.get((v.ty.name(), '__len__'))
        if r:
            return to_int(unT(r(eng, v, [], {})))
        if v.ty.kind in ('Ref', 'Rec'):
            rc = (eng.refclasses if v.ty.kind == 'Ref' else eng.recclasses)[v.ty.args[0]]
            m, _ = eng.find_class(rc['full']).lookup('__len__')
            if m is not None:
                return to_int(unT(eng.call_function(m, [], {}, recv=v)))
    if isinstance(v, (Loc, View)):
        c = eng.content(v)
        if isinstance(c, LC):
            if c.kind == 'stream':
                raise PyExc('TypeError')
            if c.items is not None:
                return len(c.items)
            ty = SeqT(c.ety) if c.ety is not None else STR
            return TH.len(ty, c.term)
        if isinstance(c, DC):
            if c.items is not None:
                return len(c.items)
            return TH.len(SeqT(c.ty.args[0]), TH.d_keys(c.ty, c.term))
        if isinstance(c, SC):
            if c.items is not None and len(c.items) == 0:
                return 0
            if c.items is not None and all(isinstance(x, (int, str)) for x in c.items):
                return len(set(c.items))
            e = eng.sc_ety(c)
            return card(eng, SetT(e), eng.sc_term(c, e))
        if isinstance(c, OC):
            m, _ = c.cls.lookup('__len__')
            if m is not None:
                return to_int(unT(eng.call_function(m, [], {}, recv=v)))
    raise Unsupported(f"len of {v!r}")


def unT(v):
    return v.term if isinstance(v, T) else v


def card(eng, ty, s):
    f = TH.fn(TH._n('card', ty), ty, INT)
    TH.axiom(TH._n('card', ty) + '.nonneg', z3.ForAll([z3.Const('cs!', TH.sort(ty))], f(z3.Const('cs!', TH.sort(ty))) >= 0, patterns=[f(z3.Const('cs!', TH.sort(ty)))]), [f.name()])
    return f(s)


def set_enum(eng, ety, s):
    """some enumeration of a finite set: all members, each once"""
    eng.libuse.add('set iteration: every member exactly once, any order; sets are finite')
    st = SeqT(ety)
    r = eng.fresh(st, 'enum')
    pos = eng.fresh_fn('epos', ety, INT)
    i = z3.Int(eng.fresh_name('ei'))
    x = z3.Const(eng.fresh_name('ex'), TH.sort(ety))
    ix = TH.fn(TH._n('idx', st), st, INT, ety)
    eng.assume(TH.len(st, r) == card(eng, SetT(ety), s))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < TH.len(st, r)), z3.And(z3.Select(s, ix(r, i)), pos(ix(r, i)) == i)), patterns=[ix(r, i)]))
    eng.assume(z3.ForAll([x], z3.Implies(z3.Select(s, x), z3.And(pos(x) >= 0, pos(x) < TH.len(st, r), ix(r, pos(x)) == x)), patterns=[pos(x)] + ([z3.Select(s, x)] if pattern_ok(s) else [])))
    return r


def pattern_ok(s):
    return not (z3.is_app(s) and s.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE, z3.Z3_OP_CONST_ARRAY))


def contains(eng, c, x):
    """x in c -> bool or z3"""
    if isinstance(c, T) and c.ty.kind == 'Opt':
        c = eng.unopt(c)
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, tuple):
        r = False
        for y in c:
            e = eng.equal(x, y)
            if isinstance(e, bool):
                if e:
                    return True
                continue
            r = e if r is False else z3.Or(r, e)
        return r
    ty = eng.type_of(c)
    if isinstance(c, (Loc, View)):
        ct = eng.content(c)
        if isinstance(ct, DC):
            if ct.items is not None and isinstance(x, (str, int)):
                return x in ct.items
            if ct.items is not None and not ct.items:
                return False
            if ct.items is not None and ct.ty is None:
                return contains(eng, tuple(ct.items), x)
            dt = eng.dc_ty(ct)
            return maybe_in(eng, x, dt.args[0], lambda k: TH.d_has(dt, eng.dc_term(ct, dt), k))
        if isinstance(ct, SC):
            if ct.items is not None:
                return contains(eng, tuple(ct.items), x)
            return z3.Select(ct.term, eng.lift(x, ct.ety))
        if isinstance(ct, LC) and ct.items is not None:
            return contains(eng, tuple(ct.items), x)
        if isinstance(ct, OC):
            m, _ = ct.cls.lookup('__contains__')
            if m is not None:
                return eng.truth(eng.call_function(m, [x], {}, recv=c))
    if ty is STR:
        tx = eng.type_of(x)
        if tx is STR:
            s = eng.lift(c, STR)
            t = eng.lift(x, STR)
            if isinstance(x, str) and len(x) == 1:
                f = member_fn(STR)
                return f(s, z3.IntVal(ord(x)))
            return TH.fn('str.contains', STR, STR, B)(s, t)
    if ty is not None and ty.kind == 'Dict':
        return maybe_in(eng, x, ty.args[0], lambda k: TH.d_has(ty, eng.lift(c, ty), k))
    if ty is not None and ty.kind == 'Set':
        return z3.Select(eng.lift(c, ty), eng.lift(x, ty.args[0]))
    if ty is not None and ty.kind == 'Seq':
        return member_fn(ty)(eng.lift(c, ty), eng.lift(x, ty.elem))
    if isinstance(c, T) and (ty.name(), '__contains__') in METHODS:
        return METHODS[(ty.name(), '__contains__')](eng, c, x)
    raise Unsupported(f'{x!r} in {c!r}')


def maybe_in(eng, x, kt, has):
    """membership of a value that may be None"""
    tx = eng.type_of(x)
    if kt.kind not in ('Opt', 'Ref'):
        if tx is NONE_TY:
            return False
        if isinstance(x, T) and tx.kind == 'Opt' and tx.args[0] == kt:
            return z3.And(z3.Not(TH.is_none(tx, x.term)), has(TH.opt_val(tx, x.term)))
    return has(key_term(eng, x, kt))


def key_term(eng, x, kt):
    tx = eng.type_of(x)
    if tx is not None and tx.kind == 'Tup' and kt.kind == 'Seq':
        return eng.lift(x, kt)
    if tx is NONE_TY and kt.kind not in ('Opt', 'Ref'):
        # None is never a key of such a dictionary
        raise Unsupported('None as dictionary key')
    return eng.lift(x, kt)


def member_fn(ty):
    """membership in a sequence"""
    nm = TH._n('mem', ty)
    first = nm not in TH.decls
    f = TH.fn(nm, ty, ty.elem, B)
    if first:
        TH.sort(ty)
        S, E = TH.sort(ty), TH.sort(ty.elem)
        s, e = z3.Const(f'ms!{ty}', S), z3.Const(f'me!{ty}', E)
        e2 = z3.Const(f'me2!{ty}', E)
        i = z3.Int('mi!')
        ix, ln = TH.fn(TH._n('idx', ty), ty, INT, ty.elem), TH.fn(TH._n('len', ty), ty, INT)
        w = TH.fn(TH._n('memw', ty), ty, ty.elem, INT)
        TH.axiom(nm + '.w', z3.ForAll([s, e], z3.Implies(f(s, e), z3.And(0 <= w(s, e), w(s, e) < ln(s), ix(s, w(s, e)) == e)), patterns=[f(s, e)]), [nm])
        TH.axiom(nm + '.i', z3.ForAll([s, e, i], z3.Implies(z3.And(0 <= i, i < ln(s), ix(s, i) == e), f(s, e)), patterns=[z3.MultiPattern(f(s, e), ix(s, i))]), [nm])
        bl = TH.fn(TH._n('build', ty), ty, ty.elem, ty)
        TH.axiom(nm + '.b', z3.ForAll([s, e, e2], f(bl(s, e), e2) == z3.Or(e == e2, f(s, e2)), patterns=[f(bl(s, e), e2)]), [nm])
        TH.axiom(nm + '.e', z3.ForAll([e], z3.Not(f(TH.empty(ty), e)), patterns=[f(TH.empty(ty), e)]), [nm])
    return f


# ---------------------------------------------------------------- subscripts
def norm_index(eng, k, n, exc='IndexError', what='index in range'):
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, int) and isinstance(n, int):
        if not -n <= k < n:
            eng.check(z3.BoolVal(False), exc, what)
            raise PyExc(exc)
        return z3.IntVal(k if k >= 0 else n + k)
    kt = eng.lift(k, INT) if not isinstance(k, int) else z3.IntVal(k)
    nt = to_int(n)
    if isinstance(k, int):
        if k >= 0:
            eng.check(kt < nt, exc, what)
            return kt
        eng.check(nt + k >= 0, exc, what)
        return z3.simplify(nt + k)
    if eng.spec_mode:
        return kt
    if eng.quick(kt >= 0):
        eng.check(kt < nt, exc, what)
        return kt
    eng.check(z3.And(kt >= -nt, kt < nt), exc, what)
    if eng.quick(kt >= 0):
        return kt
    if eng.quick(kt < 0):
        return nt + kt
    return z3.If(kt < 0, nt + kt, kt)


def clamp(eng, k, n, dflt):
    if k is None:
        return to_int(dflt)
    if isinstance(k, int) and isinstance(n, int):
        return z3.IntVal(max(0, n + k) if k < 0 else min(k, n))
    kt, nt = eng.lift(k, INT) if not isinstance(k, int) else z3.IntVal(k), to_int(n)
    if z3.is_int_value(kt) and kt.as_long() == 0:
        return kt
    if eng.spec_mode:
        if isinstance(k, int) and k < 0:
            return nt + k
        return kt
    pos = eng.quick(kt >= 0)
    if pos and eng.quick(kt <= nt):
        return kt
    hi = z3.If(kt > nt, nt, kt)
    if pos:
        return hi
    neg = z3.If(nt + kt < 0, z3.IntVal(0), nt + kt)
    if eng.quick(kt < 0):
        if eng.quick(nt + kt >= 0):
            return nt + kt
        return neg
    return z3.If(kt < 0, neg, hi)


def slice_term(eng, t, ty, k):
    _, lo, hi, st = k
    if st is not None:
        raise Unsupported('slice with a step')
    n = TH.len(ty, t)
    a, b = clamp(eng, lo, n, 0), clamp(eng, hi, n, n)
    a, b = z3.simplify(a), z3.simplify(b)
    if hi is None:
        return TH.drop(ty, t, a)
    if lo is None or (z3.is_int_value(a) and a.as_long() == 0):
        return TH.take(ty, t, b)
    if not eng.spec_mode and not eng.quick(a <= b):
        b = z3.If(b < a, a, b)
    return TH.drop(ty, TH.take(ty, t, b), a)


def getitem(eng, b, k):
    b = eng.resolve(b) if not isinstance(b, T) else b
    if b is IGNORE:
        return IGNORE
    if isinstance(b, T) and b.ty.kind == 'Opt':
        b = eng.unopt(b)
    if isinstance(k, T) and k.ty.kind == 'Opt':
        k = eng.unopt(k)
    sl = isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice'
    if isinstance(b, (str, tuple)) and not isinstance(k, T):
        if sl and all(x is None or isinstance(x, int) for x in k[1:]):
            return b[slice(*k[1:])]
        if isinstance(k, int):
            if not -len(b) <= k < len(b):
                eng.check(z3.BoolVal(False), 'IndexError', 'index in range')
                raise PyExc('IndexError')
            return b[k]
    if isinstance(b, T) and b.ty.is_seq or isinstance(b, str):
        ty = eng.type_of(b)
        t = eng.lift(b, ty)
        if sl:
            return T(slice_term(eng, t, ty, k), ty)
        i = norm_index(eng, k, TH.len(ty, t))
        return eng.elem(t, ty, i)
    if isinstance(b, T) and b.ty.kind == 'Arr':
        return eng.from_term(z3.Select(b.term, eng.lift(k, b.ty.args[0])), b.ty.args[1])
    if isinstance(b, (Loc, View)):
        c = eng.content(b)
        if isinstance(c, LC):
            h = METHODS.get((c.kind, '__getitem__'))
            if h:
                return h(eng, b, c, k)
            if c.kind == 'stream':
                raise PyExc('TypeError')
            if c.items is not None:
                if sl and all(x is None or isinstance(x, int) for x in k[1:]):
                    return eng.alloc(LC(items=c.items[slice(*k[1:])]))
                if isinstance(k, int):
                    if not -len(c.items) <= k < len(c.items):
                        eng.check(z3.BoolVal(False), 'IndexError', 'index in range')
                        raise PyExc('IndexError')
                    return c.items[k]
                ety = eng.lc_ety(c)
                if ety is None:
                    raise Unsupported('symbolic index into a list of mixed values')
                c = LC(term=eng.lc_term(c, ety), ety=ety)
            ty = SeqT(c.ety)
            if sl:
                return mk_list(eng, slice_term(eng, c.term, ty, k), ty)
            i = norm_index(eng, k, TH.len(ty, c.term))
            x = eng.elem(c.term, ty, i)
            if c.ety.kind in ('Set', 'Dict') and isinstance(b, Loc):
                return View('lidx', b, i, c.ety)
            return x
        if isinstance(c, DC):
            return dict_get(eng, b, c, k)
        if isinstance(c, OC):
            if '__getitem__' in c.fields:       # abstract class
                return eng.call(c.fields['__getitem__'], [k], {})
            m, _ = c.cls.lookup('__getitem__')
            if m is not None:
                return eng.call_function(m, [k], {}, recv=b)
    if isinstance(b, T) and b.ty.kind == 'Dict':
        kt = key_term(eng, k, b.ty.args[0])
        eng.check(TH.d_has(b.ty, b.term, kt), 'KeyError', 'key is present')
        return eng.from_term(TH.d_get(b.ty, b.term, kt), b.ty.args[1])
    if isinstance(b, T):
        h = METHODS.get((b.ty.name(), '__getitem__'))
        if h:
            return h(eng, b, None, k)
        if b.ty.kind in ('Rec', 'Ref'):
            rc = (eng.recclasses if b.ty.kind == 'Rec' else eng.refclasses)[b.ty.args[0]]
            m, _ = eng.find_class(rc['full']).lookup('__getitem__')
            if m is not None:
                return eng.call_function(m, [k], {}, recv=b)
    from .interp import PyObj
    if isinstance(b, PyObj) and '__getitem__' in b.attrs:
        return b.attrs['__getitem__'](eng, k)
    raise Unsupported(f'subscript of {b!r}')


def to_symbolic(eng, b, c, kt=None, vt=None):
    """give a concretely known dictionary a term representation"""
    ty = c.ty or eng.dc_ty(c)
    if ty is None:
        if kt is None or vt is None:
            raise Unsupported('dictionary of unknown type')
        ty = DictT(kt, vt)
    elif kt is not None and vt is not None:
        ty = DictT(join_ty(ty.args[0], kt) or ty.args[0], join_ty(ty.args[1], vt) or ty.args[1])
    n = DC(ty=ty, term=eng.dc_term(c, ty), default=c.default, kind=c.kind)
    return n


def default_value(eng, c):
    d = c.default
    if d == 'int':
        return 0
    if d == 'set':
        return eng.alloc(SC(items=[]))
    if d == 'list':
        return eng.alloc(LC(items=[]))
    raise Unsupported(f'default {d}')


def default_term(d, vty):
    if d == 'int':
        return z3.IntVal(0) if vty is INT else z3.RealVal(0)
    if d == 'set':
        return z3.K(TH.sort(vty.args[0]), z3.BoolVal(False))
    if d == 'list':
        return TH.empty(vty)
    raise Unsupported(f'default {d}')


def dict_get(eng, b, c, k):
    if c.items is not None and isinstance(k, (str, int)) and all(isinstance(x, (str, int)) for x in c.items):
        if k in c.items:
            return c.items[k]
        if c.kind == 'counter':
            return 0
        if c.default is not None:
            v = default_value(eng, c)
            if eng.spec_mode:
                return v
            items = dict(c.items)
            items[k] = v
            eng.set_content(b, DC(items=items, ty=c.ty, default=c.default, kind=c.kind))
            return v
        eng.check(z3.BoolVal(False), 'KeyError', f'key {k!r} is present')
        raise PyExc('KeyError')
    if c.items and not eng.spec_mode and any(isinstance(x, (ClassV, FuncV, Lib)) for x in c.items.values()) and all(isinstance(x, str) for x in c.items):
        # choice among classes or functions by a name known only by its properties
        kt = eng.lift(k, STR)
        for x, y in c.items.items():
            if eng.branch(kt == TH.strlit(x)):
                return y
        eng.check(z3.BoolVal(False), 'KeyError', 'key is present')
        raise PyExc('KeyError')
    if c.items is not None:
        if not c.items and c.ty is None:
            if c.kind == 'counter':
                return 0
            if c.default == 'int' and not eng.spec_mode:
                c = to_symbolic(eng, b, c, eng.type_of(k), INT)
                eng.set_content(b, c)
            else:
                raise Unsupported('access to an empty dictionary of unknown type')
        else:
            c = to_symbolic(eng, b, c)
    ty = c.ty
    kt = key_term(eng, k, ty.args[0])
    has = TH.d_has(ty, c.term, kt)
    if c.kind == 'counter':
        return eng.from_term(z3.If(has, TH.d_get(ty, c.term, kt), default_term('int', ty.args[1])), ty.args[1])
    if c.default is not None:
        dv = default_term(c.default, ty.args[1])
        if eng.spec_mode:
            return eng.from_term(z3.If(has, TH.d_get(ty, c.term, kt), dv), ty.args[1])
        if not eng.quick(has):
            if eng.quick(z3.Not(has)):
                nt = TH.d_store(ty, c.term, kt, dv)
            else:
                nt = z3.If(has, c.term, TH.d_store(ty, c.term, kt, dv))
                # name the new value: one fact instead of case splits everywhere
                nd = eng.fresh(ty, 'dd')
                eng.assume(nd == nt)
                eng.assume(TH.d_has(ty, nd, kt))
                eng.assume(TH.d_get(ty, nd, kt) == z3.If(has, TH.d_get(ty, c.term, kt), dv))
                nt = nd
            eng.set_content(b, DC(ty=ty, term=nt, default=c.default, kind=c.kind))
            c = eng.content(b)
    else:
        eng.check(has, 'KeyError', 'key is present')
    if ty.args[1].kind in ('Seq', 'Dict', 'Set') and not eng.spec_mode:
        return View('dget', b, kt, ty.args[1])
    return eng.from_term(TH.d_get(ty, c.term, kt), ty.args[1])


def setitem(eng, b, k, v):
    if isinstance(b, T) and b.ty.kind == 'Opt':
        b = eng.unopt(b)
    if isinstance(k, T) and k.ty.kind == 'Opt':
        k = eng.unopt(k)
    if isinstance(b, (Loc, View)):
        c = eng.content(b)
        if isinstance(c, LC):
            h = METHODS.get((c.kind, '__setitem__'))
            if h:
                return h(eng, b, c, k, v)
            if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice':
                raise Unsupported('slice assignment')
            if c.items is not None and isinstance(k, int):
                if not -len(c.items) <= k < len(c.items):
                    eng.check(z3.BoolVal(False), 'IndexError', 'index in range')
                    raise PyExc('IndexError')
                items = list(c.items)
                items[k] = v
                eng.set_content(b, LC(items=items, kind=c.kind))
                return
            ety = eng.lc_ety(c)
            t = eng.lc_term(c, ety)
            ty = SeqT(ety)
            i = norm_index(eng, k, TH.len(ty, t))
            if isinstance(v, Loc):
                eng.freeze(v)
            eng.set_content(b, LC(term=TH.upd(ty, t, i, eng.lift(v, ety)), ety=ety, kind=c.kind))
            return
        if isinstance(c, DC):
            if c.items is not None and isinstance(k, (str, int)) and c.ty is None:
                items = dict(c.items)
                items[k] = v
                eng.set_content(b, DC(items=items, default=c.default, kind=c.kind))
                return
            if c.items is not None:
                c = to_symbolic(eng, b, c, eng.type_of(k), value_ty(eng, v))
            ty = c.ty
            if isinstance(v, Loc):
                eng.freeze(v)
            eng.set_content(b, DC(ty=ty, term=TH.d_store(ty, c.term, key_term(eng, k, ty.args[0]), eng.lift(v, ty.args[1])), default=c.default, kind=c.kind))
            return
        if isinstance(c, OC):
            m, _ = c.cls.lookup('__setitem__')
            if m is not None:
                return eng.call_function(m, [k, v], {}, recv=b)
    raise Unsupported(f'item assignment on {b!r}')


def value_ty(eng, v):
    t = eng.type_of(v)
    return t


# ---------------------------------------------------------------- strings
def chars(eng, t):
    """list(str): one single-character string per character"""
    f = TH.fn('str.chars', STR, SeqT(STR))
    s, i = z3.Const('cs!s', TH.sort(STR)), z3.Int('cs!i')
    st = SeqT(STR)
    one = lambda c: TH.fn('build.Str', STR, INT, STR)(TH.empty(STR), c)
    TH.axiom('str.chars.len', z3.ForAll([s], TH.fn(TH._n('len', st), st, INT)(f(s)) == TH.fn('len.Str', STR, INT)(s), patterns=[f(s)]), ['str.chars'])
    ixs = TH.fn(TH._n('idx', st), st, INT, STR)
    ixc = TH.fn('idx.Str', STR, INT, INT)
    TH.axiom('str.chars.idx', z3.ForAll([s, i], z3.Implies(z3.And(0 <= i, i < TH.fn('len.Str', STR, INT)(s)), ixs(f(s), i) == one(ixc(s, i))), patterns=[ixs(f(s), i)]), ['str.chars'])
    return f(t)


def concat_fn():
    """''.join"""
    st = SeqT(STR)
    new = 'str.concat' not in TH.decls
    f = TH.fn('str.concat', st, STR)
    if new:
        TH.sort(st)
        s, t = z3.Consts('jc!s jc!t', TH.sort(st))
        e = z3.Const('jc!e', TH.sort(STR))
        app = TH.fn('app.Str', STR, STR, STR)
        TH.axiom('str.concat.nil', f(TH.empty(st)) == TH.empty(STR), ['str.concat'])
        b = TH.fn(TH._n('build', st), st, STR, st)
        TH.axiom('str.concat.cons', z3.ForAll([s, e], f(b(s, e)) == app(f(s), e), patterns=[f(b(s, e))]), ['str.concat'])
    return f


def join_fn():
    """sep.join"""
    st = SeqT(STR)
    new = 'str.join' not in TH.decls
    f = TH.fn('str.join', STR, st, STR)
    if new:
        TH.sort(st)
        s = z3.Const('jj!s', TH.sort(st))
        p, e = z3.Consts('jj!p jj!e', TH.sort(STR))
        app = TH.fn('app.Str', STR, STR, STR)
        b = TH.fn(TH._n('build', st), st, STR, st)
        ln = TH.fn(TH._n('len', st), st, INT)
        TH.axiom('str.join.nil', z3.ForAll([p], f(p, TH.empty(st)) == TH.empty(STR), patterns=[f(p, TH.empty(st))]), ['str.join'])
        TH.axiom('str.join.cons', z3.ForAll([p, s, e], f(p, b(s, e)) == z3.If(ln(s) == 0, e, app(app(f(p, s), p), e)), patterns=[f(p, b(s, e))]), ['str.join'])
    return f


def is_ws_fn():
    """the characters str.split() and str.strip() remove: exactly those with str.isspace()"""
    new = 'is_ws' not in TH.decls
    f = TH.fn('is_ws', INT, B)
    if new:
        c = z3.Int('ws!c')
        TH.axiom('is_ws', z3.ForAll([c], f(c) == z3.Or(z3.And(9 <= c, c <= 13), z3.And(28 <= c, c <= 32), c == 133, c == 160, c == 5760, z3.And(8192 <= c, c <= 8202),
                                                       c == 8232, c == 8233, c == 8239, c == 8287, c == 12288), patterns=[f(c)]), ['is_ws'])
    return f


def is_ws(c):
    return is_ws_fn()(c)


def str_fn(name, *tys):
    return TH.fn(name, *tys)


def split_ax():
    """text.split(): the maximal runs of non-whitespace characters, in order"""
    st = SeqT(STR)
    if 'str.split' in TH.decls:
        return TH.decls['str.split']
    f = TH.fn('str.split', STR, st)
    s = z3.Const('sp!s', TH.sort(STR))
    i, j = z3.Ints('sp!i sp!j')
    ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
    lns, ixs = TH.fn(TH._n('len', st), st, INT), TH.fn(TH._n('idx', st), st, INT, STR)
    ws = is_ws_fn()
    W = ixs(f(s), i)
    TH.axiom('str.split.nonempty', z3.ForAll([s, i], z3.Implies(z3.And(0 <= i, i < lns(f(s))), ln(W) > 0), patterns=[W]), ['str.split'])
    TH.axiom('str.split.nows', z3.ForAll([s, i, j], z3.Implies(z3.And(0 <= i, i < lns(f(s)), 0 <= j, j < ln(W)), z3.Not(ws(ix(W, j)))), patterns=[ix(W, j)]), ['str.split'])
    # characters of the words are characters of the text
    m = TH.fn('split.src', STR, INT, INT, INT)
    TH.axiom('str.split.src', z3.ForAll([s, i, j], z3.Implies(z3.And(0 <= i, i < lns(f(s)), 0 <= j, j < ln(W)), z3.And(0 <= m(s, i, j), m(s, i, j) < ln(s), ix(s, m(s, i, j)) == ix(W, j))), patterns=[ix(W, j)]), ['str.split'])
    st_ = TH.fn('str.strip', STR, STR)
    TH.axiom('str.split.strip', z3.ForAll([s], f(st_(s)) == f(s), patterns=[f(st_(s))]), ['str.split', 'str.strip'])
    # definition, character by character
    x = z3.Int('sp!x')
    b = TH.fn('build.Str', STR, INT, STR)
    bs, tks = TH.fn(TH._n('build', st), st, STR, st), TH.fn(TH._n('take', st), st, INT, st)
    n = lns(f(s))
    one = b(TH.empty(STR), x)
    TH.axiom('str.split.nil', f(TH.empty(STR)) == TH.empty(st), ['str.split'])
    TH.axiom('str.split.cons', z3.ForAll([s, x], z3.If(ws(x), f(b(s, x)) == f(s), z3.If(z3.Or(ln(s) == 0, ws(ix(s, ln(s) - 1))), f(b(s, x)) == bs(f(s), one),
             z3.And(n >= 1, f(b(s, x)) == bs(tks(f(s), n - 1), b(ixs(f(s), n - 1), x))))), patterns=[f(b(s, x))]), ['str.split'])
    return f


def py_strip_facts():
    if 'str.strip' in TH.decls:
        return TH.decls['str.strip']
    f = TH.fn('str.strip', STR, STR)
    s = z3.Const('st!s', TH.sort(STR))
    ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
    a = TH.fn('strip.lo', STR, INT)
    tk, dr = TH.fn('take.Str', STR, INT, STR), TH.fn('drop.Str', STR, INT, STR)
    i = z3.Int('st!i')
    ws = is_ws_fn()
    TH.axiom('str.strip.sub', z3.ForAll([s], z3.And(0 <= a(s), a(s) + ln(f(s)) <= ln(s)), patterns=[f(s)]), ['str.strip'])
    TH.axiom('str.strip.idx', z3.ForAll([s, i], z3.Implies(z3.And(0 <= i, i < ln(f(s))), ix(f(s), i) == ix(s, a(s) + i)), patterns=[ix(f(s), i)]), ['str.strip'])
    TH.axiom('str.strip.ends', z3.ForAll([s], z3.Implies(ln(f(s)) > 0, z3.And(z3.Not(ws(ix(f(s), 0))), z3.Not(ws(ix(f(s), ln(f(s)) - 1))))), patterns=[f(s)]), ['str.strip'])
    TH.axiom('str.strip.out', z3.ForAll([s, i], z3.Implies(z3.Or(z3.And(0 <= i, i < a(s)), z3.And(a(s) + ln(f(s)) <= i, i < ln(s))), ws(ix(s, i))), patterns=[z3.MultiPattern(f(s), ix(s, i))]), ['str.strip'])
    TH.axiom('str.strip.fix', z3.ForAll([s], z3.Implies(z3.And(ln(s) > 0, z3.Not(ws(ix(s, 0))), z3.Not(ws(ix(s, ln(s) - 1)))), f(s) == s), patterns=[f(s)]), ['str.strip'])
    TH.axiom('str.strip.nil', f(TH.empty(STR)) == TH.empty(STR), ['str.strip'])
    return f


def replace_fn():
    """replacement of one character by another, position by position"""
    if 'str.repl' in TH.decls:
        return TH.decls['str.repl']
    f = TH.fn('str.repl', STR, INT, INT, STR)
    s, t = z3.Consts('rp!s rp!t', TH.sort(STR))
    a, b, i = z3.Ints('rp!a rp!b rp!i')
    ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
    app, bld = TH.fn('app.Str', STR, STR, STR), TH.fn('build.Str', STR, INT, STR)
    TH.axiom('str.repl.len', z3.ForAll([s, a, b], ln(f(s, a, b)) == ln(s), patterns=[f(s, a, b)]), ['str.repl'])
    TH.axiom('str.repl.idx', z3.ForAll([s, a, b, i], z3.Implies(z3.And(0 <= i, i < ln(s)), ix(f(s, a, b), i) == z3.If(ix(s, i) == a, b, ix(s, i))), patterns=[ix(f(s, a, b), i)]), ['str.repl'])
    TH.axiom('str.repl.app', z3.ForAll([s, t, a, b], f(app(s, t), a, b) == app(f(s, a, b), f(t, a, b)), patterns=[f(app(s, t), a, b)]), ['str.repl'])
    TH.axiom('str.repl.bld', z3.ForAll([s, a, b, i], f(bld(s, i), a, b) == bld(f(s, a, b), z3.If(i == a, b, i)), patterns=[f(bld(s, i), a, b)]), ['str.repl'])
    TH.axiom('str.repl.nil', z3.ForAll([a, b], f(TH.empty(STR), a, b) == TH.empty(STR), patterns=[f(TH.empty(STR), a, b)]), ['str.repl'])
    return f


def strfacts(eng):
    pass


def str_of_int(eng, t):
    if 'str.ofint' not in TH.decls:
        f = TH.fn('str.ofint', INT, STR)
        g = TH.fn('str.toint', STR, INT)
        ok = TH.fn('str.isint', STR, B)
        i, j = z3.Ints('si!i si!j')
        ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
        TH.axiom('str.ofint.inv', z3.ForAll([i], z3.And(g(f(i)) == i, ok(f(i)), ln(f(i)) > 0), patterns=[f(i)]), ['str.ofint'])
        TH.axiom('str.ofint.digits', z3.ForAll([i, j], z3.Implies(z3.And(0 <= j, j < ln(f(i))), z3.Or(ix(f(i), j) == 45, z3.And(48 <= ix(f(i), j), ix(f(i), j) <= 57))), patterns=[ix(f(i), j)]), ['str.ofint'])
    return TH.decls['str.ofint'](t)


def str_method(eng, s, name, args, kwargs):
    if isinstance(s, str) and all(isinstance(a, (str, int)) and not isinstance(a, T) for a in args) and name not in ('join', 'split'):
        try:
            r = getattr(s, name)(*args)
        except Exception as e:
            raise PyExc(type(e).__name__)
        if isinstance(r, (str, int, bool)):
            return r
        if isinstance(r, list):
            return eng.alloc(LC(items=r))
    if isinstance(s, str) and name == 'split' and not args:
        return eng.alloc(LC(items=s.split()))
    h = METHODS.get(('str', name))
    if h:
        r = h(eng, s, args, kwargs)
        if r is not NotImplemented:
            return r
    t = eng.lift(s, STR)
    if name == 'split' and not args:
        eng.libuse.add('str.split()')
        py_strip_facts()
        return mk_list(eng, split_ax()(t), SeqT(STR))
    if name == 'strip' and not args:
        eng.libuse.add('str.strip()')
        return T(py_strip_facts()(t), STR)
    if name == 'join':
        eng.libuse.add('str.join()')
        seq, ty = as_seq(eng, args[0], STR)
        if ty is STR:
            seq, ty = chars(eng, seq), SeqT(STR)
        if ty.elem is not STR:
            raise Unsupported('join of non strings')
        if isinstance(s, str) and s == '':
            return T(concat_fn()(seq), STR)
        return T(join_fn()(t, seq), STR)
    if name == 'replace' and all(isinstance(a, str) and len(a) == 1 for a in args):
        eng.libuse.add('str.replace(char, char)')
        return T(replace_fn()(t, z3.IntVal(ord(args[0])), z3.IntVal(ord(args[1]))), STR)
    if name == 'startswith' and isinstance(args[0], str):
        p = args[0]
        n = TH.len(STR, t)
        return T(z3.And([n >= len(p)] + [TH.idx(STR, t, i) == ord(ch) for i, ch in enumerate(p)]), BOOL)
    if name == 'endswith' and isinstance(args[0], str):
        p = args[0]
        n = TH.len(STR, t)
        return T(z3.And([n >= len(p)] + [TH.idx(STR, t, n - len(p) + i) == ord(ch) for i, ch in enumerate(p)]), BOOL)
    raise Unsupported(f'str.{name}')


# ---------------------------------------------------------------- methods
def call_method(eng, recv, name, args, kwargs):
    if isinstance(recv, T) and recv.ty.kind == 'Opt':
        recv = eng.unopt(recv)
    if recv is IGNORE:
        return IGNORE
    ty = recv.ty if isinstance(recv, T) else None
    if isinstance(recv, str) or ty is STR:
        return str_method(eng, recv, name, args, kwargs)
    if ty is not None:
        h = METHODS.get((ty.name(), name))
        if h:
            return h(eng, recv, args, kwargs)
    if isinstance(recv, (Loc, View)):
        c = eng.content(recv)
        if isinstance(c, LC):
            h = METHODS.get((c.kind, name))
            if h:
                return h(eng, recv, args, kwargs)
            if c.kind == 'array':
                raise Unsupported(f'array method {name}')
            return list_method(eng, recv, c, name, args, kwargs)
        if isinstance(c, DC):
            return dict_method(eng, recv, c, name, args, kwargs)
        if isinstance(c, SC):
            return set_method(eng, recv, c, name, args, kwargs)
        if isinstance(c, OC):
            h = METHODS.get((c.cls.name, name))
            if h:
                return h(eng, recv, args, kwargs)
    if ty is not None and ty.kind == 'Dict':
        return dict_method(eng, recv, eng.content(recv), name, args, kwargs)
    if ty is not None and ty.kind == 'Set':
        return set_method(eng, recv, eng.content(recv), name, args, kwargs)
    if ty is not None and ty.kind == 'Seq' or isinstance(recv, tuple):
        return list_method(eng, recv, eng.content(recv), name, args, kwargs)
    from .interp import PyObj
    if isinstance(recv, PyObj) and name in recv.attrs:
        return recv.attrs[name](eng, *args, **kwargs)
    raise Unsupported(f'method {name} of {recv!r}')


def list_method(eng, l, c, name, args, kwargs):
    if name == 'append':
        return list_append(eng, l, args[0])
    if name == 'extend':
        return list_extend(eng, l, args[0])
    if name == 'clear':
        eng.set_content(l, LC(items=[], kind=c.kind) if c.ety is None else LC(term=TH.empty(SeqT(c.ety)), ety=c.ety, kind=c.kind))
        return None
    if name == 'copy':
        return eng.alloc(LC(items=list(c.items) if c.items is not None else None, ety=c.ety, term=c.term))
    if name == 'pop':
        k = args[0] if args else -1
        if c.items is not None and isinstance(k, int):
            if not -len(c.items) <= k < len(c.items):
                eng.check(z3.BoolVal(False), 'IndexError', 'pop from a non-empty list')
                raise PyExc('IndexError')
            items = list(c.items)
            v = items.pop(k)
            eng.set_content(l, LC(items=items, kind=c.kind))
            return v
        ety = eng.lc_ety(c)
        ty = SeqT(ety)
        t = eng.lc_term(c, ety)
        n = TH.len(ty, t)
        i = norm_index(eng, k, n, what='pop index in range')
        if k == -1:
            nt = TH.take(ty, t, n - 1)
        elif k == 0:
            nt = TH.drop(ty, t, 1)
        else:
            nt = TH.app(ty, TH.take(ty, t, i), TH.drop(ty, t, i + 1))
        v = eng.elem(t, ty, i)
        eng.set_content(l, LC(term=nt, ety=ety, kind=c.kind))
        return v
    if name == 'insert' and c.items is not None and isinstance(args[0], int):
        items = list(c.items)
        items.insert(args[0], args[1])
        eng.set_content(l, LC(items=items))
        return None
    if name == 'index' or name == 'count':
        raise Unsupported('list.' + name)
    if name == 'sort':
        r = do_sorted(eng, l, kwargs)
        eng.set_content(l, eng.content(r))
        return None
    raise Unsupported(f'list.{name}')


def dict_items(eng, c):
    """IterSpec over (key, value) pairs"""
    if c.items is not None:
        return IterSpec.concrete([(k, v) for k, v in c.items.items()])
    ty = c.ty
    kt = SeqT(ty.args[0])
    term = eng.named(c.term, ty)
    ks = TH.d_keys(ty, term)

    def get(i):
        k = TH.idx(kt, ks, to_int(i))
        return (eng.from_term(k, ty.args[0]), eng.from_term(TH.d_get(ty, term, k), ty.args[1]))
    it = IterSpec(TH.len(kt, ks), get)
    it.pats = lambda i: [TH.fn(TH._n('idx', kt), kt, INT, ty.args[0])(ks, i)]
    it.src = ('items', ty, term)
    it.bases = [(kt, ks)]
    return it


def dict_values(eng, c):
    if c.items is not None:
        return IterSpec.concrete(list(c.items.values()))
    ty = c.ty
    kt = SeqT(ty.args[0])
    term = eng.named(c.term, ty)
    ks = TH.d_keys(ty, term)
    it = IterSpec(TH.len(kt, ks), lambda i: eng.from_term(TH.d_get(ty, term, TH.idx(kt, ks, to_int(i))), ty.args[1]))
    it.pats = lambda i: [TH.fn(TH._n('idx', kt), kt, INT, ty.args[0])(ks, i)]
    it.src = ('values', ty, term)
    it.bases = [(kt, ks)]
    return it


def dict_method(eng, d, c, name, args, kwargs):
    if c.ty is None and c.items is not None and c.items and not all(isinstance(k, (str, int)) for k in c.items):
        pass
    if name == 'items':
        return dict_items(eng, c)
    if name == 'keys':
        if c.items is not None:
            return IterSpec.concrete(list(c.items))
        kt = SeqT(c.ty.args[0])
        return eng.seq_iter(TH.d_keys(c.ty, c.term), kt)
    if name == 'values':
        return dict_values(eng, c)
    if name == 'get':
        k = args[0]
        dflt = args[1] if len(args) > 1 else kwargs.get('default')
        if c.items is not None and isinstance(k, (str, int)) and all(isinstance(x, (str, int)) for x in c.items):
            return c.items.get(k, dflt)
        if c.items is not None and not c.items:
            return dflt
        if c.items is not None:
            c = to_symbolic(eng, d, c)
        ty = c.ty
        kt = key_term(eng, k, ty.args[0])
        has = TH.d_has(ty, c.term, kt)
        val = TH.d_get(ty, c.term, kt)
        rty = join_ty(ty.args[1], eng.type_of(dflt)) if not (isinstance(dflt, Loc) and eng.type_of(dflt) is EMPTY_TY) else ty.args[1]
        if rty is None:
            raise Unsupported('dict.get default type')
        v = eng.lift(T(val, ty.args[1]), rty) if rty is not ty.args[1] else val
        dt = eng.lift(dflt, rty)
        if eng.quick(has):
            return eng.from_term(v, rty)
        if eng.quick(z3.Not(has)):
            return dflt
        return eng.from_term(z3.If(has, v, dt), rty)
    if name == 'pop':
        k = args[0]
        if c.items is not None and isinstance(k, (str, int)) and all(isinstance(x, (str, int)) for x in c.items):
            if k not in c.items:
                if len(args) > 1:
                    return args[1]
                eng.check(z3.BoolVal(False), 'KeyError', f'pop of {k!r}')
                raise PyExc('KeyError')
            items = dict(c.items)
            v = items.pop(k)
            eng.set_content(d, DC(items=items, default=c.default, kind=c.kind))
            return v
        if c.items is not None:
            c = to_symbolic(eng, d, c)
        ty = c.ty
        kt = key_term(eng, k, ty.args[0])
        has = TH.d_has(ty, c.term, kt)
        if len(args) > 1:
            v = z3.If(has, TH.d_get(ty, c.term, kt), eng.lift(args[1], ty.args[1]))
        else:
            eng.check(has, 'KeyError', 'popped key is present')
            v = TH.d_get(ty, c.term, kt)
        eng.set_content(d, DC(ty=ty, term=TH.d_remove(ty, c.term, kt), default=c.default, kind=c.kind))
        return eng.from_term(v, ty.args[1])
    if name == 'copy':
        return eng.alloc(DC(items=dict(c.items) if c.items is not None else None, ty=c.ty, term=c.term, default=c.default, kind=c.kind))
    if name == 'clear':
        eng.set_content(d, DC(items={}, default=c.default, kind=c.kind) if c.ty is None else DC(ty=c.ty, term=TH.d_empty(c.ty), default=c.default, kind=c.kind))
        return None
    if name == 'update':
        if c.kind == 'counter':
            return counter_update(eng, d, c, args[0])
        if not args:
            for k, v in kwargs.items():
                setitem(eng, d, k, v)
            return None
        o = args[0]
        oc = eng.content(o) if isinstance(o, (Loc, View, T)) else None
        if isinstance(oc, DC) and oc.items is not None:
            for k, v in oc.items.items():
                setitem(eng, d, k, v)
            return None
        if isinstance(oc, DC):
            return dict_update(eng, d, c, oc)
        raise Unsupported('dict.update')
    if name == 'setdefault':
        r = contains(eng, d, args[0])
        if not isinstance(r, bool):
            r = eng.branch(r)
        if not r:
            setitem(eng, d, args[0], args[1])
        return getitem(eng, d, args[0])
    if name == 'most_common':
        raise Unsupported('most_common')
    raise Unsupported(f'dict.{name}')


def dict_update(eng, d, c, oc):
    ty = oc.ty or eng.dc_ty(oc)
    if c.term is None:
        c = to_symbolic(eng, d, c, *ty.args)
    r = eng.fresh(ty, 'upd')
    k = z3.Const(eng.fresh_name('uk'), TH.sort(ty.args[0]))
    eng.assume(z3.ForAll([k], TH.d_has(ty, r, k) == z3.Or(TH.d_has(ty, c.term, k), TH.d_has(ty, oc.term, k)), patterns=[TH.d_has(ty, r, k)]))
    eng.assume(z3.ForAll([k], TH.d_get(ty, r, k) == z3.If(TH.d_has(ty, oc.term, k), TH.d_get(ty, oc.term, k), TH.d_get(ty, c.term, k)), patterns=[TH.d_get(ty, r, k)]))
    eng.set_content(d, DC(ty=ty, term=r, default=c.default, kind=c.kind))


def set_method(eng, s, c, name, args, kwargs):
    if name == 'add':
        x = args[0]
        if c.items is not None and c.ety is None:
            if all(isinstance(y, (int, str)) for y in c.items + [x]):
                eng.set_content(s, SC(items=c.items + ([x] if x not in c.items else [])))
                return None
            ety = eng.type_of(x)
        else:
            ety = eng.sc_ety(c)
        t = eng.sc_term(c, ety)
        xt = eng.lift(x, ety)
        card_store(eng, SetT(ety), t, xt)
        eng.set_content(s, SC(term=z3.Store(t, xt, z3.BoolVal(True)), ety=ety))
        return None
    if name in ('remove', 'discard'):
        ety = eng.sc_ety(c)
        if ety is None:
            if name == 'discard':
                return None
            raise PyExc('KeyError')
        t = eng.sc_term(c, ety)
        xt = eng.lift(args[0], ety)
        if name == 'remove':
            eng.check(z3.Select(t, xt), 'KeyError', 'removed element is a member')
        eng.set_content(s, SC(term=z3.Store(t, xt, z3.BoolVal(False)), ety=ety))
        return None
    if name == 'copy':
        return eng.alloc(SC(items=c.items, ety=c.ety, term=c.term))
    raise Unsupported(f'set.{name}')


def card_store(eng, ty, t, x):
    pass


# ---------------------------------------------------------------- counting and sums
def count_fn(ty):
    """number of occurrences of an element in a sequence"""
    nm = TH._n('count', ty)
    if nm in TH.decls:
        return TH.decls[nm]
    TH.sort(ty)
    f = TH.fn(nm, ty, ty.elem, INT)
    S, E = TH.sort(ty), TH.sort(ty.elem)
    s, t = z3.Consts(f'ct!s{ty} ct!t{ty}', S)
    x, e = z3.Consts(f'ct!x{ty} ct!e{ty}', E)
    b, app = TH.fn(TH._n('build', ty), ty, ty.elem, ty), TH.fn(TH._n('app', ty), ty, ty, ty)
    ln, ix = TH.fn(TH._n('len', ty), ty, INT), TH.fn(TH._n('idx', ty), ty, INT, ty.elem)
    i = z3.Int('ct!i')
    w = TH.fn(TH._n('countw', ty), ty, ty.elem, INT)
    TH.axiom(nm + '.nil', z3.ForAll([x], f(TH.empty(ty), x) == 0, patterns=[f(TH.empty(ty), x)]), [nm])
    TH.axiom(nm + '.cons', z3.ForAll([s, e, x], f(b(s, e), x) == f(s, x) + z3.If(e == x, 1, 0), patterns=[f(b(s, e), x)]), [nm])
    TH.axiom(nm + '.app', z3.ForAll([s, t, x], f(app(s, t), x) == f(s, x) + f(t, x), patterns=[f(app(s, t), x)]), [nm])
    TH.axiom(nm + '.nonneg', z3.ForAll([s, x], z3.And(f(s, x) >= 0, f(s, x) <= ln(s)), patterns=[f(s, x)]), [nm])
    TH.axiom(nm + '.pos', z3.ForAll([s, x], z3.Implies(f(s, x) > 0, z3.And(0 <= w(s, x), w(s, x) < ln(s), ix(s, w(s, x)) == x)), patterns=[f(s, x)]), [nm])
    TH.axiom(nm + '.idx', z3.ForAll([s, i, x], z3.Implies(z3.And(0 <= i, i < ln(s), ix(s, i) == x), f(s, x) > 0), patterns=[z3.MultiPattern(f(s, x), ix(s, i))]), [nm])
    return f


def sum_fn(ety):
    ty = SeqT(ety)
    nm = TH._n('sum', ty)
    if nm in TH.decls:
        return TH.decls[nm]
    TH.sort(ty)
    f = TH.fn(nm, ty, ety)
    S, E = TH.sort(ty), TH.sort(ety)
    s, t = z3.Consts(f'sm!s{ty} sm!t{ty}', S)
    e = z3.Const(f'sm!e{ty}', E)
    b, app = TH.fn(TH._n('build', ty), ty, ety, ty), TH.fn(TH._n('app', ty), ty, ty, ty)
    zero = z3.IntVal(0) if ety is INT else z3.RealVal(0)
    TH.axiom(nm + '.nil', f(TH.empty(ty)) == zero, [nm])
    TH.axiom(nm + '.cons', z3.ForAll([s, e], f(b(s, e)) == f(s) + e, patterns=[f(b(s, e))]), [nm])
    TH.axiom(nm + '.app', z3.ForAll([s, t], f(app(s, t)) == f(s) + f(t), patterns=[f(app(s, t))]), [nm])
    eq = TH.fn(TH._n('eq', ty), ty, ty, z3.BoolSort())
    TH.axiom(nm + '.cong', z3.ForAll([s, t], z3.Implies(eq(s, t), f(s) == f(t)), patterns=[z3.MultiPattern(f(s), f(t))]), [nm])
    return f


def rdiv_fn():
    """real division by a variable; the axioms are consequences of the definition, stated for the solvers"""
    if 'rdiv' in TH.decls:
        return TH.decls['rdiv']
    f = TH.fn('rdiv', REAL, REAL, REAL)
    x, y = z3.Reals('rdiv!x rdiv!y')
    d = f(x, y)
    A = lambda nm, b: TH.axiom('rdiv.' + nm, z3.ForAll([x, y], b, patterns=[d]), ['rdiv'])
    A('def', z3.Implies(y != 0, d * y == x))
    A('zero', z3.Implies(z3.And(y != 0, x == 0), d == 0))
    A('one', z3.Implies(z3.And(y != 0, x == y), d == 1))
    A('pos', z3.Implies(z3.And(y > 0, x >= 0), d >= 0))
    A('spos', z3.Implies(z3.And(y > 0, x > 0), d > 0))
    A('le1', z3.Implies(z3.And(y > 0, x <= y), d <= 1))
    A('ge1', z3.Implies(z3.And(y > 0, x >= y), d >= 1))
    return f


def counter_of(eng, t, ty):
    """Counter of the elements of a sequence"""
    eng.libuse.add('collections.Counter counts occurrences')
    ety = ty.elem if ty is not STR else STR
    if ty is STR:
        t, ty = chars(eng, t), SeqT(STR)
    dt = DictT(ety, INT)
    d = eng.fresh(dt, 'counter')
    f = count_fn(ty)
    k = z3.Const(eng.fresh_name('ck'), TH.sort(ety))
    eng.assume(z3.ForAll([k], TH.d_has(dt, d, k) == (f(t, k) > 0), patterns=[TH.d_has(dt, d, k), f(t, k)]))
    eng.assume(z3.ForAll([k], z3.Implies(TH.d_has(dt, d, k), TH.d_get(dt, d, k) == f(t, k)), patterns=[TH.d_get(dt, d, k)]))
    eng.note_counter(d, t, ty)
    return DC(ty=dt, term=d, default='int', kind='counter')


def counter_update(eng, d, c, x):
    eng.libuse.add('Counter.update adds occurrences')
    if isinstance(x, (Loc, View)) and isinstance(eng.content(x), DC) or (isinstance(x, T) and x.ty.kind == 'Dict'):
        raise Unsupported('Counter.update with a mapping')
    t, ty = as_seq(eng, x)
    if ty is EMPTY_TY:
        return None
    if ty is STR:
        t, ty = chars(eng, t), SeqT(STR)
    dt = DictT(ty.elem, INT)
    if c.term is None:
        c = to_symbolic(eng, d, c, ty.elem, INT)
    r = eng.fresh(dt, 'counter')
    f = count_fn(ty)
    k = z3.Const(eng.fresh_name('ck'), TH.sort(ty.elem))
    eng.assume(z3.ForAll([k], TH.d_has(dt, r, k) == z3.Or(TH.d_has(dt, c.term, k), f(t, k) > 0), patterns=[TH.d_has(dt, r, k)]))
    eng.assume(z3.ForAll([k], z3.Implies(TH.d_has(dt, r, k), TH.d_get(dt, r, k) == z3.If(TH.d_has(dt, c.term, k), TH.d_get(dt, c.term, k), 0) + f(t, k)), patterns=[TH.d_get(dt, r, k)]))
    eng.set_content(d, DC(ty=dt, term=r, default='int', kind='counter'))
    return None


# ---------------------------------------------------------------- sorting
def do_sorted(eng, v, kwargs):
    eng.libuse.add('sorted(): an ordered permutation, equal keys in the original order')
    key = kwargs.get('key')
    rev = kwargs.get('reverse', False)
    if not isinstance(rev, bool):
        raise Unsupported('reverse')
    it = v if isinstance(v, IterSpec) else None
    if it is None:
        it = eng.iterspec(v)
    if it.items is not None and len(it.items) <= 1:
        return eng.alloc(LC(items=list(it.items)))
    src = eng.iter_value(it)
    t, ty = as_seq(eng, src)
    if ty is STR:
        t, ty = chars(eng, t), SeqT(STR)
    r = eng.fresh(ty, 'sorted')
    p, q = eng.fresh_fn('perm', INT, INT), eng.fresh_fn('pinv', INT, INT)
    i, j = z3.Int(eng.fresh_name('si')), z3.Int(eng.fresh_name('sj'))
    n = TH.len(ty, t)
    ix = lambda s, k: TH.fn(TH._n('idx', ty), ty, INT, ty.elem)(s, k)
    eng.assume(TH.len(ty, r) == n)
    rng = z3.And(0 <= i, i < n)
    eng.assume(z3.ForAll([i], z3.Implies(rng, z3.And(0 <= p(i), p(i) < n, q(p(i)) == i, ix(r, i) == ix(t, p(i)))), patterns=[ix(r, i), p(i)]))
    eng.assume(z3.ForAll([i], z3.Implies(rng, z3.And(0 <= q(i), q(i) < n, p(q(i)) == i, ix(r, q(i)) == ix(t, i))), patterns=[ix(t, i), q(i)]))

    def keyof(k):
        x = eng.elem(r, ty, k)
        if key is None:
            return x
        old_log, eng.fresh_log = eng.fresh_log, []
        try:
            val, side = under(eng, lambda: (eng.assume(z3.And(0 <= k, k < n)), eng.call(key, [x], {}))[1])
            # what is left are the conditions of checks made in the key function, proved there for every element
            if eng.fresh_log:
                raise Unsupported('key function needs facts')
        finally:
            eng.fresh_log = old_log
        return val
    ki, kj = keyof(i), keyof(j)
    lo, hi = (kj, ki) if rev else (ki, kj)
    le = eng.compare('LtE', lo, hi) if not isinstance(lo, tuple) else lex_le(eng, lo, hi)
    g = z3.And(0 <= i, i < j, j < n)
    eng.assume(z3.ForAll([i, j], z3.Implies(g, le), patterns=[z3.MultiPattern(ix(r, i), ix(r, j))]))
    eq = eng.equal(ki, kj)
    if not isinstance(eq, bool):
        eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(g, eq), p(i) < p(j)), patterns=[z3.MultiPattern(p(i), p(j))]))
    eng.sort_info[r.get_id()] = dict(res=r, src=t, ty=ty, p=p, q=q)
    eng._keep.append(r)
    # sums and counts do not depend on the order
    for e in (INT, REAL):
        if ty.elem is e:
            eng.assume(sum_fn(e)(r) == sum_fn(e)(t))
    perm_facts(eng, r, t, ty)
    return mk_list(eng, r, ty)


def perm_facts(eng, r, t, ty):
    if eng.top is not None and eng.top.opts.get('perm_count'):
        f = count_fn(ty)
        x = z3.Const(eng.fresh_name('pc'), TH.sort(ty.elem))
        eng.assume(z3.ForAll([x], f(r, x) == f(t, x), patterns=[f(r, x), f(t, x)]))
    if ty.elem.kind == 'Tup' and len(ty.elem.args) == 2 and ty.elem.args[1] in (INT, REAL):
        # sum of the second components
        f = psum_fn(ty.elem)
        eng.assume(f(r) == f(t))


def psum_fn(pt):
    """sum of the second components of a sequence of pairs"""
    ty = SeqT(pt)
    nm = TH._n('psum', ty)
    if nm in TH.decls:
        return TH.decls[nm]
    TH.sort(ty)
    f = TH.fn(nm, ty, pt.args[1])
    s, t = z3.Consts(f'ps!s{ty} ps!t{ty}', TH.sort(ty))
    e = z3.Const(f'ps!e{ty}', TH.sort(pt))
    b, app = TH.fn(TH._n('build', ty), ty, pt, ty), TH.fn(TH._n('app', ty), ty, ty, ty)
    zero = z3.IntVal(0) if pt.args[1] is INT else z3.RealVal(0)
    TH.axiom(nm + '.nil', f(TH.empty(ty)) == zero, [nm])
    TH.axiom(nm + '.cons', z3.ForAll([s, e], f(b(s, e)) == f(s) + TH.sort(pt).accessor(0, 1)(e), patterns=[f(b(s, e))]), [nm])
    TH.axiom(nm + '.app', z3.ForAll([s, t], f(app(s, t)) == f(s) + f(t), patterns=[f(app(s, t))]), [nm])
    return f


def lex_le(eng, a, b):
    r = True
    for x, y in reversed(list(zip(a, b))):
        lt = eng.compare('Lt', x, y)
        eq = eng.equal(x, y)
        lt = z3.BoolVal(lt) if isinstance(lt, bool) else lt
        eq = z3.BoolVal(eq) if isinstance(eq, bool) else eq
        r = z3.Or(lt, z3.And(eq, z3.BoolVal(r) if isinstance(r, bool) else r))
    return r


# ---------------------------------------------------------------- builtin functions
def call_lib(eng, name, args, kwargs):
    h = HOOKS.get(name)
    if h is not None:
        return h(eng, args, kwargs)
    if name.startswith(('log.', 'logging.', 'warnings.')):
        return IGNORE
    raise Unsupported(f'library function {name}')


@lib('len')
def _len(eng, a, kw):
    n = length(eng, a[0])
    return n if isinstance(n, int) else T_int(n)


@lib('range')
def _range(eng, a, kw):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    st = a[2] if len(a) > 2 else 1
    lo, hi = eng.unopt(lo), eng.unopt(hi)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return IterSpec.concrete(list(range(lo, hi, st))) if len(range(lo, hi, st)) <= (eng.top.opts.get('symrange', 600) if eng.top is not None else 600) else _symrange(eng, lo, hi, st)
    return _symrange(eng, lo, hi, st)


def _symrange(eng, lo, hi, st):
    l, h = eng.lift(lo, INT), eng.lift(hi, INT)
    if st == 1:
        n = h - l
        n = z3.simplify(n)
        if not (z3.is_int_value(n) or eng.quick(n >= 0)):
            n = z3.If(n < 0, z3.IntVal(0), n)
        it = IterSpec(n, lambda i: T_int(z3.simplify(l + to_int(i))) if not (isinstance(lo, int) and lo == 0) else T_int(to_int(i)))
    elif st == -1:
        n = z3.simplify(l - h)
        if not (z3.is_int_value(n) or eng.quick(n >= 0)):
            n = z3.If(n < 0, z3.IntVal(0), n)
        it = IterSpec(n, lambda i: T(l - to_int(i), INT))
    else:
        raise Unsupported('range step')
    return it


@lib('enumerate')
def _enumerate(eng, a, kw):
    st = kw.get('start', a[1] if len(a) > 1 else 0)
    it = eng.iterspec(a[0])
    if it.items is not None and isinstance(st, int):
        return IterSpec.concrete([(i + st, x) for i, x in enumerate(it.items)])
    sv = eng.lift(st, INT)
    def get(i):
        k = to_int(i) if (isinstance(st, int) and st == 0) else z3.simplify(to_int(i) + sv)
        return (T_int(k), it.get(i))
    r = IterSpec(it.n, get)
    r.pats = lambda i: eng.iter_pattern(it, i)
    r.inner = it
    r.bases = it.bases
    return r


@lib('zip')
def _zip(eng, a, kw):
    its = [eng.iterspec(x) for x in a]
    if all(i.items is not None for i in its):
        return IterSpec.concrete(list(zip(*[i.items for i in its])))
    n = its[0].n
    for i in its[1:]:
        x, y = to_int(n), to_int(i.n)
        if x.eq(y) or eng.quick(x == y):
            continue
        n = z3.If(x < y, x, y)
    r = IterSpec(n, lambda i: tuple(x.get(i) for x in its))
    r.pats = lambda i: [p for x in its for p in eng.iter_pattern(x, i)]
    r.bases = [b for x in its for b in x.bases]
    return r


@lib('map')
def _map(eng, a, kw):
    f = a[0]
    its = [eng.iterspec(x) for x in a[1:]]
    if all(i.items is not None for i in its):
        return eng.alloc(LC(items=[eng.call(f, list(xs), {}) for xs in zip(*[i.items for i in its])], kind='stream', pos=0))
    if len(its) == 1:
        r = eng.comprehend(its[0], lambda x: eng.call(f, [x], {}))
        c = eng.content(r)
        return eng.alloc(LC(term=c.term, ety=c.ety, kind='stream', pos=0))
    raise Unsupported('map')


@lib('tqdm', 'tqdm.tqdm', 'tqdm.auto.tqdm')
def _tqdm(eng, a, kw):
    eng.libuse.add('tqdm passes every item through unchanged')
    from .interp import PyObj
    return PyTqdm(a[0])


class PyTqdm:
    def __init__(self, v):
        self.v = v


@lib('sorted')
def _sorted(eng, a, kw):
    return do_sorted(eng, a[0], kw)


@lib('reversed')
def _reversed(eng, a, kw):
    it = eng.iterspec(a[0])
    if it.items is not None:
        return IterSpec.concrete(it.items[::-1])
    n = to_int(it.n)
    return IterSpec(it.n, lambda i: it.get(n - 1 - to_int(i)))


@lib('min', 'max')
def _minmax(eng, a, kw):
    raise Unsupported('min/max')


def minmax(eng, a, kw, mx):
    if any(k != 'default' for k in kw):
        raise Unsupported('min/max with a key')
    dflt = kw.get('default', MISSING)
    if dflt is not MISSING and not isinstance(dflt, (int, T)):
        raise Unsupported('default of min/max')
    if len(a) > 1:
        r = a[0]
        for x in a[1:]:
            r = eng.unopt(r)
            x = eng.unopt(x)
            if isinstance(r, (int, float)) and isinstance(x, (int, float)):
                r = max(r, x) if mx else min(r, x)
                continue
            c = eng.compare('Gt' if mx else 'Lt', x, r)
            r = eng.merge(c if not isinstance(c, bool) else z3.BoolVal(c), x, r)
        return r
    it = eng.iterspec(a[0])
    if it.items is not None:
        if not it.items:
            if dflt is not MISSING:
                return dflt
            eng.check(z3.BoolVal(False), 'ValueError', 'max/min of a non-empty collection')
            raise PyExc('ValueError')
        if len(it.items) == 1:
            return it.items[0]
        return minmax(eng, it.items, {}, mx)
    n = to_int(it.n)
    if dflt is MISSING:
        eng.check(n > 0, 'ValueError', 'max/min of a non-empty collection')
    i = z3.Int(eng.fresh_name('mi'))
    x, side = under(eng, lambda: it.get(i))
    ty = eng.type_of(x)
    if ty not in (INT, REAL):
        raise Unsupported('min/max of non numbers')
    m = eng.fresh(ty, 'max' if mx else 'min')
    w = eng.fresh(INT, 'argmax')
    xt = eng.lift(x, ty)
    at = lambda k: z3.substitute(xt, (i, k))
    found = z3.And(0 <= w, w < n, m == at(w))
    eng.assume(found if dflt is MISSING else z3.If(n > 0, found, m == eng.lift(dflt, ty)))
    pats = [p for p in eng.iter_pattern(it, i)] or None
    body = z3.Implies(z3.And(0 <= i, i < n), (xt <= m) if mx else (m <= xt))
    eng.assume(z3.ForAll([i], body, patterns=pats) if pats else z3.ForAll([i], body))
    return T(m, ty)


HOOKS['max'] = lambda eng, a, kw: minmax(eng, a, kw, True)
HOOKS['min'] = lambda eng, a, kw: minmax(eng, a, kw, False)


@lib('sum')
def _sum(eng, a, kw):
    v = a[0]
    it = eng.iterspec(v)
    if it.items is not None:
        r = a[1] if len(a) > 1 else 0
        for x in it.items:
            r = eng.binop('Add', r, x)
        return r
    src = getattr(it, 'src', None)
    if src is not None and src[0] == 'values':
        return T(dsum_fn(src[1])(src[2]), src[1].args[1])
    lv = eng.iter_value(it)
    t, ty = as_seq(eng, lv)
    if ty.elem is BOOL:
        raise Unsupported('sum of booleans')
    return T(sum_fn(ty.elem)(t), ty.elem)


def dsum_fn(dt):
    """sum of the values of a dictionary"""
    nm = TH._n('dsum', dt)
    if nm in TH.decls:
        return TH.decls[nm]
    TH.sort(dt)
    f = TH.fn(nm, dt, dt.args[1])
    d = z3.Const(f'ds!d{dt}', TH.sort(dt))
    k = z3.Const(f'ds!k{dt}', TH.sort(dt.args[0]))
    v = z3.Const(f'ds!v{dt}', TH.sort(dt.args[1]))
    zero = z3.IntVal(0) if dt.args[1] is INT else z3.RealVal(0)
    TH.axiom(nm + '.nil', f(TH.d_empty(dt)) == zero, [nm])
    st = TH.d_store(dt, d, k, v)
    TH.axiom(nm + '.store', z3.ForAll([d, k, v], f(st) == f(d) + v - z3.If(TH.d_has(dt, d, k), TH.d_get(dt, d, k), zero), patterns=[f(st)]), [nm])
    rm = TH.d_remove(dt, d, k)
    TH.axiom(nm + '.remove', z3.ForAll([d, k], f(rm) == f(d) - z3.If(TH.d_has(dt, d, k), TH.d_get(dt, d, k), zero), patterns=[f(rm)]), [nm])
    return f


@lib('any', 'all')
def _anyall(eng, a, kw):
    raise Unsupported('any/all')


def anyall(eng, v, is_all):
    it = eng.iterspec(v)
    if it.items is not None:
        r = is_all
        for x in it.items:
            t = eng.truth(x)
            if isinstance(t, bool):
                if t != is_all:
                    return not is_all
                continue
            r = t if isinstance(r, bool) else (z3.And(r, t) if is_all else z3.Or(r, t))
        return r if isinstance(r, bool) else T(r, BOOL)
    i = z3.Int(eng.fresh_name('ai'))
    x = it.get(i)
    t = eng.truth(x)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    g = z3.And(0 <= i, i < to_int(it.n))
    pats = eng.iter_pattern(it, i)
    if is_all:
        return T(z3.ForAll([i], z3.Implies(g, t), patterns=pats) if pats else z3.ForAll([i], z3.Implies(g, t)), BOOL)
    return T(z3.Exists([i], z3.And(g, t)), BOOL)


HOOKS['all'] = lambda eng, a, kw: anyall(eng, a[0], True)
HOOKS['any'] = lambda eng, a, kw: anyall(eng, a[0], False)


@lib('isinstance')
def _isinstance(eng, a, kw):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    r = [isinst1(eng, v, eng.resolve(x)) for x in cs]
    if any(x is True for x in r):
        return True
    if all(x is False for x in r):
        return False
    raise Unsupported(f'isinstance {v!r} {c!r}')


def isinst1(eng, v, c):
    ty = eng.type_of(v) if not isinstance(v, (ClassV, FuncV)) else None
    from .interp import PyObj
    if isinstance(c, Lib):
        n = c.name
        if n in ('numpy.integer', 'numpy.number'):
            return False if not (isinstance(v, T) and v.ty.name() == 'Opq_npint_E') else True
        if n == 'int':
            return ty in (INT, BOOL)
        if n == 'float':
            return ty is REAL
        if n == 'str':
            return ty is STR
        if n == 'tuple':
            return isinstance(v, tuple) or isinstance(v, T) and v.ty.kind in ('Tuple', 'Tup')
        if n == 'list':
            if isinstance(v, tuple) or ty in (INT, STR, REAL, BOOL):
                return False
            if isinstance(v, (Loc, View)):
                c0 = eng.content(v)
                return isinstance(c0, LC) and c0.kind == 'list'
            if isinstance(v, T) and v.ty.kind == 'Seq':
                return True
            return False
        if n == 'dict':
            return ty is not None and ty.kind == 'Dict' or (isinstance(v, (Loc, View)) and isinstance(eng.content(v), DC))
        if n in ('pathlib.Path',):
            if isinstance(v, T) and v.ty.name() == 'Opq_Path_E':
                return True
            return False if isinstance(v, (T, str, Loc, View, PyObj)) else NotImplemented
    if isinstance(c, ClassV):
        if isinstance(v, Loc) and isinstance(eng.heap[v.id], OC):
            return eng.heap[v.id].cls.issub(c)
        if isinstance(v, T) and v.ty.kind in ('Rec', 'Ref'):
            rc = (eng.recclasses if v.ty.kind == 'Rec' else eng.refclasses)[v.ty.args[0]]
            return eng.find_class(rc['full']).issub(c)
        return False
    raise Unsupported(f'isinstance with {c!r}')


@lib('getattr')
def _getattr(eng, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with a symbolic name')
    return eng.getattr(a[0], a[1], a[2] if len(a) > 2 else MISSING)


@lib('setattr')
def _setattr(eng, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported('setattr with a symbolic name')
    return eng.setattr(a[0], a[1], a[2])


@lib('next')
def _next(eng, a, kw):
    v = a[0]
    if isinstance(v, ISlice):
        return v.next(eng)
    c = eng.content(v)
    if isinstance(c, GC):
        eng.force(v)
        c = eng.content(v)
    if not isinstance(c, LC) or c.kind != 'stream':
        raise Unsupported('next')
    if c.items is not None and isinstance(c.pos, int):
        if c.pos >= len(c.items):
            raise PyExc('StopIteration')
        eng.set_content(v, LC(items=c.items, ety=c.ety, kind='stream', pos=c.pos + 1))
        return c.items[c.pos]
    ty = SeqT(c.ety)
    p = to_int(c.pos)
    eng.check(p < TH.len(ty, c.term), 'StopIteration', 'next item exists')
    eng.set_content(v, LC(term=c.term, ety=c.ety, kind='stream', pos=z3.simplify(p + 1)))
    return eng.elem(c.term, ty, p)


@lib('iter')
def _iter(eng, a, kw):
    v = a[0]
    if isinstance(v, (Loc,)) and isinstance(eng.content(v), (LC, GC)):
        c = eng.content(v)
        if isinstance(c, GC) or c.kind == 'stream':
            return v
        return eng.alloc(LC(items=c.items, ety=c.ety, term=c.term, kind='stream', pos=0))
    it = eng.iterspec(v)
    if it.items is not None:
        return eng.alloc(LC(items=it.items, kind='stream', pos=0))
    l = eng.iter_to_list(it)
    c = eng.content(l)
    return eng.alloc(LC(term=c.term, ety=c.ety, kind='stream', pos=0))


class ISlice:
    """itertools.islice(stream, n): takes at most n further items from the stream"""
    def __init__(self, src, left):
        self.src, self.left = src, left

    def next(self, eng):
        if isinstance(self.left, int) and isinstance(self.left, int):
            if self.left <= 0:
                raise PyExc('StopIteration')
        else:
            eng.check(self.left > 0, 'StopIteration', 'islice not exhausted')
        v = _next(eng, [self.src], {})
        self.left = self.left - 1
        return v

    def rest(self, eng):
        """take everything that is left"""
        c = eng.content(self.src)
        if c.items is not None:
            if not isinstance(self.left, int):
                ety = eng.lc_ety(c)
                c = LC(term=eng.lc_term(c, ety), ety=ety, kind='stream', pos=c.pos)
            else:
                out = c.items[c.pos:c.pos + self.left]
                eng.set_content(self.src, LC(items=c.items, ety=c.ety, kind='stream', pos=c.pos + len(out)))
                self.left = 0
                return eng.alloc(LC(items=out))
        ty = SeqT(c.ety)
        p, n, k = to_int(c.pos), TH.len(ty, c.term), to_int(self.left)
        e = z3.If(p + k <= n, p + k, n)
        ev = eng.fresh(INT, 'slice_end')
        eng.assume(ev == e)
        eng.set_content(self.src, LC(term=c.term, ety=c.ety, kind='stream', pos=ev))
        self.left = 0
        return mk_list(eng, TH.drop(ty, TH.take(ty, c.term, ev), p), ty)


@lib('itertools.islice')
def _islice(eng, a, kw):
    eng.libuse.add('itertools.islice')
    if len(a) != 2:
        raise Unsupported('islice')
    n = a[1]
    if isinstance(n, T):
        eng.check(n.term >= 0, 'ValueError', 'islice size is not negative')
        n = n.term
    src = a[0]
    c = eng.content(src)
    if isinstance(c, GC):
        eng.force(src)
        c = eng.content(src)
    if not (isinstance(c, LC) and c.kind == 'stream'):
        src = _iter(eng, [src], {})
    return ISlice(src, n)


@lib('itertools.chain')
def _chain(eng, a, kw):
    eng.libuse.add('itertools.chain')
    out = eng.alloc(LC(items=[]))
    parts = []
    for x in a:
        if isinstance(x, ISlice):
            x = x.rest(eng)
        elif isinstance(x, (Loc, View)) and isinstance(eng.content(x), (GC,)) or (isinstance(x, Loc) and isinstance(eng.content(x), LC) and eng.content(x).kind == 'stream'):
            x = eng.iter_to_list(eng.iterspec(x)) if True else x
        parts.append(x)
    r = parts[0]
    if len(parts) == 1:
        r = eng.iter_to_list(eng.iterspec(r))
    for x in parts[1:]:
        r = list_concat(eng, r, x)
    c = eng.content(r)
    return eng.alloc(LC(items=c.items, ety=c.ety, term=c.term, kind='stream', pos=0))


@lib('list')
def _list(eng, a, kw):
    if not a:
        return eng.alloc(LC(items=[]))
    v = a[0]
    if isinstance(v, T) and v.ty is STR:
        return mk_list(eng, chars(eng, v.term), SeqT(STR))
    it = eng.iterspec(v)
    return eng.iter_to_list(it)


@lib('tuple')
def _tuple(eng, a, kw):
    if not a:
        return ()
    v = a[0]
    if isinstance(v, T) and v.ty is STR:
        return T(chars(eng, v.term), SeqT(STR))
    it = eng.iterspec(v)
    if it.items is not None:
        return tuple(it.items)
    l = eng.iter_to_list(it)
    c = eng.content(l)
    return T(c.term, SeqT(c.ety))


@lib('set', 'frozenset')
def _set(eng, a, kw):
    if not a:
        return eng.alloc(SC(items=[]))
    v = a[0]
    it = eng.iterspec(v)
    if it.items is not None:
        return eng.alloc(SC(items=list(it.items)) if not any(isinstance(x, T) for x in it.items) else SC(ety=eng.lc_ety(LC(items=it.items)), term=eng.sc_term(SC(items=it.items), eng.lc_ety(LC(items=it.items)))))
    l = eng.iter_value(it)
    t, ty = as_seq(eng, l)
    s = eng.fresh(SetT(ty.elem), 'set')
    x = z3.Const(eng.fresh_name('sx'), TH.sort(ty.elem))
    i = z3.Int(eng.fresh_name('si'))
    ix = TH.fn(TH._n('idx', ty), ty, INT, ty.elem)
    w = eng.fresh_fn('setw', ty.elem, INT)
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < TH.len(ty, t)), z3.Select(s, ix(t, i))), patterns=[ix(t, i)]))
    eng.assume(z3.ForAll([x], z3.Implies(z3.Select(s, x), z3.And(0 <= w(x), w(x) < TH.len(ty, t), ix(t, w(x)) == x)), patterns=[z3.Select(s, x)]))
    # cardinality: at most the length, and exactly the length iff all elements are distinct
    cd = card(eng, SetT(ty.elem), s)
    n = TH.len(ty, t)
    eng.assume(z3.And(cd >= 0, cd <= n))
    j = z3.Int(eng.fresh_name('sj'))
    eng.assume(z3.Implies(cd == n, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), ix(t, i) != ix(t, j)), patterns=[z3.MultiPattern(ix(t, i), ix(t, j))])))
    di, dj = eng.fresh(INT, 'dup_i'), eng.fresh(INT, 'dup_j')
    eng.assume(z3.Implies(cd != n, z3.And(0 <= di, di < dj, dj < n, ix(t, di) == ix(t, dj))))
    eng.libuse.add('set(): members of the sequence; its size equals the length iff the elements are distinct')
    return eng.alloc(SC(term=s, ety=ty.elem))


@lib('dict')
def _dict(eng, a, kw):
    if not a:
        return eng.alloc(DC(items=dict(kw)))
    v = a[0]
    c = eng.content(v) if isinstance(v, (Loc, View, T)) else None
    if isinstance(c, DC):
        return eng.alloc(DC(items=dict(c.items) if c.items is not None else None, ty=c.ty, term=c.term))
    it = eng.iterspec(v)
    if it.items is not None:
        d = eng.alloc(DC(items={}))
        for k, x in [eng.unpack(p, 2) for p in it.items]:
            setitem(eng, d, k, x)
        return d
    return dict_of_pairs(eng, eng.iter_to_list(it))


def dict_of_pairs(eng, pairs):
    """dict built from a list of (key, value) pairs; later pairs win, keys in order of first occurrence"""
    eng.libuse.add('dict(pairs): the last value given for a key, keys in order of first occurrence')
    c = eng.content(pairs)
    if c.items is not None:
        d = eng.alloc(DC(items={}))
        for p in c.items:
            k, x = eng.unpack(p, 2)
            setitem(eng, d, k, x)
        return d
    pt = c.ety
    K, V = pt.args
    ty = SeqT(pt)
    dt = DictT(K, V)
    d = eng.fresh(dt, 'dict')
    s = c.term
    n = TH.len(ty, s)
    i, j = z3.Int(eng.fresh_name('di')), z3.Int(eng.fresh_name('dj'))
    k = z3.Const(eng.fresh_name('dk'), TH.sort(K))
    ix = TH.fn(TH._n('idx', ty), ty, INT, pt)
    srt = TH.sort(pt)
    fst, snd = srt.accessor(0, 0), srt.accessor(0, 1)
    lastw = eng.fresh_fn('lastw', K, INT)
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(TH.d_has(dt, d, fst(ix(s, i))), lastw(fst(ix(s, i))) >= i)), patterns=[ix(s, i)]))
    eng.assume(z3.ForAll([k], z3.Implies(TH.d_has(dt, d, k), z3.And(0 <= lastw(k), lastw(k) < n, fst(ix(s, lastw(k))) == k, TH.d_get(dt, d, k) == snd(ix(s, lastw(k))))), patterns=[TH.d_has(dt, d, k)]))
    # size and order
    kt = SeqT(K)
    ks = TH.d_keys(dt, d)
    lk = TH.len(kt, ks)
    eng.assume(lk <= n)
    distinct = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), fst(ix(s, i)) != fst(ix(s, j))), patterns=[z3.MultiPattern(ix(s, i), ix(s, j))])
    eng.assume(z3.Implies(lk == n, distinct))
    di, dj = eng.fresh(INT, 'dup_i'), eng.fresh(INT, 'dup_j')
    same = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), TH.idx(kt, ks, i) == fst(ix(s, i))), patterns=[ix(s, i), TH.idx(kt, ks, i)])
    eng.assume(z3.Implies(lk != n, z3.And(0 <= di, di < dj, dj < n, fst(ix(s, di)) == fst(ix(s, dj)))))
    eng.assume(z3.Implies(lk == n, same))
    if V in (INT, REAL):        # no pair replaced another one: the total is the sum of the second components
        eng.assume(z3.Implies(lk == n, dsum_fn(dt)(d) == psum_fn(pt)(s)))
    return eng.alloc(DC(ty=dt, term=d))


@lib('str')
def _str(eng, a, kw):
    if not a:
        return ''
    v = a[0]
    if isinstance(v, str) or (isinstance(v, T) and v.ty is STR):
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, T) and v.ty is INT:
        eng.libuse.add('str(int) is the decimal text; int() reads it back')
        return T(str_of_int(eng, v.term), STR)
    h = HOOKS.get('str:' + (v.ty.name() if isinstance(v, T) else ''))
    if h:
        return h(eng, a, kw)
    if v is IGNORE:
        return IGNORE
    raise Unsupported(f'str of {v!r}')


@lib('int')
def _int(eng, a, kw):
    v = a[0] if a else 0
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyExc('ValueError')
    if isinstance(v, T) and v.ty is INT:
        return v
    if isinstance(v, T) and v.ty is STR:
        eng.libuse.add('str(int) is the decimal text; int() reads it back')
        str_of_int(eng, z3.IntVal(0))
        eng.check(TH.fn('str.isint', STR, B)(v.term), 'ValueError', 'text is an integer')
        return T(TH.fn('str.toint', STR, INT)(v.term), INT)
    if isinstance(v, T) and v.ty is REAL:
        return T(z3.If(v.term >= 0, z3.ToInt(v.term), -z3.ToInt(-v.term)), INT)
    raise Unsupported('int()')


@lib('float')
def _float(eng, a, kw):
    v = a[0]
    if isinstance(v, str):
        return float(v)
    if isinstance(v, (int, float)):
        return float(v)
    return T(eng.lift(v, REAL), REAL)


@lib('bool')
def _bool(eng, a, kw):
    t = eng.truth(a[0])
    return t if isinstance(t, bool) else T(t, BOOL)


@lib('abs')
def _abs(eng, a, kw):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    return T(z3.If(v.term >= 0, v.term, -v.term), v.ty)


@lib('type')
def _type(eng, a, kw):
    v = a[0]
    if isinstance(v, Loc) and isinstance(eng.heap[v.id], OC):
        return eng.heap[v.id].cls
    if isinstance(v, T) and v.ty.name() == 'Opq_Path_E':
        return Lib('pathlib.Path')
    if isinstance(v, str) or isinstance(v, T) and v.ty is STR:
        return Lib('str')
    raise Unsupported('type()')


@lib('id')
def _id(eng, a, kw):
    return T(eng.fresh(INT, 'id'), INT)


@lib('collections.defaultdict')
def _defaultdict(eng, a, kw):
    d = {'int': 'int', 'set': 'set', 'list': 'list', 'float': 'int'}.get(a[0].name if isinstance(a[0], Lib) else None)
    if d is None:
        raise Unsupported('defaultdict')
    return eng.alloc(DC(items={}, default=d, kind='defaultdict'))


@lib('collections.Counter')
def _counter(eng, a, kw):
    if not a:
        return eng.alloc(DC(items={}, kind='counter', default='int'))
    v = a[0]
    it = eng.iterspec(v)
    if it.items is not None and all(isinstance(x, (str, int)) for x in it.items):
        import collections
        return eng.alloc(DC(items=dict(collections.Counter(it.items)), kind='counter', default='int'))
    lv = eng.iter_value(it)
    t, ty = as_seq(eng, lv)
    return eng.alloc(counter_of(eng, t, ty))


@lib('copy.copy')
def _copy(eng, a, kw):
    v = a[0]
    if isinstance(v, (T, int, str, tuple)):
        return v
    c = eng.content(v)
    if isinstance(c, LC):
        return eng.alloc(LC(items=list(c.items) if c.items is not None else None, ety=c.ety, term=c.term, kind=c.kind))
    if isinstance(c, DC):
        return eng.alloc(DC(items=dict(c.items) if c.items is not None else None, ty=c.ty, term=c.term, default=c.default, kind=c.kind))
    raise Unsupported('copy')


@lib('functools.partial')
def _partial(eng, a, kw):
    return PartialV(a[0], a[1:], kw)


@lib('time.time')
def _time(eng, a, kw):
    return T(eng.fresh(REAL, 'time'), REAL)


def heap_pred(ty):
    nm = TH._n('isheap', ty)
    if nm in TH.decls:
        return TH.decls[nm]
    TH.sort(ty)
    f = TH.fn(nm, ty, z3.BoolSort())
    s = z3.Const(f'hp!s{ty}', TH.sort(ty))
    i = z3.Int('hp!i')
    ix = lambda k: TH.fn(TH._n('idx', ty), ty, INT, ty.elem)(s, k)
    key = (lambda e: TH.proj(ty.elem, e, 0)) if ty.elem.kind == 'Tup' else (lambda e: e)
    TH.axiom(nm + '.min', z3.ForAll([s, i], z3.Implies(z3.And(f(s), 0 <= i, i < TH.len(ty, s)), key(ix(z3.IntVal(0))) <= key(ix(i))), patterns=[z3.MultiPattern(f(s), ix(i))]), [nm])
    TH.axiom(nm + '.empty', f(TH.empty(ty)), [nm])
    return f


def heap_list(eng, v, ety=None):
    c = eng.content(v)
    if not isinstance(c, LC):
        raise Unsupported('heap that is not a list')
    ety = eng.lc_ety(c) or ety
    if ety is None or not (ety is INT or ety.kind == 'Tup' and ety.args[0] in (INT, REAL)):
        raise Unsupported(f'heap of {ety}')
    return eng.lc_term(c, ety), SeqT(ety)


HEAPQ = 'heapq: heapify, heappush and heappop keep a list in heap order (first component of position 0 minimal), change it by exactly one occurrence of one entry, and heappop returns position 0 (entries of equal priority are comparable)'


@lib('heapq.heapify')
def _heapify(eng, a, kw):
    eng.libuse.add(HEAPQ)
    c = eng.content(a[0])
    if isinstance(c, LC) and eng.lc_ety(c) is None:
        return None
    t, ty = heap_list(eng, a[0])
    r = eng.fresh(ty, 'heap')
    f = count_fn(ty)
    x = z3.Const(eng.fresh_name('hx'), TH.sort(ty.elem))
    eng.assume(TH.len(ty, r) == TH.len(ty, t))
    eng.assume(z3.ForAll([x], f(r, x) == f(t, x), patterns=[f(r, x)]))
    eng.assume(heap_pred(ty)(r))
    eng.set_content(a[0], LC(term=r, ety=ty.elem))
    return None


@lib('heapq.heappush')
def _heappush(eng, a, kw):
    eng.libuse.add(HEAPQ)
    t, ty = heap_list(eng, a[0], eng.type_of(a[1]))
    e = eng.lift(a[1], ty.elem)
    eng.obligation(heap_pred(ty)(t), 'precondition of heappush', 'the list is in heap order')
    r = eng.fresh(ty, 'heap')
    f = count_fn(ty)
    x = z3.Const(eng.fresh_name('hx'), TH.sort(ty.elem))
    eng.assume(TH.len(ty, r) == TH.len(ty, t) + 1)
    eng.assume(z3.ForAll([x], f(r, x) == f(t, x) + z3.If(x == e, 1, 0), patterns=[f(r, x)]))
    eng.assume(heap_pred(ty)(r))
    eng.set_content(a[0], LC(term=r, ety=ty.elem))
    return None


@lib('heapq.heappop')
def _heappop(eng, a, kw):
    eng.libuse.add(HEAPQ)
    t, ty = heap_list(eng, a[0])
    eng.check(TH.len(ty, t) > 0, 'IndexError', 'heap is not empty')
    eng.obligation(heap_pred(ty)(t), 'precondition of heappop', 'the list is in heap order')
    top = TH.idx(ty, t, z3.IntVal(0))
    r = eng.fresh(ty, 'heap')
    f = count_fn(ty)
    x = z3.Const(eng.fresh_name('hx'), TH.sort(ty.elem))
    eng.assume(TH.len(ty, r) == TH.len(ty, t) - 1)
    eng.assume(z3.ForAll([x], f(r, x) == f(t, x) - z3.If(x == top, 1, 0), patterns=[f(r, x)]))
    eng.assume(f(t, top) > 0)
    eng.assume(heap_pred(ty)(r))
    eng.set_content(a[0], LC(term=r, ety=ty.elem))
    return eng.from_term(top, ty.elem)


@lib('random.random')
def _random(eng, a, kw):
    eng.libuse.add('random.random() is any number in [0, 1)')
    r = eng.fresh(REAL, 'rnd')
    eng.assume(z3.And(r >= 0, r < 1))
    return T(r, REAL)


@lib('random.shuffle', 'numpy.random.shuffle')
def _shuffle(eng, a, kw):
    eng.libuse.add('shuffle(list) permutes the list in place')
    l = a[0]
    c = eng.content(l)
    if not isinstance(c, LC):
        eng.check(z3.BoolVal(False), 'TypeError', 'shuffle of a list')
        raise PyExc('TypeError')
    if c.items is not None and len(c.items) <= 1:
        return None
    ety = eng.lc_ety(c)
    if ety is None:
        raise Unsupported('shuffle of unknown elements')
    ty = SeqT(ety)
    t = eng.lc_term(c, ety)
    r = eng.fresh(ty, 'shuffled')
    p, q = eng.fresh_fn('perm', INT, INT), eng.fresh_fn('pinv', INT, INT)
    i = z3.Int(eng.fresh_name('si'))
    n = TH.len(ty, t)
    ix = lambda s, k: TH.fn(TH._n('idx', ty), ty, INT, ty.elem)(s, k)
    eng.assume(TH.len(ty, r) == n)
    rng = z3.And(0 <= i, i < n)
    eng.assume(z3.ForAll([i], z3.Implies(rng, z3.And(0 <= p(i), p(i) < n, q(p(i)) == i, ix(r, i) == ix(t, p(i)))), patterns=[ix(r, i), p(i)]))
    eng.assume(z3.ForAll([i], z3.Implies(rng, z3.And(0 <= q(i), q(i) < n, p(q(i)) == i, ix(r, q(i)) == ix(t, i))), patterns=[ix(t, i), q(i)]))
    eng.set_content(l, LC(term=r, ety=ety, kind=c.kind, pos=c.pos))
    return None


@lib('object.__init__')
def _objinit(eng, a, kw):
    return None


# ---------------------------------------------------------------- with, formatting, misc hooks
def enter(eng, cm):
    if isinstance(cm, PyTqdm):
        return cm
    if isinstance(cm, Loc) and isinstance(eng.heap[cm.id], OC):
        m, _ = eng.heap[cm.id].cls.lookup('__enter__')
        if m is not None:
            return eng.call_function(m, [], {}, recv=cm)
    from .interp import PyObj
    if isinstance(cm, PyObj) and '__enter__' in cm.attrs:
        return cm.attrs['__enter__'](eng)
    if cm is IGNORE or isinstance(cm, Loc) and isinstance(eng.heap[cm.id], LC) and eng.heap[cm.id].kind == 'stream':
        return cm
    raise Unsupported(f'with {cm!r}')


def leave(eng, cm, exc):
    """True when the exception is swallowed"""
    if isinstance(cm, PyTqdm) or cm is IGNORE:
        return False
    if isinstance(cm, Loc) and isinstance(eng.heap[cm.id], OC):
        m, _ = eng.heap[cm.id].cls.lookup('__exit__')
        if m is not None:
            a = [IGNORE, IGNORE, IGNORE] if exc is not None else [None, None, None]
            if exc is not None:
                a = [ExcInfo(exc), ExcInfo(exc), ExcInfo(exc)]
            r = eng.call_function(m, a, {}, recv=cm)
            if r is None:
                return False
            t = eng.truth(r)
            if not isinstance(t, bool):
                t = eng.branch(t)
            return t
    from .interp import PyObj
    if isinstance(cm, PyObj) and '__exit__' in cm.attrs:
        return bool(cm.attrs['__exit__'](eng, exc))
    return False


class ExcInfo:
    def __init__(self, e):
        self.e = e


def format_value(eng, x, spec, conv=-1):
    if x is IGNORE:
        return IGNORE
    if spec == '' or spec is None:
        if isinstance(x, (str, int)) and not isinstance(x, T):
            return str(x)
        if isinstance(x, T) and x.ty in (STR, INT):
            return _str(eng, [x], {})
        h = HOOKS.get('format:' + (x.ty.name() if isinstance(x, T) else type(x).__name__))
        if h:
            return h(eng, [x], {})
        # used in messages only
        return T(eng.fresh(STR, 'fmt'), STR)
    if isinstance(x, int) and isinstance(spec, str):
        return format(x, spec)
    h = HOOKS.get(f'format:{spec}')
    if h:
        return h(eng, [x], {})
    return T(eng.fresh(STR, 'fmt'), STR)


BINOPS = []
COMPARES = []
ITERS = []
OBJATTR = []
OPAQUE_ATTR = {}
LIBATTR = {}


def binop_hook(eng, op, a, b):
    for h in BINOPS:
        r = h(eng, op, a, b)
        if r is not NotImplemented:
            return r
    return NotImplemented


def compare_hook(eng, op, a, b):
    for h in COMPARES:
        r = h(eng, op, a, b)
        if r is not NotImplemented:
            return r
    return NotImplemented


def obj_attr(eng, b, c, name):
    for h in OBJATTR:
        r = h(eng, b, c, name)
        if r is not MISSING:
            return r
    return MISSING


def opaque_attr(eng, b, name):
    h = OPAQUE_ATTR.get((b.ty.name(), name))
    if h:
        return h(eng, b)
    if (b.ty.name(), name) in METHODS:
        return Bound(b, None, name)
    return MISSING


def lib_attr(eng, b, name):
    h = LIBATTR.get(b.name + '.' + name)
    if h is not None:
        return h(eng) if callable(h) else h
    return Lib(b.name + '.' + name)


@lib('collections.namedtuple')
def _namedtuple(eng, a, kw):
    """a class of tuples; the names of its fields are not modelled"""
    if len(a) == 2 and not kw and isinstance(a[1], Loc) and isinstance(eng.content(a[1]), LC) and eng.content(a[1]).items is None:
        return HOOKS['namedtuple of names'](eng, [a[1]], {})
    fs = eng.iterspec(a[1]).items if len(a) == 2 and not kw else None
    if fs is None or not all(isinstance(x, str) for x in fs) or len(set(fs)) != len(fs):
        raise Unsupported('namedtuple')
    n = len(fs)
    eng.libuse.add('a namedtuple of n fields is a tuple of n values')

    def make(eng, a, kw):
        if kw or len(a) != n:
            raise PyExc('TypeError')
        return tuple(a)
    HOOKS[f'namedtuple!{n}'] = make
    return Lib(f'namedtuple!{n}')


LIBATTR['sys.maxsize'] = 9223372036854775807


def iter_hook(eng, v):
    for h in ITERS:
        r = h(eng, v)
        if r is not None:
            return r
    return None


def flatten(eng, parts):
    """concatenation of a list of lists"""
    c = eng.content(parts)
    if c.items is not None:
        r = eng.alloc(LC(items=[]))
        for x in c.items:
            list_extend(eng, r, x)
        return r
    ty = SeqT(c.ety)
    if c.ety.kind != 'Seq':
        raise Unsupported('nested comprehension')
    return mk_list(eng, flat_fn(c.ety)(c.term), c.ety)


def flat_fn(ity):
    """concatenation of a sequence of sequences"""
    oty = SeqT(ity)
    nm = TH._n('flat', oty)
    if nm in TH.decls:
        return TH.decls[nm]
    TH.sort(oty)
    f = TH.fn(nm, oty, ity)
    s = z3.Const(f'fl!s{oty}', TH.sort(oty))
    t = z3.Const(f'fl!t{oty}', TH.sort(oty))
    e = z3.Const(f'fl!e{oty}', TH.sort(ity))
    b, app, oapp = TH.fn(TH._n('build', oty), oty, ity, oty), TH.fn(TH._n('app', ity), ity, ity, ity), TH.fn(TH._n('app', oty), oty, oty, oty)
    TH.axiom(nm + '.nil', f(TH.empty(oty)) == TH.empty(ity), [nm])
    TH.axiom(nm + '.cons', z3.ForAll([s, e], f(b(s, e)) == app(f(s), e), patterns=[f(b(s, e))]), [nm])
    TH.axiom(nm + '.app', z3.ForAll([s, t], f(oapp(s, t)) == app(f(s), f(t)), patterns=[f(oapp(s, t))]), [nm])
    return f


def make_record(eng, cls, rec, args, kwargs):
    """immutable dataclass record"""
    names = [n for n, _ in cls.fields]
    vals = dict(zip(names, args))
    for k, v in kwargs.items():
        if k not in names or k in vals:
            raise PyExc('TypeError')
        vals[k] = v
    ty = RecT(cls.name)
    tys = [parse_ty(rec['fields'][n]) for n in names]
    terms = []
    for (n, d), t in zip(cls.fields, tys):
        if n not in vals:
            if d is None:
                eng.check(z3.BoolVal(False), 'TypeError', f'missing field {n}')
                raise PyExc('TypeError')
            vals[n] = eng.eval_in(cls.mod, d)
        terms.append(eng.lift(vals[n], t))
    mk = rec_mk(eng, cls.name, names, tys)
    return T(mk(*terms), ty)


def rec_mk(eng, cname, names, tys):
    ty = RecT(cname)
    nm = f'mk.{cname}'
    if nm in TH.decls:
        return TH.decls[nm]
    mk = TH.fn(nm, *tys, ty)
    vs = [z3.Const(f'mk!{cname}.{n}', TH.sort(t)) for n, t in zip(names, tys)]
    t = mk(*vs)
    acc = [TH.fn(f'{cname}.{n}', ty, x) for n, x in zip(names, tys)]
    TH.axiom(nm + '.sel', z3.ForAll(vs, z3.And([a(t) == v for a, v in zip(acc, vs)]), patterns=[t]), [nm])
    return mk


@lib('dataclasses.fields')
def _dc_fields(eng, a, kw):
    from .interp import PyObj
    v = a[0]
    if isinstance(v, T) and v.ty.kind in ('Rec', 'Ref'):
        rc = (eng.recclasses if v.ty.kind == 'Rec' else eng.refclasses)[v.ty.args[0]]
        cls = eng.find_class(rc['full'])
    elif isinstance(v, Loc):
        cls = eng.heap[v.id].cls
    else:
        cls = v
    return tuple(PyObj('field', name=n) for n, _ in cls.fields)
