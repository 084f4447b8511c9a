"""Models (assumed contracts) of the numpy operations used by /repo.

An array is a list content of kind 'array' (one dimension: numbers; rows: sequences or tuples). Machine integers are treated as mathematical
integers except where a function is about the storage type itself. Operations that are not modelled are refused, so arrays never get list semantics.
"""
import z3
from .theory import TH, INT, BOOL, REAL, STR, SeqT, OpaqueT
from .values import *
from .engine import to_int, join_ty
from . import lib as L
from .lib import METHODS, HOOKS, BINOPS, lib, mk_list, as_seq, sum_fn, unT


class NpS(T):
    """a numpy scalar: combines with lists like an array; dt is its storage type, when it matters"""
    __slots__ = ('dt',)

    def __init__(self, term, ty, dt=None):
        super().__init__(term, ty)
        self.dt = dt


DT = OpaqueT('Dtype')
NP_INTS = {'uint8': (0, 2 ** 8 - 1), 'int8': (-2 ** 7, 2 ** 7 - 1), 'uint16': (0, 2 ** 16 - 1), 'int16': (-2 ** 15, 2 ** 15 - 1), 'uint32': (0, 2 ** 32 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1),
           'uint64': (0, 2 ** 64 - 1), 'int64': (-2 ** 63, 2 ** 63 - 1)}


def dt_lo(d):
    return TH.fn('dt.lo', DT, INT)(d)


def dt_hi(d):
    return TH.fn('dt.hi', DT, INT)(d)


def dt_const(name):
    """an integer storage type with its range"""
    nm = 'dt.' + name
    if nm in TH.decls:
        return TH.decls[nm]()
    f = TH.fn(nm, DT)
    lo, hi = NP_INTS[name]
    TH.axiom(nm + '.range', z3.And(dt_lo(f()) == lo, dt_hi(f()) == hi), [nm])
    return f()


def dtype_of(eng, v):
    if isinstance(v, Lib):
        n = {'int': 'int64'}.get(v.name, v.name.replace('numpy.', ''))
        if n in NP_INTS:
            return dt_const(n)
    if isinstance(v, T) and v.ty is DT:
        return v.term
    raise Unsupported(f'storage type {v!r}')


def in_range(d, x):
    return z3.And(dt_lo(d) <= x, x <= dt_hi(d))


def all_in_range(eng, d, t, ety):
    """every number of the array fits the storage type"""
    ty = SeqT(ety)
    i, j = z3.Int(eng.fresh_name('di')), z3.Int(eng.fresh_name('dj'))
    x = TH.fn(TH._n('idx', ty), ty, INT, ety)(t, i)
    g = z3.And(0 <= i, i < TH.len(ty, t))
    if ety is INT:
        return z3.ForAll([i], z3.Implies(g, in_range(d, x)), patterns=[x])
    if ety.kind == 'Seq' and ety.elem is INT:
        y = TH.fn(TH._n('idx', ety), ety, INT, INT)(x, j)
        return z3.ForAll([i, j], z3.Implies(z3.And(g, 0 <= j, j < TH.len(ety, x)), in_range(d, y)), patterns=[y])
    raise Unsupported(f'storage type of {ety}')


def fresh_content(eng, ty, name):
    t = eng.fresh(ty, name)
    if not eng.dtypes() or ty.elem not in (INT, SeqT(INT)):
        return LC(term=t, ety=ty.elem, kind='array')
    d = eng.fresh(DT, name + '.dtype')
    eng.assume(all_in_range(eng, d, t, ty.elem))
    return LC(term=t, ety=ty.elem, kind='array', dt=d)


def fresh_array(eng, ty, name):
    return eng.alloc(fresh_content(eng, ty, name))


def array_iter(eng, c, it):
    if not eng.dtypes():
        return it
    return IterSpec(it.n, lambda i: elem_value(eng, c, it.get(i)))


def elem_value(eng, c, x):
    """an element of an array keeps its storage type"""
    if isinstance(x, T) and c.ety is INT:
        return NpS(x.term, x.ty, c.dt)
    if isinstance(x, T) and c.ety.kind == 'Seq':
        return eng.alloc(LC(term=x.term, ety=c.ety.elem, kind='array', dt=c.dt))
    return x


def array_attr(eng, b, c, name):
    ety = c.ety
    if name == 'shape' and ety is not None:
        t = eng.lc_term(c, ety)
        n = T(TH.len(SeqT(ety), t), INT)
        if ety.kind != 'Seq':
            return (n,)
        eng.obligation(n.term > 0, 'shape', 'the array has rows')
        eng.assume(n.term > 0)
        return (n, T(TH.len(ety, TH.idx(SeqT(ety), t, z3.IntVal(0))), INT))
    if name == 'dtype' and c.dt is not None:
        return T(c.dt, DT)
    return Bound(b, None, name)


def is_arr(eng, v):
    return isinstance(v, (Loc, View)) and isinstance(eng.content(v), LC) and eng.content(v).kind == 'array'


def arr(eng, term, ety, dt=None):
    return eng.alloc(LC(term=term, ety=ety, kind='array', dt=dt))


def arr_term(eng, v, want=None):
    """(term, element type) of an array or list"""
    if isinstance(v, T) and v.ty.kind == 'Opt':
        v = eng.unopt(v)
    t, ty = as_seq(eng, v)
    if ty is L.EMPTY_TY:
        if want is None:
            raise Unsupported('array of unknown elements')
        return TH.empty(SeqT(want)), want
    if ty is STR or not ty.is_seq:
        raise Unsupported('array of characters')
    return t, ty.elem


def scalar(v):
    return isinstance(v, (int, float)) or (isinstance(v, T) and v.ty in (INT, REAL))


@lib('numpy.array', 'numpy.asarray')
def _array(eng, a, kw):
    eng.libuse.add('numpy.array copies a sequence of integers or of equal rows')
    if set(kw) - {'dtype'}:
        raise Unsupported('numpy.array with options')
    t, ety = arr_term(eng, a[0], INT if isinstance(eng.content(a[0]), LC) and eng.content(a[0]).items == [] else None)
    if ety not in (INT, REAL, SeqT(INT)) and not (ety.kind == 'Tup' and all(x is INT for x in ety.args)):
        raise Unsupported(f'numpy.array of {ety}')
    if ety.kind == 'Seq':       # rows of equal length
        i = z3.Int(eng.fresh_name('ri'))
        ty = SeqT(ety)
        x = TH.fn(TH._n('idx', ty), ty, INT, ety)(t, i)
        eng.check(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < TH.len(ty, t)), TH.len(ety, x) == TH.len(ety, TH.idx(ty, t, z3.IntVal(0)))), patterns=[x]), 'ValueError', 'rows of equal length')
    if eng.dtypes():
        if 'dtype' not in kw:
            raise Unsupported('numpy.array without a type')
        d = dtype_of(eng, kw['dtype'])
        eng.libuse.add('numpy.array(values, dtype): the same numbers when they fit the type (obligation)')
        eng.obligation(all_in_range(eng, d, t, ety), 'stored exactly', 'every number fits the storage type')
        return arr(eng, t, ety, d)
    if 'dtype' in kw and kw['dtype'] not in (Lib('int'), Lib('numpy.int64')):
        raise Unsupported('numpy.array with this dtype')
    return arr(eng, t, ety)


def np_astype(eng, r, a, kw):
    if kw or len(a) != 1 or not eng.dtypes():
        raise Unsupported('astype')
    d = dtype_of(eng, a[0])
    t, ety = arr_term(eng, r)
    eng.libuse.add('a.astype(type): the same numbers when they fit the type (obligation)')
    eng.obligation(all_in_range(eng, d, t, ety), 'stored exactly', 'every number fits the storage type')
    return arr(eng, t, ety, d)


METHODS[('array', 'astype')] = np_astype


@lib('numpy.concatenate')
def _concatenate(eng, a, kw):
    if kw or len(a) != 1 or not isinstance(a[0], tuple) or len(a[0]) != 2 or not eng.dtypes() or not all(is_arr(eng, x) for x in a[0]):
        raise Unsupported('numpy.concatenate')
    x, y = (eng.content(z) for z in a[0])
    if x.dt is None or y.dt is None:
        raise Unsupported('numpy.concatenate of arrays of unknown type')
    eng.libuse.add('numpy.concatenate of two arrays of one type (obligation): their concatenation, of that type')
    eng.obligation(x.dt == y.dt, 'stored exactly', 'arrays of the same type (numpy may turn integers of different types into floats)')
    (s, ety), (t, ety2) = arr_term(eng, a[0][0]), arr_term(eng, a[0][1])
    if ety is not ety2:
        raise Unsupported('numpy.concatenate')
    return arr(eng, TH.app(SeqT(ety), s, t), ety, x.dt)


@lib('numpy.iinfo')
def _iinfo(eng, a, kw):
    if len(a) == 1 and isinstance(a[0], Lib) and a[0].name.replace('numpy.', '') in NP_INTS:
        return Lib('numpy.iinfo.' + a[0].name.replace('numpy.', ''))
    raise Unsupported('numpy.iinfo')


for _n, (_lo, _hi) in NP_INTS.items():
    L.LIBATTR[f'numpy.iinfo.{_n}.min'], L.LIBATTR[f'numpy.iinfo.{_n}.max'] = _lo, _hi


@lib('numpy.sum')
def _sum(eng, a, kw):
    if kw or len(a) != 1:
        raise Unsupported('numpy.sum with options')
    eng.libuse.add('numpy.sum of numbers is their sum')
    t, ety = arr_term(eng, a[0])
    if ety not in (INT, REAL):
        raise Unsupported(f'numpy.sum of {ety}')
    return NpS(sum_fn(ety)(t), ety)


def extremum(mx):
    def h(eng, a, kw):
        if kw or len(a) != 1:
            raise Unsupported('numpy.max with options')
        eng.libuse.add('numpy.max/min of a non-empty array of numbers')
        return L.minmax(eng, [a[0]], {}, mx)
    return h


HOOKS['numpy.max'] = HOOKS['numpy.amax'] = extremum(True)
HOOKS['numpy.min'] = HOOKS['numpy.amin'] = extremum(False)
METHODS[('array', 'max')] = lambda eng, r, a, kw: extremum(True)(eng, [r] + a, kw)
METHODS[('array', 'min')] = lambda eng, r, a, kw: extremum(False)(eng, [r] + a, kw)
METHODS[('array', 'sum')] = lambda eng, r, a, kw: _sum(eng, [r] + a, kw)
METHODS[('array', 'tolist')] = lambda eng, r, a, kw: mk_list(eng, *_st(eng, r))
METHODS[('array', 'copy')] = lambda eng, r, a, kw: arr(eng, *arr_term(eng, r))


def _st(eng, r):
    t, e = arr_term(eng, r)
    return t, SeqT(e)


def elementwise(eng, v, f):
    """array of f(x) for the elements x"""
    it = eng.iterspec(v)
    r = eng.comprehend(it, f)
    t, ety = arr_term(eng, r)
    return arr(eng, t, ety)


@lib('numpy.abs', 'numpy.absolute')
def _abs(eng, a, kw):
    if kw or len(a) != 1:
        raise Unsupported('numpy.abs with options')
    eng.libuse.add('numpy.abs, arithmetic of arrays with numbers: element by element')
    if scalar(a[0]):
        return HOOKS['abs'](eng, a, {})
    return elementwise(eng, a[0], lambda x: HOOKS['abs'](eng, [x], {}))


def np_scalar_op(eng, op, a, b):
    """arithmetic of numpy integers stays in their type"""
    x, y = getattr(a, 'dt', None), getattr(b, 'dt', None)
    if op not in ('Add', 'Sub', 'Mult') or (isinstance(a, NpS) and x is None) or (isinstance(b, NpS) and y is None):
        raise Unsupported(f'{op} of numpy integers')
    if x is not None and y is not None and not x.eq(y):
        raise Unsupported('arithmetic of numpy integers of different types')
    d = x if x is not None else y
    eng.libuse.add('arithmetic of numpy integers of one type: exact when the result fits the type (obligation)')
    for v in (a, b):
        if not isinstance(v, NpS):
            eng.check(in_range(d, eng.lift(v, INT)), 'OverflowError', 'the number fits the storage type')
    r = eng.binop(op, *(T(v.term, v.ty) if isinstance(v, T) else v for v in (a, b)))
    t = eng.lift(r, INT)
    eng.obligation(in_range(d, t), 'no overflow', 'arithmetic of numpy integers')
    eng.assume(in_range(d, t))
    return NpS(t, INT, d)


def np_binop(eng, op, a, b):
    if eng.dtypes() and not eng.spec_mode and (isinstance(a, NpS) or isinstance(b, NpS)) and scalar(a) and scalar(b):
        return np_scalar_op(eng, op, a, b)
    aa, bb = is_arr(eng, a), is_arr(eng, b)
    la = aa or isinstance(b, NpS) and isinstance(a, (Loc, View))
    lb = bb or isinstance(a, NpS) and isinstance(b, (Loc, View))
    if not (la or lb):
        if eng.arrays_only() and op in ('Add', 'Mult') and any(isinstance(x, T) and x.ty.kind == 'Seq' for x in (a, b)):
            raise Unsupported('operator on an array')
        return NotImplemented
    if la and lb:
        raise Unsupported('arithmetic of two arrays')
    if op not in ('Add', 'Sub', 'Mult', 'Div') or not scalar(b if la else a):
        raise Unsupported(f'{op} on an array')
    eng.libuse.add('numpy.abs, arithmetic of arrays with numbers: element by element')
    s = b if la else a
    s = T(s.term, s.ty) if isinstance(s, T) else s
    return elementwise(eng, a if la else b, (lambda x: eng.binop(op, x, s)) if la else (lambda x: eng.binop(op, s, x)))


BINOPS.append(np_binop)


def np_compare(eng, op, a, b):
    if op in ('Is', 'IsNot', 'In', 'NotIn'):
        return NotImplemented
    if (is_arr(eng, a) or is_arr(eng, b)) and not eng.spec_mode:
        raise Unsupported('comparison of arrays')
    return NotImplemented


L.COMPARES.append(np_compare)


def np_index(eng, b, c, k):
    sl = lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'slice'
    full = lambda x: sl(x) and x[1:] == (None, None, None)
    ty = SeqT(c.ety)
    t = eng.lc_term(c, c.ety)
    if isinstance(k, tuple) and len(k) == 2 and k[0] == 'multi':
        k = k[1]
        if len(k) == 2 and full(k[0]) and isinstance(k[1], int) and c.ety.kind == 'Tup':       # a column
            n = len(c.ety.args)
            # an array of no rows has no columns
            eng.check(TH.len(ty, t) > 0, 'IndexError', 'the array has rows')
            if not -n <= k[1] < n:
                eng.check(z3.BoolVal(False), 'IndexError', 'column in range')
                raise PyExc('IndexError')
            return elementwise(eng, T(t, ty), lambda x: L.getitem(eng, x, k[1]))
        if len(k) == 2 and not sl(k[0]) and not sl(k[1]):
            return L.getitem(eng, L.getitem(eng, b, k[0]), k[1])
        raise Unsupported('array index')
    if sl(k):
        return arr(eng, L.slice_term(eng, t, ty, k), c.ety, c.dt)     # a view: arrays that are written to are not sliced (see np_store)
    if is_arr(eng, k):
        kt, kty = arr_term(eng, k)
        if kty is not INT:
            raise Unsupported('array index')
        eng.libuse.add('a[ix]: the elements at the positions of the integer array ix')
        n = TH.len(ty, t)
        i = z3.Int(eng.fresh_name('fx'))
        x = TH.idx(SeqT(INT), kt, i)
        g = z3.And(0 <= i, i < TH.len(SeqT(INT), kt))
        eng.check(z3.ForAll([i], z3.Implies(g, z3.And(0 <= x, x < n)), patterns=[x]), 'IndexError', 'indices in range')
        r = eng.fresh(ty, 'picked')
        eng.assume(TH.len(ty, r) == TH.len(SeqT(INT), kt))
        rx = TH.fn(TH._n('idx', ty), ty, INT, ty.elem)(r, i)
        eng.assume(z3.ForAll([i], z3.Implies(g, rx == TH.idx(ty, t, x)), patterns=[rx]))
        eng.assume(z3.ForAll([i], z3.Implies(g, rx == TH.idx(ty, t, x)), patterns=[x]))
        return arr(eng, r, c.ety)
    i = L.norm_index(eng, k, TH.len(ty, t))
    x = eng.elem(t, ty, i)
    if c.ety.kind == 'Seq':
        return arr(eng, x.term, c.ety.elem, c.dt)
    return elem_value(eng, c, x) if eng.dtypes() else x


METHODS[('array', '__getitem__')] = np_index


def np_argsort(eng, r, a, kw):
    if a or kw:
        raise Unsupported('argsort with options')
    eng.libuse.add('argsort: the positions of the elements in non-decreasing order')
    t, ety = arr_term(eng, r)
    if ety not in (INT, REAL):
        raise Unsupported('argsort')
    ty, it = SeqT(ety), SeqT(INT)
    o = eng.fresh(it, 'order')
    q = eng.fresh_fn('rank', INT, INT)
    i, j = z3.Int(eng.fresh_name('as')), z3.Int(eng.fresh_name('at'))
    n = TH.len(ty, t)
    ox = lambda k: TH.fn(TH._n('idx', it), it, INT, INT)(o, k)
    tx = lambda k: TH.fn(TH._n('idx', ty), ty, INT, ety)(t, k)
    g = z3.And(0 <= i, i < n)
    eng.assume(TH.len(it, o) == n)
    eng.assume(z3.ForAll([i], z3.Implies(g, z3.And(0 <= ox(i), ox(i) < n, q(ox(i)) == i)), patterns=[ox(i)]))
    eng.assume(z3.ForAll([i], z3.Implies(g, z3.And(0 <= q(i), q(i) < n, ox(q(i)) == i)), patterns=[q(i), tx(i)]))
    eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), tx(ox(i)) <= tx(ox(j))), patterns=[z3.MultiPattern(ox(i), ox(j))]))
    return arr(eng, o, INT)


METHODS[('array', 'argsort')] = np_argsort
HOOKS['numpy.argsort'] = lambda eng, a, kw: np_argsort(eng, a[0], a[1:], kw)


def np_store(eng, b, c, k, v):
    """rows[i, :n] = values"""
    sl = lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'slice'
    ety = c.ety
    k = k[1] if isinstance(k, tuple) and k[0] == 'multi' else ()
    if not (len(k) == 2 and not sl(k[0]) and sl(k[1]) and ety.kind == 'Seq' and k[1][3] is None):
        raise Unsupported('assignment into an array')
    ty = SeqT(ety)
    t = eng.lc_term(c, ety)
    i = L.norm_index(eng, k[0], TH.len(ty, t))
    row = TH.idx(ty, t, i)
    m = TH.len(ety, row)
    lo = L.clamp(eng, k[1][1], m, z3.IntVal(0))
    hi = L.clamp(eng, k[1][2], m, m)
    vt, vety = arr_term(eng, v)
    if vety is not ety.elem:
        raise Unsupported('assignment of values of another type')
    n = TH.len(SeqT(vety), vt)
    eng.libuse.add('a[i, p:q] = values replaces exactly those elements; the number of values fits')
    eng.check(z3.And(lo <= hi, n == hi - lo), 'ValueError', 'the number of values is the length of the slice')
    new = TH.app(ety, TH.app(ety, TH.take(ety, row, lo), vt), TH.drop(ety, row, hi))
    eng.set_content(b, LC(term=TH.upd(ty, t, i, new), ety=ety, kind='array'))


METHODS[('array', '__setitem__')] = np_store


def rep_fn(ety):
    """a value repeated n times"""
    ty = SeqT(ety)
    return TH.fn(TH._n('nrep', ty), ety, INT, ty), ty


@lib('numpy.full')
def _full(eng, a, kw):
    kw = dict(kw)
    shape = a[0] if a else kw.pop('shape')
    val = a[1] if len(a) > 1 else kw.pop('fill_value')
    dt = kw.pop('dtype', Lib('int'))
    if kw or dt not in (Lib('int'), Lib('numpy.int64'), L.HOOKS.get('int')):
        raise Unsupported('numpy.full with this type')
    if not (isinstance(shape, tuple) and len(shape) == 2):
        raise Unsupported('numpy.full of this shape')
    eng.libuse.add('numpy.full((n, m), x): n rows of m times x')
    n, m = (eng.lift(x, INT) for x in shape)
    v = eng.lift(val, INT)
    ety = SeqT(INT)
    ty = SeqT(ety)
    eng.check(z3.And(n >= 0, m >= 0), 'ValueError', 'the dimensions are not negative')
    r = eng.fresh(ty, 'full')
    i, j = z3.Int(eng.fresh_name('fi')), z3.Int(eng.fresh_name('fj'))
    rx = TH.fn(TH._n('idx', ty), ty, INT, ety)(r, i)
    ln = TH.fn(TH._n('len', ety), ety, INT)(rx)
    rxx = TH.fn(TH._n('idx', ety), ety, INT, INT)(rx, j)
    eng.assume(TH.len(ty, r) == n)
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ln == m), patterns=[rx]))
    eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < m), rxx == v), patterns=[rxx]))
    return arr(eng, r, ety)


@lib('numpy.transpose')
def _transpose(eng, a, kw):
    if kw or len(a) != 1 or not is_arr(eng, a[0]):
        raise Unsupported('numpy.transpose')
    t, ety = arr_term(eng, a[0])
    if ety.kind != 'Seq':
        raise Unsupported('numpy.transpose of one dimension')
    eng.libuse.add('numpy.transpose of n equal rows of length m > 0: m rows of length n')
    ty = SeqT(ety)
    n = TH.len(ty, t)
    i, j = z3.Int(eng.fresh_name('ti')), z3.Int(eng.fresh_name('tj'))
    X = lambda s, k: TH.fn(TH._n('idx', ty), ty, INT, ety)(s, k)
    Y = lambda s, k: TH.fn(TH._n('idx', ety), ety, INT, ety.elem)(s, k)
    ln = lambda s: TH.fn(TH._n('len', ety), ety, INT)(s)
    eng.obligation(n > 0, 'numpy.transpose', 'the array has rows')
    eng.assume(n > 0)
    m = eng.fresh(INT, 'cols')
    eng.assume(m == ln(X(t, z3.IntVal(0))))
    r = eng.fresh(ty, 'transposed')
    eng.assume(TH.len(ty, r) == m)
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), ln(X(r, j)) == n), patterns=[X(r, j)]))
    eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= j, j < m, 0 <= i, i < n), Y(X(r, j), i) == Y(X(t, i), j)), patterns=[Y(X(r, j), i), Y(X(t, i), j)]))
    return arr(eng, r, ety)


@lib('numpy.append')
def _append(eng, a, kw):
    if kw or len(a) != 2:
        raise Unsupported('numpy.append with options')
    eng.libuse.add('numpy.append(a, b) of a number and a one-dimensional array: the array with the number at that end')
    ety = INT
    parts = []
    for x in a:
        if scalar(x):
            parts.append(TH.build(SeqT(ety), TH.empty(SeqT(ety)), eng.lift(x, ety)))
        else:
            t, e = arr_term(eng, x)
            if e is not ety:
                raise Unsupported('numpy.append')
            parts.append(t)
    if scalar(a[1]) and not scalar(a[0]):
        return arr(eng, TH.build(SeqT(ety), parts[0], eng.lift(a[1], ety)), ety)
    return arr(eng, TH.app(SeqT(ety), parts[0], parts[1]), ety)


def np_int(bits, signed=True):
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1)) if signed else (0, 2 ** bits)

    def h(eng, a, kw):
        if len(a) != 1 or not scalar(a[0]):
            raise Unsupported('numpy integer')
        eng.libuse.add('numpy.int32(x): the same number; an OverflowError outside its range')
        v = eng.lift(a[0], INT)
        eng.check(z3.And(lo <= v, v < hi), 'OverflowError', 'the number fits')
        return NpS(v, INT)
    return h


HOOKS['numpy.int32'] = np_int(32)
HOOKS['numpy.int64'] = np_int(64)
