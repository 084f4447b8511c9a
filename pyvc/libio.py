"""models of files: text files are sequences of lines, written text is a string"""
import z3

from .values import *
from .theory import TH
from .lib import lib, METHODS, HOOKS, OPAQUE_ATTR, LIBATTR, MISSING, Bound
from . import lib as L

PATH = parse_ty('opq:Path')


def lit(eng, v, what):
    if v is None:
        v = '<None>'
    return eng.lift(v, STR)


@lib('pathlib.Path')
def _path(eng, a, kw):
    v = a[0]
    if isinstance(v, T) and v.ty is PATH:
        return v
    eng.libuse.add('pathlib.Path(str): the file of that name')
    return T(TH.fn('path.of', STR, PATH)(eng.lift(v, STR)), PATH)


def path_name(eng, b):
    return eng.from_term(TH.fn('path.name', PATH, STR)(b.term), STR)


OPAQUE_ATTR[(PATH.name(), 'name')] = path_name


def open_read(eng, path, gz, mode, kw):
    """stream of lines of a file opened for reading text: a function of the file and of how it is opened"""
    mode = mode if mode is not None else 'r'
    if not isinstance(mode, str):
        raise Unsupported('open with a symbolic mode')
    for k in kw:
        if k not in ('encoding', 'errors', 'newline'):
            raise Unsupported(f'open(... {k}=...)')
    if any(c in mode for c in 'wax+'):
        raise Unsupported('open for writing')
    binary = 'b' in mode or (gz and 't' not in mode)
    ty = SeqT(STR)
    eng.libuse.add('a file is opened for reading: the stream of its lines depends only on the file, compression, encoding, errors and newline')
    f = TH.fn('filelines', PATH, BOOL, BOOL, STR, STR, STR, ty)
    t = f(path.term, z3.BoolVal(gz), z3.BoolVal(binary), lit(eng, kw.get('encoding'), ''), lit(eng, kw.get('errors'), ''), lit(eng, kw.get('newline'), ''))
    return eng.alloc(LC(term=t, ety=STR, kind='stream', pos=0))


def path_open(eng, recv, args, kw):
    kw = dict(kw)
    mode = args[0] if args else kw.pop('mode', None)
    return open_read(eng, recv, False, mode, kw)


METHODS[(PATH.name(), 'open')] = path_open


@lib('gzip.open')
def _gzopen(eng, a, kw):
    kw = dict(kw)
    mode = a[1] if len(a) > 1 else kw.pop('mode', 'rb')
    return open_read(eng, _path(eng, [a[0]], {}), True, mode, kw)


@lib('open')
def _open(eng, a, kw):
    kw = dict(kw)
    mode = a[1] if len(a) > 1 else kw.pop('mode', 'r')
    return open_read(eng, _path(eng, [a[0]], {}), False, mode, kw)


METHODS[('stream', 'close')] = lambda eng, r, a, kw: None


SINK = ClassV('Sink', ModV('builtin'), None, [])


def new_sink(eng, text):
    return eng.alloc(OC(SINK, {'text': T(text, STR)}))


def sink_write(eng, r, a, kw):
    """text written to an output is appended to what was written before"""
    c = eng.heap[r.id]
    old = eng.lift(c.fields['text'], STR)
    eng.set_content(r, OC(c.cls, {**c.fields, 'text': T(TH.app(STR, old, eng.lift(a[0], STR)), STR)}))
    return None


METHODS[('Sink', 'write')] = sink_write
METHODS[('Sink', 'close')] = lambda eng, r, a, kw: None
METHODS[('Sink', 'flush')] = lambda eng, r, a, kw: None
L.OBJATTR.append(lambda eng, b, c, name: (IGNORE if name == 'name' else Bound(b, None, name)) if c.cls is SINK else MISSING)


@lib('multiprocessing.Pool')
def _pool(eng, a, kw):
    from .interp import PyObj
    eng.libuse.add('multiprocessing.Pool: imap and map yield the results in the order of the items')

    def imap(eng, f, xs, chunksize=1):
        if isinstance(chunksize, T):
            eng.check(chunksize.term >= 1, 'ValueError', 'chunksize is positive')
        elif chunksize < 1:
            raise PyExc('ValueError')
        return HOOKS['map'](eng, [f, xs], {})

    def pmap(eng, f, xs, chunksize=1):
        return HOOKS['list'](eng, [imap(eng, f, xs)], {})
    p = PyObj('Pool', imap=imap, map=pmap, close=lambda eng: None, join=lambda eng: None, terminate=lambda eng: None)
    p.attrs['__enter__'] = lambda eng: p
    p.attrs['__exit__'] = lambda eng, e: False
    return p


# ---------------------------------------------------------------- text
def splitc_fn():
    """str.split(c) for one character c"""
    st = SeqT(STR)
    new = 'str.splitc' not in TH.decls
    f = TH.fn('str.splitc', STR, INT, st)
    if new:
        TH.sort(st)
        s = z3.Const('sc!s', TH.sort(STR))
        x, c = z3.Ints('sc!x sc!c')
        e = TH.empty(STR)
        one = lambda t: TH.build(st, TH.empty(st), t)
        b = TH.build(STR, s, x)
        n = TH.len(st, f(s, c))
        TH.axiom('str.splitc.nil', z3.ForAll([c], f(e, c) == one(e), patterns=[f(e, c)]), ['str.splitc'])
        TH.axiom('str.splitc.cons', z3.ForAll([s, x, c], f(b, c) == z3.If(x == c, TH.build(st, f(s, c), e),
                 TH.build(st, TH.fn(TH._n('take', st), st, INT, st)(f(s, c), n - 1), TH.build(STR, TH.fn(TH._n('idx', st), st, INT, STR)(f(s, c), n - 1), x))), patterns=[f(b, c)]), ['str.splitc'])
        TH.axiom('str.splitc.len', z3.ForAll([s, c], n >= 1, patterns=[f(s, c)]), ['str.splitc'])
    return f


def rstripc_fn():
    """str.rstrip(c) for one character c"""
    new = 'str.rstripc' not in TH.decls
    f = TH.fn('str.rstripc', STR, INT, STR)
    if new:
        s = z3.Const('rs!s', TH.sort(STR))
        x, c = z3.Ints('rs!x rs!c')
        b = TH.build(STR, s, x)
        ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
        TH.axiom('str.rstripc.cons', z3.ForAll([s, x, c], f(b, c) == z3.If(x == c, f(s, c), b), patterns=[f(b, c)]), ['str.rstripc'])
        TH.axiom('str.rstripc.end', z3.ForAll([s, c], z3.Implies(z3.Or(ln(s) == 0, ix(s, ln(s) - 1) != c), f(s, c) == s), patterns=[f(s, c)]), ['str.rstripc'])
    return f


def linesof_fn():
    """the lines of a text file, each with its line feed"""
    st = SeqT(STR)
    new = 'str.linesof' not in TH.decls
    f = TH.fn('str.linesof', STR, st)
    if new:
        TH.sort(st)
        s = z3.Const('lo!s', TH.sort(STR))
        x = z3.Int('lo!x')
        ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
        b = TH.build(STR, s, x)
        n = TH.len(st, f(s))
        one = TH.build(STR, TH.empty(STR), x)
        TH.axiom('str.linesof.nil', f(TH.empty(STR)) == TH.empty(st), ['str.linesof'])
        TH.axiom('str.linesof.cons', z3.ForAll([s, x], f(b) == z3.If(z3.Or(ln(s) == 0, ix(s, ln(s) - 1) == 10), TH.build(st, f(s), one),
                 TH.build(st, TH.fn(TH._n('take', st), st, INT, st)(f(s), n - 1), TH.build(STR, TH.fn(TH._n('idx', st), st, INT, STR)(f(s), n - 1), x))), patterns=[f(b)]), ['str.linesof'])
    return f


def one_char(eng, v):
    if isinstance(v, str):
        return z3.IntVal(ord(v)) if len(v) == 1 else None
    if isinstance(v, T) and v.ty is STR:
        t = v.term
        if z3.is_app(t) and t.decl().name() == 'build.Str' and TH.is_empty_term(STR, t.arg(0)):
            return t.arg(1)
    return None


def str_split(eng, s, args, kw):
    args = list(args) + ([kw['sep']] if 'sep' in kw else [])
    if len(args) != 1 or isinstance(s, str) and isinstance(args[0], str):
        return NotImplemented
    c = one_char(eng, args[0])
    if c is None:
        raise Unsupported('split at more than one character')
    eng.libuse.add('str.split(char)')
    return L.mk_list(eng, splitc_fn()(eng.lift(s, STR), c), SeqT(STR))


def str_rstrip(eng, s, args, kw):
    if len(args) != 1:
        return NotImplemented
    c = one_char(eng, args[0])
    if c is None:
        raise Unsupported('rstrip of several characters')
    eng.libuse.add('str.rstrip(char)')
    return T(rstripc_fn()(eng.lift(s, STR), c), STR)


METHODS[('str', 'split')] = str_split
METHODS[('str', 'rstrip')] = str_rstrip

# ---------------------------------------------------------------- json
JSON = parse_ty('opq:Json')


def json_fns():
    new = 'json.dumps' not in TH.decls
    d = TH.fn('json.dumps', JSON, STR)
    l = TH.fn('json.loads', STR, JSON)
    if new:
        TH.sort(JSON)
        put = TH.fn('json.put', JSON, STR, JSON, JSON)
        get, has = TH.fn('json.get', JSON, STR, JSON), TH.fn('json.has', JSON, STR, BOOL)
        isd, ok = TH.fn('json.isdict', JSON, BOOL), TH.fn('json.valid', STR, BOOL)
        num, tonum = TH.fn('json.int', INT, JSON), TH.fn('json.toint', JSON, INT)
        st, tost = TH.fn('json.str', STR, JSON), TH.fn('json.tostr', JSON, STR)
        nil = TH.const('json.nil', JSON)
        j, x = z3.Consts('js!j js!x', TH.sort(JSON))
        k, k2 = z3.Consts('js!k js!k2', TH.sort(STR))
        i = z3.Int('js!i')
        ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
        p = put(j, k, x)
        TH.axiom('json.roundtrip', z3.ForAll([j], z3.And(l(d(j)) == j, ok(d(j)), ln(d(j)) > 0), patterns=[d(j)]), ['json.dumps'])
        # control characters are escaped; an object starts with a brace
        TH.axiom('json.printable', z3.ForAll([j, i], z3.Implies(z3.And(0 <= i, i < ln(d(j))), ix(d(j), i) >= 32), patterns=[ix(d(j), i)]), ['json.dumps'])
        TH.axiom('json.brace', z3.ForAll([j], z3.Implies(isd(j), z3.And(ix(d(j), 0) == 123, ix(d(j), ln(d(j)) - 1) == 125, ln(d(j)) >= 2)), patterns=[d(j)]), ['json.dumps'])
        TH.axiom('json.nil', z3.And(isd(nil), z3.ForAll([k], z3.Not(has(nil, k)), patterns=[has(nil, k)])), ['json.nil'])
        TH.axiom('json.put', z3.ForAll([j, k, x], z3.And(isd(p), has(p, k), get(p, k) == x), patterns=[p]), ['json.put'])
        TH.axiom('json.put.has', z3.ForAll([j, k, x, k2], has(p, k2) == z3.Or(k == k2, has(j, k2)), patterns=[has(p, k2)]), ['json.put'])
        TH.axiom('json.put.get', z3.ForAll([j, k, x, k2], z3.Implies(k != k2, get(p, k2) == get(j, k2)), patterns=[get(p, k2)]), ['json.put'])
        TH.axiom('json.int', z3.ForAll([i], tonum(num(i)) == i, patterns=[num(i)]), ['json.int'])
        TH.axiom('json.str', z3.ForAll([k], tost(st(k)) == k, patterns=[st(k)]), ['json.str'])
        tru = TH.fn(f'truthy.{JSON.name()}', JSON, BOOL)
        TH.axiom('json.truthy', z3.ForAll([j, k], z3.Implies(z3.And(isd(j), has(j, k)), tru(j)), patterns=[z3.MultiPattern(tru(j), has(j, k))]), [tru.name()])
    return d, l


def to_json(eng, v):
    """json value of a python value"""
    json_fns()
    if isinstance(v, T) and v.ty is JSON:
        return v.term
    if isinstance(v, bool) or isinstance(v, T) and v.ty is BOOL:
        return TH.fn('json.bool', BOOL, JSON)(eng.lift(v, BOOL))
    if isinstance(v, int) or isinstance(v, T) and v.ty is INT:
        return TH.fn('json.int', INT, JSON)(eng.lift(v, INT))
    if isinstance(v, str) or isinstance(v, T) and v.ty is STR:
        return TH.fn('json.str', STR, JSON)(eng.lift(v, STR))
    if v is IGNORE:
        return eng.fresh(JSON, 'json')
    if isinstance(v, (Loc, View)):
        c = eng.content(v)
        if isinstance(c, DC) and c.items is not None:
            t = TH.const('json.nil', JSON)
            for k, x in c.items.items():
                if not isinstance(k, str):
                    break
                t = TH.fn('json.put', JSON, STR, JSON, JSON)(t, eng.lift(k, STR), to_json(eng, x))
            else:
                return t
        if isinstance(c, (DC, LC)):
            ty = eng.type_of(v)
            return TH.fn('json.of.' + ty.name(), ty, JSON)(eng.lift(v, ty))
    if isinstance(v, T):
        return TH.fn('json.of.' + v.ty.name(), v.ty, JSON)(v.term)
    raise Unsupported(f'json of {v!r}')


@lib('json.dumps')
def _dumps(eng, a, kw):
    if any(k not in ('indent', 'ensure_ascii') for k in kw):
        raise Unsupported('json.dumps options')
    eng.libuse.add('json.dumps / json.loads: loads(dumps(x)) == x, the text has no control characters')
    if kw.get('indent') is not None:
        d = TH.fn('json.dumps.indented', JSON, STR)
        j = z3.Const('ji!j', TH.sort(JSON))
        _, l = json_fns()
        TH.axiom('json.indented', z3.ForAll([j], z3.And(l(d(j)) == j, TH.fn('json.valid', STR, BOOL)(d(j))), patterns=[d(j)]), ['json.dumps.indented'])
        json_prefix(d)
    else:
        d, _ = json_fns()
        json_prefix(d)
    return T(d(to_json(eng, a[0])), STR)


def json_prefix(d):
    """a proper prefix of the text of an object is not JSON"""
    j = z3.Const('jp!j', TH.sort(JSON))
    k = z3.Int('jp!k')
    t = TH.fn('take.Str', STR, INT, STR)(d(j), k)
    TH.axiom('json.prefix.' + d.name(), z3.ForAll([j, k], z3.Implies(z3.And(TH.fn('json.isdict', JSON, BOOL)(j), 0 <= k, k < TH.fn('len.Str', STR, INT)(d(j))), z3.Not(TH.fn('json.valid', STR, BOOL)(t))), patterns=[t]), [d.name(), 'take.Str'])
    TH.axiom('json.nonempty.' + d.name(), z3.ForAll([j], TH.fn('len.Str', STR, INT)(d(j)) > 0, patterns=[d(j)]), [d.name()])
    TH.axiom('json.empty', z3.Not(TH.fn('json.valid', STR, BOOL)(TH.empty(STR))), ['json.valid'])


@lib('json.loads')
def _loads(eng, a, kw):
    _, l = json_fns()
    t = eng.lift(a[0], STR)
    eng.check(TH.fn('json.valid', STR, BOOL)(t), 'ValueError', 'text is JSON')
    return T(l(t), JSON)


def json_get(eng, r, a, kw):
    json_fns()
    eng.check(TH.fn('json.isdict', JSON, BOOL)(r.term), 'AttributeError', 'JSON value is an object')
    k = eng.lift(a[0], STR)
    x = TH.fn('json.get', JSON, STR, JSON)(r.term, k)
    has = TH.fn('json.has', JSON, STR, BOOL)(r.term, k)
    d = a[1] if len(a) > 1 else kw.get('default')
    if isinstance(d, int) or isinstance(d, T) and d.ty is INT:
        eng.libuse.add('JSON values read with an integer default are integers')
        return T(z3.If(has, TH.fn('json.toint', JSON, INT)(x), eng.lift(d, INT)), INT)
    raise Unsupported('json get')


METHODS[(JSON.name(), 'get')] = json_get


def json_item(eng, r, c, k):
    json_fns()
    k0, c = k, None
    k = eng.lift(k, STR)
    eng.check(TH.fn('json.isdict', JSON, BOOL)(r.term), 'TypeError', 'JSON value is an object')
    eng.check(TH.fn('json.has', JSON, STR, BOOL)(r.term, k), 'KeyError', 'the JSON object has the key')
    x = TH.fn('json.get', JSON, STR, JSON)(r.term, k)
    if c is None and isinstance(k0, str) and eng.top is not None and k0 in eng.top.opts.get('jsonint', ()):     # read as a number
        isint = TH.fn('json.isint', JSON, BOOL)
        i = z3.Int('jn!i')
        num = TH.fn('json.int', INT, JSON)(i)
        TH.axiom('json.isint', z3.ForAll([i], isint(num), patterns=[num]), ['json.isint', 'json.int'])
        if not eng.spec_mode:
            eng.obligation(isint(x), 'no TypeError', f'{k0} is a number')
        return T(TH.fn('json.toint', JSON, INT)(x), INT)
    return T(x, JSON)


def json_in(eng, r, k):
    json_fns()
    eng.check(TH.fn('json.isdict', JSON, BOOL)(r.term), 'TypeError', 'JSON value is an object')
    return TH.fn('json.has', JSON, STR, BOOL)(r.term, eng.lift(k, STR))


METHODS[(JSON.name(), '__getitem__')] = json_item
METHODS[(JSON.name(), '__contains__')] = json_in


@lib('datetime.datetime.now')
def _now(eng, a, kw):
    eng.libuse.add('datetime.now(): any text')
    return T(eng.fresh(STR, 'now'), STR)
