"""Models (assumed contracts) of the file system: paths, directory listing, writing files, pickle.

State: per path whether it exists, whether it is a directory, its text and its pickled value (fields of the pseudo class FS, indexed with paths).
Every operation that changes it is followed by the check of the crash invariant of the function under verification (contract option `fs_inv`),
for every state a stop of the process during the operation may leave (a text file may hold any prefix of the text, other files anything).
"""
import ast
import z3
from .theory import TH, INT, BOOL, STR, SeqT, DictT, OpaqueT
from .values import *
from .values import parse_ty
from .engine import to_int
from . import lib as L
from .lib import METHODS, HOOKS, BINOPS, OPAQUE_ATTR, lib, mk_list
from . import libio
from .libio import PATH, JSON, json_fns, open_read, _path

SAVED = OpaqueT('Saved')
FIELDS = {'exists': 'bool', 'isdir': 'bool', 'text': 'str', 'saved': 'opq:Saved'}
B = z3.BoolSort()
_done = set()


# ---------------------------------------------------------------- names and paths
def nochar():
    """text without a character"""
    f = TH.fn('str.nochar', STR, INT, B)
    if 'str.nochar.ax' not in _done:
        _done.add('str.nochar.ax')
        s, t = z3.Const('nc!s', TH.sort(STR)), z3.Const('nc!t', TH.sort(STR))
        c, x, w = z3.Ints('nc!c nc!x nc!w')
        b, a = TH.build(STR, s, x), TH.fn('app.Str', STR, STR, STR)(s, t)
        TH.axiom('nochar.nil', z3.ForAll([c], f(TH.empty(STR), c), patterns=[f(TH.empty(STR), c)]), ['str.nochar'])
        TH.axiom('nochar.build', z3.ForAll([s, x, c], f(b, c) == z3.And(f(s, c), x != c), patterns=[f(b, c)]), ['str.nochar'])
        TH.axiom('nochar.app', z3.ForAll([s, t, c], f(a, c) == z3.And(f(s, c), f(t, c)), patterns=[f(a, c)]), ['str.nochar'])
        z = zpad_fn()(x, w)
        TH.axiom('nochar.zpad', z3.ForAll([x, w, c], z3.Implies(z3.And(x >= 0, z3.Or(c < 48, c > 57)), f(z, c)), patterns=[f(z, c)]), ['str.nochar'])
    return f


def zpad_fn():
    """decimal digits of a number that is not negative, padded with zeros on the left"""
    f = TH.fn('zpad', INT, INT, STR)
    if 'zpad.ax' not in _done:
        _done.add('zpad.ax')
        g = TH.fn('str.tailnum', STR, INT)
        n, w, j = z3.Ints('zp!n zp!w zp!j')
        a = z3.Const('zp!a', TH.sort(STR))
        ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
        app = TH.fn('app.Str', STR, STR, STR)(a, f(n, w))
        TH.axiom('zpad.len', z3.ForAll([n, w], z3.Implies(n >= 0, ln(f(n, w)) >= 1), patterns=[f(n, w)]), ['zpad'])
        TH.axiom('zpad.digits', z3.ForAll([n, w, j], z3.Implies(z3.And(n >= 0, 0 <= j, j < ln(f(n, w))), z3.And(48 <= ix(f(n, w), j), ix(f(n, w), j) <= 57)), patterns=[ix(f(n, w), j)]), ['zpad'])
        # the number at the end of a text, after a character that is not a digit
        TH.axiom('zpad.number', z3.ForAll([a, n, w], z3.Implies(z3.And(n >= 0, ln(a) > 0, z3.Or(ix(a, ln(a) - 1) < 48, ix(a, ln(a) - 1) > 57)), g(app) == n), patterns=[app]), ['zpad', 'str.tailnum'])
    return f


def zero_padded(eng, spec, x):
    """f'{x:0{w}d}'"""
    vs = spec.values if isinstance(spec, ast.JoinedStr) else []
    if len(vs) == 3 and isinstance(vs[0], ast.Constant) and vs[0].value == '0' and isinstance(vs[2], ast.Constant) and vs[2].value == 'd' and isinstance(vs[1], ast.FormattedValue) and vs[1].format_spec is None and vs[1].conversion == -1:
        w = eng.eval(vs[1].value)
        if isinstance(x, int) and isinstance(w, int):
            return None
        return zpad(eng, x, w)
    return None


def zpad(eng, x, w):
    eng.libuse.add('decimal notation padded with zeros is injective')
    return T(zpad_fn()(eng.lift(x, INT), eng.lift(w, INT)), STR)


HOOKS['zero_padded'] = zero_padded


def str_zfill(eng, s, args, kw):
    if isinstance(s, T) and z3.is_app(s.term) and s.term.decl().name() == 'str.ofint':
        eng.check(s.term.arg(0) >= 0, 'ValueError', 'zfill of a number that is not negative')
        return zpad(eng, T(s.term.arg(0), INT), args[0])
    return NotImplemented


METHODS[('str', 'zfill')] = str_zfill


def rstrips_fn(chars):
    nm = 'str.rstrip.' + '.'.join(str(ord(c)) for c in sorted(set(chars)))
    f = TH.fn(nm, STR, STR)
    if nm + '.ax' not in _done:
        _done.add(nm + '.ax')
        s, x = z3.Const('rs!s', TH.sort(STR)), z3.Int('rs!x')
        ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
        b = TH.build(STR, s, x)
        isin = lambda t: z3.Or([t == ord(c) for c in sorted(set(chars))])
        TH.axiom(nm + '.cons', z3.ForAll([s, x], f(b) == z3.If(isin(x), f(s), b), patterns=[f(b)]), [nm])
        TH.axiom(nm + '.end', z3.ForAll([s], z3.Implies(z3.Or(ln(s) == 0, z3.Not(isin(ix(s, ln(s) - 1)))), f(s) == s), patterns=[f(s)]), [nm])
    return f


_rstrip1 = METHODS[('str', 'rstrip')]


def str_rstrip(eng, s, args, kw):
    if len(args) == 1 and isinstance(args[0], str) and len(args[0]) > 1 and not isinstance(s, str):
        eng.libuse.add('str.rstrip(characters)')
        return T(rstrips_fn(args[0])(eng.lift(s, STR)), STR)
    return _rstrip1(eng, s, args, kw)


METHODS[('str', 'rstrip')] = str_rstrip


def path_fns():
    """(join, parent, name, plain, below, above)"""
    join, parent, name = TH.fn('path.join', PATH, STR, PATH), TH.fn('path.parent', PATH, PATH), TH.fn('path.name', PATH, STR)
    plain, below, above = TH.fn('path.plain', STR, B), TH.fn('path.below', PATH, PATH, B), TH.fn('path.above', PATH, PATH, B)
    if 'path.ax' not in _done:
        _done.add('path.ax')
        p = z3.Const('pa!p', TH.sort(PATH))
        a = z3.Const('pa!a', TH.sort(STR))
        ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
        j = join(p, a)
        TH.axiom('path.plain', z3.ForAll([a], z3.Implies(z3.And(ln(a) > 0, nochar()(a, z3.IntVal(47)), ix(a, 0) != 46), plain(a)), patterns=[plain(a)]), ['path.plain'])
        TH.axiom('path.join', z3.ForAll([p, a], z3.Implies(plain(a), z3.And(parent(j) == p, name(j) == a, j != p)), patterns=[j]), ['path.join'])
        TH.axiom('path.below', z3.ForAll([p, a], z3.Implies(plain(a), below(j, p)), patterns=[j]), ['path.below', 'path.join'])
        TH.axiom('path.below.self', z3.ForAll([p], below(p, p), patterns=[below(p, p)]), ['path.below'])
        TH.axiom('path.above', z3.ForAll([p, a], z3.Implies(plain(a), z3.Not(above(j, p))), patterns=[j]), ['path.above', 'path.join'])
        TH.axiom('path.above.self', z3.ForAll([p], z3.Not(above(p, p)), patterns=[above(p, p)]), ['path.above'])
        TH.axiom('path.truthy', z3.ForAll([p], TH.fn(f'truthy.{PATH.name()}', PATH, B)(p), patterns=[TH.fn(f'truthy.{PATH.name()}', PATH, B)(p)]), [f'truthy.{PATH.name()}'])
    return join, parent, name, plain, below, above


def path_div(eng, op, a, b):
    if op == 'Div' and isinstance(a, T) and a.ty is PATH and (isinstance(b, str) or isinstance(b, T) and b.ty is STR):
        eng.libuse.add('path / name: the entry of that name in the directory; different names are different files')
        return T(path_fns()[0](a.term, eng.lift(b, STR)), PATH)
    return NotImplemented


BINOPS.append(path_div)
OPAQUE_ATTR[(PATH.name(), 'parent')] = lambda eng, b: T(path_fns()[1](b.term), PATH)


def joinpath(eng, p, a, kw):
    for x in a:
        p = path_div(eng, 'Div', p, x)
    return p


METHODS[(PATH.name(), 'joinpath')] = joinpath


def with_suffix(eng, p, a, kw):
    sfx = a[0]
    if not isinstance(sfx, str) or len(sfx) < 2 or sfx[0] != '.' or '/' in sfx:
        raise Unsupported('with_suffix')
    join, plain = path_fns()[0], path_fns()[3]
    f = TH.fn('path.with_suffix', PATH, STR, PATH)
    if 'path.with_suffix.ax' not in _done:
        _done.add('path.with_suffix.ax')
        q, n, s = z3.Const('ws!p', TH.sort(PATH)), z3.Const('ws!n', TH.sort(STR)), z3.Const('ws!s', TH.sort(STR))
        t = f(join(q, n), s)
        TH.axiom('path.with_suffix', z3.ForAll([q, n, s], z3.Implies(z3.And(plain(n), nochar()(n, z3.IntVal(46))), t == join(q, TH.fn('app.Str', STR, STR, STR)(n, s))), patterns=[t]), ['path.with_suffix'])
    eng.libuse.add('Path.with_suffix adds the suffix to a name without one')
    return T(f(p.term, eng.lift(sfx, STR)), PATH)


METHODS[(PATH.name(), 'with_suffix')] = with_suffix


# ---------------------------------------------------------------- state
def arr(eng, f):
    if 'FS' not in eng.refclasses:
        eng.refclasses['FS'] = dict(full='file system', fields=FIELDS)
    return eng.field_arr('FS', f)


def get(eng, f, p):
    return eng.from_term(z3.Select(arr(eng, f), p), parse_ty(FIELDS[f]))


def put(eng, f, p, v):
    eng.set_field_arr('FS', f, z3.Store(arr(eng, f), p, v))


def replace(eng, f):
    arr(eng, f)
    a = eng.fresh_arr('FS', f)
    eng.set_field_arr('FS', f, a)
    return a


def crash_check(eng):
    """the crash invariant of the function under verification holds in the present state of the files"""
    inv = eng.top.opts.get('fs_inv') if eng.top is not None else None
    if not inv or eng.spec_mode:
        return
    rest = eng.frames[1:]
    del eng.frames[1:]
    f = eng.frames[0]
    env = f.env
    f.env = {**env, **f.entry_env}
    try:
        for e in inv:
            eng.obligation(eng.spec_bool(e), 'crash invariant', e)
    finally:
        f.env = env
        eng.frames.extend(rest)


def during_call(eng, con, fr):
    """a called function may be stopped in any state its own crash invariant allows"""
    mods = [m[9:] for m in con.modifies if m.startswith('field:FS.')]
    if not mods or eng.top is None or not eng.top.opts.get('fs_inv') or eng.top is con and False:
        return
    if not con.opts.get('fs_inv'):
        raise Unsupported(f'{con.label} changes files and has no crash invariant')
    saved = dict(eng.fields)
    n = len(eng.hyps)
    for f in mods:
        replace(eng, f)
    for e in con.opts['fs_inv']:
        eng.hyps.append(eng.spec_bool(e))
    crash_check(eng)
    del eng.hyps[n:]
    eng.fields = saved


# ---------------------------------------------------------------- operations
METHODS[(PATH.name(), 'exists')] = lambda eng, p, a, kw: get(eng, 'exists', p.term)
METHODS[(PATH.name(), 'is_dir')] = lambda eng, p, a, kw: T(z3.And(z3.Select(arr(eng, 'exists'), p.term), z3.Select(arr(eng, 'isdir'), p.term)), BOOL)
METHODS[(PATH.name(), 'is_file')] = lambda eng, p, a, kw: T(z3.And(z3.Select(arr(eng, 'exists'), p.term), z3.Not(z3.Select(arr(eng, 'isdir'), p.term))), BOOL)


@lib('os.path.exists')
def _exists(eng, a, kw):
    return get(eng, 'exists', _path(eng, a, {}).term)


def read_text(eng, p, a, kw):
    eng.check(z3.Select(arr(eng, 'exists'), p.term), 'FileNotFoundError', 'the file exists')
    return get(eng, 'text', p.term)


METHODS[(PATH.name(), 'read_text')] = read_text


def write_text(eng, p, a, kw):
    eng.libuse.add('a text file is created or emptied, then written; a process that stops leaves any prefix; changes of files happen in program order')
    s = eng.lift(a[0] if a else kw['data'], STR)
    k = eng.fresh(INT, 'written')
    n = TH.len(STR, s)
    eng.assume(z3.And(0 <= k, z3.Or(k < n, n == 0)))
    put(eng, 'exists', p.term, z3.BoolVal(True))
    put(eng, 'text', p.term, TH.take(STR, s, k))
    crash_check(eng)
    put(eng, 'text', p.term, s)
    crash_check(eng)
    return T(n, INT)


METHODS[(PATH.name(), 'write_text')] = write_text


def open_write(eng, p):
    from .interp import PyObj
    put(eng, 'exists', p.term, z3.BoolVal(True))
    put(eng, 'saved', p.term, eng.fresh(SAVED, 'partial'))
    put(eng, 'text', p.term, eng.fresh(STR, 'partial'))
    crash_check(eng)
    f = PyObj('binary file', path=p)
    f.attrs['__enter__'] = lambda eng: f
    f.attrs['__exit__'] = lambda eng, e: False
    f.attrs['close'] = lambda eng: None
    return f


_open_lib, _open_path = HOOKS['open'], METHODS[(PATH.name(), 'open')]


@lib('open')
def _open(eng, a, kw):
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if mode == 'wb':
        return open_write(eng, _path(eng, [a[0]], {}))
    return _open_lib(eng, a, kw)


def path_open(eng, p, a, kw):
    if (a[0] if a else kw.get('mode', 'r')) == 'wb':
        return open_write(eng, p)
    return _open_path(eng, p, a, kw)


METHODS[(PATH.name(), 'open')] = path_open


def mkdir(eng, p, a, kw):
    if kw.get('exist_ok') is not True or kw.get('parents') is not True:
        raise Unsupported('mkdir')
    ex, isd = arr(eng, 'exists'), arr(eng, 'isdir')
    eng.check(z3.Or(z3.Not(z3.Select(ex, p.term)), z3.Select(isd, p.term)), 'FileExistsError', 'no file is in the place of the directory')
    eng.libuse.add('mkdir creates the directory and those it is in, nothing else')
    above = path_fns()[5]
    q = z3.Const(eng.fresh_name('mk'), TH.sort(PATH))
    ex2, isd2 = replace(eng, 'exists'), replace(eng, 'isdir')
    s = lambda x: z3.Select(x, q)
    eng.assume(z3.ForAll([q], z3.And(z3.Implies(s(ex), s(ex2)), z3.Implies(z3.Not(above(q, p.term)), z3.And(z3.Implies(q != p.term, s(ex2) == s(ex)), z3.Implies(q != p.term, s(isd2) == s(isd)))), z3.Implies(s(ex), s(isd2) == s(isd))), patterns=[s(ex2), s(isd2)]))
    crash_check(eng)
    eng.assume(z3.And(z3.Select(ex2, p.term), z3.Select(isd2, p.term)))
    crash_check(eng)
    return None


METHODS[(PATH.name(), 'mkdir')] = mkdir


@lib('shutil.rmtree')
def _rmtree(eng, a, kw):
    p = _path(eng, [a[0]], {})
    if kw or len(a) > 1:
        raise Unsupported('rmtree options')
    eng.libuse.add('rmtree removes the directory and what is below it, in any order')
    below = path_fns()[4]
    q = z3.Const(eng.fresh_name('rm'), TH.sort(PATH))
    ex = arr(eng, 'exists')
    s = lambda x: z3.Select(x, q)
    mid = replace(eng, 'exists')
    eng.assume(z3.ForAll([q], z3.And(z3.Implies(s(mid), s(ex)), z3.Implies(z3.Not(below(q, p.term)), s(mid) == s(ex))), patterns=[s(mid)]))
    crash_check(eng)
    ex2 = replace(eng, 'exists')
    eng.assume(z3.ForAll([q], s(ex2) == z3.And(s(ex), z3.Not(below(q, p.term))), patterns=[s(ex2)]))
    crash_check(eng)
    return None


def entries(eng, p, cond, what):
    """names of the existing entries of a directory that satisfy a condition, in any order, each once"""
    join, parent, name, plain, _, _ = path_fns()
    st = SeqT(STR)
    r = eng.fresh(st, what)
    pos = eng.fresh_fn('entrypos', STR, INT)
    i = z3.Int(eng.fresh_name('en'))
    a = z3.Const(eng.fresh_name('en'), TH.sort(STR))
    n = TH.len(st, r)
    ix = TH.fn(TH._n('idx', st), st, INT, STR)
    ex = arr(eng, 'exists')
    good = lambda t: z3.And(plain(t), z3.Select(ex, join(p, t)), *cond(t))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(good(ix(r, i)), pos(ix(r, i)) == i)), patterns=[ix(r, i)]))
    eng.assume(z3.ForAll([a], z3.Implies(good(a), z3.And(0 <= pos(a), pos(a) < n, ix(r, pos(a)) == a)), patterns=[join(p, a)]))
    return r


@lib('os.listdir')
def _listdir(eng, a, kw):
    p = _path(eng, [a[0]], {})
    eng.check(z3.Select(arr(eng, 'exists'), p.term), 'FileNotFoundError', 'the directory exists')
    eng.check(z3.Select(arr(eng, 'isdir'), p.term), 'NotADirectoryError', 'the path is a directory')
    eng.libuse.add('os.listdir, glob: the existing entries of the directory, each once, in any order')
    return mk_list(eng, entries(eng, p.term, lambda t: [], 'listdir'), SeqT(STR))


def glob_match(pat, t):
    pre, post = pat.split('*')
    n = TH.len(STR, t)
    return [n >= len(pre) + len(post)] + [TH.fn('idx.Str', STR, INT, INT)(t, z3.IntVal(i)) == ord(c) for i, c in enumerate(pre)] + [TH.fn('idx.Str', STR, INT, INT)(t, n - len(post) + i) == ord(c) for i, c in enumerate(post)]


def glob(eng, p, a, kw):
    pat = a[0]
    if not isinstance(pat, str) or pat.count('*') != 1 or any(c in pat for c in '?[]/') or kw:
        raise Unsupported('glob pattern')
    eng.libuse.add('os.listdir, glob: the existing entries of the directory, each once, in any order')
    names = entries(eng, p.term, lambda t: glob_match(pat, t), 'glob')
    pt, st = SeqT(PATH), SeqT(STR)
    r = eng.fresh(pt, 'globbed')
    i = z3.Int(eng.fresh_name('gl'))
    x, y = TH.idx(pt, r, i), TH.idx(st, names, i)
    eng.assume(TH.len(pt, r) == TH.len(st, names))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < TH.len(st, names)), x == path_fns()[0](p.term, y)), patterns=[x, y]))
    return eng.alloc(LC(term=r, ety=PATH, kind='stream', pos=0))


METHODS[(PATH.name(), 'glob')] = glob


def stat(eng, p, a, kw):
    from .interp import PyObj
    eng.check(z3.Select(arr(eng, 'exists'), p.term), 'FileNotFoundError', 'the file exists')
    n = eng.fresh(INT, 'size')
    eng.assume(n >= 0)
    return PyObj('stat', st_size=T(n, INT))


METHODS[(PATH.name(), 'stat')] = stat


# ---------------------------------------------------------------- pickle
def pickle_schema(eng):
    o = eng.top.opts.get('pickle')
    if o is None:
        raise Unsupported('pickle: the contract does not say of which class')
    return o


def unpickled(eng, t, schema):
    """object whose contents are given by a pickled value"""
    full, sch = schema
    old = eng.fresh

    def fresh(ty, base='v'):
        return TH.fn(f'pickle.{sch}.{base}', SAVED, ty)(t.term)
    eng.fresh = fresh
    n = len(eng.hyps)
    try:
        return eng.fresh_value(f'abs:{full}/{sch}', 'pk')
    finally:
        del eng.fresh
        if eng.spec_mode or eng.top is None:
            del eng.hyps[n:]


def same(eng, a, b):
    """equations that say that two values have the same contents"""
    if isinstance(a, (Loc, View)) and isinstance(b, (Loc, View)):
        ca, cb = eng.content(a), eng.content(b)
        if isinstance(ca, OC) and isinstance(cb, OC):
            if ca.cls is not cb.cls or set(ca.fields) != set(cb.fields):
                return [z3.BoolVal(False)]
            return [e for k in ca.fields for e in same(eng, ca.fields[k], cb.fields[k])]
        if isinstance(ca, DC) and isinstance(cb, DC) and ca.items is not None and cb.items is not None:
            if list(ca.items) != list(cb.items):
                return [z3.BoolVal(False)]
            return [e for k in ca.items for e in same(eng, ca.items[k], cb.items[k])]
        if isinstance(ca, LC) and isinstance(cb, LC) and ca.items is not None and cb.items is not None:
            if len(ca.items) != len(cb.items):
                return [z3.BoolVal(False)]
            return [e for x, y in zip(ca.items, cb.items) for e in same(eng, x, y)]
        ty = eng.type_of(b)
        out = [eng.lift(a, ty) == eng.lift(b, ty)]
        if isinstance(ca, LC) and (ca.dt is not None or cb.dt is not None):
            out.append(ca.dt == cb.dt if ca.dt is not None and cb.dt is not None else z3.BoolVal(False))
        return out
    if isinstance(a, T) or isinstance(b, T):
        ty = (b if isinstance(b, T) else a).ty
        return [eng.lift(a, ty) == eng.lift(b, ty)]
    return [z3.BoolVal(type(a) is type(b) and a == b)]


@lib('pickle.dump')
def _dump(eng, a, kw):
    obj, f = a[0], a[1]
    sch = pickle_schema(eng)
    c = eng.heap[obj.id]
    if c.cls.full != sch[0]:
        raise Unsupported('pickle of another class')
    eng.libuse.add('pickle: the object read has the contents of the object written')
    m, _ = c.cls.lookup('__getstate__')
    state = eng.heap[eng.call_function(m, [], {}, recv=obj).id].items if m is not None else c.fields
    t = eng.fresh(SAVED, 'pickled')
    o = eng.heap[unpickled(eng, T(t, SAVED), sch).id]
    for k, x in o.fields.items():
        if k not in state:
            raise Unsupported(f'attribute {k} is not pickled')
        es = same(eng, state[k], x)
        for e in es:
            if z3.is_false(e):
                eng.obligation(e, 'pickled state', f'attribute {k}')
            eng.assume(e)
    p = f.attrs['path']
    put(eng, 'saved', p.term, t)
    crash_check(eng)
    return None


@lib('pickle.load')
def _load(eng, a, kw):
    c = eng.content(a[0])
    if not (isinstance(c, LC) and c.term is not None and c.term.decl().name() == 'filelines'):
        raise Unsupported('pickle.load')
    p = c.term.arg(0)
    eng.check(z3.Select(arr(eng, 'exists'), p), 'FileNotFoundError', 'the file exists')
    t = z3.Select(arr(eng, 'saved'), p)
    o = unpickled(eng, T(t, SAVED), pickle_schema(eng))
    if not hasattr(eng, 'origin'):
        eng.origin = {}
    eng.origin[o.id] = (t, reach(eng, o))
    return o


# a database read from a file, as a value: the pickled value, the class of its records, whether it is shuffled
LOADED, REC = OpaqueT('Loaded'), OpaqueT('RecType')


def reach(eng, o):
    """contents reachable from the attributes of an object that iterating it does not read from elsewhere"""
    out, todo = {}, [x for k, x in eng.heap[o.id].fields.items() if k not in ('_rec_type', 'shuffle')]
    while todo:
        x = todo.pop()
        if isinstance(x, Loc) and x.id not in out:
            c = out[x.id] = eng.heap[x.id]
            if isinstance(c, OC):
                todo.extend(c.fields.values())
            elif c.__class__ in (LC, DC) and c.items is not None:
                todo.extend(c.items.values() if isinstance(c, DC) else c.items)
    return {k: x for k, x in eng.heap[o.id].fields.items() if k not in ('_rec_type', 'shuffle')}, out


def origin_of(eng, v):
    og = getattr(eng, 'origin', {}).get(v.id) if isinstance(v, Loc) else None
    if og is None:
        return None
    fs, contents = reach(eng, v)
    if set(fs) != set(og[1][0]) or any(fs[k] is not og[1][0][k] for k in fs) or any(contents.get(k) is not c for k, c in og[1][1].items()):
        return None
    return og[0]


def loaded_fns():
    return TH.fn('loaded.saved', LOADED, SAVED), TH.fn('loaded.rec', LOADED, REC), TH.fn('loaded.shuffle', LOADED, BOOL)


def as_loaded(eng, v):
    t = origin_of(eng, v)
    if t is None:
        return None
    fs = eng.heap[v.id].fields
    f, g, h = loaded_fns()
    if not (isinstance(fs['_rec_type'], T) and fs['_rec_type'].ty is REC):
        return None
    x = eng.fresh(LOADED, 'loaded')
    eng.assume(z3.And(f(x) == t, g(x) == fs['_rec_type'].term, h(x) == eng.lift(fs['shuffle'], BOOL)))
    return T(x, LOADED)


def iter_loaded(eng, v):
    if isinstance(v, T) and v.ty is LOADED:
        f, g, h = loaded_fns()
        o = unpickled(eng, T(f(v.term), SAVED), pickle_schema(eng))
        c = eng.heap[o.id]
        eng.heap[o.id] = OC(c.cls, {**c.fields, '_rec_type': T(g(v.term), REC), 'shuffle': T(h(v.term), BOOL)})
        return eng.iterspec(o)
    return None


L.ITERS.append(iter_loaded)


def nfields():
    f = TH.fn('rec.nfields', REC, INT)
    r = z3.Const('rt!r', TH.sort(REC))
    tr = TH.fn(f'truthy.{REC.name()}', REC, B)(r)
    TH.axiom('rec.truthy', z3.ForAll([r], tr, patterns=[tr]), [f'truthy.{REC.name()}'])
    return f


@lib('namedtuple of names')
def _namedtuple(eng, a, kw):
    eng.libuse.add('a namedtuple of n fields is a tuple of n values')
    r = eng.fresh(REC, 'rectype')
    eng.assume(nfields()(r) == to_int(L.length(eng, a[0])))
    return T(r, REC)


def make_rec(eng, f, a, kw):
    eng.check(nfields()(f.term) == len(a) + len(kw), 'TypeError', 'as many values as fields')
    if kw:
        raise Unsupported('fields of a namedtuple by name')
    return tuple(a)


def json_list(eng, op, a, b):
    """list of texts + JSON list of texts"""
    if op == 'Add' and isinstance(b, T) and b.ty is JSON and isinstance(a, Loc) and isinstance(eng.content(a), LC):
        st = SeqT(STR)
        json_fns()
        of, to = TH.fn('json.of.' + st.name(), st, JSON), TH.fn('json.strlist', JSON, st)
        l = z3.Const('jl!l', TH.sort(st))
        TH.axiom('json.strlist', z3.ForAll([l], to(of(l)) == l, patterns=[of(l)]), [of.name()])
        t = to(b.term)
        eng.check(of(t) == b.term, 'TypeError', 'the JSON value is a list of texts')
        return L.list_concat(eng, a, mk_list(eng, t, st))
    return NotImplemented


BINOPS.append(json_list)


# ---------------------------------------------------------------- specification functions
def spec_field(eng, f, p):
    return get(eng, f, p.term)


def below(eng, q, p):
    return T(path_fns()[4](q.term, p.term), BOOL)


def sp_plain(eng, a):
    return T(path_fns()[3](eng.lift(a, STR)), BOOL)


def sp_json(eng, s):
    return T(json_fns()[1](eng.lift(s, STR)), JSON)


def sp_jsonvalid(eng, s):
    json_fns()
    return T(TH.fn('json.valid', STR, B)(eng.lift(s, STR)), BOOL)


def sp_jint(eng, j):
    json_fns()
    return T(TH.fn('json.toint', JSON, INT)(j.term), INT)


JD = DictT(STR, JSON)


def todict():
    """an object of JSON as a dictionary"""
    json_fns()
    f = TH.fn('json.todict', JSON, JD)
    if 'json.todict.ax' not in _done:
        _done.add('json.todict.ax')
        of = TH.fn('json.of.' + JD.name(), JD, JSON)
        TH.sort(JD)
        d = z3.Const('jd!d', TH.sort(JD))
        j = z3.Const('jd!j', TH.sort(JSON))
        k = z3.Const('jd!k', TH.sort(STR))
        isd, has, gt = TH.fn('json.isdict', JSON, B), TH.fn('json.has', JSON, STR, B), TH.fn('json.get', JSON, STR, JSON)
        TH.axiom('json.todict', z3.ForAll([d], z3.And(isd(of(d)), f(of(d)) == d), patterns=[of(d)]), [of.name()])
    return f


def sp_jdict(eng, j):
    return eng.from_term(todict()(j.term), JD)


def json_items(eng, r, a, kw):
    todict()
    eng.check(TH.fn('json.isdict', JSON, B)(r.term), 'AttributeError', 'JSON value is an object')
    return L.call_method(eng, eng.alloc(DC(ty=JD, term=todict()(r.term))), 'items', [], {})


METHODS[(JSON.name(), 'items')] = json_items

_to_json = libio.to_json


def to_json(eng, v):
    if isinstance(v, (Loc, View)) and isinstance(eng.content(v), DC):
        c = eng.content(v)
        if c.term is not None and c.ty is JD:
            todict()
    return _to_json(eng, v)


libio.to_json = to_json


def names_fns():
    st = SeqT(STR)
    json_fns()
    of, to = TH.fn('json.of.' + st.name(), st, JSON), TH.fn('json.strlist', JSON, st)
    l = z3.Const('jl!l', TH.sort(st))
    TH.axiom('json.strlist', z3.ForAll([l], to(of(l)) == l, patterns=[of(l)]), [of.name()])
    return of, to, st


def sp_jnames(eng, j):
    of, to, st = names_fns()
    return T(to(j.term), st)


def sp_jisnames(eng, j):
    of, to, st = names_fns()
    return T(of(to(j.term)) == j.term, BOOL)


def sp_jisdict(eng, j):
    json_fns()
    return T(TH.fn('json.isdict', JSON, B)(j.term), BOOL)


def sp_jisint(eng, j):
    json_fns()
    return T(TH.fn('json.int', INT, JSON)(TH.fn('json.toint', JSON, INT)(j.term)) == j.term, BOOL)
