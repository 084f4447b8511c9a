"""Models (assumed contracts) of byte strings: UTF-8, hexadecimal digits. A bytes object is the sequence of its numbers."""
import z3
from .theory import TH, INT, BOOL, STR, SeqT
from .values import *
from . import lib as L
from .lib import METHODS, HOOKS, lib, as_seq

BT = SeqT(INT)
B = z3.BoolSort()


def byte_range(t):
    i = z3.Int('by!i')
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < TH.len(BT, t)), z3.And(0 <= TH.idx(BT, t, i), TH.idx(BT, t, i) < 256)), patterns=[TH.idx(BT, t, i)])


def utf8():
    """(encode, decode, encodable): UTF-8 encodes character by character and decoding restores every encodable text"""
    if 'utf8' not in TH.decls:
        f, d, ok = TH.fn('utf8', STR, BT), TH.fn('utf8.decode', BT, STR), TH.fn('utf8able', STR, B)
        s, t = z3.Const('u8!s', TH.sort(STR)), z3.Const('u8!t', TH.sort(STR))
        i = z3.Int('u8!i')
        ap = lambda a, b: TH.app(STR, a, b)
        TH.axiom('utf8.inv', z3.ForAll([s], z3.Implies(ok(s), d(f(s)) == s), patterns=[f(s)]), ['utf8'])
        TH.axiom('utf8.cat', z3.ForAll([s, t], f(ap(s, t)) == TH.app(BT, f(s), f(t)), patterns=[f(ap(s, t))]), ['utf8'])
        TH.axiom('utf8.nil', f(TH.empty(STR)) == TH.empty(BT), ['utf8'])
        TH.axiom('utf8.able', z3.And(ok(TH.empty(STR)), z3.ForAll([s, t], z3.Implies(z3.And(ok(s), ok(t)), ok(ap(s, t))), patterns=[ok(ap(s, t))])), ['utf8able'])
        TH.axiom('utf8.range', z3.ForAll([s, i], z3.Implies(z3.And(0 <= i, i < TH.len(BT, f(s))), z3.And(0 <= TH.idx(BT, f(s), i), TH.idx(BT, f(s), i) < 256)), patterns=[TH.idx(BT, f(s), i)]), ['utf8'])
    return TH.decls['utf8'], TH.decls['utf8.decode'], TH.decls['utf8able']


def hexs():
    """(number to its shortest hexadecimal text, back, two digit text, is a hexadecimal text of a byte)"""
    if 'hex' not in TH.decls:
        f, g, p, ok = TH.fn('hex', INT, STR), TH.fn('hex.value', STR, INT), TH.fn('hex.pair', INT, STR), TH.fn('hex.ok', STR, B)
        c, j = z3.Ints('hx!c hx!j')
        rng = z3.And(0 <= c, c < 256)
        ln, ix = TH.fn('len.Str', STR, INT), TH.fn('idx.Str', STR, INT, INT)
        TH.axiom('hex.def', z3.ForAll([c], z3.Implies(rng, z3.And(g(f(c)) == c, ok(f(c)), ln(f(c)) == z3.If(c < 16, 1, 2))), patterns=[f(c)]), ['hex'])
        dig = lambda x: z3.Or(z3.And(48 <= x, x <= 57), z3.And(97 <= x, x <= 102))
        TH.axiom('hex.digits', z3.ForAll([c, j], z3.Implies(z3.And(rng, 0 <= j, j < ln(f(c))), dig(ix(f(c), j))), patterns=[ix(f(c), j)]), ['hex'])
        zero = TH.build(STR, TH.empty(STR), z3.IntVal(48))
        TH.axiom('hex.pair', z3.ForAll([c], z3.Implies(rng, z3.And(p(c) == z3.If(c < 16, TH.app(STR, zero, f(c)), f(c)), ln(p(c)) == 2, g(p(c)) == c, ok(p(c)))), patterns=[p(c)]), ['hex.pair'])
    return tuple(TH.decls[x] for x in ('hex', 'hex.value', 'hex.pair', 'hex.ok'))


def fromhex():
    """bytes.fromhex of two digits per byte"""
    if 'fromhex' not in TH.decls:
        hexs()
        f, ok, p = TH.fn('fromhex', STR, BT), TH.fn('fromhex.ok', STR, B), TH.decls['hex.pair']
        s, c = z3.Const('fh!s', TH.sort(STR)), z3.Int('fh!c')
        TH.axiom('fromhex.nil', f(TH.empty(STR)) == TH.empty(BT), ['fromhex'])
        TH.axiom('fromhex.ok', z3.And(ok(TH.empty(STR)), z3.ForAll([s, c], z3.Implies(z3.And(ok(s), 0 <= c, c < 256), ok(TH.app(STR, s, p(c)))), patterns=[TH.app(STR, s, p(c))])), ['fromhex.ok'])
        sp = TH.app(STR, s, p(c))
        TH.axiom('fromhex.pair', z3.ForAll([s, c], z3.Implies(z3.And(ok(s), 0 <= c, c < 256), f(sp) == TH.build(BT, f(s), c)), patterns=[sp]), ['fromhex'])
    return TH.decls['fromhex'], TH.decls['fromhex.ok']


def is_utf8(eng, enc):
    if isinstance(enc, str):
        if enc.lower().replace('_', '-') in ('utf-8', 'utf8'):
            return
        raise Unsupported(f'encoding {enc}')
    eng.obligation(TH.eq(STR, eng.lift(enc, STR), TH.strlit('utf-8')), 'encoding', 'the encoding is utf-8')


def str_encode(eng, s, a, kw):
    args = dict(zip(('encoding', 'errors'), a), **kw)
    if set(args) - {'encoding', 'errors'}:
        raise Unsupported('str.encode')
    if args.get('errors', 'strict') != 'strict':
        raise Unsupported('str.encode with an error handler')
    is_utf8(eng, args.get('encoding', 'utf-8'))
    eng.libuse.add('str.encode(utf-8): defined character by character, numbers 0..255; UnicodeEncodeError for lone surrogates')
    f, _, ok = utf8()
    t = eng.lift(s, STR)
    eng.check(ok(t), 'UnicodeEncodeError', 'the text can be written as utf-8')
    return T(f(t), BT)


METHODS[('str', 'encode')] = str_encode
HOOKS['str.encode'] = lambda eng, a, kw: str_encode(eng, a[0], a[1:], kw)


def bytes_decode(eng, b, a, kw):
    args = dict(zip(('encoding', 'errors'), a), **kw)
    if set(args) - {'encoding', 'errors'}:
        raise Unsupported('decode')
    is_utf8(eng, args.get('encoding', 'utf-8'))
    eng.libuse.add('decoding utf-8 restores what encoding gave, whatever the error handler')
    f, d, ok = utf8()
    t, ty = as_seq(eng, b, INT)
    if ty is not BT:
        raise Unsupported('decode')
    if args.get('errors', 'strict') not in ('replace', 'ignore', 'backslashreplace') and not (isinstance(args.get('errors'), T)):
        valid = TH.fn('utf8.valid', BT, B)
        s = z3.Const('u8!v', TH.sort(STR))
        TH.axiom('utf8.valid', z3.ForAll([s], z3.Implies(ok(s), valid(f(s))), patterns=[f(s)]), ['utf8.valid'])
        eng.check(valid(t), 'UnicodeDecodeError', 'the bytes are valid utf-8')
    return T(d(t), STR)


METHODS[(BT.name(), 'decode')] = bytes_decode
_old_str = HOOKS['str']


def _str(eng, a, kw):
    if len(a) + len(kw) > 1 and a:
        return bytes_decode(eng, a[0], a[1:], kw)
    return _old_str(eng, a, kw)


HOOKS['str'] = _str


@lib('bytes.fromhex', 'bytearray.fromhex')
def _fromhex(eng, a, kw):
    eng.libuse.add('bytes.fromhex: one byte per two hexadecimal digits')
    f, ok = fromhex()
    t = eng.lift(a[0], STR)
    eng.check(ok(t), 'ValueError', 'the text is hexadecimal digits in pairs')
    return T(f(t), BT)


@lib('bytes', 'bytearray')
def _bytes(eng, a, kw):
    if kw or len(a) != 1:
        raise Unsupported('bytes()')
    it = a[0]
    t, ty = as_seq(eng, it, INT)
    if ty is L.EMPTY_TY:
        return T(TH.empty(BT), BT)
    if ty is not BT:
        raise Unsupported('bytes()')
    eng.libuse.add('bytes(numbers): the numbers, each in 0..255')
    eng.check(byte_range(t), 'ValueError', 'bytes are in 0..255')
    return T(t, BT)


def hexfmt(which):
    def h(eng, a, kw):
        x = a[0]
        if not (isinstance(x, T) and x.ty is INT):
            raise Unsupported('hexadecimal format')
        eng.libuse.add('f"{n:x}", f"{n:02x}" of a number in 0..255: its hexadecimal text, read back by int(text, 16) and bytes.fromhex')
        return T(hexs()[which](x.term), STR)
    return h


HOOKS['format:x'], HOOKS['format:02x'] = hexfmt(0), hexfmt(2)


def zfill(eng, s, a, kw):
    if kw or len(a) != 1 or not isinstance(a[0], int):
        raise Unsupported('zfill')
    eng.libuse.add('str.zfill(n): unchanged when long enough, one "0" in front when one is missing and there is no sign')
    n = a[0]
    t = eng.lift(s, STR)
    ln = TH.len(STR, t)
    c = TH.idx(STR, t, z3.IntVal(0))
    zero = TH.build(STR, TH.empty(STR), z3.IntVal(48))
    z = TH.fn(f'zfill.{n}', STR, STR)
    x = z3.Const('zf!s', TH.sort(STR))
    lx, cx = TH.fn('len.Str', STR, INT)(x), TH.fn('idx.Str', STR, INT, INT)(x, z3.IntVal(0))
    TH.axiom(f'zfill.{n}', z3.ForAll([x], z3.And(z3.Implies(lx >= n, z(x) == x), z3.Implies(z3.And(lx == n - 1, z3.Or(n == 1, z3.And(cx != 43, cx != 45))), z(x) == TH.app(STR, zero, x))), patterns=[z(x)]), [f'zfill.{n}'])
    return T(z(t), STR)


METHODS[('str', 'zfill')] = zfill
_old_int = HOOKS['int']


def _int(eng, a, kw):
    if len(a) == 2 and a[1] == 16 and not kw and isinstance(a[0], T) and a[0].ty is STR:
        f, g, p, ok = hexs()
        eng.libuse.add('f"{n:x}", f"{n:02x}" of a number in 0..255: its hexadecimal text, read back by int(text, 16) and bytes.fromhex')
        eng.check(ok(a[0].term), 'ValueError', 'the text is hexadecimal')
        return T(g(a[0].term), INT)
    if len(a) > 1 or kw:
        raise Unsupported('int() with a base')
    return _old_int(eng, a, kw)


HOOKS['int'] = _int
