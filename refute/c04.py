"""C04: byte scheme is lossless"""
from common import *

RULE = 'random strings over all planes incl. control characters, with begin/end tokens inserted between characters; non-trivial: non-empty'
POOL = [chr(i) for i in range(0, 300)] + list('中文字😀🏳\ufeff\u2028\u0301\U0010ffff\ud7ff\ue000') + list('0123456789abcdef<>/s')


def cases(rng, fixed):
    if fixed:
        for i in range(0, 0x180):
            yield dict(text=chr(i), marks=[])
        for t in ('', '<s>', 'a</s>b', '\x00\x01\x0f\x10', 'ab\ncd\t', '\ufeffx', '0f', '😀é'):
            for m in ([], [[0, 256]], [[len(t), 257]], [[0, 256], [0, 257], [len(t), 256]]):
                yield dict(text=t, marks=m)
        for t in ('中' * 25000, 'a' + '中' * 25000, 'é' * 3000 + '\n' * 3 + '😀' * 9000):   # every block size up to some 70000 bytes falls inside a character
            yield dict(text=t, marks=[])
    while True:
        n = rng.choice([1, 2, 3, 5, 9, 30])
        t = ''.join(rng.choice(POOL) if rng.random() < .7 else chr(rng.choice([rng.randrange(0xd800), rng.randrange(0xe000, 0x110000), rng.randrange(0x20)])) for _ in range(n))
        yield dict(text=t, marks=[[rng.randint(0, n), rng.choice([256, 257])] for _ in range(rng.choice([0, 1, 2, 3]))])


SCH = []


def check(c):
    from nlcodec.codec import ByteScheme
    if not SCH:
        SCH.append(ByteScheme())
    s, t = SCH[0], c['text']
    raw = list(t.encode('utf-8'))
    ids, pieces = s.encode(t), s.encode_str(t)
    require(list(ids) == raw, 'ids are the bytes', ids, raw)
    require(len(pieces) == len(raw), 'one piece per byte', pieces)
    require(s.decode(ids) == t, 'decode ids', repr(s.decode(ids)))
    require(s.decode_str(pieces) == t, 'decode pieces', repr(s.decode_str(pieces)))
    seq, names, want = [], [], ''
    for i in range(len(t) + 1):
        for p, m in c['marks']:
            if p == i:
                seq.append(m)
                names.append(['<s>', '</s>'][m - 256])
                want += names[-1]
        if i < len(t):
            b = list(t[i].encode('utf-8'))
            seq += b
            names += s.encode_str(t[i])
            want += t[i]
    require(s.decode(list(seq)) == want, 'marked ids', repr(s.decode(seq)), repr(want))
    require(s.decode_str(list(names)) == want, 'marked pieces', repr(s.decode_str(names)), repr(want))
    return bool(t)
