"""C03: ids and pieces describe the same encoding"""
from common import *

RULE = 'word, char, bpe and class vocabularies, random lines; non-trivial: at least one piece'


def cases(rng, fixed):
    if fixed:
        for kind in ('word', 'char', 'bpe'):
            for ln in ('', 'a', 'a b', ' a\tb ', 'ab <unk> q', SP):
                yield dict(kind=kind, rows=reserved_rows() + [['a', 0, 1, None], ['b', 0, 1, None]], line=ln)
        yield dict(kind='class', rows=[['a b', 0, 1, None], ['x', 0, 1, None], ['', 0, 1, None]], line=' a b ')
        yield dict(kind='class', rows=[['a b', 0, 1, None], ['x', 0, 1, None]], line='x\n')
    while True:
        al = alphabet(rng)
        kind = rng.choice(['word', 'char', 'bpe', 'class'])
        ln = line(rng, al)
        if kind == 'bpe':
            rows = bpe_rows(rng, al)
        elif kind == 'class':
            ns = list(dict.fromkeys(' '.join(words_of(line(rng, al))) for _ in range(rng.randint(1, 5))))
            rows = [[n, 0, 1, None] for n in ns]
            ln = rng.choice(['', ' ', '\t']) + rng.choice(ns) + rng.choice(['', '\n', ' '])
        else:
            rows = flat_rows(rng, al, 2 if kind == 'word' else 0)
            if kind == 'word' and rng.random() < .6:
                ln = rng.choice(WS).join(rng.choice([r[0] for r in rows] + ['zz']) for _ in range(rng.randint(1, 6)))
            if kind == 'char' and rng.random() < .15:
                ln += SP
        yield dict(kind=kind, rows=rows, line=ln)


def check(c):
    kind, rows, ln = c['kind'], c['rows'], c['line']
    s = scheme(kind, rows)
    names = [r[0] for r in rows]
    ids, pieces = s.encode(ln), s.encode_str(ln)
    require(len(ids) == len(pieces), 'one id per piece', ids, pieces)
    for i, p in zip(ids, pieces):
        if p in names:
            require(0 <= i < len(names) and names[i] == p, 'id of a known piece', p, i)
        else:
            require(kind != 'class', 'unknown label')
            require(i == 1, 'id of an unknown piece', p, i)
    require(s.decode(ids) == s.decode_str([names[i] for i in ids]), 'decode ids against names')
    ws = words_of(ln)
    if kind == 'word':
        require(list(pieces) == ws, 'words', pieces)
        want = ' '.join(w if w in names else UNK for w in ws)
        require(s.decode(ids) == want, 'word line', s.decode(ids), want)
    elif kind == 'char':
        text = SP.join(ws)
        require(list(pieces) == list(text), 'characters', pieces)
        if SP not in ln and all(ch in names for ch in text):
            require(s.decode(ids) == ' '.join(ws), 'char line', s.decode(ids), ws)
    elif kind == 'class':
        require(list(pieces) == [ln.strip()] and s.decode(ids) == ln.strip(), 'label', pieces, s.decode(ids))
    else:
        require(all(p in names for p in pieces), 'pieces are names')
    return bool(pieces)
