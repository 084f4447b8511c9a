"""Generators and oracles shared by the replay searches. Oracles never call the code under test."""
import os
import random
import tempfile
from fractions import Fraction

os.environ.setdefault('NLCODEC_THREADS', '2')
SP = '▁'
RES = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', SP]
UNK = '<unk>'
WS = [' ', ' ', ' ', '  ', '\t', '\n', '\u00a0', '\u3000', '\x0b', '\x85', '\u2003']


def require(c, *msg):
    if not c:
        raise AssertionError(' '.join(str(m)[:1200] for m in msg))


def close(a, b, eps=1e-6):
    return abs(float(a) - float(b)) <= eps * max(1.0, abs(float(a)), abs(float(b)))


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:       # noqa
        return True
    return False


def words_of(line):
    """words of a line, without str.split"""
    out, cur = [], ''
    for ch in line:
        if ch.isspace():
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


ALPH = ['ab', 'abc', 'abcd', 'aé中', 'ab😀', 'a#1', 'x<>s/', '.-,a', 'aA', 'ab\u0301', 'unk<>', 'pad<s>']


def alphabet(rng):
    return list(dict.fromkeys(rng.choice(ALPH)))


def word(rng, al, mx=9):
    r = rng.random()
    if r < .15:
        return rng.choice(al) * rng.randint(1, mx)
    if r < .25:
        return rng.choice(['<unk>', '<s>', '</s>', '<pad>', '<cls>', '<', 's>', 'k>']) + rng.choice(['', rng.choice(al)])
    return ''.join(rng.choice(al) for _ in range(rng.randint(1, mx)))


def line(rng, al, extra='zQ', mx=6):
    al = al + (list(extra) if rng.random() < .5 else [])
    s = rng.choice(['', '', ' ', '\t', '\u3000'])
    for _ in range(rng.choice([0, 1, 1, 2, 3, mx])):
        s += word(rng, al) + rng.choice(WS)
    if s and rng.random() < .5:
        s = s[:-1]
    return s


def reserved_rows():
    return [[n, -1, -1, None] for n in RES]


def bpe_rows(rng, al, merges=None, user=True, dup=True, allow_res=False):
    """rows [name, level, freq, kids] of a BPE vocabulary"""
    rows = reserved_rows()
    for ch in al:
        if rng.random() < .93:
            rows.append([ch, 0, rng.randint(0, 50), None])
    seen = {r[0] for r in rows}
    if user and rng.random() < .3:
        for _ in range(rng.randint(1, 3)):
            n = word(rng, al, 4) + rng.choice(['', SP])
            if n not in seen:
                seen.add(n)
                rows.append([n, 0, 0, None])
    k = rng.choice([0, 1, 3, 6, 12, 25]) if merges is None else merges
    for _ in range(k):
        pool = list(range(5 if not allow_res else 0, len(rows)))
        i, j = rng.choice(pool), rng.choice(pool)
        if rng.random() < .5:
            i = pool[-1]
        if rng.random() < .25:
            j = 5
        n = rows[i][0] + rows[j][0]
        if n in seen and not (dup and rng.random() < .2):
            continue
        if len(n) > 40:
            continue
        seen.add(n)
        rows.append([n, 1, rng.randint(1, 99), [i, j]])
    return rows


def flat_rows(rng, al, level):
    rows = reserved_rows()
    seen = {r[0] for r in rows}
    for _ in range(rng.choice([0, 1, 3, 8])):
        n = word(rng, al) if level else rng.choice(al)
        if n not in seen:
            seen.add(n)
            rows.append([n, level, rng.randint(0, 99), None])
    return rows


def types(rows):
    from nlcodec.codec import Type
    out = []
    for i, (n, lv, f, k) in enumerate(rows):
        out.append(Type(n, level=lv, idx=i, freq=f, kids=tuple(out[x] for x in k) if k else None))
    return out


def scheme(kind, rows):
    from nlcodec.codec import REGISTRY
    return REGISTRY[kind](table=types(rows))


def greedy(names, seq):
    """pieces of the longest-match segmentation: None stands for one unknown character"""
    ns = set(names)
    mx = max(map(len, ns))
    out, i = [], 0
    while i < len(seq):
        for k in range(min(mx, len(seq) - i), 0, -1):
            if seq[i:i + k] in ns:
                out.append(seq[i:i + k])
                i += k
                break
        else:
            out.append(None)
            i += 1
    return out


def marked(line):
    return ''.join(w + SP for w in words_of(line)) or SP


def scratch():
    return tempfile.mkdtemp()


def same_types(got, want):
    """field by field; parts as positions"""
    require(len(got) == len(want), 'number of types', len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        ka = [k.idx for k in a.kids] if a.kids else []
        kb = [k.idx for k in b.kids] if b.kids else []
        require((a.idx, a.name, a.level, a.freq, ka) == (b.idx, b.name, b.level, b.freq, kb), 'type differs at', i, a, b)
        require(a.idx == i, 'position', i, a)
        for x, y in zip(a.kids or [], b.kids or []):
            require(x.name == y.name and x.level == y.level and x.freq == y.freq, 'part differs', x, y)
            require(got[x.idx].name == x.name, 'part is not the type at its position', x)


# ---------------------------------------------------------------- pair merging oracle

def merge_choices(seq, a, b, r, cap=64):
    """every result of replacing non-overlapping adjacent (a, b) by r until none is left"""
    if a != b:
        out, i = [], 0
        while i < len(seq):
            if i + 1 < len(seq) and seq[i] == a and seq[i + 1] == b:
                out.append(r)
                i += 2
            else:
                out.append(seq[i])
                i += 1
        return [tuple(out)]
    res = set()

    def go(i, acc, prev_free):
        # prev_free: the previous symbol is an unmerged a
        if len(res) > cap:
            return
        if i >= len(seq):
            res.add(tuple(acc))
            return
        if seq[i] != a:
            go(i + 1, acc + [seq[i]], False)
            return
        if i + 1 < len(seq) and seq[i + 1] == a:
            go(i + 2, acc + [r], False)
        if not prev_free and not (i + 1 < len(seq) and seq[i + 1] == a and False):
            go(i + 1, acc + [a], True)
    go(0, [], False)
    return sorted(x for x in res if all(not (x[i] == a and x[i + 1] == a) for i in range(len(x) - 1)))


def pair_counts(corpus):
    d = {}
    for s, f in corpus:
        for p in zip(s, s[1:]):
            d[p] = d.get(p, 0) + f
    return d
