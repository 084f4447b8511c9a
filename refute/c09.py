"""C09: shrinking a vocabulary"""
from common import *
import shutil

RULE = 'random vocabularies of every scheme, files and minimum frequencies; non-trivial: something was removed and something corpus-based was kept'


def cases(rng, fixed):
    while True:
        al = alphabet(rng)
        kind = rng.choice(['bpe', 'bpe', 'bpe', 'word', 'char', 'class', 'byte'])
        if kind == 'bpe':
            rows = bpe_rows(rng, al, merges=rng.choice([2, 6, 15, 30]))
        elif kind == 'class':
            rows = [[n, 0, 1, None] for n in dict.fromkeys(word(rng, al) for _ in range(5))]
        elif kind == 'byte':
            rows = None
        else:
            rows = flat_rows(rng, al, 2 if kind == 'word' else 0)
        if kind in ('word', 'class'):
            ns = [r[0] for r in rows]
            ls = [[rng.choice(ns) if kind == 'class' else ' '.join(rng.choice(ns + ['zz']) for _ in range(4)) for _ in range(rng.randint(1, 5))] for _ in range(rng.choice([1, 2, 3]))]
        else:
            ls = [[' '.join(words_of(line(rng, al))) for _ in range(rng.choice([0, 1, 5]))] for _ in range(rng.choice([1, 2]))]
        yield dict(kind=kind, rows=rows, files=ls, min_freq=rng.choice([0, 1, 1, 2, 3, 6]))


def check(c):
    from nlcodec.codec import ByteScheme, load_scheme
    from pathlib import Path
    d = scratch()
    try:
        s = ByteScheme() if c['kind'] == 'byte' else scheme(c['kind'], c['rows'])
        old = list(s.table)
        rows = c['rows'] if c['rows'] else [[t.name, t.level, t.freq, None] for t in old]
        fs = []
        freq = [0] * len(rows)
        for i, ls in enumerate(c['files']):
            p = Path(d) / f'f{i}'
            p.write_bytes(''.join(x + '\n' for x in ls).encode())
            fs.append(p)
            for x in ls:
                for t in s.encode(x + '\n'):
                    freq[t] += 1
        keep = [rows[i][1] == -1 or freq[i] >= c['min_freq'] for i in range(len(rows))]
        for i in range(len(rows) - 1, -1, -1):
            if keep[i]:
                for k in rows[i][3] or []:
                    keep[k] = True
        want = [i for i in range(len(rows)) if keep[i]]
        if not want:        # nothing to save
            return False
        out = Path(d) / 'out'
        m = s.shrink_vocab(files=fs, min_freq=c['min_freq'], save_at=out)
        require(list(m) == want, 'kept positions', m, want)
        require(list(s.shrink_vocab(files=fs, min_freq=c['min_freq'])) == want, 'without saving')
        t = load_scheme(out)
        require(type(t) is type(s), 'kind of scheme', type(t))
        require(len(t.table) == len(want), 'size of the saved vocabulary')
        for new, o in enumerate(want):
            a, b = t.table[new], old[o]
            require((a.idx, a.name, a.level, a.freq) == (new, b.name, b.level, b.freq), 'saved type', a, b)
            require([want[k.idx] for k in a.kids or []] == [k.idx for k in b.kids or []], 'parts', a, b)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return len(want) < len(rows) and any(rows[i][1] != -1 for i in want)
