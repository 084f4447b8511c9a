"""C05: a saved vocabulary loads back"""
from common import *
import io
import shutil

RULE = 'tables of every scheme with unusual names (spaces, quotes, digits, #, {, empty, non-BMP), saved and loaded; non-trivial: more than the reserved types'
ODD = ['#', '#{', '#1', '{}', ' ', '  x', 'x ', ' a b ', '', '"', "'", '\\', '\\t', '0', '12 34', '-1', 'é', '😀', 'None', '<x>', '\u00a0', 'a\u00a0', '\ufeff', '\x00', '\x07', '1\u3000', '%', 'a#b', '\u200b', '▁▁']


def cases(rng, fixed):
    while True:
        kind = rng.choice(['word', 'char', 'bpe', 'bpe', 'class', 'byte', 'raw'])
        al = alphabet(rng)
        if kind == 'byte':
            rows = None
        elif kind == 'bpe':
            rows = bpe_rows(rng, al, merges=rng.choice([0, 2, 8, 20]))
            if rng.random() < .5:
                ns = {r[0] for r in rows}
                k = [o for o in rng.sample(ODD, 3) if o and o not in ns]
                rows = rows[:6] + [[o, 0, rng.choice([0, -1, 10 ** 12]), None] for o in k] + [[r[0], r[1], r[2], [x + len(k) if x >= 6 else x for x in r[3]] if r[3] else None] for r in rows[6:]]
        else:
            rows = [] if kind in ('class', 'raw') else flat_rows(rng, al, 2 if kind == 'word' else 0)
            ns = {r[0] for r in rows}
            for o in rng.sample(ODD, rng.randint(1, 6)) + [word(rng, al)]:
                if o not in ns:
                    ns.add(o)
                    rows.append([o, rng.choice([0, 2]) if kind == 'raw' else rows[-1][1] if rows else 0, rng.choice([0, 1, -1, 5, 10 ** 15]), None])
            if kind == 'raw':
                rng.shuffle(rows)
                n = len(rows)
                for _ in range(rng.choice([0, 2])):
                    rows.append(['k' + str(len(rows)), 1, 7, [rng.randrange(n) for _ in range(rng.choice([1, 2, 2, 3]))]])
        yield dict(kind=kind, rows=rows, lines=[line(rng, al) for _ in range(3)], how=rng.choice(['path', 'str']))


def check(c):
    from nlcodec.codec import Type, load_scheme, ByteScheme
    from pathlib import Path
    d = scratch()
    p = os.path.join(d, 'v.model')
    p = Path(p) if c['how'] == 'path' else p
    try:
        if c['kind'] == 'byte':
            s = ByteScheme()
            table = s.table
        else:
            table = types(c['rows'])
            s = None if c['kind'] == 'raw' else scheme(c['kind'], c['rows'])
        if s is None:
            Type.write_out(table, p)
        else:
            s.save(p)
        got, meta = Type.read_vocab(p)
        same_types(got, table)
        with open(p, 'r', encoding='utf8') as f:
            got2, _ = Type.read_vocab(f)
        same_types(got2, table)
        if s is not None:
            t = load_scheme(p)
            require(type(t) is type(s), 'kind of scheme', type(t), type(s))
            same_types(t.table, table)
            for ln in c['lines']:
                if c['kind'] == 'class':
                    ln = c['rows'][0][0]
                require(s.encode_str(ln) == t.encode_str(ln), 'pieces differ', ln)
                a, b = s.encode(ln), t.encode(ln)
                require(a == b, 'ids differ', ln, a, b)
                require(s.decode(a) == t.decode(b), 'text differs', ln)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return c['kind'] == 'byte' or len(c['rows']) > 6
