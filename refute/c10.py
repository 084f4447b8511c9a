"""C10: alternative splits never change the text"""
from common import *

RULE = 'random type trees, split ratios and random states; non-trivial: a type with parts'


def cases(rng, fixed):
    while True:
        al = alphabet(rng)
        yield dict(rows=bpe_rows(rng, al, merges=rng.choice([1, 3, 8, 15]), allow_res=rng.random() < .3), line=line(rng, al), seed=rng.randrange(10 ** 6), ratio=rng.choice([0, .01, .1, .5, .9, 1, 1.0, 2]))


def below(rows, i):
    out, st = set(), [i]
    while st:
        j = st.pop()
        out.add(j)
        st += rows[j][3] or []
    return out


def nperm(rows, i):
    return 1 + (nperm(rows, rows[i][3][0]) * nperm(rows, rows[i][3][1]) if rows[i][3] else 0)


def check(c):
    rows = c['rows']
    s = scheme('bpe', rows)
    for i, t in enumerate(s.table):
        sub = below(rows, i)
        if nperm(rows, i) <= 3000:
            for name in (False, True):
                for p in t.get_permutations(name=name):
                    require(''.join(p if name else [rows[k][0] for k in p]) == rows[i][0], 'permutation of', t, p)
                    require(set(p) <= ({rows[k][0] for k in sub} if name else sub), 'foreign type', t, p)
        for name in (False, True):
            for k in range(3):
                random.seed(c['seed'] + k)
                p = t.get_stochastic_split(name=name, split_ratio=c['ratio'])
                require(''.join(p if name else [rows[x][0] for x in p]) == rows[i][0], 'split of', t, p)
                require(set(p) <= ({rows[x][0] for x in sub} if name else sub), 'foreign type', t, p)
    random.seed(c['seed'])
    plain = s.encode(c['line'])
    # names occurring twice may be encoded as another type of the same name
    for _ in range(3):
        ids = s.encode(c['line'], split_ratio=c['ratio'])
        require(s.decode(ids) == s.decode(plain), 'decoded text', s.decode(ids), s.decode(plain))
        ps = s.encode_str(c['line'], split_ratio=c['ratio'])
        require(s.decode_str(ps) == s.decode(plain), 'decoded text', ps)
    return any(r[3] for r in rows)
