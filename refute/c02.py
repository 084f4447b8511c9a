"""C02: longest matching vocabulary entry"""
from common import *

RULE = 'random BPE vocabularies with entries sharing prefixes, random lines; non-trivial: at least one word'


def cases(rng, fixed):
    if fixed:
        ext = lambda *ns: reserved_rows() + [[n, 0, 1, None] for n in ns]
        for names in (['a', 'b', 'c', 'abc'], ['a', 'abcd', 'bc'], ['ab', 'abcde', 'cd'], ['a', 'aa', 'aaaa'], ['abc']):
            for ln in ('abcd', 'abab', 'aaaaaaa', 'abcabc ab', 'aab'):
                yield dict(rows=ext(*names), line=ln)
    while True:
        al = alphabet(rng)
        if rng.random() < .5:
            rows = bpe_rows(rng, al)
        else:       # arbitrary prefixes
            rows, seen = reserved_rows(), set(RES)
            for _ in range(rng.randint(1, 9)):
                n = ''.join(rng.choice(al + [SP]) for _ in range(rng.choice([1, 2, 3, 4, 6])))
                if n not in seen:
                    seen.add(n)
                    rows.append([n, 0, 1, None])
        yield dict(rows=rows, line=line(rng, al))


def check(c):
    s = scheme('bpe', c['rows'])
    text = marked(c['line'])
    want = [UNK if p is None else p for p in greedy([r[0] for r in c['rows']], text)]
    got = s.encode_str(c['line'])
    require(list(got) == want, 'segmentation of', text, got, want)
    require([c['rows'][i][0] for i in s.encode(c['line'])] == want, 'ids', s.encode(c['line']))
    return text != SP
