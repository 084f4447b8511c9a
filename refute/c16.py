"""C16: parallel and tree-shaped reduction equals the sequential result"""
from common import *

RULE = 'input lengths 1..70 with concatenation, max-with-index and addition as reducers, word counting over random lines; non-trivial: at least two items'


def cases(rng, fixed):
    if fixed:
        for n in range(1, 34):
            yield dict(n=n, lines=['a b a', '', 'b'] * (n % 5) + ['x'])
    while True:
        al = alphabet(rng)
        yield dict(n=rng.randint(1, 70), lines=[line(rng, al, mx=8) for _ in range(rng.choice([1, 2, 3, 7, 20]))])


class It:
    """an iterator that can be read only once"""
    def __init__(self, xs):
        self.it = iter(list(xs))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def eager(f, xs):
    return iter([f(x) for x in xs])


def cat(a, b):
    return a + b


def check(c):
    from nlcodec.para.mapred import pair_subsequent, ireduce, MapReduce, WordCounter, merge_freqs, word_count_line
    n = c['n']
    for k in range(n + 1):
        ps = list(pair_subsequent(It(range(k)), default='D'))
        want = [(i, i + 1 if i + 1 < k else 'D') for i in range(0, k, 2)]
        require(ps == want, 'pairs', k, ps)
        if k > 25:
            break
    for pool in (map, eager):
        # free monoid: shows order, loss, duplication and a wrong place of the default
        require(ireduce(cat, '', It(f'<{i}>' for i in range(n)), pool=pool) == ''.join(f'<{i}>' for i in range(n)), 'concatenation', n)
        require(MapReduce(mapper=lambda x: (x,), reducer=cat, default=())(It(range(n)), map_pool=pool, reduce_pool=pool) == tuple(range(n)), 'tuples', n)
        require(MapReduce(mapper=lambda x: x, reducer=lambda a, b: a + b, default=0)(It(range(n)), map_pool=pool, reduce_pool=pool) == n * (n - 1) // 2, 'sum', n)
        require(ireduce(max, float('-inf'), It([((i * 7919) % 101) for i in range(n)]), pool=pool) == max((i * 7919) % 101 for i in range(n)), 'max', n)
        for j in {0, 1, n // 2, n - 1} if n < 40 else {n - 1}:     # a falsy item that is not the default
            if j < n:
                bits = [i != j for i in range(n)]
                require(ireduce(lambda a, b: a and b, True, It(bits), pool=pool) is False, 'conjunction with a False at', j, 'of', n)
                require(ireduce(min, float('inf'), It([0 if i == j else i + 1 for i in range(n)]), pool=pool) == 0, 'minimum with a 0 at', j, 'of', n)
        want = {}
        for ln in c['lines']:
            for w in words_of(ln):
                want[w] = want.get(w, 0) + 1
        wc = WordCounter()
        for _ in range(2):
            got = wc(It(c['lines']), map_pool=pool, reduce_pool=pool)
            require(dict(got) == want, 'word counts', got, want)
            require(wc.default == {} , 'shared default written', wc.default)
    for ln in c['lines'][:3]:
        one = word_count_line(ln)
        e = {}
        for w in words_of(ln):
            e[w] = e.get(w, 0) + 1
        require(dict(one) == e, 'one line', ln, one)
        for other in c['lines'][:3]:
            a, b = word_count_line(ln), word_count_line(other)
            ka, kb = dict(a), dict(b)
            m = dict(merge_freqs(a, b))
            require(m == {k: ka.get(k, 0) + kb.get(k, 0) for k in set(ka) | set(kb)}, 'merge', ka, kb, m)
            dflt = {}
            m = dict(merge_freqs(word_count_line(ln), dflt))
            require(m == ka and dflt == {}, 'merge with the default', ka, m, dflt)
    return n > 1
