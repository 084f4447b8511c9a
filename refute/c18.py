"""C18: n-grams and overlap scores on the real code, against direct counting"""
from common import *
from nlcodec.utils import make_n_grams, make_n_grams_all
from nlcodec.eval import pr_measure

RULE = 'random paired lists of short sequences over small alphabets (items ints or strings), n in 1..4; non-trivial: at least one n-gram'


def cases(rng, fixed):
    if fixed:
        for n in (1, 2, 3):
            yield dict(cands=[[]], refs=[[]], n=n)
            yield dict(cands=[[1, 2, 1, 2, 1]], refs=[[1, 2, 1, 2, 1]], n=n)
            yield dict(cands=[[1, 1, 1], [2]], refs=[[1], [2, 2, 2]], n=n)
            yield dict(cands=[['a', 'b', 'a']], refs=[['b', 'a', 'b', 'a']], n=n)
        yield dict(cands=[], refs=[], n=1)
    while True:
        k = rng.choice([1, 2, 3, 5])
        al = list(range(k)) if rng.random() < .7 else ['a', 'b', '', '▁x', 'cd'][:k]
        m = rng.choice([1, 1, 2, 3, 6])
        mk = lambda: [[rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, 7, 12]))] for _ in range(m)]
        c = mk()
        r = [list(x) for x in c] if rng.random() < .3 else mk()
        if rng.random() < .2:
            rng.shuffle(r)
        yield dict(cands=c, refs=r, n=rng.choice([1, 1, 2, 2, 3, 4]))


def windows(s, n):
    out = []
    i = 0
    while i + n <= len(s):
        out.append(tuple(s[i + j] for j in range(n)))
        i += 1
    return out


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def check(c):
    cands, refs, n = c['cands'], c['refs'], c['n']
    for s in cands + refs:
        keep = list(s)
        g = make_n_grams(s, n)
        require(list(g) == windows(s, n), 'n-grams', s, n, g)
        require(s == keep, 'argument changed')
    all_ = count(w for s in cands for w in windows(s, n))
    got = make_n_grams_all(iter(cands), n)
    require(dict(got) == all_, 'all n-grams', got, all_)
    rec, rf, prec, cf = pr_measure.count_gram_recall([list(x) for x in cands], [list(x) for x in refs], n)
    erf, ecf = count(w for s in refs for w in windows(s, n)), count(w for s in cands for w in windows(s, n))
    require(dict(rf) == erf, 'reference frequencies', dict(rf), erf)
    require(dict(cf) == ecf, 'candidate frequencies', dict(cf), ecf)
    require(set(rec) == set(erf) and set(prec) == set(ecf), 'keys of the scores')
    for d, own, other in ((rec, refs, cands), (prec, cands, refs)):
        for g, v in d.items():
            vals = []
            for a, b in zip(own, other):
                x, y = windows(a, n).count(g), windows(b, n).count(g)
                if x:
                    vals.append(Fraction(min(x, y), x))
            require(0 <= v <= 1, 'score out of range', g, v)
            require(close(v, sum(vals) / len(vals)), 'score', g, v, vals)
            if cands == refs:
                require(v == 1, 'equal data scores 1', g, v)
    for p in list(prec.values())[:5] + [0, 1]:
        for r in list(rec.values())[:5] + [0, 1]:
            f = pr_measure.f1_measure(p, r)
            require(0 <= f <= 1, 'f1 range', p, r, f)
            e = 0 if p + r == 0 else 2 * p * r / (p + r)
            require(close(f, e), 'f1', p, r, f)
    return bool(erf or ecf)
