"""C07: each merge picks the most frequent adjacent pair"""
from common import *
import c06

RULE = 'random word-frequency tables with repeated symbols; every merge replayed with directly recomputed pair counts; non-trivial: at least one merge'
CAP = 200


def cases(rng, fixed):
    yield from c06.cases(rng, fixed)


def check(c):
    vocab, init, size = c06.learn(c)
    ids = {t.name: t.idx for t in vocab[:init]}
    start = tuple((tuple(ids.get(ch, 1) for ch in w + SP) if w + SP not in ids else (ids[w + SP],), f) for w, f in c['words'].items())
    states = {start}
    for t in vocab[init:]:
        a, b = (k.idx for k in t.kids)
        ok = []
        for st in states:
            pc = pair_counts(st)
            if pc.get((a, b), 0) == t.freq and max(pc.values(), default=0) == t.freq:
                ok.append(st)
        if not ok:
            st = next(iter(states))
            pc = pair_counts(st)
            best = max(pc.items(), key=lambda x: x[1], default=None)
            require(False, f'merge {t.idx} of {(a, b)} recorded {t.freq}, counted {pc.get((a, b), 0)}, best pair {best}')
        require(t.freq >= c['mce'], 'below the minimum co-evidence', t)
        states = set()
        for st in ok:
            opts = [(merge_choices(s, a, b, t.idx), f) for s, f in st]
            acc = [()]
            for os_, f in opts:
                acc = [x + ((o, f),) for x in acc for o in os_][:CAP + 1]
                if len(acc) > CAP:
                    return False
            states |= set(acc)
            if len(states) > CAP:
                return False
    if len(vocab) < size:
        require(any(max(pair_counts(st).values(), default=0) < c['mce'] for st in states),
                'stopped early although a pair reaches the minimum co-evidence', len(vocab), size)
    return len(vocab) > init
