"""C08: word and character vocabularies"""
from common import *

RULE = 'random corpora (lines or term frequencies), min_freq, size and coverage; non-trivial: at least one corpus type'


def cases(rng, fixed):
    if fixed:
        for mf in (None, 0, 1, 2, 3):
            for vs in (-1, 0, 6, 7, 8, 20):
                for cov in (0, .5, .9, 1.0):
                    yield dict(kind='word', lines=['a a a b b c', '<unk> <s> a', ''], min_freq=mf, size=vs, coverage=cov, tf=False)
    while True:
        al = alphabet(rng)[:rng.choice([1, 2, 4])]
        ls = [' '.join(word(rng, al, 3) for _ in range(rng.choice([0, 1, 3, 8]))) for _ in range(rng.choice([1, 2, 5, 12]))]
        kind = rng.choice(['word', 'char'])
        if rng.random() < .2:
            ls[0] += ' <unk> ' + rng.choice(['<s>', SP, '<unk>'])
        yield dict(kind=kind, lines=ls, min_freq=rng.choice([0, 1, 2, 3, 5]), size=rng.choice([-1, 0, 6, 7, 8, 9, 10, 15, 50]),
                   coverage=rng.choice([0, 0, .3, .5, .8, .95, .9995, 1.0]), tf=rng.random() < .4)


def check(c):
    from nlcodec.codec import REGISTRY
    S = REGISTRY[c['kind']]
    counts = {}
    for ln in c['lines']:
        ps = words_of(ln) if c['kind'] == 'word' else list(SP.join(words_of(ln)))
        for p in ps:
            counts[p] = counts.get(p, 0) + 1
    data = list(c['lines'])
    if c['tf']:
        data = [f'{t}\t{f}\n' for t, f in counts.items()]
        if any(any(ch.isspace() for ch in t) for t in counts):
            return False
    vocab = S.learn(iter(data), vocab_size=c['size'], min_freq=c['min_freq'], coverage=c['coverage'], term_freqs=c['tf'])
    res = {n: counts.pop(n, 0) for n in RES}
    order = sorted(counts.values(), reverse=True)
    tot = sum(order)
    allowed = {len(order)}
    if c['coverage'] and order:
        allowed, cum = set(), 0
        want = Fraction(c['coverage'])
        for i, f in enumerate(order, 1):
            cum += f
            if abs(Fraction(cum, tot) - want) < Fraction(1, 10 ** 9):
                allowed |= {i, min(i + 1, len(order))}
                if cum == tot:
                    break
                continue
            if Fraction(cum, tot) > want:
                allowed.add(i)
                break
        else:
            allowed.add(len(order))
    mf = c['min_freq'] or 0
    finals = set()
    for k in allowed:
        kept = [f for f in order[:k] if f >= mf]
        if c['size'] > 0:
            kept = kept[:c['size'] - 6]
        finals.add(tuple(kept))
    for i, n in enumerate(RES):
        require(vocab[i].name == n and vocab[i].idx == i and vocab[i].level == -1, 'reserved', vocab[i])
    rest = vocab[6:]
    for i, t in enumerate(vocab):
        require(t.idx == i, 'position', t)
    require(len({t.name for t in vocab}) == len(vocab), 'distinct names')
    for t in rest:
        require(counts.get(t.name) == t.freq, 'exact frequency', t, counts.get(t.name))
        require(t.freq >= mf, 'minimum frequency', t)
        require(t.level == (2 if c['kind'] == 'word' else 0), 'level', t)
    got = tuple(t.freq for t in rest)
    require(list(got) == sorted(got, reverse=True), 'order', got)
    require(got in finals, 'kept types', got, 'expected one of', finals)
    left = sum(counts.values()) - sum(got)
    unk = left + res[UNK]
    require(vocab[1].freq == (unk if unk else -1), 'unknown frequency', vocab[1], unk)
    if c['size'] > 0:
        require(len(vocab) <= c['size'], 'size', len(vocab))
    return bool(counts)
