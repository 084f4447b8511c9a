"""C06: a learned BPE vocabulary is well formed"""
from common import *

RULE = 'random word-frequency tables or lines, sizes and minimum co-evidence; non-trivial: at least one merge'


def cases(rng, fixed):
    if fixed:
        for words in ({'a': 1}, {'ab': 3}, {'aaaa': 2, 'aaa': 1}, {'ab': 100, 'abab': 7}, {'<unk>': 3, 'a': 1}):
            for extra in (1, 2, 5, 50):
                yield dict(words=words, extra=extra, mce=1, lines=False)
    while True:
        al = alphabet(rng)[:rng.choice([1, 2, 3, 5])]
        ws = {}
        for _ in range(rng.choice([1, 2, 5, 12])):
            ws[word(rng, al, rng.choice([3, 6, 10]))] = rng.choice([1, 1, 2, 3, 7, 40])
        yield dict(words=ws, extra=rng.choice([1, 2, 3, 6, 12, 60]), mce=rng.choice([1, 1, 2, 3, 8, 95]), lines=rng.random() < .4)


def learn(c):
    """the real learner: initial characters counted here, size = initial + extra"""
    from nlcodec.codec import BPEScheme
    words = c['words']
    chars = {ch for w in words for ch in w} - set(RES) | set()
    init = 6 + len(chars)
    size = init + c['extra']
    if c['lines']:
        toks = [w for w, f in words.items() for _ in range(f)]
        random.Random(5).shuffle(toks)
        data = [' '.join(toks[i:i + 4]) for i in range(0, len(toks), 4)]
        return BPEScheme.learn(data, vocab_size=size, min_co_evidence=c['mce'], coverage=1.0), init, size
    data = [f'{w}\t{f}' for w, f in words.items()]
    return BPEScheme.learn(data, vocab_size=size, min_co_evidence=c['mce'], coverage=1.0, term_freqs=True), init, size


def wellformed(vocab, size, mce, chars_upto=None):
    require(len(vocab) <= size, 'more types than requested', len(vocab), size)
    for i, n in enumerate(RES):
        require(vocab[i].name == n and vocab[i].level == -1, 'reserved type', i, vocab[i])
    nmerge = 0
    for i, t in enumerate(vocab):
        require(t.idx == i, 'position', i, t)
        if t.level == 1:
            nmerge += 1
            require(t.kids is not None and len(t.kids) == 2, 'two parts', t)
            for k in t.kids:
                require(0 <= k.idx < i, 'part position', t)
                require(vocab[k.idx].name == k.name, 'part is a type of the vocabulary', t)
            require(t.name == t.kids[0].name + t.kids[1].name, 'name', t)
            require(t.freq >= mce, 'frequency', t, mce)
        else:
            require(not t.kids, 'no parts', t)
            if i >= 6:
                require(nmerge == 0, 'order')
    return nmerge


def check(c):
    vocab, init, size = learn(c)
    n = wellformed(vocab, size, c['mce'])
    require(len(vocab) == init + n, 'initial characters', len(vocab), init, n)
    return n > 0
