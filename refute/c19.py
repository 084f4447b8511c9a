"""C19: codec quality figures"""
from common import *
import shutil

RULE = 'random vocabularies and lines; merges tracked one by one, also over runs of one symbol; non-trivial: at least one token / one merge'


def cases(rng, fixed):
    if fixed:
        for t in ('aaa', 'aaaa', 'aaaaa aa', 'aab aab', 'abab'):
            yield dict(mode='track', rows=reserved_rows() + [['a', 0, 1, None], ['b', 0, 1, None], ['aa', 1, 1, [6, 6]], ['ab', 1, 1, [6, 7]], ['aaaa', 1, 1, [8, 8]]], lines=[t, 'b'])
    while True:
        al = alphabet(rng)[:3]
        if rng.random() < .5:
            kind = rng.choice(['bpe', 'word', 'char'])
            rows = bpe_rows(rng, al) if kind == 'bpe' else flat_rows(rng, al, 2 if kind == 'word' else 0)
            yield dict(mode='est', kind=kind, rows=rows, lines=[line(rng, al) for _ in range(rng.choice([1, 2, 6]))])
        else:
            rows = bpe_rows(rng, al, merges=rng.choice([0, 1, 2, 4, 8]), user=False, dup=False)
            seen, out = set(), []
            for r in rows:
                if r[3]:
                    if tuple(r[3]) in seen:
                        break
                    seen.add(tuple(r[3]))
                out.append(r)
            yield dict(mode='track', rows=out, lines=[line(rng, al, mx=3) for _ in range(rng.choice([1, 2, 4]))])


def imbalance(counts):
    tot, k = sum(counts), len(counts)
    return sum(abs(Fraction(c, tot) - Fraction(1, k)) for c in counts) / 2


def check(c):
    if c['mode'] == 'est':
        from nlcodec.qestim import QualityEstimator
        s = scheme(c['kind'], c['rows'])
        ids = [s.encode(x) for x in c['lines']]
        flat = [i for x in ids for i in x]
        if not flat:
            return False
        q = QualityEstimator(s).estimate(iter(c['lines']))
        counts = [flat.count(i) for i in range(len(c['rows']))]
        require(q.n_types == len(c['rows']) and q.n_tokens == len(flat), 'totals', q, len(flat))
        require(q.unk_count == counts[1], 'unknown count', q, counts[1])
        require(close(q.mean_seq_len, Fraction(len(flat), len(ids))), 'mean length', q)
        require(close(q.imbalance, imbalance(counts)) and 0 <= q.imbalance <= 1, 'imbalance', q, float(imbalance(counts)))
        return True
    import numpy as np
    from nlcodec.codec import Type
    from nlcodec.eval import bpe_len
    d = scratch()
    real = bpe_len.LnNode
    lists = []

    class Spy(real):
        __slots__ = ()

        @classmethod
        def from_seq(cls, *a, **k):
            r = real.from_seq(*a, **k)
            lists.append(r)
            return r
    try:
        if not any(r[3] for r in c['rows']):
            return False
        nm = sum(1 for r in c['rows'] if r[3])
        for upto in ([nm] if nm == 1 else [1 + len(c['lines']) % nm, nm]):
            rows, k = [], 0
            for r in c['rows']:
                k += bool(r[3])
                if k > upto:
                    break
                rows.append(r)
            p = os.path.join(d, 'v')
            Type.write_out(types(rows), p)
            bpe_len.LnNode = Spy
            del lists[:]
            cod = bpe_len.BPECodecXt(p)
            n0 = cod.vocab_size
            tr = bpe_len.BpeTracker(cod, list(c['lines']))
            bpe_len.LnNode = real
            heads = [x[0] for x in lists]
            require(len(heads) == len(c['lines']), 'one list per line')
            res = tr.track_merges()
            segs = []
            for h, ln in zip(heads, c['lines']):
                s = []
                n = h
                while n:
                    s.append(n.val)
                    n = n.right
                segs.append(s)
                spell = ''.join('\x00' if v == 1 else rows[v][0] for v in s)
                start = [UNK if x is None else x for x in greedy([r[0] for r in rows[:n0]], marked(ln))]
                require(spell == ''.join('\x00' if x == UNK else x for x in start), 're-segmented text', ln, s)
            pairs = {tuple(r[3]) for r in rows if r[3]}
            for s in segs:
                require(not any(x in pairs for x in zip(s, s[1:])), 'pair left unmerged', s)
            flat = [v for s in segs for v in s]
            counts = [flat.count(i) for i in range(len(rows))]
            require([int(x) for x in tr.uni] == counts, 'type counts', tr.uni.tolist(), counts, segs)
            require([int(x) for x in tr.seq_lens] == [len(s) for s in segs], 'lengths', tr.seq_lens.tolist(), segs)
            k, emd, mu = res[-1]
            require(len(res) == upto + 1 and k == len(rows), 'records', res)
            require(close(emd, imbalance(counts)) and 0 <= emd <= 1, 'imbalance', emd, float(imbalance(counts)))
            require(close(mu, Fraction(len(flat), len(segs))), 'mean length', mu)
    finally:
        bpe_len.LnNode = real
        shutil.rmtree(d, ignore_errors=True)
    return True
