"""C14: batches partition the data and respect the limits"""
from common import *
import shutil
from pathlib import Path

RULE = 'random records (some with empty sequences), token and sentence limits, both modes, one or several parts; non-trivial: more than one batch'


def cases(rng, fixed):
    while True:
        n = rng.choice([1, 2, 4, 9, 20])
        lens = [[rng.choice([1, 2, 3, 5, 8, 13]), rng.choice([1, 2, 3, 5, 8])] for _ in range(n)]
        for l in lens:
            if rng.random() < .12:
                l[rng.randrange(2)] = 0
        part = rng.choice([None, None, 1, 2, 5])
        step = part or n
        for i in range(0, n, step):        # every part has a usable record
            if all(min(l) == 0 for l in lens[i:i + step]):
                lens[i] = [rng.randint(1, 6), rng.randint(1, 6)]
        longest = max(max(l) for l in lens if min(l))
        mt = rng.choice([longest, longest + 1, 2 * longest, 3 * longest + 1, 10 * longest, 10 ** 6, max(1, longest - 1), rng.randint(1, 40)])
        yield dict(lens=lens, part=part, max_toks=mt, max_sents=rng.choice([None, None, 1, 2, 3, 7]), mode=rng.choice([None, 'eq_len_rand_batch', 'eq_len_rand_batch']), seed=rng.randrange(10 ** 6), mem=rng.random() < .3)


def check(c):
    import numpy as np
    from nlcodec.db import batch as B
    from nlcodec.db.core import Db, MultipartDb
    d = scratch()
    lens = c['lens']
    random.seed(c['seed'])
    np.random.seed(c['seed'])
    recs = [[[10 + i] * a, [10 + i] * b] for i, (a, b) in enumerate(lens)]
    made = []
    real = B.Batch

    class Spy(real):
        def __init__(self, batch, *a, **k):
            batch = list(batch)
            made.append([(e.id, len(e.x), len(e.y)) for e in batch])
            super().__init__(batch, *a, **k)
    try:
        p = Path(d) / 'db'
        if c['part'] is None:
            Db.create(recs, ['x', 'y'], path=p)
        else:
            MultipartDb.create(p, recs, ['x', 'y'], part_size=c['part'])
        B.Batch = Spy
        meta = B.BatchMeta(pad_idx=0, bos_idx=1, eos_idx=2, add_bos_x=False, add_bos_y=False, add_eos_x=False, add_eos_y=False)
        size = c['max_toks'] if c['max_sents'] is None else (c['max_toks'], c['max_sents'])
        usable = {i for i, l in enumerate(lens) if min(l) > 0}
        over = any(max(lens[i]) > c['max_toks'] for i in usable)
        err = None
        n = 0
        it = B.BatchIterable(p, size, meta, sort_by=c['mode'], keep_in_mem=c['mem'])
        try:
            for b in it:
                n += 1
                require(n < 10 * len(lens) + 10, 'endless')
        except AssertionError:
            raise
        except Exception as x:      # noqa
            err = x
        seen = []
        for b in made:
            require(len(b) > 0, 'empty batch')
            require(c['max_sents'] is None or len(b) <= c['max_sents'], 'too many records', b, c['max_sents'])
            require(len(b) * max(max(x, y) for _, x, y in b) <= c['max_toks'], 'too many tokens', b, c['max_toks'])
            for i, x, y in b:
                require(int(i) in usable, 'record with an empty sequence', i)
                require([x, y] == lens[int(i)], 'lengths of', i, x, y)
                seen.append(int(i))
        require(len(set(seen)) == len(seen), 'record in two batches', seen)
        if over:
            require(err is not None, 'over-long record not reported', seen)
        else:
            require(err is None, 'error', repr(err))
            require(set(seen) == usable, 'records in batches', sorted(seen), sorted(usable))
    finally:
        B.Batch = real
        shutil.rmtree(d, ignore_errors=True)
    return len(made) > 1
