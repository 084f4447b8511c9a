"""C11: a record read from a Db is the record stored"""
from common import *
import shutil

RULE = 'random records with values of up to 64 bits, several fields, ids and buffer sizes; non-trivial: at least one value'
EDGE = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1]


def cases(rng, fixed):
    if fixed:
        for x in EDGE:
            for y in (0, 1, -1, 255, 2 ** 31, 2 ** 63 - 1):
                if x >= 2 ** 63 and y < 0 or y >= 2 ** 63 and x < 0:
                    continue
                for buf in (1, 100):
                    yield dict(ids=None, recs=[[[x]], [[y]]], buf=buf, seed=1)
    while True:
        nf = rng.choice([1, 2, 3])
        n = rng.choice([1, 2, 3, 8, 20])
        cols = []
        for _ in range(nf):
            lo, hi = rng.choice([(0, 2 ** 64 - 1), (-2 ** 63, 2 ** 63 - 1), (0, 255), (-128, 127), (-5, 70000), (-1, 2 ** 31), (0, 2 ** 32), (0, 9)])
            vals = [e for e in EDGE if lo <= e <= hi]
            big = rng.random() < .3
            L = lambda: rng.choice([0, 1, 2, 5, 300 if big else 3])
            cols.append([[rng.choice(vals) if rng.random() < .4 else rng.randint(lo, hi) if rng.random() < .3 else rng.randint(max(lo, 0), min(hi, 300)) for _ in range(L())] for _ in range(n)])
        ids = None
        r = rng.random()
        if r < .4:
            ids = rng.sample(range(-5, 10 ** 6), n)
        elif r < .5:
            ids = ['k%d' % i for i in range(n)]
        yield dict(ids=ids, recs=[list(x) for x in zip(*cols)], buf=rng.choice([1, 2, 7, 50, 10 ** 6]), seed=rng.randrange(10 ** 6), dup=rng.random() < .15, np=rng.random() < .3, uneven=rng.random() < .15)


def same(got, want, what):
    got = [int(x) if float(x) == int(x) else x for x in (got.tolist() if hasattr(got, 'tolist') else got)]
    require(got == want, what, got, want)


def check(c):
    from nlcodec.db.core import Db, SeqField
    import numpy as np
    recs, ids = c['recs'], c['ids']
    nf = len(recs[0])
    names = [f'f{i}' for i in range(nf)]
    real = ids if ids is not None else list(range(len(recs)))
    old = SeqField.Builder.BUFFER_SIZE
    d = scratch()
    conv = (lambda x: np.array(x, dtype=np.uint64 if max(x, default=0) >= 2 ** 63 else np.int64)) if c.get('np') else list
    stream = lambda: [[conv(x) for x in r] for r in recs]
    try:
        SeqField.Builder.BUFFER_SIZE = c['buf']
        if ids is None:
            db = Db.create(stream(), names)
        else:
            db = Db.create(list(zip(ids, stream())), names, has_id=True)
        if c.get('dup') and len(recs) > 1:
            bad = list(real)
            bad[-1] = bad[0]
            require(raises(Db.create, list(zip(bad, stream())), names, has_id=True), 'duplicate ids accepted')
        if c.get('uneven') and nf > 1:
            short = list(zip(real, stream()))
            fs = [SeqField.create(names[0], [(i, r[0]) for i, r in short]), SeqField.create(names[1], [(i, r[1]) for i, r in short + [('extra', [[1]] * nf)]])]
            require(raises(Db, fs), 'fields of different record counts accepted')
            short[-1] = (short[-1][0], short[-1][1][:-1])
            require(raises(Db.create, short, names, has_id=True), 'a record with too few fields accepted')
        require(len(db) == len(recs), 'length', len(db))

        def verify(db, what):
            for i, r in zip(real, recs):
                got = db[i]
                require(got.id == i, what, 'id', got.id)
                for nme, want in zip(names, r):
                    same(getattr(got, nme), want, f'{what}: field {nme} of {i}')
                    require(int(db.fields[nme].get_len(i)) == len(want), what, 'get_len', i)
            seen = []
            for got in db:
                seen.append(got.id)
                k = real.index(got.id)
                for nme, want in zip(names, recs[k]):
                    same(getattr(got, nme), want, f'{what}: iterated field {nme} of {got.id}')
            require(len(seen) == len(real) and set(seen) == set(real), what, 'iteration', seen, real)
            for k, nme in enumerate(names):
                f = db.fields[nme]
                for got, want in zip(list(f.values()), recs):
                    same(got, want[k], what + ': values')
                require({a: int(b) for a, b in f.lengths()} == {i: len(r[k]) for i, r in zip(real, recs)}, what, 'lengths')
        verify(db, 'created')
        p = os.path.join(d, 'x.db')
        db.save(p)
        verify(Db.load(p), 'loaded')
        random.seed(c['seed'])
        verify(Db.load(p, shuffle=True), 'loaded shuffled')
        db.shuffle = True
        verify(db, 'shuffled')
    finally:
        SeqField.Builder.BUFFER_SIZE = old
        shutil.rmtree(d, ignore_errors=True)
    return any(x for r in recs for x in r)
