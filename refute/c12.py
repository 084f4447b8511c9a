"""C12: a multi-part database holds every record exactly once"""
from common import *
import shutil

RULE = 'streams of 1..60 records, part sizes 1..n+1, ids given or generated, shuffled or not, in memory or not; non-trivial: more than one part'


def cases(rng, fixed):
    if fixed:
        for n in (1, 2, 3, 4, 6, 12, 30):
            for size in (1, 2, 3, 4, 6, 40):
                yield dict(n=n, size=size, ids=None, seed=n, nf=1)
        yield dict(n=1013, size=1, ids=None, seed=5, nf=1)
    while True:
        n = rng.choice([1, 2, 3, 5, 10, 11, 25, 60])
        yield dict(n=n, size=rng.choice([1, 2, 3, 5, 10, 11, n, n + 1, max(1, n - 1)]), nf=rng.choice([1, 2, 3]),
                   ids=rng.choice([None, rng.sample(range(10 ** 6), n), ['r%d' % i for i in range(n)]]), seed=rng.randrange(10 ** 6))


def check(c):
    from nlcodec.db.core import MultipartDb
    n, size = c['n'], c['size']
    parts = []
    for p in MultipartDb.slices(iter(range(n)), size):
        parts.append(list(p))
    require([x for p in parts for x in p] == list(range(n)), 'slices are not the stream', parts)
    require(all(len(p) == size for p in parts[:-1]) and 0 < len(parts[-1]) <= size, 'slice sizes', parts)
    require(list(MultipartDb.slices(iter([]), size)) == [], 'slices of nothing')
    rng = random.Random(c['seed'])
    names = ['x', 'y', 'z'][:c['nf']]
    recs = [[[rng.randrange(70000) for _ in range(rng.choice([0, 1, 4]))] for _ in names] for _ in range(n)]
    d = scratch()
    ids = c['ids'] if c['ids'] is not None else list(range(n))
    try:
        path = os.path.join(d, 'db')
        if c['ids'] is None:
            db = MultipartDb.create(path, iter(recs), names, part_size=size)
        else:
            db = MultipartDb.create(path, iter(list(zip(ids, recs))), names, has_id=True, part_size=size)
        require(len(db) == n, 'number of records', len(db), n)
        exp = {i: r for i, r in zip(ids, recs)}
        pf = sorted(x for x in os.listdir(path) if x.startswith('part-') and not x.endswith('.meta'))
        require(len(pf) == -(-n // size), 'number of parts', pf)
        for shuffle in (False, True):
            for mem in (False, True):
                random.seed(c['seed'])
                db = MultipartDb.load(path, keep_in_mem=mem, shuffle=shuffle)
                require(len(db) == n, 'length', len(db))
                for rnd in range(2):
                    seen = []
                    for r in db:
                        seen.append(r.id)
                        require(r.id in exp, 'unknown id', r.id)
                        for nme, want in zip(names, exp[r.id]):
                            require(list(map(int, getattr(r, nme))) == want, 'field', nme, 'of', r.id, getattr(r, nme), want)
                    require(len(seen) == n and set(seen) == set(ids), f'shuffle={shuffle} in memory={mem}: records visited', seen, ids)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return n > size
