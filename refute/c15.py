"""C15: a batch is its examples, marked, padded and aligned"""
from common import *

RULE = 'random examples, all marker settings, sorting and layout; non-trivial: rows of different length'


def cases(rng, fixed):
    while True:
        PAD, BOS, EOS = rng.choice([(0, 1, 2), (0, 1, 2), (7, 8, 9), (2, 0, 1), (70000, 1, 65535)])
        st = [rng.random() < .5 for _ in range(4)]     # bos_x, eos_x, bos_y, eos_y
        n = rng.choice([1, 1, 2, 3, 6])
        hasy = rng.random() < .85

        def seq(b, e, tag):
            s = [tag] + [rng.choice([3, 4, 5, 100, 60000, PAD]) for _ in range(rng.choice([0, 1, 2, 5]))] + [3]
            if rng.random() < .15:
                s = [tag]
            if b and rng.random() < .4:
                s = [BOS] + s
            if e and rng.random() < .4:
                s = s + [EOS]
            if b and e and rng.random() < .1:
                s = rng.choice([[BOS], [EOS], [EOS, BOS]])
            return s
        yield dict(ex=[[seq(st[0], st[1], 1000 + i), seq(st[2], st[3], 2000 + i) if hasy else None] for i in range(n)], st=st, sort=rng.random() < .5, first=rng.random() < .6,
                   raw=rng.random() < .3, dt=rng.choice(['uint16', 'int32', 'int64', 'list'] if PAD < 9 else ['int32', 'int64', 'list']), marks=[PAD, BOS, EOS])


def marked_seq(s, b, e, BOS, EOS):
    s = list(s)
    if b and s[0] != BOS:
        s = [BOS] + s
    if e and s[-1] != EOS:
        s = s + [EOS]
    return s


def check(c):
    import numpy as np
    PAD, BOS, EOS = c.get('marks', (0, 1, 2))
    from nlcodec.db.batch import Batch, BatchMeta, IdExample
    mk = (lambda s: list(s)) if c['dt'] == 'list' else (lambda s: np.array(s, dtype=c['dt']))
    exs = []
    for i, (x, y) in enumerate(c['ex']):
        e = IdExample(i, mk(x), mk(y) if y is not None else None)
        if c['raw']:
            e.x_raw, e.y_raw = f'rx{i}', f'ry{i}'
        exs.append(e)
    st = c['st']
    b = Batch(list(exs), sort_dec=c['sort'], batch_first=c['first'],
              meta=BatchMeta(pad_idx=PAD, bos_idx=BOS, eos_idx=EOS, add_bos_x=st[0], add_eos_x=st[1], add_bos_y=st[2], add_eos_y=st[3]))
    X = [marked_seq(x, st[0], st[1], BOS, EOS) for x, _ in c['ex']]
    hasy = c['ex'][0][1] is not None
    Y = [marked_seq(y, st[2], st[3], BOS, EOS) for _, y in c['ex']] if hasy else None
    n = len(X)
    mx, my = max(map(len, X)), max(map(len, Y)) if hasy else 0
    xs, ys = np.asarray(b.x_seqs), np.asarray(b.y_seqs) if hasy else None
    require(xs.shape == ((n, mx) if c['first'] else (mx, n)), 'shape of x', xs.shape)
    xs = [[int(v) for v in r] for r in (xs if c['first'] else xs.T)]
    if hasy:
        require(ys.shape == ((n, my) if c['first'] else (my, n)), 'shape of y', ys.shape)
        ys = [[int(v) for v in r] for r in (ys if c['first'] else ys.T)]
    require(b.has_y == hasy, 'has_y')
    pad = lambda s, m: s + [PAD] * (m - len(s))
    xl = [int(v) for v in b.x_len]
    if not c['sort']:
        order = list(range(n))
    else:
        require(all(xl[i] >= xl[i + 1] for i in range(n - 1)), 'not sorted by length', xl)
        order, left = [], list(range(n))
        for r in range(n):
            k = next((i for i in left if pad(X[i], mx) == xs[r] and len(X[i]) == xl[r] and (not hasy or pad(Y[i], my) == ys[r]) and (not c['raw'] or b.x_raw[r] == f'rx{i}')), None)
            require(k is not None, 'row belongs to no example', r, xs[r], ys[r] if hasy else None)
            left.remove(k)
            order.append(k)
    for r, i in enumerate(order):
        require(xs[r] == pad(X[i], mx), 'x row', r, xs[r], X[i])
        require(xl[r] == len(X[i]), 'x length', r, xl)
        if hasy:
            require(ys[r] == pad(Y[i], my), 'y row', r, ys[r], Y[i])
            require(int(b.y_len[r]) == len(Y[i]), 'y length', r, b.y_len)
        if c['raw']:
            require(b.x_raw[r] == f'rx{i}' and (not hasy or b.y_raw[r] == f'ry{i}'), 'raw text', r)
    require(int(b.x_toks) == sum(map(len, X)) and int(b.max_x_len) == mx and len(b) == n, 'x totals', b.x_toks)
    if hasy:
        require(int(b.y_toks) == sum(map(len, Y)) and int(b.max_y_len) == my, 'y totals', b.y_toks)
    return len({len(x) for x in X}) > 1
