"""C17: term-frequency files read back as written"""
from common import *
import io
import shutil

RULE = 'random term-frequency tables with header-like terms, written plain or compressed, with or without line count; non-trivial: at least one term'
ODD = ['#', '#1', '#{', '{', '#{}', '##', '{}', '"', '\\', '#a', '-1', '0', 'é', '😀', '▁', '<unk>', "'", '\x00', '\ufeff', '%', '#\u200b', '\u200b', 'a', 'bb', '\x07']


def cases(rng, fixed):
    if fixed:
        for o in ODD:
            for lc in (None, 0, 7):
                yield dict(tf=[[o, 3]], lc=lc, how='mem', bare=False)
                yield dict(tf=[[o, 3], ['zz', 3]], lc=lc, how='mem', bare=True)
        yield dict(tf=[], lc=5, how='mem', bare=False)
    while True:
        al = alphabet(rng)
        tf = {}
        for _ in range(rng.choice([0, 1, 2, 5, 20])):
            tf[rng.choice(ODD) if rng.random() < .5 else word(rng, al)] = rng.choice([1, 1, 2, 10, 10 ** 12])
        yield dict(tf=[list(x) for x in tf.items()], lc=rng.choice([None, 0, 1, 10 ** 9]), how=rng.choice(['mem', 'plain', 'gz']), bare=rng.random() < .25)


def check(c):
    from nlcodec.term_freq import write_stats
    from nlcodec.codec import WordScheme
    from nlcodec.utils import IO
    tf = {t: f for t, f in c['tf']}
    meta = {} if c['lc'] is None else dict(line_count=c['lc'])
    d = scratch()
    try:
        if c['how'] == 'mem':
            o = io.StringIO()
            write_stats(dict(tf), o, **meta)
            data = o.getvalue().split('\n')
            data = [x + '\n' for x in data[:-1]] + ([data[-1]] if data[-1] else [])
        else:
            p = os.path.join(d, 'x.gz' if c['how'] == 'gz' else 'x.tsv')
            with IO.writer(p) as o:
                write_stats(dict(tf), o, **meta)
            with IO.reader(p) as f:
                data = list(f)
        lc = -1 if c['lc'] is None else c['lc']
        if c['bare']:       # without a header
            data, lc = [f'{t}\t{f}\n' for t, f in tf.items()], -1
        got, n = WordScheme.read_term_freqs(iter(data))
        require(dict(got) == tf, 'terms', dict(got), tf)
        require(n == lc, 'line count', n, lc)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bool(tf)
