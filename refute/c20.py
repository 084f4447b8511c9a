"""C20: streams are coded line by line, in order"""
from common import *
import io
import shutil
import sys
import gzip

RULE = 'random streams through encode, decode, write_lines, encode_parallel, read_as_stream and the command line; non-trivial: at least two lines'


def cases(rng, fixed):
    if fixed:
        rows = reserved_rows() + [['a', 0, 1, None], ['b', 0, 1, None], ['ab', 1, 1, [6, 7]]]
        yield dict(kind='bpe', rows=rows, lines=['ab' * (i % 7) + ' a' * (i % 3) for i in range(2600)], par=3, cli=False)
        for n in (0, 1, 2):
            yield dict(kind='bpe', rows=rows, lines=['ab a', '', 'b'][:n], par=2, cli=True)
    while True:
        al = alphabet(rng)
        kind = rng.choice(['word', 'char', 'bpe', 'class', 'byte'])
        n = rng.choice([0, 1, 2, 5, 12])
        if kind == 'bpe':
            rows = bpe_rows(rng, al)
        elif kind == 'byte':
            rows = None
        elif kind == 'class':
            rows = [[x, 0, 1, None] for x in dict.fromkeys(word(rng, al) for _ in range(4))]
        else:
            rows = flat_rows(rng, al, 2 if kind == 'word' else 0)
        ls = [rng.choice(rows)[0] if kind == 'class' else ' '.join(words_of(line(rng, al))) for _ in range(n)]
        yield dict(kind=kind, rows=rows, lines=ls, par=rng.choice([0, 0, 0, 0, 2, 3]), cli=rng.random() < .15)


def check(c):
    import nlcodec
    from nlcodec.codec import ByteScheme
    from nlcodec.__main__ import write_lines
    from nlcodec import __main__ as M
    from nlcodec.utils import IO
    s = ByteScheme() if c['kind'] == 'byte' else scheme(c['kind'], c['rows'])
    ls = c['lines']
    ids = [s.encode(x) for x in ls]
    pcs = [s.encode_str(x) for x in ls]
    require([list(x) for x in nlcodec.encode(iter(ls), s, indices=True)] == [list(x) for x in ids], 'encode ids')
    require([list(x) for x in nlcodec.encode(iter(ls), s)] == [list(x) for x in pcs], 'encode pieces')
    enc = [' '.join(map(str, x)) for x in ids]
    require(list(nlcodec.decode(iter(enc), s, indices=True)) == [s.decode(x) for x in ids], 'decode ids')
    epc = [' '.join(x) for x in pcs]
    require(list(nlcodec.decode(iter(epc), s)) == [s.decode_str(x.split()) for x in epc], 'decode pieces')
    o = io.StringIO()
    write_lines(iter(epc), o)
    require(o.getvalue() == ''.join(x + '\n' for x in epc), 'written lines')
    if c['par']:
        require([list(x) for x in s.encode_parallel(list(ls), n_cpus=c['par'])] == [list(x) for x in ids], 'parallel encoding')
    d = scratch()
    try:
        k = 0
        ps, want = [], []
        for i in range(3):
            part = ls[i * len(ls) // 3:(i + 1) * len(ls) // 3]
            p = os.path.join(d, f'f{i}' + ('.gz' if i == 1 else ''))
            raw = ''.join(x + '\n' for x in part).encode()     # a carriage return does not end a line
            with (gzip.open if i == 1 else open)(p, 'wb') as f:
                f.write(raw)
            ps.append(p)
            want += part
        ps = ps + ps[:1]
        want = want + ls[:len(ls) // 3]
        for i in (0, 1):
            p = os.path.join(d, f'cr{i}' + ('.gz' if i else ''))
            with (gzip.open if i else open)(p, 'wb') as f:
                f.write(b'a\rb\nc\r\n\nd')
            ps.append(p)
            want = want + ['a\rb', 'c\r', '', 'd']
        got = [x.rstrip('\n') for x in IO.read_as_stream(ps)]
        require(got == want, 'files as one stream', got, want)
        got = [x.rstrip(b'\n').decode() for x in IO.read_as_stream(ps, text=False)]
        require(got == want, 'files as one byte stream', got, want)
        if c['cli'] and c['kind'] != 'byte':
            m, i, o = (os.path.join(d, x) for x in ('m', 'i', 'o'))
            s.save(m)
            for task, idx, src, exp in (('encode', False, ls, epc), ('encode', True, ls, enc), ('decode', True, enc, [s.decode(x) for x in ids]),
                                        ('decode', False, epc, [s.decode_str(x.split()) for x in epc])):
                with open(i, 'w', encoding='utf8', newline='\n') as f:
                    f.write(''.join(x + '\n' for x in src))
                argv, sys.argv = sys.argv, ['nlcodec', task, '-i', i, '-o', o, '-m', m] + (['-idx'] if idx else [])
                try:
                    M.main()
                finally:
                    sys.argv = argv
                import gc
                gc.collect()
                with open(o, encoding='utf8', newline='\n') as f:
                    got = f.read()
                require(got == ''.join(x + '\n' for x in exp), 'command line', task, idx, got, exp)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return len(ls) > 1
