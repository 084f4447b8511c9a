"""C01: BPE encoding loses nothing but whitespace layout"""
from common import *

RULE = 'random BPE vocabularies (reserved, characters, user entries, merges) and lines without the space marker; non-trivial: at least one word'


def cases(rng, fixed):
    if fixed:
        for ln in ('', ' ', 'a', 'ab ab', 'z', 'abz', '\tab\u3000ba \n', '<unk>', '<s>a'):
            yield dict(rows=reserved_rows() + [['a', 0, 1, None], ['b', 0, 1, None], ['ab', 1, 1, [6, 7]], ['ab' + SP, 1, 1, [8, 5]]], line=ln)
    while True:
        al = alphabet(rng)
        yield dict(rows=bpe_rows(rng, al), line=line(rng, al))


def spells(pieces, text):
    """can the pieces spell the text, an unknown token standing for one character (or for its own name)?"""
    at = {0}
    for p in pieces:
        nxt = set()
        for i in at:
            if text.startswith(p, i):
                nxt.add(i + len(p))
            if p == UNK and i < len(text):
                nxt.add(i + 1)
        at = nxt
        if not at:
            return False
    return len(text) in at


def check(c):
    rows, ln = c['rows'], c['line']
    s = scheme('bpe', rows)
    text = marked(ln)
    pieces = s.encode_str(ln)
    ids = s.encode(ln)
    require(spells(pieces, text), 'pieces do not spell the line', pieces, text)
    require(len(ids) == len(pieces), 'ids and pieces', ids, pieces)
    norm = ' '.join(words_of(ln))
    if UNK not in pieces:
        require(''.join(pieces) == text, 'concatenation', pieces)
        require(s.decode_str(pieces) == norm, 'decode pieces', s.decode_str(pieces), norm)
        require(s.decode(ids) == norm, 'decode ids', s.decode(ids), norm)
    return bool(norm)
