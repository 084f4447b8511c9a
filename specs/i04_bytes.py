"""C04: the byte scheme is lossless for every text"""


def load(v):
    M = 'nlcodec.codec.'
    BS = M + 'ByteScheme'
    v.schemas[BS] = {**v.schemas['nlcodec.codec.EncoderScheme'], 'encoding': 'str', 'errors': 'str'}
    # the number of every byte piece
    v.defseq('unhexes', {'ps': 'seq[str]'}, 'seq[int]', 'len(ps)', 'hexval(at(ps, i))')
    v.defseq('hexes', {'bs': 'seq[int]'}, 'seq[str]', 'len(bs)', 'hexs(at(bs, i))')
    v.define('bytepiece', {'p': 'str'}, 'bool', '0 <= hexval(p) and hexval(p) < 256 and p == hexs(hexval(p))')
    v.lemma('fromhex_pairs', {'rs': 'seq[str]', 'ps': 'seq[str]'}, requires=['len(rs) == len(ps)', 'forall(lambda i: implies(0 <= i and i < len(ps), bytepiece(at(ps, i)) and at(rs, i) == hexpair(hexval(at(ps, i)))), at(rs, i), at(ps, i))'],
            ensures=['fromhex_ok("".join(rs))', 'fromhex("".join(rs)) == unhexes(ps)'], decreases='len(rs)', body='''
if len(rs) > 0:
    last(rs)
    last(ps)
    use('fromhex_pairs', take(rs, len(rs) - 1), take(ps, len(ps) - 1))
    hint(hexpair(hexval(at(ps, len(ps) - 1))))
    ext(unhexes(ps), push(unhexes(take(ps, len(ps) - 1)), hexval(at(ps, len(ps) - 1))))
else:
    ext(unhexes(ps), empty("seq[int]"))
    ext(rs, empty("seq[str]"))
''', auto=[('"".join(rs)', 'unhexes(ps)')])
    ENC = ['self.encoding == "utf-8"', 'self.errors == "replace"']
    v.contract(BS + '.compose_str', self_ty='obj:' + BS, params={'pieces': 'list[str]'}, returns='str', entry='hint(unhexes(val(pieces)))',
               requires=[*ENC, 'forall(lambda i: implies(0 <= i and i < len(pieces), bytepiece(at(pieces, i))), at(pieces, i))'], ensures=['result == utf8dec(unhexes(val(pieces)))'])
    v.contract(BS + '.code_to_str', self_ty='class:' + BS, params={'code': 'int'}, returns='str', requires=['0 <= code and code < 256'], ensures=['result == hexs(code)'])
    v.contract(BS + '.encode_str', self_ty='obj:' + BS, params={'line': 'str'}, returns='list[str]', requires=[*ENC, 'utf8able(line)'], ensures=['val(result) == hexes(utf8(line))'])
    v.prop('C04', [BS + '.compose_str', BS + '.code_to_str', BS + '.encode_str'], [])
    # segments: a begin or end marker by name, or a text
    v.type_alias['SEGS'] = 'seq[tuple[bool,str]]'
    v.fold('seg_pieces', {'sg': 'SEGS'}, 'seq[str]', 'empty("seq[str]")', 'cat(seg_pieces(sg), push(empty("seq[str]"), e[1]) if e[0] else hexes(utf8(e[1])))')
    v.fold('seg_text', {'sg': 'SEGS'}, 'str', '""', 'cat(seg_text(sg), e[1])')
    v.define('segs_ok', {'sg': 'SEGS'}, 'bool', 'forall(lambda i: implies(0 <= i and i < len(sg), (at(sg, i)[1] == "<s>" or at(sg, i)[1] == "</s>") if at(sg, i)[0] else utf8able(at(sg, i)[1])), at(sg, i))')
    v.define('marker', {'p': 'str'}, 'bool', 'p == "<s>" or p == "</s>"')
    # what decoding has put out before the pieces that are pending, and those
    v.fold('pendp', {'ps': 'seq[str]'}, 'seq[str]', 'empty("seq[str]")', 'empty("seq[str]") if marker(e) else push(pendp(ps), e)')
    v.define('piece_text', {'ps': 'seq[str]'}, 'str', 'utf8dec(unhexes(ps))')
    v.fold('shown', {'ps': 'seq[str]'}, 'str', '""', 'cat(cat(shown(ps), piece_text(pendp(ps))), e) if marker(e) else shown(ps)')
    v.fold('pendt', {'sg': 'SEGS'}, 'str', '""', '"" if e[0] else cat(pendt(sg), e[1])')
    v.lemma('pieces_pend', {'ps': 'seq[str]', 'qs': 'seq[str]'}, requires=['forall(lambda i: implies(0 <= i and i < len(qs), not marker(at(qs, i))), at(qs, i))'],
            ensures=['pendp(cat(ps, qs)) == cat(pendp(ps), qs)', 'shown(cat(ps, qs)) == shown(ps)'], decreases='len(qs)', body='''
if len(qs) > 0:
    last(qs)
    use('pieces_pend', ps, take(qs, len(qs) - 1))
''', auto=['shown(cat(ps, qs))', 'pendp(cat(ps, qs))'])
    v.lemma('hexes_cat', {'a': 'seq[int]', 'b': 'seq[int]'}, ensures=['hexes(cat(a, b)) == cat(hexes(a), hexes(b))'], body='ext(hexes(cat(a, b)), cat(hexes(a), hexes(b)))', auto=['hexes(cat(a, b))'])
    v.lemma('hexes_plain', {'s': 'str'}, ensures=['forall(lambda i: implies(0 <= i and i < len(utf8(s)), bytepiece(at(hexes(utf8(s)), i)) and not marker(at(hexes(utf8(s)), i))), at(hexes(utf8(s)), i))', 'len(hexes(utf8(s))) == len(utf8(s))'], body='''
hint(len("<s>"), len("</s>"))
''', auto=['hexes(utf8(s))'])
    v.lemma('piece_text_of', {'s': 'str'}, requires=['utf8able(s)'], ensures=['piece_text(hexes(utf8(s))) == s'], body='ext(unhexes(hexes(utf8(s))), utf8(s))', auto=['piece_text(hexes(utf8(s)))'])
    v.lemma('segments', {'sg': 'SEGS'}, requires=['segs_ok(sg)'], ensures=['utf8able(pendt(sg))', 'pendp(seg_pieces(sg)) == hexes(utf8(pendt(sg)))', 'piece_text(pendp(seg_pieces(sg))) == pendt(sg)', 'cat(shown(seg_pieces(sg)), pendt(sg)) == seg_text(sg)'], decreases='len(sg)', body='''
if len(sg) > 0:
    last(sg)
    use('segments', take(sg, len(sg) - 1))
    hint(pendt(sg))
else:
    hint(pendt(sg))
use('piece_text_of', pendt(sg))
''')
    v.prop('C04', [], ['segments'])
    v.lemma('piece_text_none', {'ps': 'seq[str]'}, requires=['len(ps) == 0'], ensures=['piece_text(ps) == ""'], body='''
ext(unhexes(ps), utf8(""))
hint(utf8able(""), utf8dec(utf8("")))
''', auto=['piece_text(ps)'])
    TABLE = ['len(self.table) == 258', 'forall(lambda c: implies(0 <= c and c < 256, at(self.table, c).name == hexs(c) and at(self.table, c).level == 0 and at(self.table, c).idx == c), at(self.table, c))',
             'at(self.table, 256).name == "<s>" and at(self.table, 256).level == -1', 'at(self.table, 257).name == "</s>" and at(self.table, 257).level == -1',
             'names_ok(val(self.table), val(self.idx_to_str), val(self.str_to_idx))']
    # the spelling of a marker is not that of a byte
    v.lemma('markers', {'p': 'str'}, requires=['bytepiece(p)'], ensures=['not marker(p)'], body='hint(len("<s>"), len("</s>"))', auto=['bytepiece(p)'])
    PIECES = lambda s: f'forall(lambda i: implies(0 <= i and i < len({s}), marker(at({s}, i)) or bytepiece(at({s}, i))), at({s}, i))'
    v.contract(BS + '.decode_str', self_ty='obj:' + BS, params={'seq': 'list[str]'}, returns='str', requires=[*ENC, *TABLE, PIECES('seq')], opts={'types': {'builder': 'list[str]', 'buffer': 'list[str]'}},
               loops={0: dict(inv=['"".join(builder) == shown(take(_it0, _k))', 'val(buffer) == pendp(take(_it0, _k))', 'forall(lambda i: implies(0 <= i and i < len(buffer), bytepiece(at(buffer, i))), at(buffer, i))'], start='step(_it0, _k)\nhint(hexs(hexval(at(_it0, _k))), bytepiece(at(_it0, _k)), at(self.table, hexval(at(_it0, _k))), at(self.table, 256), at(self.table, 257))')},
               ensures=['result == cat(shown(val(seq)), piece_text(pendp(val(seq))))', 'forall(lambda sg="SEGS": implies(segs_ok(sg) and seg_pieces(sg) == val(seq), result == seg_text(sg)), seg_pieces(sg))'], exit='hint(piece_text(pendp(val(seq))))\nuseall(lambda sg="SEGS": use("segments", sg), seg_pieces(sg))')
    v.prop('C04', [BS + '.decode_str'])
    # ids: the bytes; 256 and 257 are the markers
    v.fold('seg_ids', {'sg': 'SEGS'}, 'seq[int]', 'empty("seq[int]")', 'cat(seg_ids(sg), push(empty("seq[int]"), 256 if e[1] == "<s>" else 257) if e[0] else utf8(e[1]))')
    v.defseq('idpieces', {'n': 'seq[str]', 'ids': 'seq[int]'}, 'seq[str]', 'len(ids)', 'at(n, at(ids, i))')
    v.lemma('idpieces_cat', {'n': 'seq[str]', 'a': 'seq[int]', 'b': 'seq[int]'}, ensures=['idpieces(n, cat(a, b)) == cat(idpieces(n, a), idpieces(n, b))'], body='ext(idpieces(n, cat(a, b)), cat(idpieces(n, a), idpieces(n, b)))', auto=['idpieces(n, cat(a, b))'])
    v.define('byte_names', {'n': 'seq[str]'}, 'bool', 'len(n) == 258 and forall(lambda c: implies(0 <= c and c < 256, at(n, c) == hexs(c)), at(n, c)) and at(n, 256) == "<s>" and at(n, 257) == "</s>"')
    v.lemma('segment_ids', {'n': 'seq[str]', 'sg': 'SEGS'}, requires=['segs_ok(sg)', 'byte_names(n)'], ensures=['idpieces(n, seg_ids(sg)) == seg_pieces(sg)'], decreases='len(sg)', body="""
if len(sg) > 0:
    last(sg)
    use('segment_ids', n, take(sg, len(sg) - 1))
    if at(sg, len(sg) - 1)[0]:
        ext(idpieces(n, push(empty("seq[int]"), 256)), push(empty("seq[str]"), "<s>"))
        ext(idpieces(n, push(empty("seq[int]"), 257)), push(empty("seq[str]"), "</s>"))
        hint(cat(seg_ids(take(sg, len(sg) - 1)), push(empty("seq[int]"), 256)), cat(seg_ids(take(sg, len(sg) - 1)), push(empty("seq[int]"), 257)))
        use('idpieces_cat', n, seg_ids(take(sg, len(sg) - 1)), push(empty("seq[int]"), 256))
        use('idpieces_cat', n, seg_ids(take(sg, len(sg) - 1)), push(empty("seq[int]"), 257))
    else:
        ext(idpieces(n, utf8(at(sg, len(sg) - 1)[1])), hexes(utf8(at(sg, len(sg) - 1)[1])))
""")
    v.contract(BS + '.encode', self_ty='obj:' + BS, params={'line': 'str'}, returns='list[int]', requires=[*ENC, *TABLE, 'utf8able(line)'],
               entry='assert forall(lambda c: implies(0 <= c and c < 256, at(self.table, c).name == hexs(c) and has(self.str_to_idx, hexs(c)) and get(self.str_to_idx, hexs(c)) == c), hexs(c))', ensures=['val(result) == utf8(line)'])
    v.contract(BS + '.decode', self_ty='obj:' + BS, params={'seq': 'list[int]'}, returns='str', requires=[*ENC, *TABLE, 'forall(lambda i: implies(0 <= i and i < len(seq), 0 <= at(seq, i) and at(seq, i) < 258), at(seq, i))'],
               exit='useall(lambda sg="SEGS": use("segment_ids", val(self.idx_to_str), sg), seg_ids(sg))', entry='assert byte_names(val(self.idx_to_str))\next(val(seq), val(seq))',
               ensures=['forall(lambda sg="SEGS": implies(segs_ok(sg) and seg_ids(sg) == val(seq), result == seg_text(sg)), seg_ids(sg))'])
    v.prop('C04', [BS + '.encode', BS + '.decode'])
    # the fixed table
    CT = ['len(result) == 258', 'forall(lambda c: implies(0 <= c and c < 256, at(result, c).name == hexs(c) and at(result, c).level == 0 and at(result, c).idx == c), at(result, c))',
          'at(result, 256).name == "<s>" and at(result, 256).level == -1 and at(result, 256).idx == 256', 'at(result, 257).name == "</s>" and at(result, 257).level == -1 and at(result, 257).idx == 257']
    v.contract(BS + '.get_init_vocab', self_ty='class:' + BS, params={}, returns='list[rec:Type]', opts={'symrange': 16}, ensures=CT)
    ESC = M + 'EncoderScheme.__init__'
    v.contract(ESC, label=ESC + '/bytes', variant=True, self_ty='obj:' + BS, params={'table': 'list[rec:Type]', 'has_reserved': '=False', 'invertible': '=True'},
            requires=['forall(lambda i, j: implies(0 <= i and i < j and j < len(table), at(table, i).name != at(table, j).name), (at(table, i), at(table, j)))'], modifies=['self.vocab_size', 'self.table', 'self.idx_to_str', 'self.str_to_idx', 'self.invertible'],
            ensures=['names_ok(val(self.table), val(self.idx_to_str), val(self.str_to_idx))', 'self.table == table', 'self.vocab_size == len(table)'])
    v.contract(BS + '.__init__', self_ty='obj:' + BS, params={'table': '=None', 'encoding': '="utf-8"', 'errors': '="replace"'}, label=BS + '.__init__/fixed', variant=True,
               modifies=['self.vocab_size', 'self.table', 'self.idx_to_str', 'self.str_to_idx', 'self.invertible', 'self.encoding', 'self.errors'], opts={'calls': {ESC: ESC + '/bytes'}}, ensures=[*ENC, *TABLE, 'self.vocab_size == 258'])
    v.prop('C04', [ESC + '/bytes', BS + '.get_init_vocab', BS + '.__init__/fixed'])
    v.prop('C04', [], assume=['UTF-8 as described by the Unicode standard: characters are encoded independently and decoding restores them', 'a text that can be written as UTF-8 has no lone surrogates'],
           not_covered=['a byte scheme given another table, encoding or error handler than the defaults (load_scheme passes the stored table: C05)'])
