"""C05: a saved vocabulary loads back as the same codec"""


def load(v):
    C = 'nlcodec.codec.Type.'
    v.define('json.str', {'s': 'str'}, 'opq:Json')
    v.specfns['json_str'] = v.specfns['json.str']
    KIDS = 't.kids is not None and len(unwrap(t.kids)) > 0'
    v.define('kidcol', {'t': 'rec:Type'}, 'str', f'" ".join([str(k.idx) for k in unwrap(t.kids)]) if {KIDS} else ""')
    v.define('tline', {'t': 'rec:Type'}, 'str', 'str(t.idx) + "\\t" + t.name + "\\t" + str(t.level) + "\\t" + str(t.freq) + "\\t" + kidcol(t)')
    v.defseq('tlines', {'T': 'TAB'}, 'seq[str]', 'len(T)', 'tline(at(T, i))')
    v.contract(C + 'format', self_ty='rec:Type', params={'delim': "='\\t'"}, returns='str', ensures=['result == tline(self)'])
    # a table: every type at its index, parts at smaller indices, names without separators
    GOOD = 'at(T, i).idx == i and nochar(at(T, i).name, 9) and nochar(at(T, i).name, 10) and implies(at(T, i).kids is not None, len(unwrap(at(T, i).kids)) > 0)'
    GOODK = 'implies(at(T, i).kids is not None and 0 <= j and j < len(unwrap(at(T, i).kids)), 0 <= at(unwrap(at(T, i).kids), j).idx and at(unwrap(at(T, i).kids), j).idx < i and at(T, at(unwrap(at(T, i).kids), j).idx) == at(unwrap(at(T, i).kids), j))'
    v.define('goodtab', {'T': 'TAB'}, 'bool', f'forall(lambda i: implies(0 <= i and i < len(T), {GOOD}), at(T, i)) and forall(lambda i, j: implies(0 <= i and i < len(T), {GOODK}), at(unwrap(at(T, i).kids), j))')
    v.contract(C + 'write_out', label=C + 'write_out/stream', variant=True, self_ty='class:nlcodec.codec.Type', params={'table': 'list[rec:Type]', 'out': 'sink', 'meta': 'items[scheme=str]'}, modifies=['out'],
        requires=['goodtab(table)', 'len(table) > 0'],
        entry='last(table)', opts={'after': {'levels': 'hint(has(levels, at(table, len(table) - 1).level), count([v.level for v in table], at(table, len(table) - 1).level))'}},
        loops={0: dict(inv=['out.text == at_entry(out.text) + broken(tlines(table), _k, "\\n")'])},
        ensures=['exists(lambda j="opq:Json": json_isdict(j) and json_has(j, "scheme") and json_get(j, "scheme") == json_str(old(meta["scheme"])) and out.text == old(out.text) + ("#" + json_dumps(j) + "\\n") + broken(tlines(table), len(table), "\\n"), json_dumps(j))'])
    v.prop('C05', [C + 'format', C + 'write_out/stream'])
    COLS = 'line.strip().split("\\t")'
    HASK = f'(len({COLS}) > 4 and len(at({COLS}, 4)) > 0)'
    KW = f'at({COLS}, 4).split()'
    v.contract(C + 'parse', self_ty='class:nlcodec.codec.Type', params={'line': 'str', 'vocab': 'list[opt[rec:Type]]', 'delim': "='\\t'"}, returns='rec:Type',
        requires=[f'len({COLS}) >= 4', *[f'isint(at({COLS}, {k}))' for k in (0, 2, 3)],
                  f'implies({HASK}, forall(lambda i: implies(0 <= i and i < len({KW}), isint(at({KW}, i)) and 0 <= int(at({KW}, i)) and int(at({KW}, i)) < int(at({COLS}, 0)) and int(at({KW}, i)) < len(vocab) and at(vocab, int(at({KW}, i))) is not None), at({KW}, i)))'],
        ensures=[f'result.idx == int(at({COLS}, 0))', f'result.name == at({COLS}, 1)', f'result.level == int(at({COLS}, 2))', f'result.freq == int(at({COLS}, 3))',
                 f'(result.kids is not None) == {HASK}',
                 f'implies({HASK}, len(unwrap(result.kids)) == len({KW}) and forall(lambda i: implies(0 <= i and i < len({KW}), at(unwrap(result.kids), i) == unwrap(at(vocab, int(at({KW}, i))))), at(unwrap(result.kids), i)))'])
    # what a line of a type says
    v.lemma('join_nochar', {'w': 'seq[str]', 'c': 'int'}, requires=['c != 32', 'forall(lambda i: implies(0 <= i and i < len(w), nochar(at(w, i), c)), at(w, i))'], ensures=['nochar(" ".join(w), c)'],
        decreases='len(w)', body='''
if len(w) > 0:
    last(w)
    use('join_nochar', take(w, len(w) - 1), c)
''')
    v.lemma('tline_ends', {'t': 'rec:Type'}, requires=['nochar(t.name, 9)', 'nochar(t.name, 10)'], ensures=['nochar(tline(t), 10)', 'nochar(kidcol(t), 9)', 'nochar(kidcol(t), 10)'], auto=['tline(t)'], body='''
hint(str(t.idx), str(t.level), str(t.freq))
if t.kids is not None and len(unwrap(t.kids)) > 0:
    use('join_nochar', [str(k.idx) for k in unwrap(t.kids)], 9)
    use('join_nochar', [str(k.idx) for k in unwrap(t.kids)], 10)
''')
    v.prop('C05', [C + 'parse'], ['tline_ends', 'join_nochar'])
    X = 'str(t.idx) + "\\t" + t.name + "\\t" + str(t.level) + "\\t" + str(t.freq)'
    v.define('sline', {'t': 'rec:Type'}, 'str', f'{X} + "\\t" + kidcol(t) if {KIDS} else {X}')
    v.lemma('split_more', {'s': 'str', 't': 'str'}, requires=['nochar(t, 9)'], ensures=['(s + "\\t" + t).split("\\t") == push(val(s.split("\\t")), t)'], body="""
use('split_plain', s + "\\t", t)
ext("" + t, t)
ext(take(push(val(s.split("\\t")), ""), len(s.split("\\t"))), val(s.split("\\t")))
""")
    v.lemma('split_first', {'s': 'str'}, requires=['nochar(s, 9)'], ensures=['s.split("\\t") == push(empty("seq[str]"), s)'], body="""
use('split_plain', "", s)
ext("" + s, s)
ext(s.split("\\t"), push(empty("seq[str]"), s))
""")
    v.lemma('int_words', {'ks': 'TAB', 'i': 'int'}, requires=['0 <= i', 'i < len(ks)'], ensures=['nows(at([str(k.idx) for k in ks], i))', 'len(at([str(k.idx) for k in ks], i)) > 0', 'at([str(k.idx) for k in ks], i) == str(at(ks, i).idx)'], body="hint(str(at(ks, i).idx))")
    K = 'unwrap(t.kids)'
    v.lemma('kidcol_words', {'t': 'rec:Type'}, requires=[KIDS], ensures=['len(kidcol(t)) > 0', 'not is_ws(code(kidcol(t), len(kidcol(t)) - 1))', f'kidcol(t).split() == [str(k.idx) for k in {K}]'], body=f"""
assert forall(lambda i: implies(0 <= i and i < len({K}), len(at([str(k.idx) for k in {K}], i)) > 0 and nows(at([str(k.idx) for k in {K}], i))), at([str(k.idx) for k in {K}], i))
assert forall(lambda i, j: implies(0 <= i and i < len({K}) and 0 <= j and j < len(at([str(k.idx) for k in {K}], i)), not is_ws(code(at([str(k.idx) for k in {K}], i), j))), code(at([str(k.idx) for k in {K}], i), j))
use('words_joined', [str(k.idx) for k in {K}])
use('join_ends', [str(k.idx) for k in {K}])
""")
    v.lemma('sline_cols', {'t': 'rec:Type'}, requires=['nochar(t.name, 9)'],
        ensures=['at(sline(t).split("\\t"), 0) == str(t.idx)', 'at(sline(t).split("\\t"), 1) == t.name', 'at(sline(t).split("\\t"), 2) == str(t.level)', 'at(sline(t).split("\\t"), 3) == str(t.freq)',
                 f'len(sline(t).split("\\t")) == (5 if {KIDS} else 4)', f'implies({KIDS}, at(sline(t).split("\\t"), 4) == kidcol(t))'], body="""
hint(str(t.idx), str(t.level), str(t.freq))
use('split_first', str(t.idx))
use('split_more', str(t.idx), t.name)
use('split_more', str(t.idx) + "\\t" + t.name, str(t.level))
use('split_more', str(t.idx) + "\\t" + t.name + "\\t" + str(t.level), str(t.freq))
if t.kids is not None and len(unwrap(t.kids)) > 0:
    use('join_nochar', [str(k.idx) for k in unwrap(t.kids)], 9)
    use('split_more', str(t.idx) + "\\t" + t.name + "\\t" + str(t.level) + "\\t" + str(t.freq), kidcol(t))
""")
    v.lemma('sline_ends', {'t': 'rec:Type'}, ensures=['len(sline(t)) > 0', 'not is_ws(code(sline(t), 0))', 'not is_ws(code(sline(t), len(sline(t)) - 1))', 'code(sline(t), 0) != 35'], body="""
hint(code(str(t.idx), 0), code(str(t.freq), len(str(t.freq)) - 1))
hint(str(t.idx), str(t.freq))
if t.kids is not None and len(unwrap(t.kids)) > 0:
    use('kidcol_words', t)
    hint(code(kidcol(t), len(kidcol(t)) - 1))
""")
    v.lemma('tline_strip', {'t': 'rec:Type'}, ensures=['(tline(t) + "\\n").strip() == sline(t)', 'sline(t).strip() == sline(t)', 'sline(t).rstrip("\\n") == sline(t)'], body="""
use('sline_ends', t)
if t.kids is not None and len(unwrap(t.kids)) > 0:
    use('strip_tail', sline(t), "\\n")
else:
    use('strip_tail', sline(t), "\\t\\n")
    ext(sline(t) + "\\t\\n", tline(t) + "\\n")
""", auto=['tline(t)'])
    v.prop('C05', [], ['split_more', 'split_first', 'int_words', 'kidcol_words', 'sline_cols', 'sline_ends', 'tline_strip'])
    for lab, h in (('header', 1), ('bare', 0)):
        HEAD = ['json_isdict(j)', 'at(val(inp), 0) == ("#" + json_dumps(j)) + "\\n"'] if h else []
        v.contract(C + 'read_vocab', label=C + 'read_vocab/' + lab, variant=True, self_ty='class:nlcodec.codec.Type', params={'inp': 'iter[str]'}, returns='tup[list[opt[rec:Type]],opt[opq:Json]]',
            ghost={'T': 'TAB', 'j': 'opq:Json'}, opts={'types': {'vocab': 'list[opt[rec:Type]]', 'meta': 'opt[opq:Json]'}, 'after': {'lines': f'''
assert forall(lambda i: implies({h} <= i and i < len(lines), at(lines, i) == sline(at(T, i - {h}))), at(lines, i))
''' + ('''
use('strip_tail', "#" + json_dumps(j), "\\n")
ext(("#" + json_dumps(j))[1:], json_dumps(j))
assert at(lines, 0) == "#" + json_dumps(j)
''' if h else '''
use('sline_ends', at(T, 0))
''')}},
            requires=['goodtab(T)', 'len(T) > 0', f'len(val(inp)) == len(T) + {h}', f'forall(lambda i: implies({h} <= i and i < len(val(inp)), at(val(inp), i) == tline(at(T, i - {h})) + "\\n"), at(val(inp), i))'] + HEAD,
            loops={0: dict(inv=['len(vocab) == len(T)', 'forall(lambda i: implies(0 <= i and i < _k, at(vocab, i) is not None and unwrap(at(vocab, i)) == at(T, i)), at(vocab, i))'], start="""
use('tline_strip', at(T, _k))
use('sline_cols', at(T, _k))
hint(str(at(T, _k).idx), str(at(T, _k).level), str(at(T, _k).freq))
if at(T, _k).kids is not None and len(unwrap(at(T, _k).kids)) > 0:
    use('kidcol_words', at(T, _k))
    assert forall(lambda i: implies(0 <= i and i < len(unwrap(at(T, _k).kids)), at(kidcol(at(T, _k)).split(), i) == str(at(unwrap(at(T, _k).kids), i).idx)), at(kidcol(at(T, _k)).split(), i))
""", end="ext(ret('parse'), at(T, _k))")},
            entry="""
assert forall(lambda i: implies(0 <= i and i < len(T), (tline(at(T, i)) + "\\n").strip() == sline(at(T, i))), at(T, i))
""",
            ensures=['len(result[0]) == len(T)', 'forall(lambda i: implies(0 <= i and i < len(T), at(result[0], i) is not None and unwrap(at(result[0], i)) == at(T, i)), at(result[0], i), at(T, i))', 'result[1] is not None and unwrap(result[1]) == j' if h else 'result[1] is None'])
    v.prop('C05', [C + 'read_vocab/header', C + 'read_vocab/bare'])

    # a scheme and the file it is saved in
    M = 'nlcodec.codec.'
    RESV = ' and '.join(['len(T) >= 6'] + [f'at(T, {i}).name == "{x}"' for i, x in enumerate(['<pad>', '<unk>', '<s>', '</s>', '<cls>', '▁'])])
    DIST = 'forall(lambda i, j: implies(0 <= i and i < j and j < len(T), at(T, i).name != at(T, j).name), (at(T, i), at(T, j)))'
    for cls, nm in (('WordScheme', 'word'), ('CharScheme', 'char'), ('BPEScheme', 'bpe'), ('ClassScheme', 'class')):
        v.contract(M + 'EncoderScheme.save', label=M + f'EncoderScheme.save/{cls}', variant=True, self_ty='obj:' + M + cls, params={'out': 'sink'}, modifies=['out'],
            requires=['goodtab(self.table)', 'len(self.table) > 0'],
            ensures=[f'exists(lambda j="opq:Json": json_isdict(j) and json_has(j, "scheme") and json_get(j, "scheme") == json_str("{nm}") and out.text == old(out.text) + ("#" + json_dumps(j) + "\\n") + broken(tlines(self.table), len(self.table), "\\n"), json_dumps(j))'])
        v.contract(M + 'load_scheme', label=M + f'load_scheme/{cls}', variant=True, params={'path': 'iter[str]'}, returns='obj:' + M + cls, ghost={'T': 'TAB', 'j': 'opq:Json'}, opts={'calls': {C + 'read_vocab': C + 'read_vocab/header'}},
            requires=['goodtab(T)', 'len(T) > 0', 'len(val(path)) == len(T) + 1', 'forall(lambda i: implies(1 <= i and i < len(val(path)), at(val(path), i) == tline(at(T, i - 1)) + "\\n"), at(val(path), i))',
                      'json_isdict(j)', 'at(val(path), 0) == ("#" + json_dumps(j)) + "\\n"', f'json_has(j, "scheme") and json_get(j, "scheme") == json_str("{nm}")']
                      + {'ClassScheme': [DIST], 'BPEScheme': [RESV, 'lastpos(T, len(T), "") == -1', 'tries_ok()']}.get(cls, [RESV, DIST]),
            modifies=['field:TrNode.' + x for x in ('kids', 'idx', 'name', 'data', 'parent', 'alloc', 'path')] if cls == 'BPEScheme' else [],
            ensures=['val(result.table) == T'])
        v.prop('C05', [M + f'EncoderScheme.save/{cls}', M + f'load_scheme/{cls}'])
    # the lines of the saved text are what loading needs
    LT = 'linesof(("#" + json_dumps(j) + "\\n") + broken(tlines(T), len(T), "\\n"))'
    v.lemma('saved_lines', {'T': 'TAB', 'j': 'opq:Json'}, requires=['goodtab(T)', 'json_isdict(j)'],
        ensures=[f'len({LT}) == len(T) + 1', f'at({LT}, 0) == ("#" + json_dumps(j)) + "\\n"', f'forall(lambda i: implies(1 <= i and i < len({LT}), at({LT}, i) == tline(at(T, i - 1)) + "\\n"), at({LT}, i))'], body="""
assert forall(lambda i: implies(0 <= i and i < len(T), nochar(tline(at(T, i)), 10)), at(T, i))
assert nochar("#" + json_dumps(j), 10)
use('broken_lines', "#" + json_dumps(j), tlines(T), len(T))
ext(cat(push(empty("seq[str]"), ("#" + json_dumps(j)) + "\\n"), take(withbreaks(tlines(T)), len(T))), cat(push(empty("seq[str]"), ("#" + json_dumps(j)) + "\\n"), withbreaks(tlines(T))))
""")
    v.prop('C05', [], ['saved_lines', 'broken_lines'], assume=['a text file written and opened again as UTF-8 holds the text that was written, and is read line by line at the line feeds (names have no carriage return or lone surrogate)'],
           not_covered=['opening files by path in Type.write_out and Type.read_vocab (open(), encoding and newline handling; exercised by the bounded search)', 'ByteScheme.__init__ when a byte vocabulary is loaded (C04)'])
