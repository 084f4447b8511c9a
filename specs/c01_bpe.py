"""C01, C02: BPE segmentation. C03: ids and pieces"""

UNK = '<unk>'
RES = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', '▁']


def load(v):
    v.type_alias['VOC'] = 'dict[str,int]'
    # ---- the longest vocabulary entry that is a prefix of s (0: none), and the greedy segmentation
    v.define('lng', {'D': 'VOC', 's': 'str', 'n': 'int'}, 'int', '0 if n <= 0 else (n if has(D, take(s, n)) else lng(D, s, n - 1))', rec=True)
    v.define('longest', {'D': 'VOC', 's': 'str'}, 'int', 'lng(D, s, len(s))')
    v.define('pieces', {'D': 'VOC', 's': 'str', 'u': 'str'}, 'seq[str]',
             'empty("seq[str]") if len(s) == 0 else cat(push(empty("seq[str]"), take(s, longest(D, s)) if longest(D, s) > 0 else u), pieces(D, drop(s, longest(D, s) if longest(D, s) > 0 else 1), u))', rec=True)

    v.lemma('lng_props', {'D': 'VOC', 's': 'str', 'n': 'int'},
            ensures=['0 <= lng(D, s, n) and lng(D, s, n) <= (n if n >= 0 else 0)', 'implies(lng(D, s, n) > 0, has(D, take(s, lng(D, s, n))))',
                     'forall(lambda m: implies(lng(D, s, n) < m and m <= n, not has(D, take(s, m))), has(D, take(s, m)), take(s, m))'],
            decreases='n if n >= 0 else 0', body='''
if n > 0:
    use('lng_props', D, s, n - 1)
''', auto=['lng(D, s, n)'])
    v.lemma('lng_is', {'D': 'VOC', 's': 'str', 'L': 'int'},
            requires=['0 <= L', 'L <= len(s)', 'L == 0 or has(D, take(s, L))', 'forall(lambda m: implies(L < m and m <= len(s), not has(D, take(s, m))), take(s, m))'],
            ensures=['longest(D, s) == L'], body='''
hint(take(s, longest(D, s)), take(s, L))
''')
    v.lemma('longest_props', {'D': 'VOC', 's': 'str'},
            ensures=['0 <= longest(D, s) and longest(D, s) <= len(s)', 'implies(longest(D, s) > 0, has(D, take(s, longest(D, s))))',
                     'forall(lambda m: implies(longest(D, s) < m and m <= len(s), not has(D, take(s, m))), has(D, take(s, m)), take(s, m))'],
            auto=['longest(D, s)'])

    # ---- trie walks
    v.lemma('walk_snoc', {'K': 'KIDS', 'A': 'NODES', 'P': 'PATHS', 'r': 'ref:TrNode', 's': 'str', 'i': 'int'},
            requires=['trieok(K, A, P)', 'sel(A, r)', '0 <= i', 'i < len(s)'],
            ensures=['walk(K, r, take(s, i + 1)) == (get(sel(K, walk(K, r, take(s, i))), sub(s, i, i + 1)) if walk(K, r, take(s, i)) != null("TrNode") and has(sel(K, walk(K, r, take(s, i))), sub(s, i, i + 1)) else null("TrNode"))'],
            decreases='i', body='''
ext(drop(take(s, i + 1), 1), take(drop(s, 1), i))
ext(take(take(s, i + 1), 1), take(s, 1))
if i > 0:
    ext(drop(take(s, i), 1), take(drop(s, 1), i - 1))
    ext(take(take(s, i), 1), take(s, 1))
    ext(sub(drop(s, 1), i - 1, i), sub(s, i, i + 1))
    if has(sel(K, r), take(s, 1)):
        use('walk_snoc', K, A, P, get(sel(K, r), take(s, 1)), drop(s, 1), i - 1)
else:
    ext(sub(s, 0, 1), take(s, 1))
''')
    v.lemma('walk_dead', {'K': 'KIDS', 'A': 'NODES', 'P': 'PATHS', 'r': 'ref:TrNode', 's': 'str', 'i': 'int', 'j': 'int'},
            requires=['trieok(K, A, P)', 'sel(A, r)', '0 <= i', 'i <= j', 'j <= len(s)', 'walk(K, r, take(s, i)) == null("TrNode")'],
            ensures=['walk(K, r, take(s, j)) == null("TrNode")'],
            decreases='j', body='''
if j > i:
    use('walk_dead', K, A, P, r, s, i, j - 1)
    use('walk_snoc', K, A, P, r, s, j - 1)
''')
    v.lemma('walk_stays_new', {'K': 'KIDS', 'K2': 'KIDS', 'A': 'NODES', 'A2': 'NODES', 'r': 'ref:TrNode', 's': 'str'},
            requires=['addsnew(K, K2, A, A2)', 'sel(A2, r)', 'not sel(A, r)', 'not sel(A, null("TrNode"))'],
            ensures=['not sel(A, walk(K2, r, s))'], decreases='len(s)', body='''
if len(s) > 0:
    if has(sel(K2, r), take(s, 1)):
        use('walk_stays_new', K, K2, A, A2, get(sel(K2, r), take(s, 1)), drop(s, 1))
''')
    v.lemma('walk_old', {'K': 'KIDS', 'K2': 'KIDS', 'A': 'NODES', 'A2': 'NODES', 'P': 'PATHS', 'r': 'ref:TrNode', 's': 'str'},
            requires=['trieok(K, A, P)', 'addsnew(K, K2, A, A2)', 'sel(A, r)', 'sel(A2, r)', 'sel(A, walk(K2, r, s))'],
            ensures=['walk(K, r, s) == walk(K2, r, s)'], decreases='len(s)', body='''
if len(s) > 0:
    if has(sel(K2, r), take(s, 1)):
        if sel(A, get(sel(K2, r), take(s, 1))):
            use('walk_old', K, K2, A, A2, P, get(sel(K2, r), take(s, 1)), drop(s, 1))
        else:
            use('walk_stays_new', K, K2, A, A2, get(sel(K2, r), take(s, 1)), drop(s, 1))
''')
    # ---- the trie of a vocabulary
    v.define('lastpos', {'t': 'TAB', 'k': 'int', 's': 'str'}, 'int', '-1 if k <= 0 else (k - 1 if at(t, k - 1).name == s else lastpos(t, k - 1, s))', rec=True)
    v.lemma('lastpos_props', {'t': 'TAB', 'k': 'int', 's': 'str'},
            ensures=['-1 <= lastpos(t, k, s)', 'implies(k >= 0, lastpos(t, k, s) < k)', 'implies(lastpos(t, k, s) >= 0, at(t, lastpos(t, k, s)).name == s)',
                     'forall(lambda j: implies(0 <= j and j < k and at(t, j).name == s, j <= lastpos(t, k, s)), at(t, j))'],
            decreases='k if k >= 0 else 0', body='''
if k > 0:
    use('lastpos_props', t, k - 1, s)
''', auto=['lastpos(t, k, s)'])
    # root leads to a node with data exactly for the names of the first k types, the data being the last such type
    v.define('trie_upto', {'K': 'KIDS', 'A': 'NODES', 'X': 'arr[ref:TrNode,opt[rec:Type]]', 'r': 'ref:TrNode', 't': 'TAB', 'k': 'int'}, 'bool',
             '''forall(lambda s="str": (walk(K, r, s) != null("TrNode") and sel(X, walk(K, r, s)) is not None) == (lastpos(t, k, s) >= 0), walk(K, r, s), lastpos(t, k, s))
                and forall(lambda s="str": implies(lastpos(t, k, s) >= 0, unwrap(sel(X, walk(K, r, s))) == at(t, lastpos(t, k, s))), walk(K, r, s), lastpos(t, k, s))''')
    v.lemma('trie_step', {'K': 'KIDS', 'K2': 'KIDS', 'A': 'NODES', 'A2': 'NODES', 'P': 'PATHS', 'P2': 'PATHS', 'X': 'arr[ref:TrNode,opt[rec:Type]]', 'X2': 'arr[ref:TrNode,opt[rec:Type]]', 'r': 'ref:TrNode', 't': 'TAB', 'k': 'int', 'd': 'ref:TrNode'},
            requires=['trieok(K, A, P)', 'trieok(K2, A2, P2)', 'grows(K, K2, A)', 'addsnew(K, K2, A, A2)', 'sel(A, r)', 'sel(A2, r)', 'trie_upto(K, A, X, r, t, k)', '0 <= k',
                      'd == walk(K2, r, at(t, k).name)', 'd != null("TrNode")', 'sel(X2, d) is not None', 'unwrap(sel(X2, d)) == at(t, k)',
                      'forall(lambda n="ref:TrNode": implies(n != d and sel(A, n), sel(X2, n) == sel(X, n)), sel(X2, n))',
                      'forall(lambda n="ref:TrNode": implies(n != d and sel(A2, n) and not sel(A, n), sel(X2, n) is None), sel(X2, n))'],
            ensures=['trie_upto(K2, A2, X2, r, t, k + 1)'], body='''
useall(lambda s="str": use('walk_old', K, K2, A, A2, P, r, s), walk(K2, r, s))
useall(lambda s="str": use('walk_grows', K, K2, A, P, r, s), walk(K2, r, s))
useall(lambda s="str": use('walk_inj', K2, A2, P2, r, s, at(t, k).name), walk(K2, r, s))
useall(lambda s="str": use('walk_path', K2, A2, P2, r, s), walk(K2, r, s))
useall(lambda s="str": use('walk_path', K, A, P, r, s), walk(K, r, s))
''')
    H = 'field("TrNode", "kids"), field("TrNode", "alloc"), field("TrNode", "data")'
    v.contract('nlcodec.codec.BPEScheme.make_vocab_prefix_trie', self_ty='class:nlcodec.codec.BPEScheme',
        params={'vocab': 'list[rec:Type]'}, returns='ref:TrNode',
        requires=['tries_ok()'],
        raises={'AssertionError': 'lastpos(vocab, len(vocab), "") >= 0'},
        modifies=['field:TrNode.' + x for x in ('kids', 'idx', 'name', 'data', 'parent', 'alloc', 'path')],
        loops={0: dict(inv=['tries_ok()', 'allocated(root)', 'not old(allocated(root))', f'trie_upto({H}, root, vocab, _k)', 'root.path == ""'], end='''
use('trie_step', at_head(field("TrNode", "kids")), field("TrNode", "kids"), at_head(field("TrNode", "alloc")), field("TrNode", "alloc"), at_head(field("TrNode", "path")), field("TrNode", "path"), at_head(field("TrNode", "data")), field("TrNode", "data"), root, vocab, _k, lookup(root, at(vocab, _k).name))
''')},
        ensures=['tries_ok()', 'allocated(result)', f'trie_upto({H}, result, vocab, len(vocab))'])
    # ---- encoding
    v.lemma('cat_push', {'a': 'seq[str]', 'x': 'str', 'p': 'seq[str]'}, ensures=['cat(push(a, x), p) == cat(a, cat(push(empty("seq[str]"), x), p))'],
            body='ext(cat(push(a, x), p), cat(a, cat(push(empty("seq[str]"), x), p)))')
    v.define('marked', {'line': 'str'}, 'str', '"▁".join(line.split()) + "▁"')
    v.define('spaced', {'line': 'str'}, 'str', '" ".join(line.split())')
    KAP = 'field("TrNode", "kids"), field("TrNode", "alloc"), field("TrNode", "path")'
    v.define('names_ok', {'t': 'TAB', 'n': 'seq[str]', 'D': 'VOC'}, 'bool',
             '''len(n) == len(t)
                and forall(lambda i: implies(0 <= i and i < len(t), at(n, i) == at(t, i).name), at(n, i), at(t, i))
                and forall(lambda s="str": has(D, s) == (lastpos(t, len(t), s) >= 0), has(D, s), lastpos(t, len(t), s))
                and forall(lambda s="str": implies(has(D, s), 0 <= get(D, s) and get(D, s) < len(t) and at(t, get(D, s)).name == s), has(D, s), get(D, s))''')
    v.define('table_ok', {'t': 'TAB', 'n': 'seq[str]', 'D': 'VOC', 'u': 'int'}, 'bool',
             '''0 <= u and u < len(t) and at(t, u).name == "<unk>" and names_ok(t, n, D)''')
    v.define('indexed', {'t': 'TAB'}, 'bool', 'forall(lambda i: implies(0 <= i and i < len(t), at(t, i).idx == i), at(t, i))')
    v.define('scheme_ok', {}, 'bool', 'table_ok(val(self.table), val(self.idx_to_str), val(self.str_to_idx), self.unk_idx)', inline=True)
    v.define('class_ok', {}, 'bool', 'names_ok(val(self.table), val(self.idx_to_str), val(self.str_to_idx)) and self.unk_idx == -1', inline=True)
    v.define('bpe_ok', {}, 'bool', f'''tries_ok() and allocated(self.root) and trie_upto({H}, self.root, self.table, len(self.table)) and lastpos(self.table, len(self.table), "") == -1
             and indexed(self.table) and table_ok(val(self.table), val(self.idx_to_str), val(self.str_to_idx), self.unk_idx)''', inline=True)
    v.defseq('idsof', {'D': 'VOC', 'u': 'int', 'p': 'seq[str]'}, 'seq[int]', 'len(p)', 'get(D, at(p, i)) if has(D, at(p, i)) else u')
    v.contract('nlcodec.codec.BPEScheme.encode_str', self_ty='obj:nlcodec.codec.BPEScheme',
        params={'line': 'str', 'split_ratio': 'real'}, returns='list[str]',
        exit="""
ext(result, names(self.table, res))
hint(pieces(self.str_to_idx, seq, "<unk>"))
""",
        requires=['bpe_ok()', 'implies(split_ratio > 0, forall(lambda i: implies(0 <= i and i < len(self.table), wft(at(self.table, i)) and intab(at(self.table, i), self.table)), at(self.table, i)))'], opts={'types': {'data_node': 'ref:TrNode', 'res': 'list[int]'}},
        loops={0: dict(inv=[
            '0 <= idx and idx <= len(seq)', 'prev_node == lookup(self.root, take(seq, idx)) and allocated(prev_node)',
            'implies(data_node is None, forall(lambda m: implies(0 <= m and m < idx, not has(self.str_to_idx, take(seq, m))), take(seq, m)))',
            '''implies(data_node is not None, 0 < data_idx and data_idx <= idx and has(self.str_to_idx, take(seq, data_idx)) and data_node == lookup(self.root, take(seq, data_idx))
                 and forall(lambda m: implies(data_idx < m and m < idx, not has(self.str_to_idx, take(seq, m))), take(seq, m)))''',
            'cat(names(self.table, res), pieces(self.str_to_idx, seq, "<unk>")) == pieces(self.str_to_idx, marked(line), "<unk>")',
            'forall(lambda i: implies(0 <= i and i < len(res), 0 <= at(res, i) and at(res, i) < len(self.table)), at(res, i))'],
            dec=['len(seq)', 'len(seq) - idx'],
            start='''
if idx < len(seq):
    use('walk_snoc', field("TrNode", "kids"), field("TrNode", "alloc"), field("TrNode", "path"), self.root, seq, idx)
    hint(take(seq, idx + 1))
hint(take(seq, idx))
useall(lambda m: use('walk_dead', field("TrNode", "kids"), field("TrNode", "alloc"), field("TrNode", "path"), self.root, seq, idx + 1, m), take(seq, m))
''',
            end='''
if len(seq) < at_head(len(seq)):
    hint(pieces(self.str_to_idx, at_head(seq), "<unk>"))
    if lookup(self.root, take(at_head(seq), at_head(idx))).data is not None:
        use("lng_is", self.str_to_idx, at_head(seq), at_head(idx))
    else:
        use("lng_is", self.str_to_idx, at_head(seq), at_head(data_idx) if at_head(data_node) is not None else 0)
    assert pieces(self.str_to_idx, at_head(seq), "<unk>") == cat(push(empty("seq[str]"), at(self.table, at(res, len(res) - 1)).name), pieces(self.str_to_idx, seq, "<unk>"))
    use("cat_push", at_head(names(self.table, res)), at(self.table, at(res, len(res) - 1)).name, pieces(self.str_to_idx, seq, "<unk>"))
''')},
        ensures=['implies(split_ratio <= 0, result == pieces(self.str_to_idx, marked(line), "<unk>"))',
                 'joined(result) == joined(pieces(self.str_to_idx, marked(line), "<unk>"))',
                 'forall(lambda i: implies(0 <= i and i < len(result), has(self.str_to_idx, at(result, i))), at(result, i))'])

    # ---- what the pieces stand for: the same pieces with every unknown replaced by the character that was dropped
    v.define('orig', {'D': 'VOC', 's': 'str'}, 'seq[str]',
             'empty("seq[str]") if len(s) == 0 else cat(push(empty("seq[str]"), take(s, longest(D, s) if longest(D, s) > 0 else 1)), orig(D, drop(s, longest(D, s) if longest(D, s) > 0 else 1)))', rec=True)
    v.lemma('orig_props', {'D': 'VOC', 's': 'str', 'u': 'str'},
            ensures=['joined(orig(D, s)) == s', 'len(orig(D, s)) == len(pieces(D, s, u))',
                     'forall(lambda i: implies(0 <= i and i < len(orig(D, s)), at(orig(D, s), i) == at(pieces(D, s, u), i) and has(D, at(orig(D, s), i)) or at(pieces(D, s, u), i) == u and len(at(orig(D, s), i)) == 1), at(orig(D, s), i))'],
            decreases='len(s)', body="""
if len(s) > 0:
    n = longest(D, s) if longest(D, s) > 0 else 1
    split_at(s, n)
    use('orig_props', D, drop(s, n), u)
    use('joined_one', take(s, n))
""")
    # segmentation position by position (C02): where the pieces start in the text
    v.define('restat', {'D': 'VOC', 's': 'str', 'i': 'int'}, 'str', 's if i <= 0 or len(s) == 0 else restat(D, drop(s, longest(D, s) if longest(D, s) > 0 else 1), i - 1)', rec=True)
    v.lemma('greedy', {'D': 'VOC', 's': 'str', 'u': 'str', 'i': 'int'},
            requires=['0 <= i', 'i < len(pieces(D, s, u))'],
            ensures=['len(restat(D, s, i)) > 0',
                     'at(pieces(D, s, u), i) == (take(restat(D, s, i), longest(D, restat(D, s, i))) if longest(D, restat(D, s, i)) > 0 else u)',
                     'restat(D, s, i + 1) == drop(restat(D, s, i), longest(D, restat(D, s, i)) if longest(D, restat(D, s, i)) > 0 else 1)'],
            decreases='i', body="""
if i > 0:
    use('greedy', D, drop(s, longest(D, s) if longest(D, s) > 0 else 1), u, i - 1)
else:
    hint(restat(D, drop(s, longest(D, s) if longest(D, s) > 0 else 1), 0))
""")
    v.lemma('pieces_unknown', {'D': 'VOC', 's': 'str', 'u': 'str'},
            requires=['forall(lambda i: implies(0 <= i and i < len(pieces(D, s, u)), at(pieces(D, s, u), i) != u), at(pieces(D, s, u), i))'],
            ensures=['joined(pieces(D, s, u)) == s'], body="""
use('orig_props', D, s, u)
ext(orig(D, s), pieces(D, s, u))
""")

    # ---- decoding
    NOSP = lambda s: f'forall(lambda i: implies(0 <= i and i < len({s}), code({s}, i) != 9601), code({s}, i))'
    v.lemma('repl_join', {'w': 'seq[str]'},
            requires=['forall(lambda i, j: implies(0 <= i and i < len(w) and 0 <= j and j < len(at(w, i)), code(at(w, i), j) != 9601), code(at(w, i), j))'],
            ensures=['"▁".join(w).replace("▁", " ") == " ".join(w)'], decreases='len(w)', body="""
if len(w) > 0:
    last(w)
    use('repl_join', take(w, len(w) - 1))
    ext(at(w, len(w) - 1).replace("▁", " "), at(w, len(w) - 1))
""")
    v.lemma('join_ends', {'w': 'seq[str]'},
            requires=['forall(lambda i: implies(0 <= i and i < len(w), len(at(w, i)) > 0), at(w, i))',
                      'forall(lambda i, j: implies(0 <= i and i < len(w) and 0 <= j and j < len(at(w, i)), not is_ws(code(at(w, i), j))), code(at(w, i), j))', 'len(w) > 0'],
            ensures=['len(" ".join(w)) > 0', 'not is_ws(code(" ".join(w), 0))', 'not is_ws(code(" ".join(w), len(" ".join(w)) - 1))'], decreases='len(w)', body="""
last(w)
hint(code(at(w, len(w) - 1), 0), code(at(w, len(w) - 1), len(at(w, len(w) - 1)) - 1))
if len(w) > 1:
    use('join_ends', take(w, len(w) - 1))
""")
    v.lemma('strip_join', {'w': 'seq[str]'},
            requires=['forall(lambda i: implies(0 <= i and i < len(w), len(at(w, i)) > 0), at(w, i))',
                      'forall(lambda i, j: implies(0 <= i and i < len(w) and 0 <= j and j < len(at(w, i)), not is_ws(code(at(w, i), j))), code(at(w, i), j))'],
            ensures=['(" ".join(w) + " ").strip() == " ".join(w)'], body="""
if len(w) > 0:
    use('join_ends', w)
    hint(code(" ".join(w) + " ", 0), code(" ".join(w) + " ", len(" ".join(w)) - 1), code(" ".join(w) + " ", len(" ".join(w))))
    hint(code((" ".join(w) + " ").strip(), len((" ".join(w) + " ").strip()) - 1))
    ext((" ".join(w) + " ").strip(), " ".join(w))
else:
    hint(code((" ".join(w) + " ").strip(), 0))
    ext((" ".join(w) + " ").strip(), " ".join(w))
""")
    v.lemma('roundtrip', {'line': 'str'},
            requires=[NOSP('line')],
            ensures=['marked(line).replace("▁", " ").strip() == spaced(line)', '"▁".join(line.split()).replace("▁", " ") == spaced(line)'], body="""
use('repl_join', line.split())
use('strip_join', line.split())
""")

    # ---- the schemes
    M = 'nlcodec.codec.'
    VALID = 'forall(lambda i: implies(0 <= i and i < len(seq), 0 <= at(seq, i) and at(seq, i) < len(self.table)), at(seq, i))'
    v.define('word_pieces', {'line': 'str'}, 'seq[str]', 'val(line.split())', inline=True)
    for cls, enc, dec, D in (('WordScheme', 'line.split()', '" ".join({p})', '={full}'),
                          ('CharScheme', 'list("▁".join(line.split()))', '"".join({p}).replace("▁", " ")', ''),
                          ('ClassScheme', '[line.strip()]', '",".join({p})', '')):
        full = M + cls
        O = 'obj:' + full
        v.contract(full + '.encode_str', self_ty='class:' + full, params={'line': 'str'}, returns='list[str]', ensures=[f'result == {enc}'])
        v.contract(full + '.decode_str', self_ty=O if cls == 'ClassScheme' else 'class:' + full, params={'seq': 'list[str]'}, returns='str', ensures=['result == ' + dec.format(p='val(seq)')])
        OK = 'scheme_ok()' if cls != 'ClassScheme' else 'class_ok()'
        v.contract(full + '.encode', self_ty=O, params={'line': 'str'}, returns='list[int]', requires=[OK],
            ensures=[f'val(result) == idsof(self.str_to_idx, self.unk_idx, {enc})'] + (['forall(lambda i: implies(0 <= i and i < len(result), 0 <= at(result, i) and at(result, i) < len(self.table)), at(result, i))'] if cls != 'ClassScheme' else []))
        v.contract(full + '.decode', self_ty=O, params={'seq': 'list[int]'}, returns='str', requires=[OK, VALID],
            ensures=['result == ' + dec.format(p='names(self.table, seq)')])

    full = M + 'BPEScheme'
    O = 'obj:' + full
    PIECES = 'pieces(self.str_to_idx, marked(line), "<unk>")'
    WFTAB = 'forall(lambda i: implies(0 <= i and i < len(self.table), wft(at(self.table, i)) and intab(at(self.table, i), self.table)), at(self.table, i))'
    v.contract(full + '.decode_str', self_ty=O, params={'seq': 'list[str]'}, returns='str', ensures=['result == joined(val(seq)).replace("▁", " ").strip()'])
    v.contract(full + '.decode', self_ty=O, params={'seq': 'list[int]'}, returns='str', requires=['scheme_ok()', VALID],
        ensures=['result == joined(names(self.table, seq)).replace("▁", " ").strip()'])
    v.contract(full + '.encode', self_ty=O, params={'line': 'str', 'split_ratio': 'real'}, returns='list[int]', exit='ext(names(self.table, result), ret("encode_str"))',
        requires=['bpe_ok()', f'implies(split_ratio > 0, {WFTAB})'],
        ensures=[f'implies(split_ratio <= 0, val(result) == idsof(self.str_to_idx, self.unk_idx, {PIECES}))',
                 f'joined(names(self.table, result)) == joined({PIECES})',
                 'forall(lambda i: implies(0 <= i and i < len(result), 0 <= at(result, i) and at(result, i) < len(self.table)), at(result, i))'])
    # the ids of known pieces are named by the pieces
    v.lemma('ids_names', {'t': 'TAB', 'n': 'seq[str]', 'D': 'VOC', 'u': 'int', 'p': 'seq[str]'},
            requires=['table_ok(t, n, D, u)', 'forall(lambda i: implies(0 <= i and i < len(p), has(D, at(p, i))), at(p, i))'],
            ensures=['names(t, idsof(D, u, p)) == p'], body='ext(names(t, idsof(D, u, p)), p)')
    v.lemma('word_ids', {'t': 'TAB', 'n': 'seq[str]', 'D': 'VOC', 'u': 'int', 'p': 'seq[str]'},
            requires=['table_ok(t, n, D, u)'],
            ensures=['len(idsof(D, u, p)) == len(p)',
                     'forall(lambda i: implies(0 <= i and i < len(p), at(names(t, idsof(D, u, p)), i) == (at(p, i) if has(D, at(p, i)) else "<unk>")), at(p, i))',
                     'forall(lambda i: implies(0 <= i and i < len(p), 0 <= at(idsof(D, u, p), i) and at(idsof(D, u, p), i) < len(t)), at(p, i))'])
    v.lemma('joined_chars', {'s': 'str'}, ensures=['joined(list(s)) == s'], decreases='len(s)', body="""
if len(s) > 0:
    last(s)
    use('joined_chars', take(s, len(s) - 1))
    ext(list(s), push(list(take(s, len(s) - 1)), sub(s, len(s) - 1, len(s))))
    ext(s, cat(take(s, len(s) - 1), sub(s, len(s) - 1, len(s))))
""")
    v.lemma('char_roundtrip', {'t': 'TAB', 'n': 'seq[str]', 'D': 'VOC', 'u': 'int', 'line': 'str'},
            requires=['table_ok(t, n, D, u)', NOSP('line'), 'forall(lambda i: implies(0 <= i and i < len(list("▁".join(line.split()))), has(D, at(list("▁".join(line.split())), i))), at(list("▁".join(line.split())), i))'],
            ensures=['"".join(names(t, idsof(D, u, list("▁".join(line.split()))))).replace("▁", " ") == spaced(line)'], body="""
use('ids_names', t, n, D, u, list("▁".join(line.split())))
use('joined_chars', "▁".join(line.split()))
use('roundtrip', line)
""")

    # ---- construction
    RESV = ' and '.join(['len(table) >= 6'] + [f'at(table, {i}).name == "{x}"' for i, x in enumerate(RES)])
    DIST = 'forall(lambda i, j: implies(0 <= i and i < j and j < len(table), at(table, i).name != at(table, j).name), (at(table, i), at(table, j)))'
    FIELDS = ['self.vocab_size', 'self.table', 'self.idx_to_str', 'self.str_to_idx', 'self.invertible', 'self.unk_idx']
    ESC = M + 'EncoderScheme.__init__'
    v.contract(ESC, label=ESC + '/plain', variant=True, self_ty='obj:' + M + 'WordScheme', params={'table': 'list[rec:Type]', 'has_reserved': '=True', 'invertible': '=True'},
            requires=[RESV, DIST], modifies=FIELDS,
            ensures=['scheme_ok()', 'self.table == table', 'self.vocab_size == len(table)', 'self.unk_idx == 1'])
    v.contract(ESC, label=ESC + '/unreserved', variant=True, self_ty='obj:' + M + 'ClassScheme', params={'table': 'list[rec:Type]', 'has_reserved': '=False', 'invertible': '=True'},
            requires=[DIST], modifies=[x for x in FIELDS if x != 'self.unk_idx'],
            ensures=['names_ok(val(self.table), val(self.idx_to_str), val(self.str_to_idx))', 'self.table == table', 'self.vocab_size == len(table)'])
    v.contract(ESC, label=ESC + '/first', variant=True, self_ty='obj:' + M + 'BPEScheme', params={'table': 'list[rec:Type]', 'has_reserved': '=True', 'invertible': '=False'},
            requires=[RESV], modifies=FIELDS,
            loops={0: dict(inv=['forall(lambda s="str": has(self.str_to_idx, s) == (lastpos(table, _k, s) >= 0), has(self.str_to_idx, s), lastpos(table, _k, s))',
                                'forall(lambda s="str": implies(has(self.str_to_idx, s), 0 <= get(self.str_to_idx, s) and get(self.str_to_idx, s) < _k and at(table, get(self.str_to_idx, s)).name == s), has(self.str_to_idx, s), get(self.str_to_idx, s))'])},
            ensures=['scheme_ok()', 'self.table == table', 'self.vocab_size == len(table)', 'self.unk_idx == 1'])
    v.contract(M + 'BPEScheme.__init__', self_ty='obj:' + M + 'BPEScheme', params={'table': 'list[rec:Type]'},
            requires=[RESV, 'indexed(table)', 'lastpos(table, len(table), "") == -1', 'tries_ok()'], modifies=FIELDS + ['self.root'] + ['field:TrNode.' + x for x in ('kids', 'idx', 'name', 'data', 'parent', 'alloc', 'path')],
            ensures=['bpe_ok()', 'self.table == table', 'self.vocab_size == len(table)', 'self.unk_idx == 1'])
    INIT = [M + 'BPEScheme.__init__', M + 'EncoderScheme.__init__/first', M + 'BPEScheme.make_vocab_prefix_trie']
    v.prop('C01', [M + 'BPEScheme.' + x for x in ('encode', 'encode_str', 'decode', 'decode_str')] + INIT, ['orig_props', 'pieces_unknown', 'roundtrip', 'ids_names'])
    v.prop('C02', [M + 'BPEScheme.encode_str'] + INIT, ['greedy', 'longest_props'])
    v.prop('C03', [M + c + '.' + x for c in ('BPEScheme', 'WordScheme', 'CharScheme', 'ClassScheme') for x in ('encode', 'decode', 'encode_str', 'decode_str')]
           + [M + 'BPEScheme.__init__', ESC + '/plain', ESC + '/unreserved', ESC + '/first'], ['word_ids', 'char_roundtrip', 'ids_names', 'roundtrip'])
    v.prop('C10', [M + 'BPEScheme.encode', M + 'BPEScheme.encode_str'])
