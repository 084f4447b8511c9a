"""C08: word and character vocabularies"""


def load(v):
    v.type_alias['FREQS'] = 'seq[tuple[str,int]]'
    v.type_alias['TF'] = 'dict[str,int]'
    v.lemma('psum_below', {'s': 'FREQS', 'm': 'int'},
            ensures=['total([f for t, f in s if f < m]) + total([(t, f) for t, f in s if f >= m]) == total(s)'], decreases='len(s)', body='''
if len(s) > 0:
    last(s)
    use('psum_below', take(s, len(s) - 1), m)
''', auto=['[f for t, f in s if f < m]'])
    v.lemma('psum_snd', {'s': 'FREQS'}, ensures=['total([f for t, f in s]) == total(s)'], decreases='len(s)', body='''
if len(s) > 0:
    last(s)
    use('psum_snd', take(s, len(s) - 1))
''', auto=['[f for t, f in s]'])
    NONNEG = 'forall(lambda i: implies(0 <= i and i < len(s), at(s, i)[1] > 0), at(s, i))'
    v.lemma('psum_pos', {'s': 'FREQS', 'n': 'int'}, requires=[NONNEG, '0 <= n', 'n <= len(s)'],
            ensures=['total(take(s, n)) >= n', 'total(s) >= total(take(s, n)) + len(s) - n'], decreases='len(s)', body='''
if len(s) > 0:
    last(s)
    if n == len(s):
        ext(take(s, n), s)
        use('psum_pos', take(s, len(s) - 1), n - 1)
    else:
        use('psum_pos', take(s, len(s) - 1), n)
        ext(take(take(s, len(s) - 1), n), take(s, n))
else:
    ext(take(s, n), s)
''')
    v.lemma('psum_excluded', {'s': 'FREQS', 'D': 'TF', 'm': 'int'},
            requires=['0 <= m', 'm <= len(s)', 'forall(lambda i: implies(0 <= i and i < len(s), has(D, at(s, i)[0]) == (i < m)), at(s, i))'],
            ensures=['total([(t, f) for t, f in s if t not in D]) == total(s) - total(take(s, m))'], decreases='len(s)', body='''
if len(s) > 0:
    last(s)
    if m == len(s):
        ext(take(s, m), s)
        use('psum_excluded', take(s, len(s) - 1), D, m - 1)
        ext(take(take(s, len(s) - 1), m - 1), take(s, len(s) - 1))
    else:
        use('psum_excluded', take(s, len(s) - 1), D, m)
        ext(take(take(s, len(s) - 1), m), take(s, m))
else:
    ext(take(s, m), s)
''')
    POS = lambda d: f'forall(lambda w="str": implies(has({d}, w), get({d}, w) > 0), has({d}, w))'
    v.contract('nlcodec.utils.filter_types_coverage', params={'types': 'dict[str,int]', 'coverage': 'real'}, returns='tup[dict[str,int],int]',
        requires=['0 < coverage', 'coverage <= 1', POS('types')], opts={'types': {'includes': 'dict[str,int]'}},
        loops={0: dict(inv=['len(keys(includes)) == _k', 'forall(lambda i: implies(0 <= i and i < _k, at(keys(includes), i) == at(types, i)[0]), at(keys(includes), i), at(types, i))',
                            'forall(lambda i: implies(0 <= i and i < len(types), has(includes, at(types, i)[0]) == (i < _k)), at(types, i))',
                            'forall(lambda w="str": implies(has(includes, w), get(includes, w) == get(old(val(types)), w) and has(old(val(types)), w)), has(includes, w))',
                            'total(includes) == total(take(types, _k))', 'cum * tot == total(take(types, _k))', 'implies(_k > 0, cum < coverage)'],
                       start='''
use('psum_pos', types, 0)
last(take(types, _k + 1))
''', exit='''
use('psum_excluded', types, includes, len(includes))
''', brk='''
use('psum_excluded', types, includes, len(includes))
''')},
        ensures=['forall(lambda w="str": implies(has(result[0], w), has(types, w) and get(result[0], w) == get(types, w)), has(result[0], w))',
                 'forall(lambda w="str", x="str": implies(has(result[0], w) and has(types, x) and not has(result[0], x), get(types, x) <= get(types, w)), (has(result[0], w), has(types, x)))',
                 'result[1] == total(types) - total(result[0])',
                 'forall(lambda i: implies(0 < i and i < len(result[0]), get(types, at(keys(result[0]), i)) <= get(types, at(keys(result[0]), i - 1))), at(keys(result[0]), i))',
                 'total(result[0]) >= coverage * total(types) or forall(lambda w="str": implies(has(types, w), has(result[0], w)), has(types, w))',
                 'implies(len(result[0]) > 0, total(result[0]) - get(types, at(keys(result[0]), len(result[0]) - 1)) < coverage * total(types))'])
    v.lemma('psum_cut', {'s': 'FREQS', 'n': 'int'}, requires=['0 <= n', 'n <= len(s)'], ensures=['total(take(s, n)) + total([f for t, f in drop(s, n)]) == total(s)'], body='''
split_at(s, n)
''', auto=[('take(s, n)', '[f for t, f in drop(s, n)]')])
    v.lemma('psum_allge', {'s': 'FREQS', 'm': 'int'}, requires=['forall(lambda i: implies(0 <= i and i < len(s), at(s, i)[1] >= m), at(s, i))'], ensures=['total([(t, f) for t, f in s if f >= m]) == total(s)'],
            decreases='len(s)', body='''
if len(s) > 0:
    last(s)
    use('psum_allge', take(s, len(s) - 1), m)
''', auto=['[(t, f) for t, f in s if f >= m]'])
    RES = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', '▁']
    v.define('resname', {'w': 'str'}, 'bool', ' or '.join(f'w == "{x}"' for x in RES))
    v.defseq('sfreqs', {'t': 'TAB'}, 'seq[int]', 'len(t)', 'at(t, i).freq')
    v.lemma('sfreqs_psum', {'t': 'TAB', 's': 'FREQS'}, requires=['len(t) == len(s)', 'forall(lambda i: implies(0 <= i and i < len(t), at(t, i).freq == at(s, i)[1]), at(t, i), at(s, i))'],
            ensures=['total(sfreqs(t)) == total(s)'], decreases='len(t)', body='''
if len(t) > 0:
    last(s)
    use('sfreqs_psum', take(t, len(t) - 1), take(s, len(s) - 1))
    ext(sfreqs(t), push(sfreqs(take(t, len(t) - 1)), at(t, len(t) - 1).freq))
else:
    ext(sfreqs(t), empty("seq[int]"))
    ext(s, empty("seq[tuple[str,int]]"))
''')
    M = 'nlcodec.codec.'
    F0 = 'old(val(term_freqs))'
    CORP = lambda w: f'(has({F0}, {w}) and not resname({w}))'
    # frequency of the unknown type: its own one in the corpus and that of everything left out; -1 when there is none
    RSUM = ' + '.join(f'(get(d, "{x}") if has(d, "{x}") else 0)' for x in RES)
    v.define('crest', {'d': 'TF'}, 'int', f'total(d) - ({RSUM})')
    v.define('covered', {'d': 'TF', 'c': 'real', 'kept': 'int'}, 'bool', 'c > 0 and kept >= c * crest(d)')
    v.define('unkfreq', {'d': 'TF', 'kept': 'int'}, 'int', '-1 if crest(d) - kept + (get(d, "<unk>") if has(d, "<unk>") else 0) == 0 else crest(d) - kept + (get(d, "<unk>") if has(d, "<unk>") else 0)')
    for cls in ('WordScheme', 'CharScheme'):
        v.contract(M + f'{cls}.get_init_vocab', self_ty='class:' + M + cls,
            params={'term_freqs': 'dict[str,int]', 'coverage': 'real', 'line_count': 'int', 'min_freq': 'int', 'vocab_size': 'int'}, returns='list[rec:Type]',
            requires=[POS('term_freqs'), '0 <= coverage', 'coverage <= 1', 'vocab_size <= 0 or vocab_size >= 6', 'line_count >= -1'], modifies=['term_freqs'],
            opts={'after': {'term_freqs': f'''
assert forall(lambda i: implies(0 <= i and i < len(term_freqs), {CORP("at(term_freqs, i)[0]")} and at(term_freqs, i)[1] == get({F0}, at(term_freqs, i)[0])), at(term_freqs, i))
assert forall(lambda i, j: implies(0 <= i and i < j and j < len(term_freqs), at(term_freqs, i)[0] != at(term_freqs, j)[0] and at(term_freqs, i)[1] >= at(term_freqs, j)[1]), (at(term_freqs, i), at(term_freqs, j)))
assert forall(lambda w="str", i="int": implies({CORP("w")} and 0 <= i and i < len(term_freqs), get({F0}, w) <= at(term_freqs, i)[1] or exists(lambda j: 0 <= j and j < len(term_freqs) and at(term_freqs, j)[0] == w, at(term_freqs, j))), (has({F0}, w), at(term_freqs, i)))
assert forall(lambda w="str": implies({CORP("w")}, get({F0}, w) < min_freq or (vocab_size > 0 and len(term_freqs) + 6 >= vocab_size) or covered({F0}, coverage, total(term_freqs)) or exists(lambda j: 0 <= j and j < len(term_freqs) and at(term_freqs, j)[0] == w, at(term_freqs, j))), has({F0}, w))
assert total(term_freqs) + unk_count == crest({F0})
''', 'res_stats': f'''
assert total(term_freqs) == crest({F0})
'''}},
            exit='''
use('sfreqs_psum', drop(result, 6), term_freqs)
''',
            ensures=['len(result) >= 6', 'forall(lambda i: implies(6 <= i and i < len(result), at(result, i).idx == i), at(result, i))',
                     ' and '.join(f'at(result, {i}).name == "{x}" and at(result, {i}).idx == {i} and at(result, {i}).level == -1' for i, x in enumerate(RES)),
                     f'forall(lambda i: implies(6 <= i and i < len(result), {CORP("at(result, i).name")} and at(result, i).freq == get({F0}, at(result, i).name)), at(result, i))',
                     f'forall(lambda i: implies(6 <= i and i < len(result), at(result, i).level == cls.level and at(result, i).freq >= min_freq), at(result, i))',
                     'forall(lambda i, j: implies(6 <= i and i < j and j < len(result), at(result, i).name != at(result, j).name and at(result, i).freq >= at(result, j).freq), (at(result, i), at(result, j)))',
                     'implies(vocab_size > 0, len(result) <= vocab_size)',
                     f'forall(lambda w="str", i="int": implies({CORP("w")} and 6 <= i and i < len(result), get({F0}, w) <= at(result, i).freq or exists(lambda j: 6 <= j and j < len(result) and at(result, j).name == w, at(result, j))), (has({F0}, w), at(result, i)))',
                     f'forall(lambda w="str": implies({CORP("w")}, get({F0}, w) < min_freq or (vocab_size > 0 and len(result) >= vocab_size) or covered({F0}, coverage, total(sfreqs(drop(result, 6)))) or exists(lambda j: 6 <= j and j < len(result) and at(result, j).name == w, at(result, j))), has({F0}, w))',
                     f'at(result, 1).freq == unkfreq({F0}, total(sfreqs(drop(result, 6))))',
                     ])
    v.prop('C08', ['nlcodec.utils.filter_types_coverage', M + 'WordScheme.get_init_vocab', M + 'CharScheme.get_init_vocab'], ['psum_below', 'psum_snd', 'psum_pos', 'psum_allge', 'psum_cut', 'psum_excluded', 'sfreqs_psum'])

    v.define('freq', {'d': 'dict[str,int]', 'w': 'str'}, 'int', 'get(d, w) if has(d, w) else 0', inline=True)
    v.define('chars', {'s': 'str'}, 'seq[str]', 'list("▁".join(s.split()))')
    v.define('wfreq', {'ls': 'seq[str]', 'n': 'int', 'w': 'str'}, 'int', '0 if n <= 0 else wfreq(ls, n - 1, w) + count(at(ls, n - 1).strip().split(), w)', rec=True)
    v.define('cfreq', {'ls': 'seq[str]', 'n': 'int', 'w': 'str'}, 'int', '0 if n <= 0 else cfreq(ls, n - 1, w) + count(chars(at(ls, n - 1).strip()), w)', rec=True)
    for cls, fn in (('WordScheme', 'wfreq'), ('CharScheme', 'cfreq')):
        v.contract(M + f'{cls}.term_frequencies', self_ty='class:' + M + cls,
            params={'data': 'iter[str]'}, returns='tup[counter[str,int],int]',
            loops={0: dict(inv=[f'forall(lambda w="str": freq(stats, w) == {fn}(_it0, _k, w) and implies(has(stats, w), get(stats, w) > 0), has(stats, w))', 'line_count == _k'])},
            ensures=[f'forall(lambda w="str": freq(result[0], w) == {fn}(old(val(data)), len(old(val(data))), w) and implies(has(result[0], w), get(result[0], w) > 0), has(result[0], w))',
                     'result[1] == len(old(val(data)))'])
    v.prop('C08', [M + 'WordScheme.term_frequencies', M + 'CharScheme.term_frequencies'])

    # learn() of either scheme: the vocabulary in terms of the lines of the corpus
    def learned(fn):
        LN = 'old(val(data)), len(old(val(data)))'
        return ['len(result) >= 6', ' and '.join(f'at(result, {i}).name == "{x}" and at(result, {i}).idx == {i} and at(result, {i}).level == -1' for i, x in enumerate(RES)),
                f'forall(lambda i: implies(6 <= i and i < len(result), at(result, i).idx == i and at(result, i).level == cls.level and not resname(at(result, i).name) and at(result, i).freq == {fn}({LN}, at(result, i).name) and at(result, i).freq >= min_freq), at(result, i))',
                'forall(lambda i, j: implies(6 <= i and i < j and j < len(result), at(result, i).name != at(result, j).name and at(result, i).freq >= at(result, j).freq), (at(result, i), at(result, j)))',
                'implies(vocab_size > 0, len(result) <= vocab_size)',
                f'forall(lambda w="str", i="int": implies(not resname(w) and 6 <= i and i < len(result), {fn}({LN}, w) <= at(result, i).freq or exists(lambda j: 6 <= j and j < len(result) and at(result, j).name == w, at(result, j))), ({fn}({LN}, w), at(result, i)))',
                f'forall(lambda w="str": implies(not resname(w) and coverage == 0, {fn}({LN}, w) == 0 or {fn}({LN}, w) < min_freq or (vocab_size > 0 and len(result) >= vocab_size) or exists(lambda j: 6 <= j and j < len(result) and at(result, j).name == w, at(result, j))), {fn}({LN}, w))']
    for cls, fn in (('WordScheme', 'wfreq'), ('CharScheme', 'cfreq')):
        v.contract(M + f'{cls}.learn', self_ty='class:' + M + cls,
            params={'data': 'iter[str]', 'vocab_size': 'int', 'min_freq': 'int', 'coverage': 'real', **({'term_freqs': '=False'} if cls == 'WordScheme' else {})}, returns='list[rec:Type]',
            requires=['0 <= coverage', 'coverage <= 1', 'vocab_size <= 0 or vocab_size >= 6'],
            ensures=learned(fn))
    v.prop('C08', [M + 'WordScheme.learn', M + 'CharScheme.learn'])
