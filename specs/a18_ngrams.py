"""C18: n-grams and overlap scores"""


def load(v):
    # the item type of the sequences is arbitrary: an uninterpreted sort E stands for it
    v.defseq('window', {'s': 'seq[opq:E]', 'i0': 'int', 'n': 'int'}, 'seq[opq:E]', 'n', 'at(s, i0 + i)')
    v.defseq('grams', {'s': 'seq[opq:E]', 'n': 'int'}, 'seq[seq[opq:E]]', 'len(s) - n + 1', 'window(s, i, n)')
    v.contract('nlcodec.utils.make_n_grams',
        params={'sent': 'list[opq:E]', 'n': 'int'},
        returns='list[seq[opq:E]]',
        requires=['n >= 1'],
        ensures=['len(result) == (len(sent) - n + 1 if len(sent) >= n else 0)',
                 'forall(lambda i: implies(0 <= i and i < len(result), len(at(result, i)) == n and forall(lambda j: implies(0 <= j and j < n, at(at(result, i), j) == at(sent, i + j)))))',
                 'val(result) == grams(sent, n)'])
    v.contract('nlcodec.utils.make_n_grams', label='nlcodec.utils.make_n_grams/raises', default=False,
        params={'sent': 'list[opq:E]', 'n': 'int'},
        returns='list[seq[opq:E]]', requires=['n <= 0'], raises={'AssertionError': 'n <= 0'}, vacuous_ok=True)
    v.contract('nlcodec.eval.pr_measure.f1_measure',
        params={'precison': 'real', 'recall': 'real'}, returns='real',
        requires=['0 <= precison and precison <= 1', '0 <= recall and recall <= 1'],
        ensures=['0 <= result and result <= 1', 'implies(precison == 1 and recall == 1, result == 1)',
                 'implies(precison + recall > 0, result * (precison + recall) == 2 * precison * recall)',
                 'implies(precison == 0 or recall == 0, result == 0)'])

    # number of occurrences of gram g in all sequences
    v.fold('gtotal', {'ss': 'seq[seq[opq:E]]', 'n': 'int', 'g': 'seq[opq:E]'}, 'int', '0', 'gtotal(ss, n, g) + count(grams(e, n), g)', over='ss')
    v.lemma('gtotal_nonneg', {'ss': 'seq[seq[opq:E]]', 'n': 'int', 'g': 'seq[opq:E]'}, ensures=['gtotal(ss, n, g) >= 0'],
            decreases='len(ss)', body='''
if len(ss) > 0:
    last(ss)
    use('gtotal_nonneg', take(ss, len(ss) - 1), n, g)
''', auto=['gtotal(ss, n, g)'])
    v.lemma('sum_unit', {'s': 'seq[real]'}, requires=['forall(lambda i: implies(0 <= i and i < len(s), 0 <= at(s, i) and at(s, i) <= 1))'],
            ensures=['0 <= total(s) and total(s) <= len(s)'], decreases='len(s)', body='''
if len(s) > 0:
    last(s)
    use('sum_unit', take(s, len(s) - 1))
''', auto=['total(s)'])
    v.lemma('sum_ones', {'s': 'seq[real]'}, requires=['forall(lambda i: implies(0 <= i and i < len(s), at(s, i) == 1))'],
            ensures=['total(s) == len(s)'], decreases='len(s)', body='''
if len(s) > 0:
    last(s)
    use('sum_ones', take(s, len(s) - 1))
''', auto=['total(s)'])
    unit = lambda d: f'''forall(lambda g="seq[opq:E]", i="int": implies(has({d}, g) and 0 <= i and i < len(get({d}, g)), 0 <= at(get({d}, g), i) and at(get({d}, g), i) <= 1))'''
    ones = lambda d: f'''implies(val(cands) == val(refs), forall(lambda g="seq[opq:E]", i="int": implies(has({d}, g) and 0 <= i and i < len(get({d}, g)), at(get({d}, g), i) == 1)))'''
    nonempty = lambda d: f'''forall(lambda g="seq[opq:E]": implies(has({d}, g), len(get({d}, g)) >= 1), has({d}, g))'''
    same = lambda a, b: f'''forall(lambda g="seq[opq:E]": has({a}, g) == has({b}, g), has({a}, g), has({b}, g))'''
    G = lambda body, *tr: f'''forall(lambda g="seq[opq:E]": {body}, {", ".join(tr)})'''
    outer = []
    for d, rec, src in (('ref_gram_freqs', 'gram_recalls', 'refs'), ('cand_gram_freqs', 'gram_precisions', 'cands')):
        outer += [G(f'has({d}, g) == (gtotal(take({src}, _k0), n, g) > 0)', f'has({d}, g)', f'gtotal(take({src}, _k0), n, g)'),
                  G(f'implies(has({d}, g), get({d}, g) == gtotal(take({src}, _k0), n, g))', f'get({d}, g)'),
                  same(d, rec), unit(rec), ones(rec), nonempty(rec)]

    def inner(o, d, rec, src, grams):
        k = f'_k{o}'
        return [G(f'has({d}, g) == (at_entry(has({d}, g)) or (has({grams}, g) and dpos({grams}, g) < {k}))', f'has({d}, g)'),
                G(f'implies(has({d}, g), get({d}, g) == (at_entry(get({d}, g)) if at_entry(has({d}, g)) else 0) + (get({grams}, g) if has({grams}, g) and dpos({grams}, g) < {k} else 0))', f'get({d}, g)'),
                same(d, rec), unit(rec), ones(rec), nonempty(rec)]
    v.contract('nlcodec.eval.pr_measure.count_gram_recall',
        params={'cands': 'list[seq[opq:E]]', 'refs': 'list[seq[opq:E]]', 'n': 'int'},
        returns='tup[dict[seq[opq:E],real],dict[seq[opq:E],int],dict[seq[opq:E],real],dict[seq[opq:E],int]]',
        requires=['n >= 1', 'len(cands) == len(refs)'],
        opts={'types': {'gram_recalls': 'defaultdict[seq[opq:E],list[real]]', 'gram_precisions': 'defaultdict[seq[opq:E],list[real]]',
                        'ref_gram_freqs': 'defaultdict[seq[opq:E],int]', 'cand_gram_freqs': 'defaultdict[seq[opq:E],int]'}},
        loops={0: dict(inv=outer),
               1: dict(inv=inner(1, 'ref_gram_freqs', 'gram_recalls', 'refs', 'ref_grams')),
               2: dict(inv=inner(2, 'cand_gram_freqs', 'gram_precisions', 'cands', 'cand_grams'))},
        ensures=[G('has(result[1], g) == (gtotal(refs, n, g) > 0)', 'has(result[1], g)', 'gtotal(refs, n, g)'),
                 G('has(result[3], g) == (gtotal(cands, n, g) > 0)', 'has(result[3], g)', 'gtotal(cands, n, g)'),
                 G('implies(has(result[1], g), get(result[1], g) == gtotal(refs, n, g))', 'get(result[1], g)'),
                 G('implies(has(result[3], g), get(result[3], g) == gtotal(cands, n, g))', 'get(result[3], g)'),
                 G('has(result[0], g) == has(result[1], g)', 'has(result[0], g)', 'has(result[1], g)'),
                 G('has(result[2], g) == has(result[3], g)', 'has(result[2], g)', 'has(result[3], g)'),
                 G('implies(has(result[0], g), 0 <= get(result[0], g) and get(result[0], g) <= 1)', 'get(result[0], g)'),
                 G('implies(has(result[2], g), 0 <= get(result[2], g) and get(result[2], g) <= 1)', 'get(result[2], g)'),
                 'implies(val(cands) == val(refs), ' + G('implies(has(result[0], g), get(result[0], g) == 1)', 'get(result[0], g)') + ')',
                 'implies(val(cands) == val(refs), ' + G('implies(has(result[2], g), get(result[2], g) == 1)', 'get(result[2], g)') + ')'])
    v.prop('C18', ['nlcodec.utils.make_n_grams', 'nlcodec.eval.pr_measure.f1_measure', 'nlcodec.eval.pr_measure.count_gram_recall'])
