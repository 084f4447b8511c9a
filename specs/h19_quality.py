"""C19: codec quality figures match the encoded data"""


def load(v):
    Q = 'nlcodec.qestim.QualityEstimator'
    # half the total deviation of the shares s[i] * r from c (r: one over the total, c: one over the number of types)
    v.defseq('deviations', {'s': 'seq[int]', 'r': 'real', 'c': 'real'}, 'seq[real]', 'len(s)', 'abs(at(s, i) * r - c)')
    v.define('imbal', {'s': 'seq[int]'}, 'real', 'total(deviations(s, 1 / total(s), 1 / len(s))) / 2', inline=True)
    NONNEG = 'forall(lambda i: implies(0 <= i and i < len(s), at(s, i) >= 0), at(s, i))'
    v.lemma('deviations_take', {'s': 'seq[int]', 'r': 'real', 'c': 'real', 'n': 'int'}, requires=['0 <= n', 'n <= len(s)'], ensures=['take(deviations(s, r, c), n) == deviations(take(s, n), r, c)'], body='''
ext(take(deviations(s, r, c), n), deviations(take(s, n), r, c))
''')
    v.lemma('deviations_bound', {'s': 'seq[int]', 'r': 'real', 'c': 'real'}, requires=[NONNEG, 'r > 0', 'c > 0'],
            ensures=['0 <= total(deviations(s, r, c))', 'total(deviations(s, r, c)) <= total(s) * r + len(s) * c'], decreases='len(s)', body='''
if len(s) > 0:
    last(s)
    last(deviations(s, r, c))
    use('deviations_bound', take(s, len(s) - 1), r, c)
    use('deviations_take', s, r, c, len(s) - 1)
''')
    v.lemma('imbal_bound', {'s': 'seq[int]'}, requires=[NONNEG, 'total(s) > 0', 'len(s) > 0'], ensures=['0 <= imbal(s)', 'imbal(s) <= 1'], body='''
use('deviations_bound', s, 1 / total(s), 1 / len(s))
''')
    v.prop('C19', [], ['imbal_bound'])
    NN = lambda s: f'forall(lambda i: implies(0 <= i and i < len({s}), at({s}, i) >= 0), at({s}, i))'
    v.contract(Q + '.EMD_simple', self_ty='class:' + Q, params={'stats': 'list[int]', 'moving_cost': 'int'}, returns='real', requires=['len(stats) > 0', 'total(stats) > 0', 'moving_cost > 0', NN('stats')],
               ensures=['result == moving_cost * imbal(val(stats))'])
    # occurrences of an id in all sequences, and their total length
    v.fold('occ', {'ss': 'seq[seq[int]]', 't': 'int'}, 'int', '0', 'occ(ss, t) + count(e, t)', over='ss')
    v.defseq('type_counts', {'ss': 'seq[seq[int]]', 'n': 'int'}, 'seq[int]', 'n', 'occ(ss, i)')
    v.fold('ntoks', {'ss': 'seq[seq[int]]'}, 'int', '0', 'ntoks(ss) + len(e)')
    v.lemma('total_upd', {'s': 'seq[int]', 'i': 'int', 'x': 'int'}, requires=['0 <= i', 'i < len(s)'], ensures=['total(upd(s, i, x)) == total(s) - at(s, i) + x'], decreases='len(s)', body='''
last(s)
if i == len(s) - 1:
    ext(upd(s, i, x), push(take(s, i), x))
else:
    ext(upd(s, i, x), push(upd(take(s, len(s) - 1), i, x), at(s, len(s) - 1)))
    use('total_upd', take(s, len(s) - 1), i, x)
''', auto=['total(upd(s, i, x))'])
    v.lemma('total_zeros', {'s': 'seq[int]'}, requires=['forall(lambda i: implies(0 <= i and i < len(s), at(s, i) == 0), at(s, i))'], ensures=['total(s) == 0'], decreases='len(s)', body='''
if len(s) > 0:
    last(s)
    use('total_zeros', take(s, len(s) - 1))
''')
    v.contract(Q + '._estimate', self_ty='obj:' + Q, params={'seqs': 'iter[seq[int]]'}, returns='obj:nlcodec.qestim.CodecQuality',
        requires=['self.codec.vocab_size > 0', '0 <= self.codec.unk_idx and self.codec.unk_idx < self.codec.vocab_size', 'len(val(seqs)) > 0', 'ntoks(val(seqs)) > 0',
                  'forall(lambda r, i: implies(0 <= r and r < len(val(seqs)) and 0 <= i and i < len(at(val(seqs), r)), 0 <= at(at(val(seqs), r), i) and at(at(val(seqs), r), i) < self.codec.vocab_size), at(at(val(seqs), r), i))'],
        exit='''
ext(val(stats), type_counts(old(val(seqs)), self.codec.vocab_size))
use('imbal_bound', val(stats))
''',
        loops={0: dict(inv=['len(stats) == self.codec.vocab_size', 'n_seqs == _k', 'total(stats) == ntoks(take(_it0, _k))', NN('stats'), 'forall(lambda t: implies(0 <= t and t < len(stats), at(stats, t) == occ(take(_it0, _k), t)), at(stats, t))'], start='step(_it0, _k)', init="use('total_zeros', val(stats))"),
               1: dict(inv=['len(stats) == self.codec.vocab_size', 'total(stats) == ntoks(take(_it0, _k0)) + _k1', NN('stats'), 'forall(lambda t: implies(0 <= t and t < len(stats), at(stats, t) == occ(take(_it0, _k0), t) + count(take(_it1, _k1), t)), at(stats, t))'], start='step(_it1, _k1)')},
        ensures=['result.n_types == self.codec.vocab_size', 'result.n_tokens == ntoks(old(val(seqs)))', 'result.unk_count == occ(old(val(seqs)), self.codec.unk_idx)',
                 'result.mean_seq_len * len(old(val(seqs))) == result.n_tokens', 'result.imbalance == imbal(type_counts(old(val(seqs)), self.codec.vocab_size))', '0 <= result.imbalance', 'result.imbalance <= 1'])
    v.schemas['abs:qscheme'] = {'encode': 'fn:sch_ids', 'vocab_size': 'int', 'unk_idx': 'int'}
    v.schemas[Q] = {'codec': 'abs:nlcodec.codec.EncoderScheme/qscheme'}
    ENC = '[sch_ids(x) for x in old(val(lines))]'
    v.contract(Q + '.estimate', self_ty='obj:' + Q, params={'lines': 'iter[str]'}, returns='obj:nlcodec.qestim.CodecQuality',
        requires=['self.codec.vocab_size > 0', '0 <= self.codec.unk_idx and self.codec.unk_idx < self.codec.vocab_size', 'len(val(lines)) > 0', 'ntoks([sch_ids(x) for x in val(lines)]) > 0',
                  'forall(lambda x="str", i=0: implies(0 <= i and i < len(sch_ids(x)), 0 <= at(sch_ids(x), i) and at(sch_ids(x), i) < self.codec.vocab_size), at(sch_ids(x), i))'],
        ensures=['result.n_types == self.codec.vocab_size', f'result.n_tokens == ntoks({ENC})', f'result.unk_count == occ({ENC}, self.codec.unk_idx)',
                 f'result.mean_seq_len * len({ENC}) == result.n_tokens', f'result.imbalance == imbal(type_counts({ENC}, self.codec.vocab_size))', '0 <= result.imbalance', 'result.imbalance <= 1'])
    v.prop('C19', [Q + '.EMD_simple', Q + '._estimate', Q + '.estimate'])
    v.schemas['nlcodec.qestim.CodecQuality'] = {'n_types': 'int', 'imbalance': 'real', 'n_tokens': 'int', 'mean_seq_len': 'real', 'unk_count': 'int'}
    B = 'nlcodec.eval.bpe_len.BpeTracker'
    v.contract(B + '.earth_mov_dist', self_ty='class:' + B, params={'stats': 'array[int]'}, returns='real', requires=['len(stats) > 0', 'total(stats) > 0', NN('stats')], opts={'arrays': True},
               ensures=['result == imbal(val(stats))'])
    v.prop('C19', [B + '.earth_mov_dist'])
    v.prop('C19', [], assume=['floating-point numbers are treated as real numbers', 'every id produced is within the vocabulary (C03)'],
           bounded=['BpeTracker.create_index, track_merges and BPECodecXt.merge: searched with random vocabularies and lines, not proved'])
