"""C16: reduction trees and word counts"""


def load(v):
    M = 'nlcodec.para.mapred.'
    # an arbitrary associative operation with a neutral default
    v.define('op', {'a': 'opq:E', 'b': 'opq:E'}, 'opq:E')
    v.define('mp', {'x': 'opq:X'}, 'opq:E')
    v.define('assoc', {}, 'bool', 'forall(lambda a="opq:E", b="opq:E", c="opq:E": op(op(a, b), c) == op(a, op(b, c)), op(op(a, b), c), op(a, op(b, c)))', inline=True)
    v.define('neutral', {'d': 'opq:E'}, 'bool', 'forall(lambda a="opq:E": op(a, d) == a, op(a, d))', inline=True)
    # left-to-right reduction of the first n items
    v.define('redn', {'s': 'seq[opq:E]', 'n': 'int'}, 'opq:E', 'at(s, 0) if n <= 1 else op(redn(s, n - 1), at(s, n - 1))', rec=True)
    v.define('reduction', {'s': 'seq[opq:E]'}, 'opq:E', 'redn(s, len(s))', inline=True)
    v.defseq('combined', {'s': 'seq[opq:E]', 'd': 'opq:E'}, 'seq[opq:E]', '(len(s) + 1) // 2', 'op(at(s, 2 * i), at(s, 2 * i + 1) if 2 * i + 1 < len(s) else d)')
    v.defseq('pairing', {'s': 'seq[opq:E]', 'd': 'opq:E'}, 'seq[tuple[opq:E,opq:E]]', '(len(s) + 1) // 2', '(at(s, 2 * i), at(s, 2 * i + 1) if 2 * i + 1 < len(s) else d)')
    v.lemma('reduce_pairs', {'s': 'seq[opq:E]', 'd': 'opq:E', 'n': 'int'},
            requires=['assoc()', 'neutral(d)', '0 < n', '2 * n <= len(s) + 1'],
            ensures=['redn(combined(s, d), n) == redn(s, 2 * n if 2 * n <= len(s) else 2 * n - 1)'], decreases='n', body="""
hint(redn(s, 2 * n), redn(s, 2 * n - 1), redn(s, 2 * n - 2), at(combined(s, d), n - 1))
if n > 1:
    use('reduce_pairs', s, d, n - 1)
""")
    v.contract(M + 'pair_subsequent', params={'iterator': 'iter[opq:E]', 'default': 'opq:E', 'throw_singleton': 'bool'}, returns='iter[tuple[opq:E,opq:E]]',
        raises={'AssertionError': 'throw_singleton and len(val(iterator)) == 0', 'SingletonException': 'throw_singleton and len(val(iterator)) == 1'},
        opts={'raise_value': {'SingletonException': {'class': M + 'SingletonException', 'item': 'at(val(iterator), 0)'}}, 'types': {'last': 'opt[opq:E]'}},
        loops={0: dict(inv=['len(_out) == _k // 2', 'forall(lambda i: implies(0 <= i and i < len(_out), at(_out, i) == (at(_it0, 2 * i), at(_it0, 2 * i + 1))), at(_out, i))',
                            'idx == _k', 'implies(_k > 0, last is not None and unwrap(last) == at(_it0, _k - 1))'])},
        ensures=['val(result) == pairing(old(val(iterator)), default)'])
    v.schemas[M + 'IterativeReducer'] = {'func': 'fn:op', 'default': 'opq:E'}
    v.contract(M + 'IterativeReducer.__call__', self_ty='obj:' + M + 'IterativeReducer', params={'iterator': 'iter[opq:E]', 'pool': 'lib:map'}, returns='opq:E',
        requires=['assoc()', 'neutral(self.default)', 'len(val(iterator)) > 0'],
        loops={0: dict(inv=['len(val(iterator)) > 0', 'reduction(val(iterator)) == old(reduction(val(iterator)))'], dec='len(val(iterator))', end="""
use('reduce_pairs', at_head(val(iterator)), self.default, (len(at_head(val(iterator))) + 1) // 2)
ext(val(iterator), combined(at_head(val(iterator)), self.default))
""")},
        ensures=['result == old(reduction(val(iterator)))'])
    v.prop('C16', [M + 'pair_subsequent', M + 'IterativeReducer.__call__'], ['reduce_pairs'])
    v.contract(M + 'ireduce', params={'reduce_func': 'fn:op', 'default': 'opq:E', 'data': 'iter[opq:E]', 'pool': 'lib:map'}, returns='opq:E',
        requires=['assoc()', 'neutral(default)', 'len(val(data)) > 0'],
        ensures=['result == old(reduction(val(data)))'])
    v.schemas[M + 'MapReduce'] = {'mapper': 'fn:mp', 'reducer': 'fn:op', 'default': 'opq:E'}
    v.defseq('mapped', {'s': 'seq[opq:X]'}, 'seq[opq:E]', 'len(s)', 'mp(at(s, i))')
    v.contract(M + 'MapReduce.__call__', self_ty='obj:' + M + 'MapReduce', params={'input': 'iter[opq:X]', 'map_pool': 'lib:map', 'reduce_pool': 'lib:map'}, returns='opq:E',
        requires=['assoc()', 'neutral(self.default)', 'len(val(input)) > 0'],
        ensures=['result == old(reduction(mapped(val(input))))'])
    v.define('tally', {'d': 'dict[str,int]', 'w': 'str'}, 'int', 'get(d, w) if has(d, w) else 0', inline=True)
    v.contract(M + 'word_count_line', params={'text': 'str'}, returns='counter[str,int]',
        ensures=['forall(lambda w="str": tally(result, w) == count(text.split(), w), has(result, w))'])
    v.contract(M + 'merge_freqs', params={'tfs1': 'dict[str,int]', 'tfs2': 'dict[str,int]'}, returns='dict[str,int]',
        modifies=['tfs1', 'tfs2'],
        loops={0: dict(inv=['forall(lambda w="str": tally(keep, w) == tally(at_entry(keep), w) + (tally(dump, w) if dpos(dump, w) < _k0 else 0), has(keep, w))', 'val(dump) == at_entry(val(dump))'])},
        ensures=['forall(lambda w="str": tally(result, w) == tally(old(val(tfs1)), w) + tally(old(val(tfs2)), w), has(result, w))',
                 'val(tfs2) == old(val(tfs2)) or len(old(val(tfs1))) < len(old(val(tfs2)))'])
    v.prop('C16', [M + 'ireduce', M + 'MapReduce.__call__', M + 'word_count_line', M + 'merge_freqs'])
    v.prop('C16', [], not_covered=[M + 'MapReduce.multiprocess (process pools: the proof is about pools with the contract of map/imap: results in order of the arguments)', M + 'WordCounter (exercised by the bounded search)'],
           assume=['a pool is map-like: pool(f, xs) is the sequence of f(x) in order (multiprocessing.Pool.imap documents this)', 'reducers do not depend on the identity of their arguments (merge_freqs updates its larger argument in place, which is why its frame is part of its contract)'])
