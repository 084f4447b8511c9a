"""C14: batches partition the usable records and respect the limits"""


def load(v):
    M = 'nlcodec.db.batch.'
    # an example as it is stored: its two sequences (marking happens inside Batch: C15)
    v.recclasses['IdEx'] = dict(full=M + 'IdExample', fields={'id': 'int', 'x': 'seq[int]', 'y': 'seq[int]'})
    v.type_alias['EXS'] = 'seq[rec:IdEx]'
    v.ctor_views[M + 'Batch'] = dict(requires=['len(batch) > 0', 'meta is not None'], value='val(batch)')
    v.define('longer', {'e': 'rec:IdEx'}, 'int', 'len(e.x) if len(e.x) >= len(e.y) else len(e.y)', inline=True)
    v.define('usable', {'e': 'rec:IdEx'}, 'bool', 'len(e.x) > 0 and len(e.y) > 0', inline=True)
    # the usable examples among the first n
    v.define('goods', {'s': 'EXS', 'n': 'int'}, 'EXS', 'empty("seq[rec:IdEx]") if n <= 0 else (push(goods(s, n - 1), at(s, n - 1)) if usable(at(s, n - 1)) else goods(s, n - 1))', rec=True)
    FIT = lambda b: f'len({b}) > 0 and len({b}) <= self.max_sents and forall(lambda e: implies(0 <= e and e < len({b}), usable(at({b}, e)) and len({b}) * longer(at({b}, e)) <= self.max_toks), at({b}, e))'
    v.define('fits', {'b': 'EXS', 'toks': 'int', 'sents': 'real'}, 'bool', FIT('b').replace('self.max_sents', 'sents').replace('self.max_toks', 'toks'))
    LONG = lambda n: f'exists(lambda k: 0 <= k and k < {n} and usable(at(D, k)) and longer(at(D, k)) > self.max_toks, at(D, k))'
    # a limit on the number of records, or none (a real number above the number of records stands for float('inf'))
    for lab, ty, extra in (('sents', 'int', []), ('inf', 'real', ['self.max_sents > len(val(self.data))'])):
        v.schemas['abs:batches_' + lab] = {'data': 'iter[rec:IdEx]', 'max_toks': 'int', 'max_sents': ty, 'sort_desc': 'bool', 'batch_first': 'bool', 'batch_meta': 'opq:Meta'}
        v.contract(M + 'BatchIterable.read_all', label=M + 'BatchIterable.read_all/' + lab, variant=True, self_ty='abs:' + M + 'BatchIterable/batches_' + lab, params={}, returns='iter[seq[rec:IdEx]]',
            requires=['self.max_sents >= 1', *extra], modifies=['self.data'],
            raises={'Exception': LONG('len(D)').replace('D', 'val(self.data)')},
            opts={'types': {'batch': 'list[rec:IdEx]', '_out': 'list[seq[rec:IdEx]]'}},
            loops={0: dict(inv=['cat([e for b in _out for e in b], batch) == goods(_it0, _k)',
                                'forall(lambda i: implies(0 <= i and i < len(_out), fits(at(_out, i), self.max_toks, self.max_sents)), at(_out, i))',
                                'len(batch) <= self.max_sents', 'len(batch) <= _k', 'max_len >= 0', 'len(batch) * max_len <= self.max_toks or len(batch) == 0',
                                'implies(len(batch) == 0, max_len == 0)',
                                'forall(lambda e: implies(0 <= e and e < len(batch), usable(at(batch, e)) and longer(at(batch, e)) <= max_len), at(batch, e))',
                                'not ' + LONG('_k').replace('D', '_it0')])},
            ensures=['[e for b in val(result) for e in b] == goods(old(val(self.data)), len(old(val(self.data))))',
                     'forall(lambda i: implies(0 <= i and i < len(val(result)), fits(at(val(result), i), self.max_toks, self.max_sents)), at(val(result), i))'])
        v.prop('C14', [M + 'BatchIterable.read_all/' + lab])

    # batches of records of equal length
    D = 'nlcodec.db.core.Db'
    # the record of an id (C11)
    v.define('dbrec', {'i': 'int'}, 'rec:IdEx')
    v.axiom('dbrec', 'forall(lambda i="int": dbrec(i).id == i, dbrec(i))', ['dbrec'], 'a record read from a database carries the id it was asked for (Db.__getitem__)')
    v.define('xlen', {'i': 'int'}, 'int', 'len(dbrec(i).x)')
    v.define('ylen', {'i': 'int'}, 'int', 'len(dbrec(i).y)')
    v.define('reclen', {'i': 'int'}, 'int', 'xlen(i) if xlen(i) >= ylen(i) else ylen(i)')
    v.define('okrec', {'i': 'int'}, 'bool', 'xlen(i) > 0 and ylen(i) > 0')
    for s in 'xy':
        v.schemas['abs:field_' + s] = {'get_len': f'fn:{s}len'}
    v.schemas['abs:pairdb'] = {'fields': f'items[x=abs:{D[:-2]}SeqField/field_x,y=abs:{D[:-2]}SeqField/field_y]', 'ids': 'set[int]', '__getitem__': 'fn:dbrec'}
    v.type_alias['IDS'] = 'seq[seq[int]]'
    v.define('fitids', {'b': 'seq[int]', 'toks': 'int', 'sents': 'real'}, 'bool', 'len(b) > 0 and len(b) <= sents and forall(lambda e: implies(0 <= e and e < len(b), okrec(at(b, e)) and len(b) * reclen(at(b, e)) <= toks), at(b, e))')
    v.define('distinct', {'b': 'seq[int]'}, 'bool', 'forall(lambda i, j: implies(0 <= i and i < j and j < len(b), at(b, i) != at(b, j)), (at(b, i), at(b, j)))')
    v.lemma('grows', {'n': 'int', 'm': 'int'}, requires=['n >= 0', 'm >= 0'], ensures=['m <= (n + 1) * m'])
    v.define('inbatch', {'B': 'IDS', 'x': 'int'}, 'bool', 'exists(lambda b: 0 <= b and b < len(B) and x in at(B, b), x in at(B, b))')
    v.lemma('inbatch_push', {'B': 'IDS', 'c': 'seq[int]', 'x': 'int'}, ensures=['inbatch(push(B, c), x) == (inbatch(B, x) or x in c)'], body="""
hint(at(push(B, c), len(B)))
assert forall(lambda b: implies(0 <= b and b < len(B), at(push(B, c), b) == at(B, b)), at(B, b))
""", auto=['inbatch(push(B, c), x)'])
    v.lemma('mulle', {'n': 'int', 'a': 'int', 'b': 'int'}, requires=['n >= 0', 'a <= b'], ensures=['n * a <= n * b'])
    COL = 'take([r[0] for r in _it1], _k)'
    for lab, ty, extra in (('sents', 'int', []), ('inf', 'real', ['max_sents > len(self.ids)'])):
        v.contract(D + '._make_eq_len_batch_ids', label=D + '._make_eq_len_batch_ids/' + lab, variant=True, self_ty=f'abs:{D}/pairdb', params={'max_toks': 'int', 'max_sents': ty, 'min_len': '=1'}, returns='list[seq[int]]',
            requires=['max_sents >= 1', 'exists(lambda i: i in self.ids and okrec(i), i in self.ids)', *extra],
            raises={'Exception': 'exists(lambda i: i in self.ids and okrec(i) and reclen(i) > max_toks, i in self.ids)'},
            opts={'types': {'rows': 'list[tuple[int,int]]', 'batches': 'list[seq[int]]', 'batch': 'list[int]', 'skip_counter': 'defaultdict[str,int]'}},
            loops={0: dict(inv=['len(rows) <= _k', 'forall(lambda r: implies(0 <= r and r < len(rows), at(rows, r)[0] in take(_it0, _k) and okrec(at(rows, r)[0]) and at(rows, r)[1] == reclen(at(rows, r)[0])), at(rows, r))',
                                'forall(lambda i, j: implies(0 <= i and i < j and j < len(rows), at(rows, i)[0] != at(rows, j)[0]), (at(rows, i), at(rows, j)))',
                                'forall(lambda j: implies(0 <= j and j < _k and okrec(at(_it0, j)), (at(_it0, j), reclen(at(_it0, j))) in rows), at(_it0, j))']),
                   1: dict(start="""
assert not at(_it1, _k)[0] in take([r[0] for r in _it1], _k)
use('grows', len(batch), max(max_len, at(_it1, _k)[1]))
assert forall(lambda i: implies(0 <= i and i < len(batch), at(batch, i) in batch), at(batch, i))
assert forall(lambda i: implies(0 <= i and i < len(batch), at(batch, i) != at(_it1, _k)[0]), at(batch, i))
assert forall(lambda b: implies(0 <= b and b < len(batches), not at(_it1, _k)[0] in at(batches, b)), at(batches, b))
useall(lambda i: use('mulle', len(batch), reclen(at(batch, i)), max_len), at(batch, i))
assert forall(lambda i: implies(0 <= i and i < len(batch), len(batch) * reclen(at(batch, i)) <= max_toks), at(batch, i))
""", end="""
assert implies(len(at_head(val(batch))) > 0, fitids(at_head(val(batch)), max_toks, max_sents) and distinct(at_head(val(batch))))
assert forall(lambda b: implies(0 <= b and b < len(at_head(val(batches))), at(batches, b) == at(at_head(val(batches)), b)), at(at_head(val(batches)), b))
assert implies(len(batches) > len(at_head(val(batches))), at(batches, len(at_head(val(batches)))) == at_head(val(batch)))
hint(at(batches, len(at_head(val(batches)))))
""", exit="""
bs = val(batches)
assert implies(len(batch) > 0, fitids(val(batch), max_toks, max_sents) and distinct(val(batch)))
useall(lambda i: use('mulle', len(batch), reclen(at(batch, i)), max_len), at(batch, i))
assert forall(lambda x: implies(x in self.ids and okrec(x), x in batch or inbatch(batches, x)), x in self.ids)
""", inv=['len(batch) <= max_sents', 'len(batch) <= _k', 'max_len >= 0',
                                'len(batch) * max_len <= max_toks or len(batch) == 0', 'implies(len(batch) == 0, max_len == 0)', 'implies(_k > 0, len(batch) > 0)',
                                'forall(lambda r: implies(0 <= r and r < len(_it1), at(_it1, r)[0] in self.ids and okrec(at(_it1, r)[0]) and at(_it1, r)[1] == reclen(at(_it1, r)[0])), at(_it1, r))',
                                'forall(lambda i, j: implies(0 <= i and i < j and j < len(_it1), at(_it1, i)[0] != at(_it1, j)[0]), (at(_it1, i), at(_it1, j)))',
                                'forall(lambda x: implies(x in self.ids and okrec(x), (x, reclen(x)) in _it1), x in self.ids)',
                                'forall(lambda r: implies(0 <= r and r < _k, at(_it1, r)[1] <= max_toks), at(_it1, r))',
                                'forall(lambda e: implies(0 <= e and e < len(batch), okrec(at(batch, e)) and reclen(at(batch, e)) <= max_len), at(batch, e))',
                                'distinct(batch)',
                                'forall(lambda b: implies(0 <= b and b < len(batches), fitids(at(batches, b), max_toks, max_sents) and distinct(at(batches, b))), at(batches, b))',
                                f'forall(lambda x: implies(x in batch, x in {COL}), x in batch)',
                                f'forall(lambda b, x: implies(0 <= b and b < len(batches) and x in at(batches, b), x in {COL}), x in at(batches, b))',
                                'forall(lambda b, x: implies(0 <= b and b < len(batches) and x in at(batches, b), not x in batch), x in at(batches, b))',
                                'forall(lambda a, b, x: implies(0 <= a and a < b and b < len(batches) and x in at(batches, a), not x in at(batches, b)), (x in at(batches, a), x in at(batches, b)))',
                                'forall(lambda r: implies(0 <= r and r < _k, at(_it1, r)[0] in batch or inbatch(batches, at(_it1, r)[0])), at(_it1, r))'])},
            exit="""
assert forall(lambda b: implies(0 <= b and b < len(bs), at(batches, b) == at(bs, b)), at(bs, b))
assert implies(len(batches) > len(bs), at(batches, len(bs)) == val(batch))
""",
            ensures=['forall(lambda b: implies(0 <= b and b < len(result), fitids(at(result, b), max_toks, max_sents) and distinct(at(result, b))), at(result, b))',
                     'forall(lambda b, x: implies(0 <= b and b < len(result) and x in at(result, b), x in self.ids and okrec(x)), x in at(result, b))',
                     'forall(lambda a, b, x: implies(0 <= a and a < b and b < len(result) and x in at(result, a), not x in at(result, b)), (x in at(result, a), x in at(result, b)))',
                     'forall(lambda x: implies(x in self.ids and okrec(x), inbatch(result, x)), x in self.ids)'])
        v.prop('C14', [D + '._make_eq_len_batch_ids/' + lab])

    v.type_alias['OUTS'] = 'seq[seq[rec:IdEx]]'
    v.defseq('recs', {'b': 'seq[int]'}, 'seq[rec:IdEx]', 'len(b)', 'dbrec(at(b, i))')
    v.lemma('recs_mem', {'b': 'seq[int]', 'e': 'rec:IdEx'}, ensures=['(e in recs(b)) == (e.id in b and e == dbrec(e.id))'], auto=['e in recs(b)'], body="""
assert forall(lambda i: implies(0 <= i and i < len(b), at(recs(b), i) == dbrec(at(b, i))), at(b, i))
""")
    v.lemma('recs_fit', {'b': 'seq[int]', 't': 'int', 's': 'real'}, requires=['fitids(b, t, s)'], ensures=['fits(recs(b), t, s)'], auto=[('fitids(b, t, s)', 'recs(b)')])
    v.define('inout', {'B': 'OUTS', 'e': 'rec:IdEx'}, 'bool', 'exists(lambda b: 0 <= b and b < len(B) and e in at(B, b), e in at(B, b))')
    v.define('allrecs', {'O': 'OUTS', 'B': 'IDS'}, 'bool', 'len(O) == len(B) and forall(lambda b: implies(0 <= b and b < len(B), at(O, b) == recs(at(B, b))), at(O, b), at(B, b))')
    v.lemma('inout_recs', {'O': 'OUTS', 'B': 'IDS', 'x': 'int'}, requires=['allrecs(O, B)', 'inbatch(B, x)'], ensures=['inout(O, dbrec(x))'])
    for lab, ty, extra in (('sents', 'int', []), ('inf', 'real', ['max_sents > len(self.ids)'])):
        K = D + '.make_eq_len_ran_batches'
        v.contract(K, label=K + '/' + lab, variant=True, self_ty=f'abs:{D}/pairdb', params={'max_toks': 'int', 'max_sents': ty}, returns='iter[seq[rec:IdEx]]',
            requires=['max_sents >= 1', 'exists(lambda i: i in self.ids and okrec(i), i in self.ids)', *extra],
            raises={'Exception': 'exists(lambda i: i in self.ids and okrec(i) and reclen(i) > max_toks, i in self.ids)'},
            opts={'types': {'_out': 'list[seq[rec:IdEx]]'}, 'calls': {D + '._make_eq_len_batch_ids': D + '._make_eq_len_batch_ids/' + lab}},
            loops={0: dict(inv=['len(_out) == _k', 'forall(lambda b: implies(0 <= b and b < _k, at(_out, b) == recs(at(_it0, b))), at(_out, b), at(_it0, b))'], exit="""
assert allrecs(_out, val(batches))
assert forall(lambda x: implies(x in self.ids and okrec(x), inbatch(val(batches), x)), x in self.ids)
useall(lambda x: use('inout_recs', _out, val(batches), x), x in self.ids)
""")},
            ensures=['forall(lambda b: implies(0 <= b and b < len(val(result)), fits(at(val(result), b), max_toks, max_sents)), at(val(result), b))',
                     'forall(lambda b, e="rec:IdEx": implies(0 <= b and b < len(val(result)) and e in at(val(result), b), e.id in self.ids and usable(e) and e == dbrec(e.id)), e in at(val(result), b))',
                     'forall(lambda a, b, e="rec:IdEx": implies(0 <= a and a < b and b < len(val(result)) and e in at(val(result), a), not e in at(val(result), b)), (e in at(val(result), a), e in at(val(result), b)))',
                     'forall(lambda b, i, j: implies(0 <= b and b < len(val(result)) and 0 <= i and i < j and j < len(at(val(result), b)), at(at(val(result), b), i) != at(at(val(result), b), j)), (at(at(val(result), b), i), at(at(val(result), b), j)))',
                     'forall(lambda x: implies(x in self.ids and okrec(x), inout(val(result), dbrec(x))), x in self.ids)'])
        v.prop('C14', [K + '/' + lab])

    # the iterator a training loop uses
    EQ = [x for x in v.variants[D + '.make_eq_len_ran_batches/sents'].ensures]
    for lab, ty, extra in (('sents', 'int', []), ('inf', 'real', ['self.max_sents > len(self.data.ids)'])):
        fix = lambda x: x.replace('self.ids', 'self.data.ids').replace('max_toks', 'self.max_toks').replace('max_sents', 'self.max_sents')
        v.schemas['abs:eqbatches_' + lab] = {'data': f'abs:{D}/pairdb', 'max_toks': 'int', 'max_sents': ty, 'sort_desc': 'bool', 'batch_first': 'bool', 'batch_meta': 'opq:Meta', 'sort_by': '="eq_len_rand_batch"'}
        v.schemas['abs:seqbatches_' + lab] = dict(v.schemas['abs:batches_' + lab], sort_by='=None')
        K = M + 'BatchIterable.__iter__'
        H = M + 'BatchIterable.make_eq_len_ran_batches'
        req = dict(requires=['self.max_sents >= 1', 'exists(lambda i: i in self.data.ids and okrec(i), i in self.data.ids)', *extra],
            raises={'Exception': 'exists(lambda i: i in self.data.ids and okrec(i) and reclen(i) > self.max_toks, i in self.data.ids)'}, ensures=[fix(x) for x in EQ], returns='iter[seq[rec:IdEx]]')
        v.contract(H, label=H + '/' + lab, variant=True, self_ty=f'abs:{M}BatchIterable/eqbatches_{lab}',
            opts={'types': {'_out': 'list[seq[rec:IdEx]]'}, 'calls': {D + '.make_eq_len_ran_batches': D + '.make_eq_len_ran_batches/' + lab}},
            loops={0: dict(inv=['_out == take(_it0, _k)'], init='B0 = val(batches)', exit='assert take(B0, len(B0)) == B0')}, **req)
        v.contract(K, label=K + '/eq_' + lab, variant=True, self_ty=f'abs:{M}BatchIterable/eqbatches_{lab}', opts={'calls': {H: H + '/' + lab}}, **req)
        c = v.variants[M + 'BatchIterable.read_all/' + lab]
        v.contract(K, label=K + '/seq_' + lab, variant=True, self_ty=f'abs:{M}BatchIterable/seqbatches_{lab}', returns='iter[seq[rec:IdEx]]', modifies=['self.data'],
            requires=list(c.requires), raises=dict(c.raises), opts={'calls': {M + 'BatchIterable.read_all': M + 'BatchIterable.read_all/' + lab}}, ensures=list(c.ensures))
        v.prop('C14', [H + '/' + lab, K + '/eq_' + lab, K + '/seq_' + lab])
    v.prop('C14', [], assume=['examples are distinct objects: marking one (Batch, C15) does not change another', 'numpy integers are treated as mathematical integers'],
           not_covered=['MultipartDb.make_eq_len_ran_batches (parts read from files, each under the contract of Db.make_eq_len_ran_batches) and BatchIterable.__init__: exercised by the bounded search'])
