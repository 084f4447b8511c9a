"""C11: a record read from a Db is the record that was stored"""

from pyvc.values import LC


def fields_of(eng, cls, names):
    """new fields with the given names (the names are among the postconditions)"""
    out = []
    for x in names:
        o = eng.fresh_value('obj:' + cls, 'fld_' + x)
        c = eng.heap[o.id]
        eng.heap[o.id] = type(c)(c.cls, {**c.fields, 'name': x})
        out.append(o)
    return eng.alloc(LC(items=out))


def load(v):
    M = 'nlcodec.db.core.'
    FITS = '(mn >= -9223372036854775808 and mx <= 9223372036854775807) or (mn >= 0 and mx <= 18446744073709551615)'
    v.contract(M + 'best_dtype', params={'mn': 'int', 'mx': 'int'}, returns='opq:Dtype', requires=['mn <= mx'], opts={'dtypes': True},
               raises={'AssertionError': f'not ({FITS})'}, ensures=['lo(result) <= mn', 'mx <= hi(result)'])
    # some integer type holds all of the numbers
    v.define('signed64', {'s': 'seq[int]'}, 'bool', 'forall(lambda i: implies(0 <= i and i < len(s), -9223372036854775808 <= at(s, i) and at(s, i) <= 9223372036854775807), at(s, i))')
    v.define('unsigned64', {'s': 'seq[int]'}, 'bool', 'forall(lambda i: implies(0 <= i and i < len(s), 0 <= at(s, i) and at(s, i) <= 18446744073709551615), at(s, i))')
    v.define('holdable', {'s': 'seq[int]'}, 'bool', 'signed64(s) or unsigned64(s)', inline=True)
    B = M + 'SeqField.Builder.'
    v.schemas[M + 'SeqField.Builder'] = {'name': 'str', 'ids': 'dict[int,int]', 'frozen': 'array[int]', 'buffer': 'list[int]', 'refs': 'list[seq[int]]', 'max_len': 'int', 'buf_size': 'real'}
    FLAT = 'cat(val(self.frozen), val(self.buffer))'
    v.contract(B + 'shrink', params={}, requires=[f'holdable({FLAT})'], modifies=['self.frozen', 'self.buffer'], opts={'dtypes': True},
               ensures=[f'val(self.frozen) == old({FLAT})', 'len(self.buffer) == 0'])
    # consistent references into the stored numbers
    INV = ['forall(lambda r: implies(0 <= r and r < len(self.refs), len(at(self.refs, r)) == 2 and 0 <= at(self.refs, r)[0] and 0 <= at(self.refs, r)[1] and at(self.refs, r)[0] + at(self.refs, r)[1] <= len(self.frozen) + len(self.buffer) and at(self.refs, r)[1] <= self.max_len), at(self.refs, r))',
           'forall(lambda k: implies(k in self.ids, 0 <= self.ids[k] and self.ids[k] < len(self.refs)), k in self.ids)', '0 <= self.max_len', 'self.max_len <= len(self.frozen) + len(self.buffer)']
    v.contract(B + 'append', params={'id': 'int', 'arr': 'seq[int]'}, returns='self', requires=[f'holdable(cat({FLAT}, arr))', *INV], modifies=['self.ids', 'self.frozen', 'self.buffer', 'self.refs', 'self.max_len'], opts={'dtypes': True},
               ensures=[f'{FLAT} == cat(old({FLAT}), arr)', 'val(self.refs) == push(old(val(self.refs)), [len(old(val(self.frozen))) + len(old(val(self.buffer))), len(arr)])',
                        'forall(lambda k: (k in self.ids) == (k in old(val(self.ids)) or k == id), k in self.ids)', 'len(self.ids) == old(len(self.ids)) + (0 if id in old(val(self.ids)) else 1)', 'forall(lambda k: implies(k in self.ids, self.ids[k] == (len(old(val(self.refs))) if k == id else get(old(val(self.ids)), k))), self.ids[k])', *INV])
    v.prop('C11', [M + 'best_dtype', B + 'shrink', B + 'append'])
    # the array read for an index
    v.define('stored', {'refs': 'seq[seq[int]]', 'data': 'seq[int]', 'k': 'int', 'a': 'seq[int]'}, 'bool',
             '0 <= at(at(refs, k), 0) and at(at(refs, k), 1) == len(a) and at(at(refs, k), 0) + len(a) <= len(data) and forall(lambda j: implies(0 <= j and j < len(a), at(data, at(at(refs, k), 0) + j) == at(a, j)), at(a, j))')
    SF = M + 'SeqField'
    v.schemas[SF] = {'name': 'str', 'ids': 'dict[int,int]', 'refs': 'array[seq[int]]', 'data': 'array[int]'}
    ROWS = lambda refs, data: f'forall(lambda r: implies(0 <= r and r < len({refs}), len(at({refs}, r)) == 2 and 0 <= at({refs}, r)[0] and 0 <= at({refs}, r)[1] and at({refs}, r)[0] + at({refs}, r)[1] <= len({data})), at({refs}, r))'
    IDS = lambda ids, refs: f'forall(lambda k: implies(k in {ids}, 0 <= {ids}[k] and {ids}[k] < len({refs})), k in {ids})'
    GOOD = lambda s: [ROWS(f'{s}.refs', f'{s}.data'), IDS(f'{s}.ids', f'{s}.refs'), f'len({s}.data) <= hi(dtype({s}.refs))', f'lo(dtype({s}.refs)) <= 0']
    v.contract(SF + '.__getitem__', params={'item': 'int'}, returns='array[int]', requires=GOOD('self'), raises={'KeyError': 'not item in self.ids'}, opts={'dtypes': True},
               ensures=['stored(val(self.refs), val(self.data), self.ids[item], val(result))'])
    v.contract(B + 'build', params={}, returns='obj:' + SF, modifies=['self.frozen', 'self.buffer'], opts={'dtypes': True},
               requires=[f'holdable({FLAT})', *INV, 'len(self.refs) > 0'], raises={'AssertionError': 'len(self.ids) != len(self.refs)'}, assume_entry=[f'len({FLAT}) < 9223372036854775808'],
               ensures=['result.name == self.name', 'val(result.ids) == val(self.ids)', 'val(result.refs) == val(self.refs)', f'val(result.data) == old({FLAT})', *GOOD('result')])
    v.prop('C11', [SF + '.__getitem__', B + 'build'])

    # records of one or two fields (the number of fields is fixed in these contracts; records, their number and their values are not)
    for n in (1, 2):
        names = ['x', 'y'][:n]
        RT = 'tuple[int,tuple[' + ','.join(['seq[int]'] * n) + ']]'
        col = lambda r, c: f'{r}[1][{c}]'
        ALL = lambda kind, s, c: f'forall(lambda r: implies(0 <= r and r < len({s}), {kind}({col(f"at({s}, r)", c)})), at({s}, r))'
        inv, ens, exitg = [], [f'len(result) == {n}'], []
        for c in range(n):
            b = f'builders[{c}]'
            flat = f'cat(val({b}.frozen), val({b}.buffer))'
            inv += [x.replace('self.', b + '.') for x in INV] + [f'{b}.name == "{names[c]}"', f'len({b}.refs) == _k', f'len({b}.ids) <= _k', f'(len({b}.ids) == _k) == ids_distinct{n}(_it0, _k)',
                    f'implies({ALL("signed64", "_it0", c)}, signed64({flat}))', f'implies({ALL("unsigned64", "_it0", c)}, unsigned64({flat}))',
                    f'forall(lambda r: implies(0 <= r and r < _k, at(_it0, r)[0] in {b}.ids and implies(ids_distinct{n}(_it0, _k), {b}.ids[at(_it0, r)[0]] == r)), at(_it0, r))',
                    f'forall(lambda k: implies(k in {b}.ids, 0 <= {b}.ids[k] and {b}.ids[k] < _k and at(_it0, {b}.ids[k])[0] == k), k in {b}.ids)',
                    f'forall(lambda r: implies(0 <= r and r < _k, stored(val({b}.refs), {flat}, r, {col("at(_it0, r)", c)})), at(_it0, r))']
            f = f'result[{c}]'
            ens += [f'{f}.name == "{names[c]}"', f'len({f}.ids) == len(old(val(recs)))', *GOOD(f),
                    f'forall(lambda r: implies(0 <= r and r < len(old(val(recs))), at(old(val(recs)), r)[0] in {f}.ids and {f}.ids[at(old(val(recs)), r)[0]] == r), at(old(val(recs)), r))',
                    f'forall(lambda k: implies(k in {f}.ids, 0 <= {f}.ids[k] and {f}.ids[k] < len(old(val(recs))) and at(old(val(recs)), {f}.ids[k])[0] == k), k in {f}.ids)',
                    f'forall(lambda r: implies(0 <= r and r < len(old(val(recs))), stored(val({f}.refs), val({f}.data), r, {col("at(old(val(recs)), r)", c)})), at(old(val(recs)), r))']
        v.define(f'ids_distinct{n}', {'s': f'seq[{RT}]', 'k': 'int'}, 'bool', 'forall(lambda i, j: implies(0 <= i and i < j and j < k, at(s, i)[0] != at(s, j)[0]), (at(s, i), at(s, j)))')
        REQ = ['len(val(recs)) > 0']
        REQ += [f'{ALL("signed64", "val(recs)", c)} or {ALL("unsigned64", "val(recs)", c)}' for c in range(n)]
        K = SF + '.create_many'
        v.contract(K, label=f'{K}/{n}', variant=True, self_ty='class:' + SF, returns=lambda eng, fr, names=names: fields_of(eng, SF, names), params={'names': f'={names}', 'recs': f'iter[{RT}]'}, opts={'dtypes': True}, requires=REQ, raises={'AssertionError': f'not ids_distinct{n}(val(recs), len(val(recs)))'}, loops={0: dict(inv=inv)}, ensures=ens)
        v.prop('C11', [f'{K}/{n}'])

    D = M + 'Db'
    EX = 'nlcodec.db.batch.IdExample'
    v.contract(EX + '.__init__', self_ty='obj:' + EX, params={'id': 'int', 'x': 'seq[int]', 'y': 'seq[int]'}, ensures=['self.id == id', 'self.x == x', 'self.y == y'], opts={'noframe': True})
    for n in (1, 2):
        names = ['x', 'y'][:n]
        v.schemas[f'abs:db{n}'] = {'field_names': f'={names}', 'fields': 'items[' + ','.join(f'{x}=obj:{SF}' for x in names) + ']', 'ids': 'set[int]', '_len': 'int', 'shuffle': 'bool', '_rec_type': '=None'}
        v.schemas[f'abs:db{n}t'] = {**v.schemas[f'abs:db{n}'], '_rec_type': 'opq:RecType'}     # with a class of records given when loaded
        RT = 'tuple[int,tuple[' + ','.join(['seq[int]'] * n) + ']]'
        OT = 'tuple[int,' + ','.join(['seq[int]'] * n) + ']'
        good = lambda s: [y for x in names for y in GOOD(f'{s}.fields["{x}"]') + [f'forall(lambda k: (k in {s}.ids) == (k in {s}.fields["{x}"].ids), k in {s}.ids)']]
        rec = lambda s, k, t: ' and '.join(f'stored(val({s}.fields["{x}"].refs), val({s}.fields["{x}"].data), {s}.fields["{x}"].ids[{k}], {t}[{c + 1}])' for c, x in enumerate(names))
        for ty, S, more in (('', f'abs:{D}/db{n}', []), ('/typed', f'abs:{D}/db{n}t', [f'nfields(self._rec_type) == {n + 1}'])):
            v.contract(D + '.__getitem__', label=f'{D}.__getitem__/{n}{ty}', variant=True, self_ty=S, params={'_id': 'int'}, returns=OT, requires=good('self') + more, raises={'KeyError': 'not _id in self.ids'}, opts={'dtypes': True, 'noframe': True},
                       ensures=['result[0] == _id', rec('self', '_id', 'result')])
            v.contract(D + '.__iter__', label=f'{D}.__iter__/{n}{ty}', variant=True, self_ty=S, returns=f'iter[{OT}]', requires=good('self') + more, opts={'dtypes': True, 'noframe': True, 'calls': {D + '.__getitem__': f'{D}.__getitem__/{n}{ty}'}, 'types': {'_out': f'list[{OT}]'}},
                       loops={0: dict(inv=['len(_out) == _k', '[r[0] for r in _out] == take(_it0, _k)', f'forall(lambda i: implies(0 <= i and i < _k, at(_out, i)[0] == at(_it0, i) and {rec("self", "at(_it0, i)", "at(_out, i)")}), at(_out, i), at(_it0, i))'])},
                       ensures=[f'forall(lambda i: implies(0 <= i and i < len(val(result)), at(val(result), i)[0] in self.ids and {rec("self", "at(val(result), i)[0]", "at(val(result), i)")}), at(val(result), i))',
                                'forall(lambda i, j: implies(0 <= i and i < j and j < len(val(result)), at(val(result), i)[0] != at(val(result), j)[0]), (at(val(result), i), at(val(result), j)))',
                                'forall(lambda k: implies(k in self.ids, k in [r[0] for r in val(result)]), k in self.ids)'])
            v.prop('C11', [f'{D}.__getitem__/{n}{ty}', f'{D}.__iter__/{n}{ty}'])
    v.prop('C11', [EX + '.__init__'])

    for n in (1, 2):
        names = ['x', 'y'][:n]
        CT = 'tuple[' + ','.join(['seq[int]'] * n) + ']'
        for has_id in (True, False):
            RT = f'tuple[int,{CT}]' if has_id else CT
            col = lambda r, c: f'{r}[1][{c}]' if has_id else f'{r}[{c}]'
            R = 'old(val(recs))'
            ident = (lambda r: f'at({R}, {r})[0]') if has_id else (lambda r: r)
            req = ['len(val(recs)) > 0']
            al = lambda kind, c: f'forall(lambda r: implies(0 <= r and r < len(val(recs)), {kind}({col("at(val(recs), r)", c)})), at(val(recs), r))'
            req += [f'{al("signed64", c)} or {al("unsigned64", c)}' for c in range(n)]
            good = [y for x in names for y in GOOD(f'result.fields["{x}"]') + [f'forall(lambda k: (k in result.ids) == (k in result.fields["{x}"].ids), k in result.ids)']]
            ens = ['result._len == len(old(val(recs)))', *good]
            ens += [f'forall(lambda k: implies(k in result.ids, exists(lambda r: 0 <= r and r < len({R}) and {ident("r")} == k, at({R}, r))), k in result.ids)']
            ens += [f'forall(lambda r: implies(0 <= r and r < len({R}), {ident("r")} in result.ids and stored(val(result.fields["{x}"].refs), val(result.fields["{x}"].data), result.fields["{x}"].ids[{ident("r")}], {col(f"at({R}, r)", c)})), at({R}, r))' for c, x in enumerate(names)]
            v.contract(D + '.create', label=f'{D}.create/{n}' + ('' if has_id else '/enumerated'), variant=True, self_ty='class:' + D, returns=f'abs:{D}/db{n}', params={'recs': f'iter[{RT}]', 'field_names': f'={names}', 'has_id': f'={has_id}', 'path': '=None'},
                       requires=req, raises={'AssertionError': f'not ids_distinct{n}(val(recs), len(val(recs)))'} if has_id else {}, opts={'dtypes': True}, ensures=ens)
            v.prop('C11', [f'{D}.create/{n}' + ('' if has_id else '/enumerated')])
    v.prop('C11', [], assume=['a shuffle (random.shuffle) is an arbitrary permutation', 'fewer than 2^63 numbers are stored in a field'],
           not_covered=['number of fields other than one and two (the contracts of create_many and of Db fix it; records, their number and their values are not bounded)', 'Db.save and Db.load (pickle): exercised by the bounded search', 'a database of no records (its creation is refused)'])
