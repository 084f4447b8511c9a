"""C15: a batch is its examples, marked, padded and aligned"""


def load(v):
    M = 'nlcodec.db.batch.'
    v.refclasses['IdExample'] = dict(full=M + 'IdExample', fields={'id': 'int', 'x': 'seq[int]', 'y': 'opt[seq[int]]', 'x_raw': 'opt[str]', 'y_raw': 'opt[str]'})
    v.schemas[M + 'BatchMeta'] = {'pad_idx': 'int', 'bos_idx': 'int', 'eos_idx': 'int', 'add_bos_x': 'bool', 'add_bos_y': 'bool', 'add_eos_x': 'bool', 'add_eos_y': 'bool'}
    v.schemas[M + 'Batch'] = {'meta': 'obj:' + M + 'BatchMeta'}
    v.type_alias['SQ'] = 'seq[int]'
    # a sequence with its markers: present where requested, added only when missing
    v.define('markb', {'s': 'SQ', 'on': 'bool', 'm': 'int'}, 'SQ', 'cat(push(empty("seq[int]"), m), s) if on and at(s, 0) != m else s')
    v.define('marke', {'s': 'SQ', 'on': 'bool', 'm': 'int'}, 'SQ', 'push(s, m) if on and at(s, len(s) - 1) != m else s')
    v.define('bmark', {'s': 'SQ', 'b': 'bool', 'e': 'bool', 'bi': 'int', 'ei': 'int'}, 'SQ', 'marke(markb(s, b, bi), e, ei)')
    v.lemma('bmark_len', {'s': 'SQ', 'b': 'bool', 'e': 'bool', 'bi': 'int', 'ei': 'int'}, requires=['len(s) > 0'], ensures=['len(bmark(s, b, e, bi, ei)) > 0'], auto=['bmark(s, b, e, bi, ei)'])
    v.lemma('bmark_again', {'s': 'SQ', 'b': 'bool', 'e': 'bool', 'bi': 'int', 'ei': 'int'}, requires=['len(s) > 0'],
            ensures=['markb(bmark(s, b, e, bi, ei), b, bi) == bmark(s, b, e, bi, ei)', 'marke(bmark(s, b, e, bi, ei), e, ei) == bmark(s, b, e, bi, ei)'], auto=['bmark(s, b, e, bi, ei)'])
    # the marker that is switched off does not occur at its end
    v.define('clean', {'s': 'SQ', 'b': 'bool', 'e': 'bool', 'bi': 'int', 'ei': 'int'}, 'bool', '(b or at(s, 0) != bi) and (e or at(s, len(s) - 1) != ei)', inline=True)
    OK = 'forall(lambda i: implies(0 <= i and i < len(batch), at(batch, i) is not None), at(batch, i))'
    W = '-2147483648 <= self.meta.{0} and self.meta.{0} < 2147483648'
    for side in 'xy':
        F = f'field("IdExample", "{side}")'
        g = (lambda t: t) if side == 'x' else (lambda t: f'unwrap({t})')
        pres = [] if side == 'x' else ['forall(lambda i: implies(0 <= i and i < len(batch), at(batch, i).y is not None), at(batch, i))']
        mk = f'bmark({g("old(e.%s)" % side)}, bos, eos, self.meta.bos_idx, self.meta.eos_idx)'
        now = g(f'e.{side}')
        v.contract(M + 'Batch.bos_eos_check', label=M + 'Batch.bos_eos_check/' + side, variant=True, params={'batch': 'list[ref:IdExample]', 'side': f'="{side}"', 'bos': 'bool', 'eos': 'bool'},
            requires=[OK, *pres, f'forall(lambda i: implies(0 <= i and i < len(batch), len({g("at(batch, i)." + side)}) > 0 and clean({g("at(batch, i)." + side)}, bos, eos, self.meta.bos_idx, self.meta.eos_idx)), at(batch, i))', W.format('bos_idx'), W.format('eos_idx')],
            modifies=['field:IdExample.' + side], opts={'arrays': True},
            loops={0: dict(inv=[f'forall(lambda e="ref:IdExample": {now} == ({mk} if e in take(_it0, _k) else {g("old(e.%s)" % side)}), e.{side})'] + ([] if side == 'x' else ['forall(lambda e="ref:IdExample": (e.y is None) == old(e.y is None), e.y)']))},
            ensures=[f'forall(lambda e="ref:IdExample": {now} == ({mk} if e in batch else {g("old(e.%s)" % side)}), e.{side})'] + ([] if side == 'x' else ['forall(lambda e="ref:IdExample": (e.y is None) == old(e.y is None), e.y)']))
        v.prop('C15', [M + 'Batch.bos_eos_check/' + side])

    # the matrix: row i is sequence i followed by padding
    v.define('padrow', {'r': 'SQ', 's': 'SQ', 'p': 'int'}, 'bool', 'len(r) >= len(s) and forall(lambda j: implies(0 <= j and j < len(r), at(r, j) == (at(s, j) if j < len(s) else p)), at(r, j))')
    KEEP = 'len(batch) > 0'
    K = M + 'Batch.__init__'
    for has_y in (True, False):
        S = {'x': lambda e: f'{e}.x', 'y': lambda e: f'unwrap({e}.y)'}
        mk = lambda sd, e: f'bmark(old({S[sd](e)}), meta.add_bos_{sd}, meta.add_eos_{sd}, meta.bos_idx, meta.eos_idx)'
        req = [KEEP, OK, W.format('bos_idx').replace('self.', ''), W.format('eos_idx').replace('self.', '')]
        ens = ['len(order) == len(batch)', 'forall(lambda e="ref:IdExample": count(order, e) == count(batch, e), count(order, e))', 'implies(not sort_dec, order == val(batch))',
               'self._len == len(batch)', 'self.has_y == %s' % has_y]
        sides = 'xy' if has_y else 'x'
        for sd in sides:
            if sd == 'y':
                req += ['forall(lambda i: implies(0 <= i and i < len(batch), at(batch, i).y is not None), at(batch, i))']
            req += [f'forall(lambda i: implies(0 <= i and i < len(batch), len({S[sd]("at(batch, i)")}) > 0 and clean({S[sd]("at(batch, i)")}, meta.add_bos_{sd}, meta.add_eos_{sd}, meta.bos_idx, meta.eos_idx)), at(batch, i))']
            ens += [f'len(self.{sd}_len) == len(order)', f'forall(lambda i: implies(0 <= i and i < len(order), at(self.{sd}_len, i) == len({mk(sd, "at(order, i)")})), at(self.{sd}_len, i))',
                    f'self.{sd}_toks == total(self.{sd}_len)',
                    f'forall(lambda i: implies(0 <= i and i < len(order), self.max_{sd}_len >= at(self.{sd}_len, i)), at(self.{sd}_len, i))', f'self.max_{sd}_len in self.{sd}_len',
                    f'implies(batch_first, len(self.{sd}_seqs) == len(order) and forall(lambda i: implies(0 <= i and i < len(order), len(at(self.{sd}_seqs, i)) == self.max_{sd}_len and padrow(at(self.{sd}_seqs, i), {mk(sd, "at(order, i)")}, meta.pad_idx)), at(self.{sd}_seqs, i)))',
                    f'implies(not batch_first, len(self.{sd}_seqs) == self.max_{sd}_len and forall(lambda j: implies(0 <= j and j < self.max_{sd}_len, len(at(self.{sd}_seqs, j)) == len(order)), at(self.{sd}_seqs, j)) '
                    f'and forall(lambda j, i: implies(0 <= j and j < self.max_{sd}_len and 0 <= i and i < len(order), at(at(self.{sd}_seqs, j), i) == (at({mk(sd, "at(order, i)")}, j) if j < len({mk(sd, "at(order, i)")}) else meta.pad_idx)), at(at(self.{sd}_seqs, j), i)))']
        ens += [f'implies(sort_dec, forall(lambda i, j: implies(0 <= i and i < j and j < len(order), len({mk("x", "at(order, i)")}) >= len({mk("x", "at(order, j)")})), (at(order, i), at(order, j))))']
        if not has_y:
            req += ['forall(lambda i: implies(0 <= i and i < len(batch), at(batch, i).y is None), at(batch, i))']
        lp = lambda sd: dict(inv=[f'len(self.{sd}_seqs) == self._len', f'forall(lambda i: implies(0 <= i and i < self._len, len(at(self.{sd}_seqs, i)) == self.max_{sd}_len), at(self.{sd}_seqs, i))',
                                  f'forall(lambda i: implies(0 <= i and i < _k, padrow(at(self.{sd}_seqs, i), {S[sd]("at(batch, i)")}, meta.pad_idx)), at(self.{sd}_seqs, i))',
                                  f'forall(lambda i, j: implies(_k <= i and i < self._len and 0 <= j and j < self.max_{sd}_len, at(at(self.{sd}_seqs, i), j) == meta.pad_idx), at(at(self.{sd}_seqs, i), j))'])
        v.contract(K, label=K + ('/xy' if has_y else '/x'), variant=True, self_ty='obj:' + M + 'Batch', params={'batch': 'list[ref:IdExample]', 'sort_dec': 'bool', 'batch_first': 'bool', 'meta': 'obj:' + M + 'BatchMeta'},
            requires=req, modifies=['field:IdExample.' + sd for sd in sides], opts={'arrays': True, 'noframe': True, 'perm_count': True, 'after': {'first_y': 'assert first_y is %s' % ('not None' if has_y else 'None')}}, loops={0: lp('x'), 1: lp('y')} if has_y else {0: lp('x')}, exit='order = val(batch)', ensures=ens)
        v.prop('C15', [K + ('/xy' if has_y else '/x')])
