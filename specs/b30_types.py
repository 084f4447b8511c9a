"""C10: alternative splits of a type. Also the sequence facts the codec needs"""


def load(v):
    v.schemas['nlcodec.codec.EncoderScheme'] = {'vocab_size': 'int', 'table': 'list[rec:Type]', 'idx_to_str': 'list[str]', 'str_to_idx': 'dict[str,int]', 'invertible': 'bool', 'unk_idx': 'int'}
    v.schemas['nlcodec.codec.BPEScheme'] = {'root': 'ref:TrNode'}
    v.type_alias['TAB'] = 'seq[rec:Type]'
    v.defseq('names', {'t': 'TAB', 'ids': 'seq[int]'}, 'seq[str]', 'len(ids)', 'at(t, at(ids, i)).name')
    v.lemma('names_push', {'t': 'TAB', 'r': 'seq[int]', 'x': 'int'}, ensures=['names(t, push(r, x)) == push(names(t, r), at(t, x).name)'],
            body='ext(names(t, push(r, x)), push(names(t, r), at(t, x).name))', auto=['names(t, push(r, x))'])
    v.lemma('names_app', {'t': 'TAB', 'r': 'seq[int]', 'q': 'seq[int]'}, ensures=['names(t, cat(r, q)) == cat(names(t, r), names(t, q))'],
            body='ext(names(t, cat(r, q)), cat(names(t, r), names(t, q)))', auto=['names(t, cat(r, q))'])
    v.define('joined', {'s': 'seq[str]'}, 'str', '"".join(s)', inline=True)
    v.lemma('joined_app', {'s': 'seq[str]', 't': 'seq[str]'}, ensures=['joined(cat(s, t)) == cat(joined(s), joined(t))'],
            decreases='len(t)', body='''
if len(t) > 0:
    last(t)
    use('joined_app', s, take(t, len(t) - 1))
''', auto=['joined(cat(s, t))'])
    v.lemma('joined_one', {'x': 'str'}, ensures=['joined(push(empty("seq[str]"), x)) == x'], body='ext(joined(push(empty("seq[str]"), x)), x)')

    # types are finite values: their parts are shallower
    v.define('depth', {'t': 'rec:Type'}, 'int')
    v.axiom('depth', 'forall(lambda t="rec:Type": 0 <= depth(t), depth(t)) and forall(lambda t="rec:Type", i="int": implies(t.kids is not None and 0 <= i and i < len(unwrap(t.kids)), depth(at(unwrap(t.kids), i)) < depth(t)), (depth(t), at(unwrap(t.kids), i)))',
            ['depth'], 'immutable records are finite: the parts of a type have a smaller depth')
    # merged types have two parts and are named by their concatenation
    KIDS = 't.kids is not None and len(unwrap(t.kids)) > 0'
    v.define('wft', {'t': 'rec:Type'}, 'bool',
             f'len(unwrap(t.kids)) == 2 and t.name == cat(at(unwrap(t.kids), 0).name, at(unwrap(t.kids), 1).name) and wft(at(unwrap(t.kids), 0)) and wft(at(unwrap(t.kids), 1)) if {KIDS} else True', rec=True)
    # the table holds the type and all the types it is built from, each at its index
    v.define('intab', {'t': 'rec:Type', 'T': 'TAB'}, 'bool',
             f'0 <= t.idx and t.idx < len(T) and at(T, t.idx) == t and (intab(at(unwrap(t.kids), 0), T) and intab(at(unwrap(t.kids), 1), T) if {KIDS} else True)', rec=True)
    # u is the type or one of the types it is built from
    v.define('built', {'t': 'rec:Type', 'u': 'rec:Type'}, 'bool', f't == u or ({KIDS} and (built(at(unwrap(t.kids), 0), u) or built(at(unwrap(t.kids), 1), u)))', rec=True)
    v.define('partid', {'t': 'rec:Type', 'x': 'int'}, 'bool', f't.idx == x or ({KIDS} and (partid(at(unwrap(t.kids), 0), x) or partid(at(unwrap(t.kids), 1), x)))', rec=True)
    v.define('partname', {'t': 'rec:Type', 'x': 'str'}, 'bool', f't.name == x or ({KIDS} and (partname(at(unwrap(t.kids), 0), x) or partname(at(unwrap(t.kids), 1), x)))', rec=True)
    C = 'nlcodec.codec.Type.'
    for nm, E, good in (('True', 'str', 'joined({p}) == self.name and forall(lambda j: implies(0 <= j and j < len({p}), partname(self, at({p}, j))), at({p}, j))'),
                        ('False', 'int', '''forall(lambda T="TAB": implies(intab(self, T), joined(names(T, {p})) == self.name), names(T, {p}), intab(self, T))
                              and forall(lambda T="TAB", j="int": implies(intab(self, T) and 0 <= j and j < len({p}), 0 <= at({p}, j) and at({p}, j) < len(T)), (intab(self, T), at({p}, j)))
                              and forall(lambda j: implies(0 <= j and j < len({p}), partid(self, at({p}, j))), at({p}, j))''')):
        v.contract(C + 'get_stochastic_split', label=C + f'get_stochastic_split/name={nm}', variant=True, self_ty='rec:Type',
            params={'name': '=' + nm, 'split_ratio': 'real'}, returns=f'list[{E}]', requires=['wft(self)'], decreases='depth(self)',
            ensures=[good.format(p='result')])
        # every listed permutation of the parts
        goods = lambda r: f'forall(lambda i: implies(0 <= i and i < len({r}), okperm{nm}(self, at({r}, i))), at({r}, i))'
        v.define(f'okperm{nm}', {'self': 'rec:Type', 'p': f'seq[{E}]'}, 'bool', good.format(p='p'))
        K0, K1 = 'at(unwrap(self.kids), 0)', 'at(unwrap(self.kids), 1)'
        v.lemma(f'okperm{nm}_cat', {'self': 'rec:Type', 'p': f'seq[{E}]', 'q': f'seq[{E}]'},
                requires=['wft(self)', 'self.kids is not None and len(unwrap(self.kids)) > 0', f'okperm{nm}({K0}, p)', f'okperm{nm}({K1}, q)'],
                ensures=[f'okperm{nm}(self, cat(p, q))'])
        v.contract(C + 'get_permutations', label=C + f'get_permutations/name={nm}', variant=True, self_ty='rec:Type',
            params={'name': '=' + nm}, returns=f'list[seq[{E}]]', requires=['wft(self)'], decreases='depth(self)', opts={'types': {'perms': f'list[seq[{E}]]'}},
            loops={0: dict(inv=[goods('perms'), 'len(perms) >= 1', f'forall(lambda i: implies(0 <= i and i < len(_it0), okperm{nm}(left, at(_it0, i))), at(_it0, i))']),
                   1: dict(inv=[goods('perms'), 'len(perms) >= 1', f'forall(lambda i: implies(0 <= i and i < len(_it1), okperm{nm}(right, at(_it1, i))), at(_it1, i))'], end=f'''
use('okperm{nm}_cat', self, at(_it0, _k0), at(_it1, _k))
''')},
            ensures=[goods('result'), 'len(result) >= 1'])
    v.contract('nlcodec.codec.BPEScheme.stochastic_split', self_ty='obj:nlcodec.codec.BPEScheme',
        params={'seq': 'list[int]', 'split_ratio': 'real', 'name': '=False'}, returns='list[int]', opts={'types': {'res': 'list[int]'}},
        requires=['forall(lambda i: implies(0 <= i and i < len(seq), 0 <= at(seq, i) and at(seq, i) < len(self.table)), at(seq, i))',
                  'forall(lambda i: implies(0 <= i and i < len(self.table), wft(at(self.table, i)) and intab(at(self.table, i), self.table)), at(self.table, i))'],
        loops={0: dict(inv=['joined(names(self.table, res)) == joined(names(self.table, take(val(seq), _k)))',
                            'forall(lambda i: implies(0 <= i and i < len(res), 0 <= at(res, i) and at(res, i) < len(self.table)), at(res, i))'], )},
        ensures=['joined(names(self.table, result)) == joined(names(self.table, seq))',
                 'forall(lambda i: implies(0 <= i and i < len(result), 0 <= at(result, i) and at(result, i) < len(self.table)), at(result, i))'])
    v.prop('C10', [C + 'get_stochastic_split/name=True', C + 'get_stochastic_split/name=False', C + 'get_permutations/name=True', C + 'get_permutations/name=False', 'nlcodec.codec.BPEScheme.stochastic_split'])
