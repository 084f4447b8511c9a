"""C09: shrinking a vocabulary"""


def load(v):
    M = 'nlcodec.codec.'
    v.schemas['abs:tabled'] = {'encode': 'fn:sch_ids', 'table': 'list[rec:Type]', 'name': 'str'}
    SCH = 'abs:' + M + 'EncoderScheme/tabled'
    # number of occurrences of an id in lines and files
    v.define('lfreq', {'ls': 'seq[str]', 'n': 'int', 'x': 'int'}, 'int', '0 if n <= 0 else lfreq(ls, n - 1, x) + count(sch_ids(at(ls, n - 1)), x)', rec=True)
    v.define('afreq', {'ps': 'seq[opq:Path]', 'n': 'int', 'x': 'int'}, 'int', '0 if n <= 0 else afreq(ps, n - 1, x) + lfreq(flines(at(ps, n - 1)), len(flines(at(ps, n - 1))), x)', rec=True)
    v.define('kidin', {'t': 'rec:Type', 'x': 'int'}, 'bool', 't.kids is not None and x in [k.idx for k in unwrap(t.kids)]')
    v.define('wanted', {'t': 'rec:Type', 'f': 'int', 'm': 'int'}, 'bool', 't.level == -1 or f >= m')
    T = 'self.table'
    F = 'afreq(files, len(files), {i})'
    W = lambda i: f'wanted(at({T}, {i}), {F.format(i=i)}, min_freq)'
    fr = lambda c: f'forall(lambda x: {c}, has(freqs, x), get(freqs, x))'
    cnt = '(get(freqs, x) if has(freqs, x) else 0)'
    keptinv = lambda lo: [f'forall(lambda i: implies(0 <= i and i < len({T}) and {W("i")}, not at(removals, i)), at(removals, i))',
        f'forall(lambda j, i: implies({lo} <= j and j < len({T}) and not at(removals, j) and kidin(at({T}, j), i), not at(removals, i)), kidin(at({T}, j), i))',
        f'forall(lambda i: implies(0 <= i and i < len({T}) and not at(removals, i) and not {W("i")}, exists(lambda j: {lo} <= j and j < len({T}) and not at(removals, j) and kidin(at({T}, j), i), kidin(at({T}, j), i))), at(removals, i))']
    KEPT = [f'forall(lambda a: implies(0 <= a and a < len(mapping), 0 <= at(mapping, a) and at(mapping, a) < len({T})), at(mapping, a))',
            'forall(lambda a, b: implies(0 <= a and a < b and b < len(mapping), at(mapping, a) < at(mapping, b)), (at(mapping, a), at(mapping, b)))',
            f'forall(lambda i: implies(0 <= i and i < len({T}) and {W("i")}, i in mapping), at({T}, i))',
            f'forall(lambda j, i: implies(j in mapping and kidin(at({T}, j), i), i in mapping), (j in mapping, kidin(at({T}, j), i)))',
            f'forall(lambda i: implies(i in mapping and not {W("i")}, exists(lambda j: j in mapping and kidin(at({T}, j), i), kidin(at({T}, j), i))), i in mapping)']
    NEW = lambda n: f'''forall(lambda a: implies(0 <= a and a < {n}, at(N, a).idx == a and at(N, a).name == at(T, at(M, a)).name and at(N, a).level == at(T, at(M, a)).level and at(N, a).freq == at(T, at(M, a)).freq
            and (at(N, a).kids is not None) == (at(T, at(M, a)).kids is not None and len(unwrap(at(T, at(M, a)).kids)) > 0)), at(N, a))
            and forall(lambda a: implies(0 <= a and a < {n} and at(N, a).kids is not None, len(unwrap(at(N, a).kids)) == len(unwrap(at(T, at(M, a)).kids))), at(N, a))
            and forall(lambda a, p: implies(0 <= a and a < {n} and at(N, a).kids is not None and 0 <= p and p < len(unwrap(at(N, a).kids)),
                0 <= at(unwrap(at(N, a).kids), p).idx and at(unwrap(at(N, a).kids), p).idx < a and at(M, at(unwrap(at(N, a).kids), p).idx) == at(unwrap(at(T, at(M, a)).kids), p).idx
                and at(unwrap(at(N, a).kids), p) == at(N, at(unwrap(at(N, a).kids), p).idx)), at(unwrap(at(N, a).kids), p))'''
    v.define('shrunk', {'T': 'TAB', 'M': 'seq[int]', 'N': 'TAB', 'n': 'int'}, 'bool', NEW('n'))
    for lab, save in (('mapping', '=None'), ('saved', 'sink')):
        v.contract(M + 'EncoderScheme.shrink_vocab', label=M + 'EncoderScheme.shrink_vocab/' + lab, variant=True, self_ty=SCH, params={'files': 'list[opq:Path]', 'min_freq': 'int', 'save_at': save}, returns='list[int]',
            requires=['goodtab(self.table)', 'len(self.table) > 0', *([f'0 <= w0 and w0 < len({T}) and {W("w0")}'] if save == 'sink' else []),
                      'forall(lambda l="str", i="int": implies(0 <= i and i < len(sch_ids(l)), 0 <= at(sch_ids(l), i) and at(sch_ids(l), i) < len(self.table)), at(sch_ids(l), i))'],
            modifies=['save_at'] if save == 'sink' else [], ghost={'w0': 'int'} if save == 'sink' else {},
            opts={'types': {'mapping': 'list[int]', 'new_table': 'list[rec:Type]', 'freqs': 'counter[int,int]', 'removals': 'list[bool]'}},
            loops={0: dict(inv=[fr(f'{cnt} == afreq(files, _k, x) and implies(has(freqs, x), 0 <= x and x < len({T}))')]),
                   1: dict(inv=[fr(f'{cnt} == at_entry({cnt}) + lfreq(_it1, _k, x) and implies(has(freqs, x), 0 <= x and x < len({T}))')]),
                   2: dict(inv=[f'len(removals) == len({T})', f'forall(lambda i: implies(0 <= i and i < len({T}), at(removals, i) == (i < _k and not {W("i")})), at(removals, i))']),
                   3: dict(inv=[f'len(removals) == len({T})'] + keptinv(f'len({T}) - _k')),
                   4: dict(inv=[f'len(removals) == len({T})', f'forall(lambda i: implies(0 <= i and i < len({T}), at(removals, i) == (at_entry(at(removals, i)) and not i in take([k.idx for k in unwrap(combo.kids)], _k))), at(removals, i))']),
                   5: dict(inv=['forall(lambda a: implies(0 <= a and a < len(mapping), 0 <= at(mapping, a) and at(mapping, a) < _k and not at(removals, at(mapping, a))), at(mapping, a))',
                                'forall(lambda a, b: implies(0 <= a and a < b and b < len(mapping), at(mapping, a) < at(mapping, b)), (at(mapping, a), at(mapping, b)))',
                                'forall(lambda i: implies(0 <= i and i < _k, (i in mapping) == (not at(removals, i))), i in mapping, at(removals, i))']),
                   6: dict(init='assert w0 in mapping' if save == 'sink' else '', inv=['len(new_table) == _k', 'shrunk(self.table, mapping, new_table, _k)'], start=f'''
if at({T}, at(mapping, _k)).kids is not None:
    assert forall(lambda p: implies(0 <= p and p < len(unwrap(at({T}, at(mapping, _k)).kids)), at([k.idx for k in unwrap(at({T}, at(mapping, _k)).kids)], p) == at(unwrap(at({T}, at(mapping, _k)).kids), p).idx), at(unwrap(at({T}, at(mapping, _k)).kids), p))
    assert forall(lambda p: implies(0 <= p and p < len(unwrap(at({T}, at(mapping, _k)).kids)), at(unwrap(at({T}, at(mapping, _k)).kids), p).idx in [k.idx for k in unwrap(at({T}, at(mapping, _k)).kids)]), at(unwrap(at({T}, at(mapping, _k)).kids), p))
    assert forall(lambda p: implies(0 <= p and p < len(unwrap(at({T}, at(mapping, _k)).kids)), kidin(at({T}, at(mapping, _k)), at(unwrap(at({T}, at(mapping, _k)).kids), p).idx)), at(unwrap(at({T}, at(mapping, _k)).kids), p))
    assert forall(lambda p: implies(0 <= p and p < len(unwrap(at({T}, at(mapping, _k)).kids)), at(unwrap(at({T}, at(mapping, _k)).kids), p).idx in mapping), at(unwrap(at({T}, at(mapping, _k)).kids), p))
''')},
            ensures=[x.replace('mapping', 'result') for x in KEPT] + ([] if save != 'sink' else
                ['exists(lambda N="TAB", j="opq:Json": len(N) == len(result) and shrunk(self.table, result, N, len(N)) and goodtab(N) and json_isdict(j) and json_has(j, "scheme") and json_get(j, "scheme") == json_str(self.name)'
                 ' and save_at.text == old(save_at.text) + ("#" + json_dumps(j) + "\\n") + broken(tlines(N), len(N), "\\n"), json_dumps(j), broken(tlines(N), len(N), "\\n"))']))
        v.prop('C09', [M + 'EncoderScheme.shrink_vocab/' + lab])
    for c in ('WordScheme', 'CharScheme', 'BPEScheme', 'ClassScheme'):
        v.prop('C09', [M + 'load_scheme/' + c])
    v.prop('C09', [], ['saved_lines', 'broken_lines'], assume=['a text file written and opened again as UTF-8 holds the text that was written, and is read line by line at the line feeds'],
           not_covered=['that a reserved name is not repeated in the shrunk table (it follows from distinct names in the table; load_scheme requires it)', 'opening files by path', 'shrinking a byte vocabulary (its table has no types)'])
