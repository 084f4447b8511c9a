"""C12 / C13: databases of several parts"""


def load(v):
    M = 'nlcodec.db.core.'
    MP = M + 'MultipartDb'
    # -- splitting of a stream (parts are consumed one after the other, as create does)
    S = 'whole(stream)'

    def slices(rt, label):
        N = f'len({S})'
        inv = [f'pos(_stream) <= {N}', '0 <= pos(_stream)', f'whole(_stream) == {S}',
               f'pos(_stream) == (len(_out) * size if len(_out) * size < {N} else {N})', f'implies(len(_out) > 0, (len(_out) - 1) * size < {N})',
               f'forall(lambda i: implies(0 <= i and i < len(_out), at(_out, i) == part_of({S}, i, size)), at(_out, i))'.replace('part_of', 'part_of' + label)]
        v.define('part_of' + label, {'s': f'seq[{rt}]', 'i': 'int', 'n': 'int'}, f'seq[{rt}]', 'sub(s, i * n, i * n + n if i * n + n < len(s) else len(s))', inline=True)
        v.contract(MP + '.slices', label=MP + '.slices' + label, variant=True, self_ty='class:' + MP, params={'stream': f'iter[{rt}]', 'size': 'int'}, requires=['size >= 1'], returns=f'iter[seq[{rt}]]',
                   opts={'types': {'_out': f'list[seq[{rt}]]'}},
                   loops={0: dict(inv=inv, dec=f'{N} - pos(_stream)')},
                   ensures=[f'len(val(result)) * size >= len(old(val(stream)))', f'implies(len(val(result)) > 0, (len(val(result)) - 1) * size < len(old(val(stream))))',
                            f'forall(lambda i: implies(0 <= i and i < len(val(result)), at(val(result), i) == part_of{label}(old(val(stream)), i, size)), at(val(result), i))'])
    slices('int', '')
    v.prop('C12', [MP + '.slices'])

    # -- the file system: what is written, in which order
    W = MP + '.Writer'
    FLAG = 'self.path / "_SUCCESS"'
    FS = ['field:FS.exists', 'field:FS.isdir', 'field:FS.text', 'field:FS.saved']
    # a directory holds a complete database only with a complete flag file
    v.define('part_file', {'j': 'int', 'w': 'int'}, 'str', '"part-" + zpad(j, w)', inline=True)
    v.define('part_meta', {'j': 'int', 'w': 'int'}, 'str', 'part_file(j, w) + ".meta"', inline=True)
    v.contract(M + 'part_path_pads', params={'n_parts': 'int'}, returns='int', trusted=True, requires=['n_parts >= 1'], ensures=['result >= 0'])
    SAME = lambda f, cond='True': f'forall(lambda q="opq:Path": implies({cond}, {f}(q) == old({f}(q))), {f}(q))'
    for n in (1, 2):
        names = ['x', 'y'][:n]
        v.schemas[f'abs:writer{n}'] = {'field_names': f'={names}', 'path': 'opq:Path', 'part_path_pad': 'int'}
        WT = f'abs:{W}/writer{n}'
        EMPTY = 'forall(lambda a="str": implies(plain(a), not fexists(path / a)), path / a)'
        NE = '(fexists(path) and exists(lambda a="str": plain(a) and fexists(path / a), path / a))'
        v.contract(W + '.__init__', label=f'{W}.__init__/{n}', variant=True, self_ty='obj:' + W, params={'path': 'opq:Path', 'field_names': f'={names}', 'overwrite': 'bool', 'max_parts': 'int'},
                   requires=['max_parts >= 1', 'implies(fexists(path), fisdir(path))'], raises={'Exception': f'{NE} and not overwrite'}, modifies=FS,
                   assume_entry=['forall(lambda a="str": implies(plain(a) and fexists(path / a), fexists(path)), path / a)'],
                   opts={'new': f'abs:writer{n}', 'noframe': True, 'fs_inv': ['forall(lambda a="str": implies(plain(a) and not old(fexists(path / a)), not fexists(path / a)), path / a)']},
                   ensures=['self.path == path', 'self.part_path_pad >= 0', 'fexists(path) and fisdir(path)', EMPTY])
        v.prop('C13', [f'{W}.__init__/{n}'])
        # one part: its data, then its counts; the flag is not touched
        RT = 'tuple[int,tuple[' + ','.join(['seq[int]'] * n) + ']]'
        col = lambda r, c: f'{r}[1][{c}]'
        al = lambda kind, c: f'forall(lambda r: implies(0 <= r and r < len(val(recs)), {kind}({col("at(val(recs), r)", c)})), at(val(recs), r))'
        R = 'old(val(recs))'
        PF, PM = 'self.path / part_file(part_num, self.part_path_pad)', 'self.path / part_meta(part_num, self.part_path_pad)'
        OTHER = [SAME(f, f'q != {PF} and q != {PM}') for f in ('fexists', 'ftext', 'fsaved')]
        DB = f'unpickled(s, "{M}Db/db{n}")'
        f_ = lambda x: f'{DB}.fields["{x}"]'
        good = [g for x in names for g in [f'forall(lambda r: implies(0 <= r and r < len({f_(x)}.refs), len(at({f_(x)}.refs, r)) == 2 and 0 <= at({f_(x)}.refs, r)[0] and 0 <= at({f_(x)}.refs, r)[1] and at({f_(x)}.refs, r)[0] + at({f_(x)}.refs, r)[1] <= len({f_(x)}.data)), at({f_(x)}.refs, r))',
                f'forall(lambda k: implies(k in {f_(x)}.ids, 0 <= {f_(x)}.ids[k] and {f_(x)}.ids[k] < len({f_(x)}.refs)), k in {f_(x)}.ids)', f'len({f_(x)}.data) <= hi(dtype({f_(x)}.refs))', f'lo(dtype({f_(x)}.refs)) <= 0',
                f'forall(lambda k: (k in {DB}.ids) == (k in {f_(x)}.ids), k in {DB}.ids)']]
        v.define(f'part_sound{n}', {'s': 'opq:Saved'}, 'bool', ' and '.join(f'({g})' for g in good))
        v.define(f'part_record{n}', {'s': 'opq:Saved', 'k': 'int', 't': 'tuple[' + ','.join(['seq[int]'] * n) + ']'}, 'bool', ' and '.join(f'stored(val({f_(x)}.refs), val({f_(x)}.data), {f_(x)}.ids[k], t[{c}])' for c, x in enumerate(names)))
        v.define(f'part_has{n}', {'s': 'opq:Saved', 'k': 'int'}, 'bool', f'k in {DB}.ids', inline=True)
        v.define(f'part_holds{n}', {'s': 'opq:Saved', 'recs': f'seq[{RT}]'}, 'bool', f'forall(lambda r: implies(0 <= r and r < len(recs), part_has{n}(s, at(recs, r)[0]) and part_record{n}(s, at(recs, r)[0], at(recs, r)[1])), at(recs, r)) and forall(lambda k: implies(part_has{n}(s, k), exists(lambda r: 0 <= r and r < len(recs) and at(recs, r)[0] == k, at(recs, r))), part_has{n}(s, k))')
        v.contract(W + '.__call__', label=f'{W}.__call__/{n}', variant=True, self_ty=WT, params={'part_num': 'int', 'recs': f'iter[{RT}]'}, returns='tup[opq:Path,int]', modifies=FS[:1] + FS[2:],
                   requires=['part_num >= 0', 'self.part_path_pad >= 0', 'len(val(recs)) > 0'] + [f'{al("signed64", c)} or {al("unsigned64", c)}' for c in range(n)],
                   raises={'AssertionError': f'not ids_distinct{n}(val(recs), len(val(recs)))'},
                   opts={'dtypes': True, 'noframe': True, 'calls': {M + 'Db.create': f'{M}Db.create/{n}'}, 'pickle': (M + 'Db', f'db{n}'), 'fs_inv': OTHER},
                   ensures=[*OTHER, f'result[0] == {PF}', f'result[1] == len({R})', f'fexists({PF})', f'fexists({PM})',
                            f'part_sound{n}(fsaved({PF}))', f'part_holds{n}(fsaved({PF}), {R})', f'jsonvalid(ftext({PM}))', f'jint(json(ftext({PM}))["count"]) == len({R})'])
        v.prop('C13', [f'{W}.__call__/{n}'])

        # closing: the flag file lists every part with what its counts file says
        NAMED = lambda path, pad: f'forall(lambda a="str": implies(plain(a) and globs(a) and fexists({path} / a), tailnum(a.rstrip(".meta")) >= 0 and a == part_meta(tailnum(a.rstrip(".meta")), {pad}) and jsonvalid(ftext({path} / a))), {path} / a)'
        if n == 1:
            v.define('globs', {'a': 'str'}, 'bool', 'a.startswith("part-") and a.endswith(".meta") and len(a) >= 10', inline=True)
        PARTS = lambda flag: f'jdict(json(ftext({flag}))["parts"])'
        LISTED = lambda path, pad, flag: [f'forall(lambda j: implies(0 <= j and fexists({path} / part_meta(j, {pad})), part_file(j, {pad}) in {PARTS(flag)} and {PARTS(flag)}[part_file(j, {pad})] == json(ftext({path} / part_meta(j, {pad})))), {path} / part_meta(j, {pad}))',
                  f'forall(lambda k="str": implies(k in {PARTS(flag)}, tailnum(k) >= 0 and k == part_file(tailnum(k), {pad}) and fexists({path} / part_meta(tailnum(k), {pad}))), k in {PARTS(flag)})']
        CLOSED = LISTED('self.path', 'self.part_path_pad', FLAG)
        NOFLAG = [SAME(f, f'q != {FLAG}') for f in ('fexists', 'ftext', 'fsaved')]
        KEY = lambda i: f'part_file(tailnum(at(_it0, {i}).name.rstrip(".meta")), self.part_path_pad)'
        v.contract(W + '.close', label=f'{W}.close/{n}', variant=True, self_ty=WT, params={}, modifies=FS[:1] + FS[2:3],
                   requires=[NAMED('self.path', 'self.part_path_pad'), 'self.part_path_pad >= 0'],
                   opts={'noframe': True, 'types': {'parts': 'dict[str,opq:Json]'}, 'fs_inv': [*NOFLAG, f'implies(fexists({FLAG}) and not old(fexists({FLAG})), not jsonvalid(ftext({FLAG})) or ({" and ".join("(" + c + ")" for c in CLOSED)}))']},
                   loops={0: dict(inv=[f'forall(lambda i: implies(0 <= i and i < _k, {KEY("i")} in parts and parts[{KEY("i")}] == json(ftext(at(_it0, i)))), at(_it0, i))',
                                       'forall(lambda k="str": implies(k in parts, tailnum(k) >= 0 and k == part_file(tailnum(k), self.part_path_pad) and fexists(self.path / part_meta(tailnum(k), self.part_path_pad))), k in parts)'])},
                   ensures=[*NOFLAG, f'fexists({FLAG})', f'jsonvalid(ftext({FLAG}))', *CLOSED])
        v.prop('C13', [f'{W}.close/{n}'])
        # leaving a with block: complete only without an error
        v.contract(W + '.__exit__', label=f'{W}.__exit__/{n}', variant=True, self_ty=WT, params={'exc_type': '=None', 'exc_val': '=None', 'exc_tb': '=None'}, returns='bool', modifies=FS[:1] + FS[2:3],
                   requires=[NAMED('self.path', 'self.part_path_pad'), 'self.part_path_pad >= 0'],
                   opts={'noframe': True, 'calls': {W + '.close': f'{W}.close/{n}'}, 'fs_inv': [*NOFLAG, f'implies(fexists({FLAG}) and not old(fexists({FLAG})), not jsonvalid(ftext({FLAG})) or ({" and ".join("(" + c + ")" for c in CLOSED)}))']},
                   ensures=[*NOFLAG, f'fexists({FLAG})', f'jsonvalid(ftext({FLAG}))', *CLOSED])
        v.contract(W + '.__exit__', label=f'{W}.__exit__/{n}/error', variant=True, self_ty=WT, params={'exc_type': 'opq:Exc', 'exc_val': 'opq:Exc', 'exc_tb': 'opq:Exc'}, returns='bool', requires=['exc_tb is not None'],
                   ensures=['not result'] + [SAME(f) for f in ('fexists', 'fisdir', 'ftext', 'fsaved')])
        v.prop('C13', [f'{W}.__exit__/{n}', f'{W}.__exit__/{n}/error'])

    # -- the database of several parts
    v.schemas[MP] = {'part_paths': 'list[opq:Path]', 'rec_counts': 'list[int]', '_len': 'int', 'rec_type': 'opq:RecType', 'keep_in_mem': 'bool', 'shuffle': 'bool', 'mem': 'list[opt[opq:Loaded]]'}
    for n in (1, 2):
        READ = 'forall(lambda i: implies(0 <= i and i < len(parts), fexists(at(parts, i))), at(parts, i))'
        MEM = lambda s: f'forall(lambda i: implies(0 <= i and i < len({s}.part_paths) and {s}.keep_in_mem, at({s}.mem, i) is not None and lsaved(unwrap(at({s}.mem, i))) == fsaved(at({s}.part_paths, i)) and lrec(unwrap(at({s}.mem, i))) == {s}.rec_type), at({s}.mem, i))'
        v.contract(MP + '.__init__', label=f'{MP}.__init__/{n}', variant=True, self_ty='obj:' + MP, params={'parts': 'list[opq:Path]', 'rec_counts': 'list[int]', 'rec_type': 'opq:RecType', 'keep_in_mem': 'bool', 'shuffle': 'bool'},
                   requires=[READ], opts={'new': MP, 'noframe': True, 'pickle': (M + 'Db', f'db{n}'), 'dtypes': True},
                   ensures=['val(self.part_paths) == val(parts)', 'val(self.rec_counts) == val(rec_counts)', 'self._len == sum(rec_counts)', 'self.rec_type == rec_type', 'self.shuffle == shuffle', 'self.keep_in_mem == (keep_in_mem or len(parts) == 1)',
                            'len(self.mem) == len(parts)', MEM('self')])
        v.prop('C12', [f'{MP}.__init__/{n}'])

    # -- loading: refused without a complete flag file
    FL = 'path / "_SUCCESS"'
    J = f'json(ftext({FL}))'
    D = f'jdict({J}["parts"])'
    WF = [f'jisdict({J})', f'"parts" in {J}', f'jisdict({J}["parts"])', f'"field_names" in {J}', f'jisnames({J}["field_names"])',
          f'forall(lambda k="str": implies(k in {D}, jisdict(get({D}, k)) and "count" in get({D}, k) and jisint(get({D}, k)["count"])), k in {D})']
    for n in (1, 2):
        for rt in ('=None', 'opq:RecType'):
            L = f'{MP}.load/{n}' + ('' if rt == '=None' else '/typed')
            v.contract(MP + '.load', label=L, variant=True, self_ty='class:' + MP, params={'path': 'opq:Path', 'rec_type': rt, 'keep_in_mem': 'bool', 'shuffle': 'bool'}, returns='obj:' + MP,
                       requires=[f'implies(fexists({FL}) and jsonvalid(ftext({FL})), ' + ' and '.join(f'({w})' for w in WF) + f' and len(jnames({J}["field_names"])) == {n} and forall(lambda k="str": implies(k in {D}, fexists(path / k)), k in {D}))'],
                       raises={'ValueError': f'fexists(path) and fisdir(path) and fexists({FL}) and not jsonvalid(ftext({FL}))',
                               'AssertionError': f'not fexists(path) or not fisdir(path) or not fexists({FL}) or jsonvalid(ftext({FL})) and len({D}) == 0'},
                       opts={'noframe': True, 'types': {'part_files': 'list[opq:Path]', 'rec_counts': 'list[int]'}, 'calls': {MP + '.__init__': f'{MP}.__init__/{n}'}},
                       loops={0: dict(inv=['len(part_files) == _k', 'len(rec_counts) == _k', 'forall(lambda i: implies(0 <= i and i < _k, at(part_files, i) == path / at(keys(' + D + '), i) and at(rec_counts, i) == jint(get(' + D + ', at(keys(' + D + '), i))["count"])), at(keys(' + D + '), i))'])},
                       ensures=[f'len(result.part_paths) == len({D})', 'len(result.rec_counts) == len(result.part_paths)',
                                f'forall(lambda i: implies(0 <= i and i < len({D}), at(result.part_paths, i) == path / at(keys({D}), i) and at(result.rec_counts, i) == jint(get({D}, at(keys({D}), i))["count"])), at(result.part_paths, i))',
                                'result._len == sum(result.rec_counts)', 'result.shuffle == shuffle', f'nfields(result.rec_type) == {n + 1}' if rt == '=None' else 'result.rec_type == rec_type', 'result.keep_in_mem == (keep_in_mem or len(result.part_paths) == 1)', 'len(result.mem) == len(result.part_paths)', MEM('result')])
            v.prop('C13', [L])
    FSA = ['file-system operations take effect in the order of the program and a failing operation stops the writing; a partly written file holds a prefix of its text; no other process changes the directory',
           'pickle.load of a completely pickled database returns its fields, except the class of records, which is not pickled (Db.__getstate__)', 'a proper prefix of the text of a JSON object is not JSON text']
    v.prop('C12', [], bounded=['MultipartDb.create and MultipartDb.__iter__ as a whole (their parts Writer.__init__, Writer.__call__, Writer.close, slices, load, __init__, Db.create and Db.__iter__ are proved)'], assume=FSA)
    v.prop('C13', [f'{MP}.load/{n}{t}' for n in (1, 2) for t in ('', '/typed')], bounded=['MultipartDb.create as a whole (the functions it calls are proved)'], assume=FSA, not_covered=['a crash while an existing database is being removed for overwriting: its flag file may be removed last', 'operating-system errors'])
    v.prop('C12', [f'{W}.__call__/{n}' for n in (1, 2)] + [f'{W}.close/{n}' for n in (1, 2)] + [f'{MP}.load/{n}{t}' for n in (1, 2) for t in ('', '/typed')])
    v.prop('C12', [f'{M}Db.__iter__/{n}/typed' for n in (1, 2)])
