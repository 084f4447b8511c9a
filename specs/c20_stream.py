"""C20: streams of lines are coded line by line, in order"""


def load(v):
    M = 'nlcodec.codec.'
    # any scheme: its methods are functions of their argument
    v.define('sch_ids', {'line': 'str'}, 'seq[int]')
    v.define('sch_pieces', {'line': 'str'}, 'seq[str]')
    v.define('sch_from_ids', {'ids': 'seq[int]'}, 'str')
    v.define('sch_from_pieces', {'ps': 'seq[str]'}, 'str')
    v.schemas['abs:scheme'] = {'encode': 'fn:sch_ids', 'encode_str': 'fn:sch_pieces', 'decode': 'fn:sch_from_ids', 'decode_str': 'fn:sch_from_pieces'}
    SCH = 'abs:' + M + 'EncoderScheme/scheme'
    for idx, ret, f in ((True, 'iter[seq[int]]', 'sch_ids'), (False, 'iter[seq[str]]', 'sch_pieces')):
        v.contract(M + 'encode', label=M + f'encode/{idx}', variant=True, params={'inp': 'iter[str]', 'scheme': SCH, 'indices': f'={idx}'}, returns=ret,
            loops={0: dict(inv=['len(_out) == _k', f'forall(lambda i: implies(0 <= i and i < _k, at(_out, i) == {f}(at(_it0, i))), at(_out, i))'])},
            ensures=['len(val(result)) == len(old(val(inp)))', f'forall(lambda i: implies(0 <= i and i < len(old(val(inp))), at(val(result), i) == {f}(at(old(val(inp)), i))), at(val(result), i))'])
    for idx, f in ((True, 'sch_from_ids([int(x) for x in LINE.split()])'), (False, 'sch_from_pieces(LINE.split())')):
        g = lambda x: f.replace('LINE', x)
        v.contract(M + 'decode', label=M + f'decode/{idx}', variant=True, params={'inp': 'iter[str]', 'scheme': SCH, 'indices': f'={idx}'}, returns='iter[str]',
            requires=['forall(lambda l, i: implies(0 <= l and l < len(val(inp)) and 0 <= i and i < len(at(val(inp), l).split()), isint(at(at(val(inp), l).split(), i))), at(at(val(inp), l).split(), i))'] if idx else [],
            loops={0: dict(inv=['len(_out) == _k', f'forall(lambda i: implies(0 <= i and i < _k, at(_out, i) == {g("at(_it0, i)")}), at(_out, i))'])},
            ensures=['len(val(result)) == len(old(val(inp)))', f'forall(lambda i: implies(0 <= i and i < len(old(val(inp))), at(val(result), i) == {g("at(old(val(inp)), i)")}), at(val(result), i))'])
    # what the command line tool writes: every line followed by the line break
    v.contract('nlcodec.__main__.write_lines', params={'lines': 'iter[str]', 'out': 'sink', 'line_break': 'str'}, modifies=['out', 'lines'],
        loops={0: dict(inv=['out.text == at_entry(out.text) + broken(_it0, _k, line_break)'])},
        ensures=['out.text == old(out.text) + broken(old(val(lines)), len(old(val(lines))), line_break)'])
    # several files as one stream
    v.define('filelines', {'p': 'opq:Path', 'gz': 'bool', 'binary': 'bool', 'encoding': 'str', 'errors': 'str', 'newline': 'str'}, 'seq[str]')
    v.define('pname', {'p': 'opq:Path'}, 'str', 'p.name', inline=True)
    v.define('flines', {'p': 'opq:Path'}, 'seq[str]', 'filelines(p, pname(p).endswith(".gz"), False, "utf-8", "replace", "\\n")')
    v.define('allfiles', {'ps': 'seq[opq:Path]', 'n': 'int'}, 'seq[str]', 'empty("seq[str]") if n <= 0 else cat(allfiles(ps, n - 1), flines(at(ps, n - 1)))', rec=True)
    v.contract('nlcodec.utils.IO.read_as_stream', self_ty='class:nlcodec.utils.IO', params={'paths': 'list[opq:Path]', 'text': '=True'}, returns='iter[str]',
        loops={0: dict(inv=['_out == allfiles(_it0, _k)'])},
        ensures=['val(result) == allfiles(val(paths), len(paths))'])
    v.prop('C20', [M + 'encode/True', M + 'encode/False', M + 'decode/True', M + 'decode/False', 'nlcodec.__main__.write_lines', 'nlcodec.utils.IO.read_as_stream'])

    v.contract(M + 'EncoderScheme.encode_parallel', self_ty=SCH, params={'seqs': 'iter[str]', 'n_cpus': 'int'}, returns='iter[seq[int]]',
        requires=['n_cpus > 1'],
        ensures=['len(val(result)) == len(old(val(seqs)))', 'forall(lambda i: implies(0 <= i and i < len(old(val(seqs))), at(val(result), i) == sch_ids(at(old(val(seqs)), i))), at(val(result), i))'])
    v.contract(M + 'EncoderScheme.parallel_map', self_ty='class:' + M + 'EncoderScheme', params={'mapper': 'fn:sch_ids', 'collection': 'iter[str]', 'n_cpus': 'int', 'name': 'str', 'chunksize': 'int'}, returns='iter[seq[int]]',
        requires=['n_cpus > 1', 'chunksize > 0'],
        ensures=['len(val(result)) == len(old(val(collection)))', 'forall(lambda i: implies(0 <= i and i < len(old(val(collection))), at(val(result), i) == sch_ids(at(old(val(collection)), i))), at(val(result), i))'])
    v.prop('C20', [M + 'EncoderScheme.encode_parallel', M + 'EncoderScheme.parallel_map'], not_covered=['nlcodec.__main__.main (argument parsing and the choice of task; exercised by the bounded search)'],
           assume=['multiprocessing.Pool.imap yields results in the order of the items'])
