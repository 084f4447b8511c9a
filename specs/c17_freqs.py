"""C17: term-frequency files read back as written"""




def load(v):
    v.type_alias['FREQS'] = 'seq[tuple[str,int]]'
    # what a statistics file holds
    v.define('row', {'r': 'tuple[str,int]'}, 'str', 'r[0] + "\\t" + str(r[1])')
    v.define('rows', {'s': 'FREQS', 'n': 'int'}, 'str', '"" if n <= 0 else rows(s, n - 1) + (row(at(s, n - 1)) + "\\n")', rec=True)
    v.defseq('rowlines', {'s': 'FREQS'}, 'seq[str]', 'len(s)', 'row(at(s, i)) + "\\n"')
    GOOD = 'forall(lambda i: implies(0 <= i and i < len(s), len(at(s, i)[0]) > 0 and nows(at(s, i)[0]) and at(s, i)[1] > 0), at(s, i))'
    v.define('goodrows', {'s': 'FREQS'}, 'bool', GOOD)
    v.lemma('row_line', {'r': 'tuple[str,int]'}, requires=['nows(r[0])'], ensures=['nochar(row(r), 10)', 'nochar(r[0], 9)'], body='''
hint(str(r[1]))
''')
    # reading the text of a statistics file line by line gives the header and one line per row
    v.lemma('file_lines', {'h': 'str', 's': 'FREQS', 'n': 'int'}, requires=['goodrows(s)', 'nochar(h, 10)', '0 <= n', 'n <= len(s)'],
            ensures=['linesof((h + "\\n") + rows(s, n)) == cat(push(empty("seq[str]"), h + "\\n"), take(rowlines(s), n))', 'wholelines((h + "\\n") + rows(s, n))'], decreases='n', body='''
hint(rows(s, n))
if n > 0:
    use('file_lines', h, s, n - 1)
    use('row_line', at(s, n - 1))
    use('lines_app', (h + "\\n") + rows(s, n - 1), row(at(s, n - 1)))
    ext((h + "\\n") + rows(s, n), ((h + "\\n") + rows(s, n - 1)) + (row(at(s, n - 1)) + "\\n"))
    ext(cat(push(empty("seq[str]"), h + "\\n"), take(rowlines(s), n)), push(cat(push(empty("seq[str]"), h + "\\n"), take(rowlines(s), n - 1)), at(rowlines(s), n - 1)))
else:
    use('lines_app', "", h)
    ext("" + (h + "\\n"), h + "\\n")
    ext((h + "\\n") + rows(s, 0), h + "\\n")
    ext(cat(push(empty("seq[str]"), h + "\\n"), take(rowlines(s), 0)), push(empty("seq[str]"), h + "\\n"))
''')
    T = 'nlcodec.term_freq.'
    S0 = 'old(val(stats))'
    PERM = f'''len(s) == len({S0}) and forall(lambda w="str": implies(has({S0}, w), exists(lambda i: 0 <= i and i < len(s) and at(s, i) == (w, get({S0}, w)), at(s, i))), has({S0}, w))'''
    DIST = f'''forall(lambda i: implies(0 <= i and i < len(s), has({S0}, at(s, i)[0]) and at(s, i)[1] == get({S0}, at(s, i)[0])), at(s, i)) and forall(lambda i, j: implies(0 <= i and i < j and j < len(s), at(s, i)[0] != at(s, j)[0]), (at(s, i), at(s, j)))'''
    # the header: an object that tells the line count when it was given
    for lab, meta, lc in (('plain', 'items[]', 'not json_has(j, "line_count")'), ('lines', 'items[line_count=int]', 'json_has(j, "line_count") and json_get(j, "line_count") == json_int(old(meta["line_count"]))')):
        v.contract(T + 'write_stats', label=T + f'write_stats/{lab}', variant=True, params={'stats': 'dict[str,int]', 'out': 'sink', 'meta': meta}, modifies=['out'],
            loops={0: dict(inv=['out.text == at_entry(out.text) + rows(_it0, _k)'])},
            ensures=[f'exists(lambda s="FREQS", j="opq:Json": {PERM} and {DIST} and json_isdict(j) and {lc} and out.text == old(out.text) + ("#" + json_dumps(j) + "\\n") + rows(s, len(s)), rows(s, len(s)), json_dumps(j))'])
    v.prop('C17', [T + 'write_stats/plain', T + 'write_stats/lines'], ['split_plain', 'split_two', 'split_one', 'lines_part', 'lines_app', 'row_line', 'file_lines'])
    # reading: lines made of rows, after a header or not
    C = 'nlcodec.codec.WordScheme.read_term_freqs'
    for lab, h in (('header', 1), ('bare', 0)):
        LINES = f'len(val(data)) == len(rs) + {h} and forall(lambda i: implies({h} <= i and i < len(val(data)), at(val(data), i) == row(at(rs, i - {h})) + "\\n"), at(val(data), i))'
        HEAD = ' and at(val(data), 0) == ("#" + json_dumps(j)) + "\\n" and json_isdict(j) and implies(json_has(j, "line_count"), json_get(j, "line_count") == json_int(lc))' if h else ''
        READ = lambda d, n: f'len(keys({d})) == {n} and forall(lambda i: implies(0 <= i and i < {n}, at(keys({d}), i) == at(rs, i)[0] and get({d}, at(rs, i)[0]) == at(rs, i)[1]), at(rs, i), at(keys({d}), i))'
        v.contract(C, label=C + '/' + lab, variant=True, self_ty='class:nlcodec.codec.WordScheme', params={'data': 'iter[str]', 'delim': "='\\t'"}, returns='tup[dict[str,int],int]',
            ghost={'rs': 'FREQS', 'j': 'opq:Json', 'lc': 'int'}, opts={'types': {'stats': 'dict[str,int]'}},
            requires=['goodrows(rs)', LINES + HEAD, 'forall(lambda i, j: implies(0 <= i and i < j and j < len(rs), at(rs, i)[0] != at(rs, j)[0]), (at(rs, i), at(rs, j)))'],
            loops={0: dict(inv=[READ('stats', f'(_k - {h} if _k > {h} else 0)'), 'line_count == ' + ('(lc if _k > 0 and json_has(j, "line_count") else -1)' if h else '-1')], start='''
if _k == 0:
    use('split_one', "#" + json_dumps(j))
    ext(("#" + json_dumps(j))[1:], json_dumps(j))
else:
    use('row_line', at(rs, _k - 1))
    use('split_two', at(rs, _k - 1)[0], str(at(rs, _k - 1)[1]))
    hint(str(at(rs, _k - 1)[1]))
''' if h else '''
use('row_line', at(rs, _k))
use('split_two', at(rs, _k)[0], str(at(rs, _k)[1]))
hint(str(at(rs, _k)[1]))
''')},
            ensures=[READ('result[0]', 'len(rs)'), 'result[1] == ' + ('(lc if json_has(j, "line_count") else -1)' if h else '-1')])
    v.lemma('reads_back', {'t': 'dict[str,int]', 'd': 'dict[str,int]', 'rs': 'FREQS'},
        requires=[READ('d', 'len(rs)'), PERM.replace(S0, 't').replace('len(s)', 'len(rs)').replace('at(s,', 'at(rs,'), DIST.replace(S0, 't').replace('len(s)', 'len(rs)').replace('at(s,', 'at(rs,')],
        ensures=['len(d) == len(t)', 'forall(lambda w="str": has(d, w) == has(t, w) and implies(has(t, w), get(d, w) == get(t, w)), has(d, w), has(t, w))'])
    v.prop('C17', [C + '/header', C + '/bare'], ['reads_back'])
    v.prop('C17', [], assume=['a text file written and opened again as UTF-8 holds the text that was written, and is read line by line at the line feeds'],
           not_covered=['opening the files by path and the command line of term_freq and learn', 'learning from term frequencies (WordScheme.learn with term_freqs, BPEScheme.learn): exercised by the bounded search'])
