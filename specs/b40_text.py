"""Text: separators, lines, words, and what json makes of values"""
from pyvc import libio


def load(v):
    libio.linesof_fn(), libio.json_fns()
    for f, ps, r in (('str.linesof', ['str'], 'seq[str]'), ('json.dumps', ['opq:Json'], 'str'), ('json.isdict', ['opq:Json'], 'bool'), ('json.get', ['opq:Json', 'str'], 'opq:Json'),
                     ('json.has', ['opq:Json', 'str'], 'bool'), ('json.int', ['int'], 'opq:Json'), ('json.toint', ['opq:Json'], 'int')):
        v.define(f, {f'x{i}': t for i, t in enumerate(ps)}, r)
        v.specfns[f.replace('str.', '').replace('.', '_')] = v.specfns[f]
    v.define('nochar', {'s': 'str', 'c': 'int'}, 'bool', 'forall(lambda i: implies(0 <= i and i < len(s), code(s, i) != c), code(s, i))')
    v.define('nows', {'s': 'str'}, 'bool', 'forall(lambda i: implies(0 <= i and i < len(s), not is_ws(code(s, i))), code(s, i))')
    # lines followed by a line break
    v.define('broken', {'ls': 'seq[str]', 'n': 'int', 'br': 'str'}, 'str', '"" if n <= 0 else broken(ls, n - 1, br) + at(ls, n - 1) + br', rec=True)
    # splitting at a separator, and lines of text
    v.lemma('split_plain', {'s': 'str', 't': 'str'}, requires=['nochar(t, 9)'],
            ensures=['(s + t).split("\\t") == push(take(s.split("\\t"), len(s.split("\\t")) - 1), at(s.split("\\t"), len(s.split("\\t")) - 1) + t)'],
            decreases='len(t)', body='''
if len(t) > 0:
    last(t)
    use('split_plain', s, take(t, len(t) - 1))
    ext(take(push(take(s.split("\\t"), len(s.split("\\t")) - 1), at(s.split("\\t"), len(s.split("\\t")) - 1) + take(t, len(t) - 1)), len(s.split("\\t")) - 1), take(s.split("\\t"), len(s.split("\\t")) - 1))
else:
    ext(s + t, s)
''')
    v.lemma('split_two', {'a': 'str', 'b': 'str'}, requires=['nochar(a, 9)', 'nochar(b, 9)'],
            ensures=['len((a + "\\t" + b).split("\\t")) == 2', 'at((a + "\\t" + b).split("\\t"), 0) == a', 'at((a + "\\t" + b).split("\\t"), 1) == b'], body='''
use('split_plain', "", a)
ext("" + a, a)
use('split_plain', a + "\\t", b)
''')
    v.lemma('split_one', {'a': 'str'}, requires=['nochar(a, 9)'], ensures=['len(a.split("\\t")) == 1'], body='''
use('split_plain', "", a)
ext("" + a, a)
''')
    v.define('wholelines', {'s': 'str'}, 'bool', 'len(s) == 0 or code(s, len(s) - 1) == 10', inline=True)
    v.lemma('lines_part', {'s': 'str', 't': 'str'}, requires=['wholelines(s)', 'nochar(t, 10)', 'len(t) > 0'],
            ensures=['linesof(s + t) == push(linesof(s), t)'], decreases='len(t)', body='''
last(t)
if len(t) > 1:
    use('lines_part', s, take(t, len(t) - 1))
else:
    ext(s + take(t, 0), s)
    ext("" + t, t)
''')
    v.lemma('lines_app', {'s': 'str', 't': 'str'}, requires=['wholelines(s)', 'nochar(t, 10)'],
            ensures=['linesof(s + (t + "\\n")) == push(linesof(s), t + "\\n")'], body='''
if len(t) > 0:
    use('lines_part', s, t)
else:
    ext(t + "\\n", "\\n")
''')
    v.defseq('withbreaks', {'ls': 'seq[str]'}, 'seq[str]', 'len(ls)', 'at(ls, i) + "\\n"')
    v.lemma('broken_lines', {'h': 'str', 'ls': 'seq[str]', 'n': 'int'}, requires=['nochar(h, 10)', 'forall(lambda i: implies(0 <= i and i < len(ls), nochar(at(ls, i), 10)), at(ls, i))', '0 <= n', 'n <= len(ls)'],
            ensures=['linesof((h + "\\n") + broken(ls, n, "\\n")) == cat(push(empty("seq[str]"), h + "\\n"), take(withbreaks(ls), n))', 'wholelines((h + "\\n") + broken(ls, n, "\\n"))'], decreases='n', body='''
hint(broken(ls, n, "\\n"))
if n > 0:
    use('broken_lines', h, ls, n - 1)
    use('lines_app', (h + "\\n") + broken(ls, n - 1, "\\n"), at(ls, n - 1))
    ext((h + "\\n") + broken(ls, n, "\\n"), ((h + "\\n") + broken(ls, n - 1, "\\n")) + (at(ls, n - 1) + "\\n"))
    ext(cat(push(empty("seq[str]"), h + "\\n"), take(withbreaks(ls), n)), push(cat(push(empty("seq[str]"), h + "\\n"), take(withbreaks(ls), n - 1)), at(ls, n - 1) + "\\n"))
else:
    use('lines_app', "", h)
    ext("" + (h + "\\n"), h + "\\n")
    ext((h + "\\n") + broken(ls, 0, "\\n"), h + "\\n")
    ext(cat(push(empty("seq[str]"), h + "\\n"), take(withbreaks(ls), 0)), push(empty("seq[str]"), h + "\\n"))
''')
    v.define('str.isint', {'s': 'str'}, 'bool')
    v.specfns['isint'] = v.specfns['str.isint']
    # words joined with a space are the words of the text
    v.lemma('words_part', {'s': 'str', 't': 'str'}, requires=['len(s) == 0 or is_ws(code(s, len(s) - 1))', 'nows(t)', 'len(t) > 0'], ensures=['(s + t).split() == push(val(s.split()), t)'], decreases='len(t)', body="""
last(t)
if len(t) > 1:
    use('words_part', s, take(t, len(t) - 1))
else:
    ext(s + take(t, 0), s)
    ext("" + t, t)
""")
    v.lemma('words_joined', {'w': 'seq[str]'}, requires=['forall(lambda i: implies(0 <= i and i < len(w), len(at(w, i)) > 0 and nows(at(w, i))), at(w, i))'], ensures=['" ".join(w).split() == w'], decreases='len(w)', body="""
if len(w) > 0:
    last(w)
    use('words_joined', take(w, len(w) - 1))
    if len(w) > 1:
        use('words_part', " ".join(take(w, len(w) - 1)) + " ", at(w, len(w) - 1))
    else:
        use('words_part', "", at(w, 0))
        ext("" + at(w, 0), at(w, 0))
""")
    v.lemma('strip_tail', {'s': 'str', 'u': 'str'}, requires=['len(s) > 0', 'not is_ws(code(s, 0))', 'not is_ws(code(s, len(s) - 1))', 'forall(lambda i: implies(0 <= i and i < len(u), is_ws(code(u, i))), code(u, i))'],
        ensures=['(s + u).strip() == s'], body="""
hint(code(s + u, 0), code(s + u, len(s) - 1), code((s + u).strip(), len((s + u).strip()) - 1))
ext((s + u).strip(), s)
""")
