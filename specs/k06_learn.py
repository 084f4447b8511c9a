"""C06 / C07: learning of a BPE vocabulary"""


def load(v):
    M = 'nlcodec.bpe.'
    BL = M + 'BPELearn'
    C = M + 'BPELearn.'
    v.type_alias.update({'NSET': 'set[ref:LnNode]', 'NINT': 'arr[ref:LnNode,int]', 'NREF': 'arr[ref:LnNode,ref:LnNode]', 'NBOOL': 'arr[ref:LnNode,bool]', 'PAIR': 'tuple[int,int]', 'INDEX': 'dict[tuple[int,int],set[ref:LnNode]]'})
    v.schemas[BL] = {'vocab': 'list[rec:Type]', 'uni': 'defaultdict[int,int]', 'bi': 'defaultdict[tuple[int,int],int]', 'bi_ixs': 'defaultdict[tuple[int,int],set[ref:LnNode]]'}
    N = 'null("LnNode")'
    # the sum of a number over a finite set of nodes
    v.define('wsum', {'S': 'NSET', 'F': 'NINT'}, 'int')
    v.axiom('wsum', '''forall(lambda F="NINT": wsum(empty("set[ref:LnNode]"), F) == 0, wsum(empty("set[ref:LnNode]"), F))
        and forall(lambda S="NSET", F="NINT", x="ref:LnNode": wsum(sadd(S, x), F) == wsum(S, F) + (0 if x in S else sel(F, x)), wsum(sadd(S, x), F))
        and forall(lambda S="NSET", F="NINT", x="ref:LnNode": wsum(srem(S, x), F) == wsum(S, F) - (sel(F, x) if x in S else 0), wsum(srem(S, x), F))''',
            ['wsum'], 'definition of the sum of the frequencies over a finite set of nodes: nothing for the empty set, one term more or less with a member more or less')
    v.define('nonneg', {'F': 'NINT'}, 'bool', f'forall(lambda x="ref:LnNode": 0 <= sel(F, x), sel(F, x))')
    v.axiom('wsum.pos', 'forall(lambda S="NSET", F="NINT": implies(nonneg(F), 0 <= wsum(S, F)), (nonneg(F), wsum(S, F)))', ['wsum', 'nonneg'], 'a sum of numbers that are not negative is not negative')

    # linked lists of nodes
    v.define('links', {'A': 'NBOOL', 'l': 'NREF', 'r': 'NREF', 'F': 'NINT', 'P': 'NINT'}, 'bool',
             f'''not sel(A, {N}) and forall(lambda x="ref:LnNode": implies(sel(A, x) and sel(r, x) != {N}, sel(A, sel(r, x)) and sel(l, sel(r, x)) == x and sel(P, x) < sel(P, sel(r, x)) and sel(F, x) == sel(F, sel(r, x))), sel(r, x))
                 and forall(lambda x="ref:LnNode": implies(sel(A, x) and sel(l, x) != {N}, sel(A, sel(l, x)) and sel(r, sel(l, x)) == x), sel(l, x))''')
    HEAP = 'field("LnNode", "live"), field("LnNode", "left"), field("LnNode", "right")'
    FP = 'field("LnNode", "freq"), field("LnNode", "pos")'
    F = 'field("LnNode", "freq")'
    v.define('links_ok', {}, 'bool', f'links({HEAP}, {FP})', inline=True)
    # nodes that are not part of a list have no neighbours
    v.define('deadok', {'A': 'NBOOL', 'l': 'NREF', 'r': 'NREF'}, 'bool', f'forall(lambda x="ref:LnNode": implies(not sel(A, x) and x != {N}, sel(l, x) == {N} and sel(r, x) == {N}), sel(l, x), sel(r, x))')
    # x and its right neighbour are the pair p
    v.define('ispair', {'x': 'ref:LnNode', 'p': 'PAIR'}, 'bool', f'x != {N} and x.live and x.right != {N} and p[0] == x.val and p[1] == x.right.val', inline=True)
    # the occurrences of a pair, and their weight
    v.define('cnt', {'B': 'INDEX', 'p': 'PAIR', 'F': 'NINT'}, 'int', 'wsum(get(B, p), F) if has(B, p) else 0')
    EXACT = lambda but: f'forall(lambda x="ref:LnNode", p="PAIR": implies({but}, (has(self.bi_ixs, p) and x in get(self.bi_ixs, p)) == ispair(x, p)), x in get(self.bi_ixs, p))'
    # nodes of a type
    v.define("nodesof", {'V': 'NINT', 'A': 'NBOOL', 't': 'int'}, 'NSET')
    v.axiom("nodesof", 'forall(lambda V="NINT", A="NBOOL", t="int", x="ref:LnNode": (x in nodesof(V, A, t)) == (sel(A, x) and sel(V, x) == t), x in nodesof(V, A, t))', ["nodesof"], 'definition: the nodes of a type')
    WT = 'wft1'
    v.define('merged', {'t': 'rec:Type', 'V': 'seq[rec:Type]'}, 'bool',
             't.kids is not None and len(unwrap(t.kids)) == 2 and ' + ' and '.join(f'0 <= at(unwrap(t.kids), {j}).idx and at(unwrap(t.kids), {j}).idx < t.idx and at(unwrap(t.kids), {j}) == at(V, at(unwrap(t.kids), {j}).idx)' for j in (0, 1))
             + ' and t.name == cat(at(unwrap(t.kids), 0).name, at(unwrap(t.kids), 1).name)')
    VOC = ['forall(lambda i: implies(0 <= i and i < len(self.vocab), at(self.vocab, i).idx == i), at(self.vocab, i))']
    n0 = 'old(len(self.vocab))'
    BASE = [*VOC, f'take(val(self.vocab), {n0}) == old(val(self.vocab))', f'len(self.vocab) >= {n0}',
            f'forall(lambda i: implies({n0} <= i and i < len(self.vocab), merged(at(self.vocab, i), val(self.vocab)) and at(self.vocab, i).freq >= min_co_evidence and at(self.vocab, i).level == code_level), at(self.vocab, i))']
    VALS = 'forall(lambda x="ref:LnNode": implies(x != null("LnNode") and x.live, 0 <= x.val and x.val < len(self.vocab)), x.val)'
    UNI = f'forall(lambda t: self.uni[t] == wsum(nodesof(field("LnNode", "val"), field("LnNode", "live"), t), {F}), self.uni[t])'
    CNT = lambda p: f'cnt(self.bi_ixs, {p}, {F})'
    H = 'heap.min_heap'
    QE = lambda body, trig=None: f'forall(lambda q, e="PAIR": {body}, count({H}, (q, e)))'
    # the heap holds every pair that occurs, once, with its count before the pending corrections
    I1 = QE(f'count({H}, (q, e)) <= 1')
    I2 = lambda c, but='True': QE(f'implies(count({H}, (q, e)) > 0 and {but}, q == heap_dirty[e] - {c("e")})')
    I3 = lambda c, but='True': f'forall(lambda e="PAIR": implies({c("e")} > 0 and {but}, count({H}, (heap_dirty[e] - {c("e")}, e)) > 0), {CNT("e")})'
    I4 = QE(f'implies(count({H}, (q, e)) > 0, e[0] < len(self.vocab) and e[1] < len(self.vocab))')
    D1 = 'forall(lambda e="PAIR": implies(has(heap_dirty, e), heap_dirty[e] < 0 and e[0] < len(self.vocab) and e[1] < len(self.vocab)), has(heap_dirty, e))'
    GOODH = [f'isheap({H})', I1, I4, D1]
    STATE = ['links_ok()', f'deadok({HEAP})', VALS]
    heapc = {f'nlcodec.dstruct.MaxHeap.{m}': f'nlcodec.dstruct.MaxHeap.{m}/pairs' for m in ('__init__', 'push', 'pop', '__len__')}
    MP, PF = 'unwrap(max_pair)', 'pair_freq'
    AB, R = '(a, b)', 'new_type_idx'
    # ---- what the nodes of a type weigh when a node changes
    NODESOF = lambda V, A: f'wsum(nodesof({V}, {A}, t), F)'
    v.lemma('nodes_val', {'V': 'NINT', 'A': 'NBOOL', 'x': 'ref:LnNode', 'r': 'int', 't': 'int', 'F': 'NINT'},
        ensures=[f"{NODESOF('upd(V, x, r)', 'A')} == {NODESOF('V', 'A')} - (sel(F, x) if sel(A, x) and sel(V, x) == t else 0) + (sel(F, x) if sel(A, x) and r == t else 0)"],
        body='''assert nodesof(upd(V, x, r), A, t) == (sadd(srem(nodesof(V, A, t), x), x) if sel(A, x) and r == t else srem(nodesof(V, A, t), x))''', auto=[NODESOF('upd(V, x, r)', 'A')])
    v.lemma('nodes_dead', {'V': 'NINT', 'A': 'NBOOL', 'x': 'ref:LnNode', 't': 'int', 'F': 'NINT'},
        ensures=[f"{NODESOF('V', 'upd(A, x, False)')} == {NODESOF('V', 'A')} - (sel(F, x) if sel(A, x) and sel(V, x) == t else 0)"],
        body='assert nodesof(V, upd(A, x, False), t) == srem(nodesof(V, A, t), x)', auto=[NODESOF('V', 'upd(A, x, False)')])
    # ---- the first k nodes of an enumeration
    v.define('firstk', {'U': 'seq[ref:LnNode]', 'k': 'int'}, 'NSET', 'empty("set[ref:LnNode]") if k <= 0 else sadd(firstk(U, k - 1), at(U, k - 1))', rec=True)
    v.lemma('firstk_has', {'U': 'seq[ref:LnNode]', 'k': 'int', 'j': 'int'}, requires=['0 <= j', 'j < k', 'k <= len(U)'], ensures=['at(U, j) in firstk(U, k)'], decreases='k', body='''
if j < k - 1:
    use('firstk_has', U, k - 1, j)
''')
    v.lemma('firstk_new', {'U': 'seq[ref:LnNode]', 'k': 'int', 'x': 'ref:LnNode'}, requires=['0 <= k', 'k <= len(U)', 'forall(lambda j: implies(0 <= j and j < k, at(U, j) != x), at(U, j))'], ensures=['not (x in firstk(U, k))'], decreases='k', body='''
if k > 0:
    use('firstk_new', U, k - 1, x)
    assert at(U, k - 1) != x
''')
    v.lemma('firstk_all', {'U': 'seq[ref:LnNode]', 'S': 'NSET'}, requires=['forall(lambda j: implies(0 <= j and j < len(U), at(U, j) in S), at(U, j))', 'forall(lambda x="ref:LnNode": implies(x in S, exists(lambda j: 0 <= j and j < len(U) and at(U, j) == x, at(U, j))), x in S)'], ensures=['firstk(U, len(U)) == S'], body='''
useall(lambda j: use('firstk_has', U, len(U), j), at(U, j))
useall(lambda x="ref:LnNode": use('firstk_new', U, len(U), x), x in firstk(U, len(U)))
assert forall(lambda x="ref:LnNode": (x in firstk(U, len(U))) == (x in S), x in S)
''')
    # ---- the loop over the occurrences of the merged pair
    E0 = lambda p: f'at_entry({CNT(p)})'
    REM = f'({PF} - wsum(firstk(_it, _k), {F}))'
    Z = 'at(_it, j)'
    ACC = lambda q: f'forall(lambda p="PAIR": implies(p == {q} and p != {AB}, {CNT("p")} == {E0("p")} + heap_deltas[p]), {CNT("p")})'
    SAME = lambda but: f'forall(lambda p="PAIR": implies({but}, {CNT("p")} == at_head({CNT("p")}) and heap_deltas[p] == at_head(heap_deltas[p])), {CNT("p")})'
    XA, XR, BY, RY = '(x_node.val, a)', f'(x_node.val, {R})', '(b, y_node.val)', f'({R}, y_node.val)'
    MERGED = f'''
if node.val != at_head(node.val):
    if x_node is not None:
        assert at_head(node.left in get(self.bi_ixs, (node.left.val, a)) or (node.left.val, a) == {AB})
        assert {ACC(XA)}
        assert {ACC(XR)}
        if y_node is not None:
            assert {ACC(BY)}
            assert {ACC(RY)}
            assert {SAME(' and '.join(f'p != {k}' for k in (XA, XR, BY, RY)))}
        else:
            assert {SAME(f'p != {XA} and p != {XR}')}
    else:
        if y_node is not None:
            assert {ACC(BY)}
            assert {ACC(RY)}
            assert {SAME(f'p != {BY} and p != {RY}')}
'''
    # the lists after some of the occurrences were merged: what is left, what a merged node stands for, what is gone
    V0, L0, R0 = (lambda x: f'at_entry({x}.val)'), (lambda x: f'at_entry({x}.live)'), (lambda x: f'at_entry({x}.right)')
    STEP = [f'forall(lambda x="ref:LnNode": implies({N} != x and x.live, {L0("x")} and (x.val == {V0("x")} and x.right == {R0("x")} or x.val == {R} and at_entry(ispair(x, {AB})) and x.right == at_entry(x.right.right))), x.val, x.right)',
            f'forall(lambda x="ref:LnNode": implies({N} != x and {L0("x")} and not x.live, {V0("x")} == b and at_entry(x.left) is not None and at_entry(x.left.val) == a and sel(field("LnNode", "live"), at_entry(x.left)) and sel(field("LnNode", "val"), at_entry(x.left)) == {R}), x.live)']
    NODELOOP = [*STEP, *STATE, EXACT(f'p != {AB}'), f'not has(self.bi_ixs, {AB})',
        f'forall(lambda x="ref:LnNode": implies(ispair(x, {AB}), x in update_nodes), x.val)',
        f'forall(lambda j: implies(0 <= j and j < _k, not ispair({Z}, {AB})), {Z})',
        f'forall(lambda j: implies(_k <= j and j < len(_it), {Z} != null("LnNode") and (not {Z}.live or {Z}.val == a and {Z}.right != null("LnNode") and ({Z}.right.val == b or a == b and {Z}.right.val == {R}))), {Z})',
        f'forall(lambda p="PAIR": implies(p != {AB}, {CNT("p")} == {E0("p")} + heap_deltas[p]), heap_deltas[p])',
        f'forall(lambda p="PAIR": implies(has(heap_deltas, p), 0 <= p[0] and p[0] <= {R} and 0 <= p[1] and p[1] <= {R}), has(heap_deltas, p))',
        f'forall(lambda p="PAIR": implies(p[0] != {R} and p[1] != {R}, heap_deltas[p] <= 0), heap_deltas[p])',
        f'forall(lambda t: self.uni[t] == wsum(nodesof(field("LnNode", "val"), field("LnNode", "live"), t), {F}) - ({REM} if t == a else 0) - ({REM} if t == b else 0) + ({REM} if t == {R} else 0), self.uni[t])',
    ]
    # ---- the loop over the corrections of the heap
    DONE = lambda e: f'(not has(heap_deltas, {e}) or dpos(heap_deltas, {e}) < _k)'
    CC = lambda e: f'({CNT(e)} - (0 if {DONE(e)} else get(heap_deltas, {e})))'
    NEWP = 'e[0] == new_type_idx or e[1] == new_type_idx'
    FIXLOOP = [*GOODH, I2(CC, f'e != {AB}'), I3(CC, f'e != {AB}'), f'forall(lambda q: count({H}, (q, {AB})) == 0, count({H}, (q, {AB})))',
        QE(f'implies(({NEWP}) and not {DONE("e")}, count({H}, (q, e)) == 0)'), f'forall(lambda e="PAIR": implies({NEWP}, not has(heap_dirty, e)), has(heap_dirty, e))']
    LAST = 'at(self.vocab, len(self.vocab) - 1)'
    PICKED = f'''
if len(self.vocab) != at_head(len(self.vocab)):
    assert forall(lambda p="PAIR": implies(p == (at(unwrap({LAST}.kids), 0).idx, at(unwrap({LAST}.kids), 1).idx), at_head({CNT("p")}) == {LAST}.freq), at_head({CNT("p")}))
    assert forall(lambda q="PAIR": at_head({CNT("q")}) <= {LAST}.freq, at_head({CNT("q")}))
'''
    v.contract(C + 'learn_codes', params={'n_merges': 'int', 'min_co_evidence': 'int', 'code_level': 'int', 'log_every': 'int'}, returns='list[rec:Type]',
        requires=['n_merges >= 0', 'min_co_evidence >= 1', f'nonneg({F})', *VOC, *STATE, EXACT('True'), UNI,
                  f'forall(lambda p="PAIR": has(self.bi, p) == has(self.bi_ixs, p) and implies(has(self.bi, p), get(self.bi, p) == {CNT("p")} and p[0] < len(self.vocab) and p[1] < len(self.vocab)), has(self.bi, p))'],
        modifies=['self.vocab', 'self.uni', 'self.bi_ixs', 'field:LnNode.val', 'field:LnNode.left', 'field:LnNode.right', 'field:LnNode.live'],
        opts={'noframe': True, 'merge': ['last_log_t'], 'calls': heapc, 'types': {'max_pair': 'opt[tuple[int,int]]', 'heap_dirty': 'defaultdict[tuple[int,int],int]', 'heap_deltas': 'defaultdict[tuple[int,int],int]'}},
        loops={0: dict(end=PICKED, brk=f'assert forall(lambda q="PAIR": {CNT("q")} < min_co_evidence, {CNT("q")})', inv=[*BASE, f'len(self.vocab) == {n0} + _k', *STATE, EXACT('True'), UNI, *GOODH, I2(CNT), I3(CNT)]),
               1: dict(inv=[*GOODH, f'implies(max_pair is None, len({H}) == 0)', f'implies(max_pair is not None, {PF} + heap_dirty[{MP}] == {CNT(MP)} and {MP}[0] < len(self.vocab) and {MP}[1] < len(self.vocab))',
                            QE(f'implies(max_pair is not None and count({H}, (q, e)) > 0, e != {MP} and -q <= {PF})'),
                            I2(CNT, f'(max_pair is None or e != {MP})'), I3(CNT, f'(max_pair is None or e != {MP})')], dec='len(heap_dirty)', join=True),
               2: dict(inv=NODELOOP,  start='use("firstk_new", _it, _k, at(_it, _k)); assert firstk(_it, _k + 1) == sadd(firstk(_it, _k), at(_it, _k))', end=MERGED, fin='use("firstk_all", _it, update_nodes)'), 3: dict(inv=FIXLOOP)},
        ensures=['val(result) == val(self.vocab)', *BASE, f'len(result) <= {n0} + n_merges',
                 f'len(result) == {n0} + n_merges or forall(lambda q="PAIR": {CNT("q")} < min_co_evidence, {CNT("q")})'])
    # ---- the index learn_codes starts from
    v.contract('nlcodec.utils.max_RSS', params={'who': 'int'}, returns='tup[int,str]', trusted=True, note='reports the memory in use')
    v.axiom('wsum.eq', 'forall(lambda S="NSET", F="NINT", G="NINT": implies(forall(lambda x="ref:LnNode": implies(x in S, sel(F, x) == sel(G, x)), x in S), wsum(S, F) == wsum(S, G)), (wsum(S, F), wsum(S, G)))', ['wsum'], 'sums of equal numbers are equal')
    v.lemma('nodes_new', {'V': 'NINT', 'A': 'NBOOL', 'x': 'ref:LnNode', 't': 'int', 'F': 'NINT'},
        ensures=[f"{NODESOF('V', 'upd(A, x, True)')} == {NODESOF('V', 'A')} + (sel(F, x) if not sel(A, x) and sel(V, x) == t else 0)"],
        body='assert nodesof(V, upd(A, x, True), t) == (sadd(nodesof(V, A, t), x) if sel(V, x) == t else nodesof(V, A, t))', auto=[NODESOF('V', 'upd(A, x, True)')])
    v.lemma('nodes_frame', {'V': 'NINT', 'W': 'NINT', 'A': 'NBOOL', 't': 'int', 'F': 'NINT', 'G': 'NINT'}, requires=['forall(lambda x="ref:LnNode": implies(sel(A, x), sel(V, x) == sel(W, x) and sel(F, x) == sel(G, x)), sel(A, x))'],
        ensures=['wsum(nodesof(W, A, t), G) == wsum(nodesof(V, A, t), F)'], body='assert nodesof(W, A, t) == nodesof(V, A, t)')
    DN = 'sel(done, x)'
    VF = 'field("LnNode", "val")'
    UNID = f'forall(lambda t: self.uni[t] == wsum(nodesof({VF}, done, t), {F}), self.uni[t])'
    BI = f'forall(lambda p="PAIR": has(self.bi, p) == has(self.bi_ixs, p) and implies(has(self.bi, p), get(self.bi, p) == {CNT("p")} and p[0] < len(self.vocab) and p[1] < len(self.vocab)), has(self.bi, p))'
    UK = 'forall(lambda t: implies(has(self.uni, t), 0 <= t and t < len(self.vocab)), has(self.uni, t))'
    KE = 'keys(self.bi) == keys(self.bi_ixs)'
    BK = 'forall(lambda p="PAIR": implies(has(self.bi, p), 0 <= p[0] and 0 <= p[1]), has(self.bi, p))'
    OLDN = 'forall(lambda x="ref:LnNode": implies(sel(done, x), allocated(x)), sel(done, x))'
    SEQ = 'at(val(seqs), i)'
    v.contract(C + 'create_index', params={'seqs': 'iter[tuple[seq[int],int]]'}, entry='done = field("LnNode", "live")',
        requires=[f'nonneg({F})', *VOC, 'forall(lambda x="ref:LnNode": not x.live, x.live)', 'forall(lambda x="ref:LnNode": x.left == null("LnNode") and x.right == null("LnNode"), x.left, x.right)',
                  'forall(lambda t: not has(self.uni, t), has(self.uni, t))', 'forall(lambda p="PAIR": not has(self.bi, p), has(self.bi, p))', 'forall(lambda p="PAIR": not has(self.bi_ixs, p), has(self.bi_ixs, p))',
                  f'forall(lambda i: implies(0 <= i and i < len(val(seqs)), len({SEQ}[0]) > 0 and {SEQ}[1] >= 0 and forall(lambda j: implies(0 <= j and j < len({SEQ}[0]), 0 <= at({SEQ}[0], j) and at({SEQ}[0], j) < len(self.vocab)), at({SEQ}[0], j))), {SEQ})'],
        modifies=['self.uni', 'self.bi', 'self.bi_ixs', *['field:LnNode.' + x for x in ('val', 'left', 'right', 'freq', 'data', 'alloc', 'live', 'pos')]],
        opts={'noframe': True, 'after': {'nodes': """
useall(lambda t: use('nodes_frame', at_head(field("LnNode", "val")), field("LnNode", "val"), done, t, at_head(field("LnNode", "freq")), field("LnNode", "freq")), wsum(nodesof(field("LnNode", "val"), done, t), field("LnNode", "freq")))
assert forall(lambda p="PAIR": implies(has(self.bi_ixs, p), wsum(get(self.bi_ixs, p), field("LnNode", "freq")) == at_head(wsum(get(self.bi_ixs, p), field("LnNode", "freq")))), has(self.bi_ixs, p))
"""}},
        loops={0: dict(inv=[*STATE, f'nonneg({F})', EXACT('True'), UNI, BI, UK, BK, KE, 'implies(_k > 0, len(self.uni) > 0)', OLDN, 'done == field("LnNode", "live")'],
                       end="""
done = upd(done, at(nodes, len(nodes) - 1), True)
assert forall(lambda x="ref:LnNode": sel(done, x) == x.live, x.live, sel(done, x))
assert done == field("LnNode", "live")
"""),
               1: dict(inv=[f'forall(lambda x="ref:LnNode": {DN} == (at_entry({DN}) or x.live and not at_entry({DN}) and x.pos < _k), {DN})',
                            f'forall(lambda x="ref:LnNode", p="PAIR": (has(self.bi_ixs, p) and x in get(self.bi_ixs, p)) == (ispair(x, p) and {DN}), x in get(self.bi_ixs, p))', UNID, BI, UK, BK, KE, OLDN],
                       end="""
assert at(nodes, _k).live and at(nodes, _k).right == at(nodes, _k + 1) and at(nodes, _k).right is not None and at(nodes, _k).pos == _k and not sel(done, at(nodes, _k))
assert at(nodes, _k) in get(self.bi_ixs, (at(nodes, _k).val, at(nodes, _k + 1).val))
assert forall(lambda x="ref:LnNode", p="PAIR": implies(x != at(nodes, _k), (has(self.bi_ixs, p) and x in get(self.bi_ixs, p)) == (ispair(x, p) and sel(done, x))), x in get(self.bi_ixs, p))
done = upd(done, at(nodes, _k), True)
""")},
        ensures=[f'nonneg({F})', *STATE, EXACT('True'), UNI, BI, UK, BK, KE, 'implies(len(old(val(seqs))) > 0, len(self.uni) > 0)'])
    # ---- the check of the index: never refuses a right one
    v.define('within', {'S': 'NSET', 'T': 'NSET'}, 'bool', 'forall(lambda x="ref:LnNode": implies(x in S, x in T), x in S)')
    v.axiom('wsum.mono', 'forall(lambda S="NSET", T="NSET", F="NINT": implies(nonneg(F) and within(S, T), wsum(S, F) <= wsum(T, F)), (within(S, T), wsum(S, F)))', ['within'], 'a part of a sum of numbers that are not negative is not larger')
    v.define('image', {'S': 'NSET', 'R': 'NREF'}, 'NSET')
    v.axiom('image', '''forall(lambda S="NSET", R="NREF", y="ref:LnNode": (y in image(S, R)) == exists(lambda x="ref:LnNode": x in S and sel(R, x) == y, x in S), y in image(S, R))
        and forall(lambda S="NSET", R="NREF", x="ref:LnNode": implies(x in S, sel(R, x) in image(S, R)), (image(S, R), x in S))
        and forall(lambda S="NSET", R="NREF", L="NREF", F="NINT": implies(forall(lambda x="ref:LnNode": implies(x in S, sel(L, sel(R, x)) == x and sel(F, sel(R, x)) == sel(F, x)), x in S), wsum(image(S, R), F) == wsum(S, F)), (image(S, R), sel(L, null("LnNode")), wsum(S, F)))''', ['image'], 'definition of the image of a set; a sum over it is the sum over the set when the map is one to one (L undoes it) and keeps the numbers')
    v.lemma('firstk_take', {'U': 'seq[ref:LnNode]', 'n': 'int', 'k': 'int'}, requires=['0 <= k', 'k <= n', 'n <= len(U)'], ensures=['firstk(take(U, n), k) == firstk(U, k)'], decreases='k', body='''
if k > 0:
    use('firstk_take', U, n, k - 1)
''')
    v.lemma('sum_firstk', {'G': 'seq[int]', 'U': 'seq[ref:LnNode]', 'F': 'NINT'}, requires=['len(G) == len(U)', 'forall(lambda i: implies(0 <= i and i < len(U), at(G, i) == sel(F, at(U, i))), at(G, i), at(U, i))', 'forall(lambda i, j: implies(0 <= i and i < j and j < len(U), at(U, i) != at(U, j)), (at(U, i), at(U, j)))'],
        ensures=['total(G) == wsum(firstk(U, len(U)), F)'], decreases='len(U)', body='''
if len(U) > 0:
    last(U)
    last(G)
    use('sum_firstk', take(G, len(U) - 1), take(U, len(U) - 1), F)
    use('firstk_take', U, len(U) - 1, len(U) - 1)
    use('firstk_new', U, len(U) - 1, at(U, len(U) - 1))
else:
    ext(G, empty("seq[int]"))
''')
    v.lemma('sum_nodes', {'G': 'seq[int]', 'U': 'seq[ref:LnNode]', 'S': 'NSET', 'F': 'NINT'}, requires=['len(G) == len(U)', 'forall(lambda i: implies(0 <= i and i < len(U), at(G, i) == sel(F, at(U, i)) and at(U, i) in S), at(G, i), at(U, i))', 'forall(lambda i, j: implies(0 <= i and i < j and j < len(U), at(U, i) != at(U, j)), (at(U, i), at(U, j)))', 'forall(lambda x="ref:LnNode": implies(x in S, exists(lambda j: 0 <= j and j < len(U) and at(U, j) == x, at(U, j))), x in S)'],
        ensures=['total(G) == wsum(S, F)'], body='''
use('sum_firstk', G, U, F)
use('firstk_all', U, S)
''', auto=[('total(G)', 'len(U)', 'wsum(S, F)')])
    HEAD = 'at(keys(self.bi), _k)'
    S = f'get(self.bi_ixs, {HEAD})'
    v.contract(C + 'validate_index', params={}, requires=[f'nonneg({F})', *VOC, *STATE, EXACT('True'), UNI, BI, UK, BK, KE, 'len(self.uni) > 0', 'len(self.vocab) > 0'], modifies=['self.uni'],
        loops={0: dict(inv=['forall(lambda t: self.uni[t] == at_entry(self.uni[t]), self.uni[t])', UK, UNI], start=f'''
assert has(self.bi, {HEAD}) and has(self.bi_ixs, {HEAD}) and get(self.bi, {HEAD}) == wsum({S}, {F})
assert within({S}, nodesof({VF}, field("LnNode", "live"), {HEAD}[0]))
assert within(image({S}, field("LnNode", "right")), nodesof({VF}, field("LnNode", "live"), {HEAD}[1]))
hint(sel(field("LnNode", "left"), null("LnNode")))
assert wsum({S}, {F}) <= self.uni[{HEAD}[0]]
assert wsum({S}, {F}) <= self.uni[{HEAD}[1]]
'''), 1: dict(inv=[])},
        ensures=['forall(lambda t: self.uni[t] == old(self.uni[t]), self.uni[t])', UK])
    # ---- words as sequences of vocabulary positions
    VI = 'forall(lambda w="str": implies(has(voc_idx, w), 0 <= voc_idx[w] and voc_idx[w] < nv), has(voc_idx, w))'
    RES = 'at(val(result), i)'
    TK = 'at(keys(term_freqs), {i})'
    v.define('wordseq', {'d': 'dict[str,int]', 'w': 'str', 's': 'seq[int]'}, 'bool', 'len(s) == 1 and at(s, 0) == get(d, w) if has(d, w) else len(s) == len(w) and forall(lambda j: implies(0 <= j and j < len(w), at(s, j) == (get(d, w[j]) if has(d, w[j]) else get(d, "<unk>"))), at(s, j))')
    v.contract(C + '_make_idxs', self_ty='class:' + BL, params={'voc_idx': 'dict[str,int]', 'term_freqs': 'dict[str,int]'}, returns='iter[tuple[seq[int],int]]',
        requires=['has(voc_idx, "<unk>")'], opts={'types': {'_out': 'list[tuple[seq[int],int]]'}},
        loops={0: dict(inv=['len(_out) == _k', f'forall(lambda i: implies(0 <= i and i < _k, at(_out, i)[1] == get(term_freqs, {TK.format(i="i")}) and wordseq(val(voc_idx), {TK.format(i="i")}, at(_out, i)[0])), at(_out, i))'])},
        ensures=['len(val(result)) == len(term_freqs)', f'forall(lambda i: implies(0 <= i and i < len(term_freqs), {RES}[1] == get(term_freqs, {TK.format(i="i")}) and wordseq(val(voc_idx), {TK.format(i="i")}, {RES}[0])), {RES})'])
    # ---- from words and their frequencies to the vocabulary
    FRESH = [f'nonneg({F})', 'forall(lambda x="ref:LnNode": not x.live, x.live)', 'forall(lambda x="ref:LnNode": x.left == null("LnNode") and x.right == null("LnNode"), x.left, x.right)']
    VOCV = ['forall(lambda i: implies(0 <= i and i < len(vocab), at(vocab, i).idx == i), at(vocab, i))', 'forall(lambda i, j: implies(0 <= i and i < j and j < len(vocab), at(vocab, i).name != at(vocab, j).name), (at(vocab, i), at(vocab, j)))']
    TFS = ['len(term_freqs) > 0', 'forall(lambda w="str": implies(has(term_freqs, w), len(w) > 0 and get(term_freqs, w) >= 0), has(term_freqs, w))']
    LEARNED = lambda n, old, mc: [f'len(result) >= {n}', f'take(val(result), {n}) == {old}', 'forall(lambda i: implies(0 <= i and i < len(result), at(result, i).idx == i), at(result, i))',
            f'forall(lambda i: implies({n} <= i and i < len(result), merged(at(result, i), val(result)) and at(result, i).freq >= {mc} and at(result, i).level == 1), at(result, i))']
    NODES = ['field:LnNode.' + x for x in ('val', 'left', 'right', 'freq', 'data', 'alloc', 'live', 'pos')]
    v.contract(C + '_learn_codes', self_ty='class:' + BL, params={'term_freqs': 'dict[str,int]', 'vocab': 'list[rec:Type]', 'vocab_size': 'int', 'init_list': '=None', 'min_co_evidence': 'int'}, returns='list[rec:Type]',
        requires=[*FRESH, *VOCV, 'len(vocab) > 1 and at(vocab, 1).name == "<unk>"', *TFS, 'min_co_evidence >= 1'], raises={'AssertionError': 'vocab_size <= len(vocab)'}, modifies=NODES,
        opts={'noframe': True}, ensures=['val(vocab) == old(val(vocab))', *LEARNED('len(vocab)', 'val(vocab)', 'min_co_evidence'), 'len(result) <= vocab_size'])
    # ---- learning from lines: the initial vocabulary, then merges
    POSC = 'forall(lambda w="str": implies(has(char_freqs, w), get(char_freqs, w) > 0), has(char_freqs, w))'
    v.contract(C + 'learn_subwords', self_ty='class:' + BL, inline=True, opts={'types': {'char_freqs': 'defaultdict[str,int]'}}, loops={0: dict(inv=[POSC]), 1: dict(inv=[POSC])})
    RESN = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', '▁']
    HASW = 'exists(lambda w="str": wfreq(val(data), len(val(data)), w) > 0, wfreq(val(data), len(val(data)), w))'
    v.contract('nlcodec.codec.BPEScheme.learn', self_ty='class:nlcodec.codec.BPEScheme', params={'data': 'iter[str]', 'vocab_size': 'int', 'min_freq': 'int', 'coverage': 'real', 'min_co_evidence': 'int', 'term_freqs': '=False'}, returns='list[rec:Type]',
        requires=[*FRESH, '0 <= coverage', 'coverage <= 1', 'min_co_evidence >= 1', HASW], raises={'AssertionError': 'True'}, modifies=NODES, opts={'noframe': True, 'may_raise': True},
        ensures=['len(result) >= 6', ' and '.join(f'at(result, {i}).name == "{x}" and at(result, {i}).idx == {i} and at(result, {i}).level == -1' for i, x in enumerate(RESN)),
                 'forall(lambda i: implies(0 <= i and i < len(result), at(result, i).idx == i), at(result, i))',
                 'forall(lambda i: implies(6 <= i and i < len(result), at(result, i).level == 0 and not resname(at(result, i).name) or at(result, i).level == 1 and merged(at(result, i), val(result)) and at(result, i).freq >= min_co_evidence), at(result, i))',
                 'implies(vocab_size > 1 or min_co_evidence <= 1, len(result) <= vocab_size)'])
    NC = ['learning with term frequencies given in the data, with a list of initial subwords, or (learn_subwords) with vocab_size=-1: searched, not proved']
    ASM = ['no linked list nodes of earlier learning runs are linked to the new ones (every run makes its own nodes)', 'the sum of numbers over a finite set of nodes: empty set, adding or removing one member, equal numbers, part of a sum, image of a one-to-one map']
    CORE = [C + x for x in ('learn_codes', 'create_index', 'validate_index', '_make_idxs', '_learn_codes')]
    v.prop('C06', [*CORE, 'nlcodec.codec.BPEScheme.learn'], bounded=['learning with given term frequencies, init_list or vocab_size=-1'], not_covered=NC, assume=ASM)
    v.prop('C07', CORE, bounded=['learning with given term frequencies, init_list or vocab_size=-1'], not_covered=NC, assume=ASM)
