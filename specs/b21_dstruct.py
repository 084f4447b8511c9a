"""C21: heap, trie, linked list"""


def load(v):
    v.recclasses['Type'] = dict(full='nlcodec.codec.Type', fields={'name': 'str', 'level': 'int', 'idx': 'int', 'freq': 'int', 'kids': 'opt[seq[rec:Type]]'})
    v.refclasses['TrNode'] = dict(full='nlcodec.dstruct.TrNode', fields={
        'idx': 'str', 'name': 'opt[str]', 'data': 'opt[rec:Type]', 'parent': 'ref:TrNode', 'kids': 'dict[str,ref:TrNode]',
        'path': 'str'},     # ghost: the key that leads to the node from the root it was created under; set once, at creation
        ghost_init=['self.path == ((parent.path + idx) if parent is not None else "")'])
    v.type_alias['KIDS'] = 'arr[ref:TrNode,dict[str,ref:TrNode]]'
    v.type_alias['PATHS'] = 'arr[ref:TrNode,str]'
    v.type_alias['NODES'] = 'arr[ref:TrNode,bool]'

    v.define('walk', {'K': 'KIDS', 'r': 'ref:TrNode', 's': 'str'}, 'ref:TrNode',
             'r if len(s) == 0 else (walk(K, get(sel(K, r), take(s, 1)), drop(s, 1)) if has(sel(K, r), take(s, 1)) else null("TrNode"))', rec=True)
    v.define('trieok', {'K': 'KIDS', 'A': 'NODES', 'P': 'PATHS'}, 'bool',
             '''not sel(A, null("TrNode")) and forall(lambda r="ref:TrNode", k="str": implies(sel(A, r) and has(sel(K, r), k),
                  sel(A, get(sel(K, r), k)) and len(k) == 1 and sel(P, get(sel(K, r), k)) == cat(sel(P, r), k)), has(sel(K, r), k), get(sel(K, r), k))''')
    KAP = 'field("TrNode", "kids"), field("TrNode", "alloc"), field("TrNode", "path")'
    v.define('tries_ok', {}, 'bool', f'trieok({KAP})', inline=True)
    v.define('lookup', {'r': 'ref:TrNode', 's': 'str'}, 'ref:TrNode', 'walk(field("TrNode", "kids"), r, s)', inline=True)

    v.define('grows', {'K': 'KIDS', 'K2': 'KIDS', 'A': 'NODES'}, 'bool',
             'forall(lambda r="ref:TrNode", k="str": implies(sel(A, r) and has(sel(K, r), k), has(sel(K2, r), k) and get(sel(K2, r), k) == get(sel(K, r), k)), has(sel(K, r), k), has(sel(K2, r), k))')

    # an insertion adds only links to nodes that were not there
    v.define('addsnew', {'K': 'KIDS', 'K2': 'KIDS', 'A': 'NODES', 'A2': 'NODES'}, 'bool',
             '''forall(lambda r="ref:TrNode", k="str": implies(sel(A2, r) and has(sel(K2, r), k), sel(A2, get(sel(K2, r), k)) and (sel(A, r) and has(sel(K, r), k) and get(sel(K2, r), k) == get(sel(K, r), k) or not sel(A, get(sel(K2, r), k)))), has(sel(K2, r), k))''')
    # a lookup that succeeds leads to the node with that path
    v.lemma('walk_path', {'K': 'KIDS', 'A': 'NODES', 'P': 'PATHS', 'r': 'ref:TrNode', 's': 'str'},
            requires=['trieok(K, A, P)', 'sel(A, r)', 'walk(K, r, s) != null("TrNode")'],
            ensures=['sel(A, walk(K, r, s))', 'sel(P, walk(K, r, s)) == cat(sel(P, r), s)'],
            decreases='len(s)', body='''
if len(s) > 0:
    split_at(s, 1)
    use('walk_path', K, A, P, get(sel(K, r), take(s, 1)), drop(s, 1))
''', auto=[('trieok(K, A, P)', 'walk(K, r, s)')])
    # what could be found before is found after an insertion
    v.lemma('walk_grows', {'K': 'KIDS', 'K2': 'KIDS', 'A': 'NODES', 'P': 'PATHS', 'r': 'ref:TrNode', 's': 'str'},
            requires=['trieok(K, A, P)', 'grows(K, K2, A)', 'sel(A, r)', 'walk(K, r, s) != null("TrNode")'],
            ensures=['walk(K2, r, s) == walk(K, r, s)'],
            decreases='len(s)', body='''
if len(s) > 0:
    use('walk_grows', K, K2, A, P, get(sel(K, r), take(s, 1)), drop(s, 1))
''')
    # different keys have different nodes
    v.lemma('walk_inj', {'K': 'KIDS', 'A': 'NODES', 'P': 'PATHS', 'r': 'ref:TrNode', 's': 'str', 't': 'str'},
            requires=['trieok(K, A, P)', 'sel(A, r)', 'walk(K, r, s) != null("TrNode")', 'walk(K, r, s) == walk(K, r, t)'],
            ensures=['s == t'], body='''
use('walk_path', K, A, P, r, s)
use('walk_path', K, A, P, r, t)
hint(len(cat(sel(P, r), s)), len(cat(sel(P, r), t)))
assert drop(cat(sel(P, r), s), len(sel(P, r))) == s
assert drop(cat(sel(P, r), t), len(sel(P, r))) == t
''')

    v.contract('nlcodec.dstruct.TrNode.get_node', self_ty='ref:TrNode',
        params={'idxs': 'str', 'create_missing': 'bool'}, returns='ref:TrNode',
        requires=['allocated(self)', 'tries_ok()'],
        raises={'KeyError': 'not create_missing and lookup(self, idxs) == null("TrNode")'},
        modifies=['field:TrNode.kids', 'field:TrNode.idx', 'field:TrNode.name', 'field:TrNode.data', 'field:TrNode.parent', 'field:TrNode.alloc'],
        decreases='len(idxs)',
        exit='''
if len(idxs) > 0:
    split_at(idxs, 1)
''',
        ensures=['allocated(result)', 'tries_ok()',
                 'result == lookup(self, idxs)',
                 'grows(old(field("TrNode", "kids")), field("TrNode", "kids"), old(field("TrNode", "alloc")))',
                 'addsnew(old(field("TrNode", "kids")), field("TrNode", "kids"), old(field("TrNode", "alloc")), field("TrNode", "alloc"))',
                 'forall(lambda r="ref:TrNode": implies(old(allocated(r)), allocated(r) and r.data == old(r.data) and r.name == old(r.name) and r.idx == old(r.idx) and r.parent == old(r.parent)), allocated(r), r.data, r.name, r.idx, r.parent, old(allocated(r)))',
                 'forall(lambda r="ref:TrNode": implies(allocated(r) and not old(allocated(r)), r.data is None and r.name is None), allocated(r), r.data, r.name)',
                 # nothing else appears: every added edge lies on the inserted key
                 '''forall(lambda r="ref:TrNode", k="str": implies(allocated(r) and has(r.kids, k) and not (old(allocated(r)) and old(has(r.kids, k))),
                      len(get(r.kids, k).path) > len(self.path) and len(get(r.kids, k).path) <= len(self.path) + len(idxs)
                      and get(r.kids, k).path == take(self.path + idxs, len(get(r.kids, k).path))), has(r.kids, k))''',
                 'implies(not create_missing, field("TrNode", "kids") == old(field("TrNode", "kids")) and field("TrNode", "alloc") == old(field("TrNode", "alloc")))'])

    # ---- sizes. rank: any measure that decreases along the links, as every finite tree has
    v.define('rank', {'K': 'KIDS', 'r': 'ref:TrNode'}, 'int')
    v.define('ranked', {'K': 'KIDS', 'A': 'NODES'}, 'bool',
             'not sel(A, null("TrNode")) and forall(lambda r="ref:TrNode", k="str": implies(sel(A, r) and has(sel(K, r), k), sel(A, get(sel(K, r), k)) and 0 <= rank(K, get(sel(K, r), k)) and rank(K, get(sel(K, r), k)) < rank(K, r)), get(sel(K, r), k))')
    v.define('nodecount', {'K': 'KIDS', 'r': 'ref:TrNode'}, 'int')
    v.define('datacount', {'K': 'KIDS', 'D': 'arr[ref:TrNode,opt[rec:Type]]', 'r': 'ref:TrNode'}, 'int')
    v.defseq('kidcounts', {'K': 'KIDS', 'r': 'ref:TrNode'}, 'seq[int]', 'len(keys(sel(K, r)))', 'nodecount(K, get(sel(K, r), at(keys(sel(K, r)), i)))')
    v.defseq('kiddata', {'K': 'KIDS', 'D': 'arr[ref:TrNode,opt[rec:Type]]', 'r': 'ref:TrNode'}, 'seq[int]', 'len(keys(sel(K, r)))', 'datacount(K, D, get(sel(K, r), at(keys(sel(K, r)), i)))')
    v.axiom('nodecount', 'forall(lambda K="KIDS", A="NODES", r="ref:TrNode": implies(ranked(K, A) and sel(A, r), nodecount(K, r) == 1 + total(kidcounts(K, r))), (ranked(K, A), nodecount(K, r)))',
            ['nodecount'], 'definition of the number of nodes of a finite tree: one more than the sum over the links (well founded by rank)')
    v.axiom('datacount', 'forall(lambda K="KIDS", D="arr[ref:TrNode,opt[rec:Type]]", A="NODES", r="ref:TrNode": implies(ranked(K, A) and sel(A, r), datacount(K, D, r) == (1 if sel(D, r) is not None else 0) + total(kiddata(K, D, r))), (ranked(K, A), datacount(K, D, r)))',
            ['datacount'], 'definition of the number of nodes with data of a finite tree (well founded by rank)')
    for attr, res in (('size', 'nodecount(field("TrNode", "kids"), self)'), ('data_node_count', 'datacount(field("TrNode", "kids"), field("TrNode", "data"), self)')):
        v.contract('nlcodec.dstruct.TrNode.' + attr, self_ty='ref:TrNode', returns='int',
            requires=['allocated(self)', 'ranked(field("TrNode", "kids"), field("TrNode", "alloc"))'],
            decreases='rank(field("TrNode", "kids"), self)', ensures=[f'result == {res}'])

    # ---- linked list
    v.refclasses['LnNode'] = dict(full='nlcodec.dstruct.LnNode', fields={'val': 'int', 'left': 'ref:LnNode', 'right': 'ref:LnNode', 'freq': 'int', 'data': 'opt[int]',
        'live': 'bool', 'pos': 'int'},      # ghost: not deleted; the position where it was created in its sequence
        ghost_init={'live': True})
    v.type_alias['LINK'] = 'arr[ref:LnNode,ref:LnNode]'
    v.define('dll', {'L': 'seq[ref:LnNode]', 'l': 'LINK', 'r': 'LINK'}, 'bool',
             '''forall(lambda i: implies(0 <= i and i < len(L), at(L, i) != null("LnNode") and sel(l, at(L, i)) == (at(L, i - 1) if i > 0 else null("LnNode"))
                      and sel(r, at(L, i)) == (at(L, i + 1) if i + 1 < len(L) else null("LnNode"))), at(L, i))
                and forall(lambda i, j: implies(0 <= i and i < j and j < len(L), at(L, i) != at(L, j)), (at(L, i), at(L, j)))''')
    v.defseq('without', {'L': 'seq[ref:LnNode]', 'p': 'int'}, 'seq[ref:LnNode]', 'len(L) - 1', 'at(L, i) if i < p else at(L, i + 1)')
    F = 'nodes'
    v.contract('nlcodec.dstruct.LnNode.from_seq', self_ty='class:nlcodec.dstruct.LnNode',
        params={'string': 'list[int]', 'freq': 'int', 'data': 'opt[int]'}, returns='list[ref:LnNode]',
        modifies=['field:LnNode.val', 'field:LnNode.left', 'field:LnNode.right', 'field:LnNode.freq', 'field:LnNode.data', 'field:LnNode.alloc', 'field:LnNode.live', 'field:LnNode.pos'],
        loops={0: dict(start='setfield("LnNode", "pos", at(nodes, _k), _k)', inv=[
            f'forall(lambda j: implies(0 <= j and j < _k, at({F}, j).pos == j), at({F}, j))',
            'forall(lambda r="ref:LnNode": implies(old(allocated(r)) or not allocated(r), r.pos == old(r.pos)), r.pos)',
            f'forall(lambda j: implies(0 <= j and j < len({F}), at({F}, j).left == (at({F}, j - 1) if j > 0 and j < _k else null("LnNode")) and at({F}, j).right == (at({F}, j + 1) if j < _k and j + 1 < len({F}) else null("LnNode"))), at({F}, j))',
            'forall(lambda r="ref:LnNode": implies(old(allocated(r)) or not allocated(r), r.left == old(r.left) and r.right == old(r.right)), r.left, r.right)',
        ])},
        ensures=['len(result) == len(string)', 'dll(result, field("LnNode", "left"), field("LnNode", "right"))',
                 'forall(lambda j: implies(0 <= j and j < len(result), at(result, j).val == at(string, j) and at(result, j).freq == freq and at(result, j).data == data and at(result, j).live and at(result, j).pos == j and allocated(at(result, j)) and not old(allocated(at(result, j)))), at(result, j))',
                 'forall(lambda r="ref:LnNode": implies(allocated(r) and not old(allocated(r)), 0 <= r.pos and r.pos < len(result) and at(result, r.pos) == r), allocated(r))',
                 'forall(lambda r="ref:LnNode": implies(old(allocated(r)), allocated(r)), allocated(r), old(allocated(r)))',
                 'forall(lambda r="ref:LnNode": implies(old(allocated(r)) or not allocated(r), r.left == old(r.left) and r.right == old(r.right) and r.val == old(r.val) and r.freq == old(r.freq) and r.data == old(r.data) and r.live == old(r.live) and r.pos == old(r.pos)), r.left, r.right, r.val, r.freq, r.data, r.live, r.pos)'])
    v.contract('nlcodec.dstruct.LnNode.delete', self_ty='ref:LnNode', params={'unlink': 'bool'},
        requires=['self is not None', 'self.left != self', 'self.right != self'], modifies=['field:LnNode.left', 'field:LnNode.right', 'field:LnNode.live'], exit='setfield("LnNode", "live", self, False)',
        ensures=['field("LnNode", "live") == upd(old(field("LnNode", "live")), self, False)',
                 'forall(lambda r="ref:LnNode": implies(r != null("LnNode"), r.right == (null("LnNode") if unlink and r == self else old(self.right) if old(self.left) == r else old(r.right))), r.right)',
                 'forall(lambda r="ref:LnNode": implies(r != null("LnNode"), r.left == (null("LnNode") if unlink and r == self else old(self.left) if old(self.right) == r else old(r.left))), r.left)'])
    # the effect stated above keeps a list in order without the node
    v.lemma('dll_delete', {'L': 'seq[ref:LnNode]', 'p': 'int', 'l': 'LINK', 'r': 'LINK', 'l2': 'LINK', 'r2': 'LINK', 'unlink': 'bool'},
            requires=['dll(L, l, r)', '0 <= p', 'p < len(L)',
                      'forall(lambda x="ref:LnNode": implies(x != null("LnNode"), sel(r2, x) == (null("LnNode") if unlink and x == at(L, p) else sel(r, at(L, p)) if sel(l, at(L, p)) == x else sel(r, x))), sel(r2, x))',
                      'forall(lambda x="ref:LnNode": implies(x != null("LnNode"), sel(l2, x) == (null("LnNode") if unlink and x == at(L, p) else sel(l, at(L, p)) if sel(r, at(L, p)) == x else sel(l, x))), sel(l2, x))'],
            ensures=['dll(without(L, p), l2, r2)', 'implies(unlink, sel(l2, at(L, p)) == null("LnNode") and sel(r2, at(L, p)) == null("LnNode"))'])

    # ---- heap: a bag of (-priority, entry)
    v.schemas['nlcodec.dstruct.MaxHeap'] = {'min_heap': 'list[tuple[int,opq:E]]'}
    v.schemas['abs:pairs'] = {'min_heap': 'list[tuple[int,tuple[int,int]]]'}       # as used by BPE learning
    heap(v, 'opq:E', '', {'self_ty': 'obj:nlcodec.dstruct.MaxHeap'})
    heap(v, 'tuple[int,int]', '/pairs', {'self_ty': 'abs:nlcodec.dstruct.MaxHeap/pairs', 'variant': True})
    C = 'nlcodec.dstruct.MaxHeap.'
    v.prop('C21', ['nlcodec.dstruct.TrNode.get_node', 'nlcodec.dstruct.TrNode.size', 'nlcodec.dstruct.TrNode.data_node_count', 'nlcodec.dstruct.LnNode.from_seq', 'nlcodec.dstruct.LnNode.delete',
                   C + '__init__', C + 'push', C + 'pop', C + 'peek', C + '__len__'],
           ['walk_path', 'walk_grows', 'walk_inj', 'dll_delete'])


def heap(v, E, X, kw):
    v.lemma('count_unique' + X, {'s': f'seq[tuple[int,{E}]]', 'x': f'tuple[int,{E}]'},
            requires=['forall(lambda i, j: implies(0 <= i and i < j and j < len(s), at(s, i) != at(s, j)), (at(s, i), at(s, j)))'],
            ensures=['count(s, x) <= 1'], decreases='len(s)', body=f'''
if len(s) > 0:
    last(s)
    use('count_unique{X}', take(s, len(s) - 1), x)
''', auto=['count(s, x)'])
    C = 'nlcodec.dstruct.MaxHeap.'
    con = lambda m, **more: v.contract(C + m, **({'label': C + m + X} if X else {}), **kw, **more)
    con('__init__', params={'items': f'dict[{E},int]'}, modifies=['self.min_heap'], opts={'new': 'abs:pairs'} if X else {},
        ensures=['isheap(self.min_heap)', 'len(self.min_heap) == len(items)',
                 f'forall(lambda p, e="{E}": count(self.min_heap, (p, e)) == (1 if has(items, e) and get(items, e) == -p else 0))'])
    con('push', params={'node': E, 'val': 'int'}, modifies=['self.min_heap'], requires=['isheap(self.min_heap)'],
        ensures=['isheap(self.min_heap)', 'len(self.min_heap) == old(len(self.min_heap)) + 1',
                 f'forall(lambda p, e="{E}": count(self.min_heap, (p, e)) == old(count(self.min_heap, (p, e))) + (1 if p == -val and e == node else 0))'])
    con('pop', params={}, modifies=['self.min_heap'], requires=['isheap(self.min_heap)'], returns=f'tuple[{E},int]',
        raises={'IndexError': 'len(self.min_heap) == 0'},
        ensures=['isheap(self.min_heap)', 'len(self.min_heap) == old(len(self.min_heap)) - 1',
                 'old(count(self.min_heap, (-result[1], result[0]))) > 0',
                 'forall(lambda i: implies(0 <= i and i < old(len(self.min_heap)), -old(at(self.min_heap, i)[0]) <= result[1]))',
                 f'forall(lambda p, e="{E}": count(self.min_heap, (p, e)) == old(count(self.min_heap, (p, e))) - (1 if p == -result[1] and e == result[0] else 0))'])
    con('peek', params={}, requires=['isheap(self.min_heap)'], returns=f'tuple[{E},int]', raises={'IndexError': 'len(self.min_heap) == 0'},
        ensures=['count(self.min_heap, (-result[1], result[0])) > 0',
                 'forall(lambda i: implies(0 <= i and i < len(self.min_heap), -at(self.min_heap, i)[0] <= result[1]))'])
    con('__len__', params={}, returns='int', ensures=['result == len(self.min_heap)'])
