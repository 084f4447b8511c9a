"""C21: heap, trie and linked list against abstract counterparts"""
from common import *

RULE = 'random operation sequences; non-trivial: at least three operations'


def cases(rng, fixed):
    while True:
        n = rng.choice([0, 1, 2, 5, 12, 30])
        if rng.random() < .4:
            init = {str(i): rng.randint(-3, 5) for i in range(n)}
            ops = [['push', 'n%d' % i, rng.randint(-3, 6)] if rng.random() < .5 else [rng.choice(['pop', 'pop', 'peek'])] for i in range(rng.choice([1, 5, 20, 60]))]
            yield dict(what='heap', init=init, ops=ops)
        elif rng.random() < .5:
            al = 'abc'
            keys = [''.join(rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 5]))) for _ in range(n + 1)]
            yield dict(what='trie', keys=keys, probes=[''.join(rng.choice(al + 'z') for _ in range(rng.randint(0, 4))) for _ in range(5)], tup=rng.random() < .3)
        else:
            seq = [rng.randint(0, 3) for _ in range(n)]
            yield dict(what='list', seq=seq, dels=rng.sample(range(n), rng.randint(0, n)), unlink=rng.random() < .7)


def heap(c):
    from nlcodec.dstruct import MaxHeap
    h = MaxHeap(dict(c['init']))
    bag = [(k, v) for k, v in c['init'].items()]
    for op in c['ops'] + [['pop']] * (len(bag) + len(c['ops']) + 1):
        require(len(h) == len(bag), 'length', len(h), len(bag))
        if op[0] == 'push':
            h.push(op[1], op[2])
            bag.append((op[1], op[2]))
        elif not bag:
            require(raises(h.pop) and raises(h.peek), 'empty heap')
        elif op[0] == 'peek':
            e = h.peek()
            require(tuple(e) in bag and e[1] == max(v for _, v in bag), 'peek', e, bag)
        else:
            e = tuple(h.pop())
            require(e in bag and e[1] == max(v for _, v in bag), 'pop', e, bag)
            bag.remove(e)
    require(not bag and len(h) == 0, 'entries lost', bag)
    return len(c['ops']) > 2


def trie(c):
    from nlcodec.dstruct import TrNode
    root = TrNode(idx='')
    nodes, data = {}, {}
    conv = tuple if c['tup'] else (lambda x: x)
    pref = {''}
    for i, k in enumerate(c['keys']):
        nd = root.get_node(conv(k), create_missing=True)
        if k in nodes:
            require(nd is nodes[k], 'another node', k)
        else:
            require(all(nd is not o for o in nodes.values()) and (nd.data is None), 'node of another key', k)
        nodes[k] = nd
        nd.data = data[k] = ('d', i)
        nd.name = k
        for j in range(len(k) + 1):
            pref.add(k[:j])
        for k2, n2 in nodes.items():
            require(root.get_node(conv(k2)) is n2 and root.get_node(conv(k2), create_missing=False) is n2, 'node of', k2, 'after inserting', k)
            require(n2.data == data[k2] and n2.name == k2 and n2.has_data, 'data of', k2)
    require(root.size == len(pref), 'size', root.size, len(pref))
    require(root.data_node_count == len(data), 'data nodes', root.data_node_count, len(data))
    for p in sorted(pref):
        nd = root.get_node(conv(p), create_missing=False)
        require(nd.size == sum(x.startswith(p) for x in pref), 'size below', p, nd.size)
        require(nd.n_kids == len({x[len(p)] for x in pref if x.startswith(p) and len(x) > len(p)}), 'kids of', p)
        if p:
            require(nd.parent is root.get_node(conv(p[:-1])) and nd.idx == p[-1], 'parent of', p)
    for p in c['probes']:
        if p not in pref:
            require(raises(root.get_node, conv(p), create_missing=False), 'lookup of a missing key', p)
            require(root.size == len(pref), 'lookup changed the trie')
    return len(c['keys']) > 2


def llist(c):
    from nlcodec.dstruct import LnNode
    ns = LnNode.from_seq(list(c['seq']), freq=3, data='D')
    live = list(ns)
    require([n.val for n in ns] == c['seq'] and all(n.freq == 3 and n.data == 'D' for n in ns), 'values')

    def linked():
        for i, n in enumerate(live):
            require(n.left is (live[i - 1] if i else None), 'left link', i)
            require(n.right is (live[i + 1] if i + 1 < len(live) else None), 'right link', i)
    linked()
    for i in c['dels']:
        n = ns[i]
        n.delete(unlink=c['unlink'])
        live = [x for x in live if x is not n]
        linked()
        require(n.val == c['seq'][i], 'value of the deleted node')
        if c['unlink']:
            require(n.left is None and n.right is None and n.is_unlinked, 'deleted node is unlinked')
    return len(c['seq']) > 2


def check(c):
    return dict(heap=heap, trie=trie, list=llist)[c['what']](c)
