"""Symbolic values of the interpreter."""
import z3
from .theory import TH, Ty, INT, BOOL, REAL, STR, SeqT, TupT, OptT, DictT, SetT, RefT, RecT, OpaqueT


class Unsupported(Exception):
    """construct outside the verifier's reach: the obligation cannot be generated"""


class T:
    """an immutable symbolic value: a term with its logical type"""
    __slots__ = ('term', 'ty')

    def __init__(self, term, ty):
        self.term, self.ty = term, ty

    def __repr__(self):
        return f'T({str(self.term)[:60]}:{self.ty})'


class Loc:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f'Loc({self.id})'

    def __eq__(self, o):
        return isinstance(o, Loc) and o.id == self.id

    def __hash__(self):
        return hash(('Loc', self.id))


class View:
    """reference to a mutable value stored inside another container or in a heap field"""
    __slots__ = ('kind', 'parent', 'key', 'ty', 'default')

    def __init__(self, kind, parent, key, ty, default=None):
        self.kind, self.parent, self.key, self.ty, self.default = kind, parent, key, ty, default


# ----- heap contents (immutable records, replaced on update)
class LC:
    """list / stream content. items: python list of values (concrete) or None; term+ety when symbolic"""
    __slots__ = ('items', 'ety', 'term', 'kind', 'pos', 'dt')

    def __init__(self, items=None, ety=None, term=None, kind='list', pos=None, dt=None):
        self.items, self.ety, self.term, self.kind, self.pos = items, ety, term, kind, pos
        self.dt = dt        # storage type of an array, when it matters


class DC:
    __slots__ = ('items', 'ty', 'term', 'default', 'kind')

    def __init__(self, items=None, ty=None, term=None, default=None, kind='dict'):
        self.items, self.ty, self.term, self.default, self.kind = items, ty, term, default, kind


class SC:
    __slots__ = ('items', 'ety', 'term')

    def __init__(self, items=None, ety=None, term=None):
        self.items, self.ety, self.term = items, ety, term


class OC:
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class GC:
    """generator, not yet started"""
    __slots__ = ('thunk',)

    def __init__(self, thunk):
        self.thunk = thunk


class FuncV:
    def __init__(self, node, mod, cls=None, closure=None, name=None, deco=()):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure
        self.name = name or getattr(node, 'name', '<lambda>')
        self.deco = deco

    def __repr__(self):
        return f'<func {self.qual}>'

    @property
    def qual(self):
        return f'{self.mod.name}.{self.cls.qual + "." if self.cls else ""}{self.name}'


class ClassV:
    def __init__(self, name, mod, node, bases, outer=None):
        self.name, self.mod, self.node, self.bases = name, mod, node, bases
        self.attrs = {}
        self.outer = outer
        self.fields = []      # dataclass fields [(name, default or MISSING)]
        self.is_dataclass = False

    @property
    def qual(self):
        return (self.outer.qual + '.' if self.outer else '') + self.name

    @property
    def full(self):
        return self.mod.name + '.' + self.qual

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f'<class {self.full}>'


class ModV:
    def __init__(self, name):
        self.name = name
        self.env = {}
        self.tree = None


class Lib:
    """name of a library object (module, function, class) handled by a model"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<lib {self.name}>'

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Bound:
    """bound method of a user function or of a builtin value"""
    __slots__ = ('recv', 'fn', 'name')

    def __init__(self, recv, fn, name=None):
        self.recv, self.fn, self.name = recv, fn, name


class PartialV:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class SuperV:
    def __init__(self, recv, after, cls):
        self.recv, self.after, self.cls = recv, after, cls


class Spec:
    """a specification-level function: python callable(engine, *values) -> value"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Marker:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


MISSING = Marker('MISSING')
IGNORE = Marker('IGNORE')          # value of ignored expressions (logging, progress bars)


class IterSpec:
    """something iterable: n elements, get(i)"""

    def __init__(self, n, get, items=None, base=None, ty=None):
        self.n, self.get, self.items, self.base, self.ty = n, get, items, base, ty
        self.bases = [(ty, base)] if base is not None else []

    @staticmethod
    def concrete(items):
        items = list(items)
        return IterSpec(len(items), lambda i: items[i], items=items)


class PyExc(Exception):
    def __init__(self, name, args=(), value=None, cls=None):
        Exception.__init__(self, name)
        self.name, self.eargs, self.value, self.cls = name, args, value, cls


class PathEnd(Exception):
    pass


class Infeasible(PathEnd):
    pass


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


def parse_ty(s, opaque=()):
    """parse a type expression: int, str, list[int], dict[str,int], tuple[int,str], opt[..], ref:C, rec:C, set[..]"""
    s = s.strip()
    low = {'int': INT, 'bool': BOOL, 'float': REAL, 'real': REAL, 'str': STR}
    if s in low:
        return low[s]
    if s.startswith('ref:'):
        return RefT(s[4:])
    if s.startswith('rec:'):
        return RecT(s[4:])
    if s.startswith('opq:'):
        return OpaqueT(s[4:])
    if '[' in s and s.endswith(']'):
        head, rest = s.split('[', 1)
        args, depth, cur = [], 0, ''
        for ch in rest[:-1]:
            if ch == '[':
                depth += 1
            elif ch == ']':
                depth -= 1
            if ch == ',' and depth == 0:
                args.append(cur)
                cur = ''
            else:
                cur += ch
        if cur.strip():
            args.append(cur)
        tys = [parse_ty(a) for a in args]
        head = head.strip()
        if head in ('list', 'seq', 'iter', 'stream', 'array'):
            return SeqT(tys[0])
        if head in ('dict', 'counter', 'defaultdict'):
            return DictT(*tys)
        if head == 'arr':
            return Ty('Arr', *tys)
        if head == 'tuple':
            return TupT(*tys)
        if head == 'opt':
            return OptT(tys[0])
        if head == 'set':
            return SetT(tys[0])
    raise TypeError(f'bad type {s!r}')
