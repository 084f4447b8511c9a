"""Statement execution and expression evaluation."""
import ast
import difflib
import re
import z3
from .engine import *
from .engine import loop_header, local_prints, match_names, _walk_fn, ConstV, LazyName, LazyMod
from .values import *
from . import libnp
from . import libfs

IGNORED_CALL_ROOTS = {'log', 'logging', 'warnings'}


def rc_full(eng, recv):
    return eng.heap[recv.id].cls.full


class Interp(Engine):

    # ------------------------------------------------------------------ functions
    def fr(self):
        return self.frames[-1]

    def call_function(self, fn, args, kwargs, recv=None, cls=None):
        """call of a repo function: contract if there is one, otherwise inlined"""
        key, con = self.contract_for(fn, recv, cls)
        if not self.spec_mode and key in self.alt:
            con = self.variant_for(key, con, self.bind(fn, args, kwargs, recv, cls), recv)
        if con is not None and not con.inline and not self.spec_mode:
            if con.opts.get('new') and fn.name == '__init__' and isinstance(recv, Loc) and not self.heap[recv.id].fields:       # the fields the constructor sets
                o = self.fresh_obj(rc_full(self, recv), 'new', self.schemas[con.opts['new']])
                self.heap[recv.id] = self.heap[o.id]
            r = self.apply_contract(con, fn, self.bind(fn, args, kwargs, recv, cls), recv)
            for f in self.frames:
                f.env['$ret_' + fn.name] = r        # for ghost code: ret("name")
            return r
        if self.spec_mode and con is not None and con.kind == 'code' and not con.inline:
            raise Unsupported(f'call of {key} in a specification')
        return self.inline_call(fn, args, kwargs, recv, cls, con)

    def variant_for(self, key, con, env, recv):
        """the contract whose constant parameters and condition agree with the arguments of the call"""
        want = self.top.opts.get('calls', {}).get(key) if self.top is not None else None
        for c in self.alt[key]:
            if want is not None and c.label != want:
                continue
            ok = not (c.self_ty and c.self_ty.startswith('class:') and isinstance(recv, ClassV) and c.self_ty[6:] != recv.full)
            for k, ts in c.params.items():
                if isinstance(ts, str) and ts.startswith('=') and k in env:
                    v = env[k]
                    if isinstance(v, Loc) and isinstance(self.heap.get(v.id), LC) and self.heap[v.id].kind == 'list' and self.heap[v.id].items is not None:
                        v = list(self.heap[v.id].items)
                    if isinstance(v, (T, Loc, View)) or v != eval(ts[1:], {}) or type(v) is not type(eval(ts[1:], {})):
                        ok = False
            if ok and c.ghost and not all(g in self.frames[0].env for g in c.ghost):
                ok = False
            w = c.opts.get('when')
            if ok and w is not None and not w(self, env):
                ok = False
            if ok:
                return c
        return con

    def contract_for(self, fn, recv=None, cls=None):
        keys = []
        rc = cls
        if isinstance(recv, Loc) and isinstance(self.heap.get(recv.id), OC):
            rc = self.heap[recv.id].cls
        elif isinstance(recv, ClassV):
            rc = recv
        if rc is not None and fn.cls is not None:
            for c in rc.mro():
                if c.lookup(fn.name)[0] is fn:
                    keys.append(f'{c.full}.{fn.name}')
                if c is fn.cls:
                    break
        keys.append(fn.qual)
        for k in keys:
            con = self.contracts.get(k)
            if con is not None and k not in self.alt and con.self_ty and con.self_ty.startswith('class:') and isinstance(recv, ClassV) and con.self_ty[6:] != recv.full:
                continue        # proved for another class: methods may be overridden
            if k in self.contracts or k in self.alt:
                self.called.add(k)
                return k, con
        return keys[0], None

    def bind(self, fn, args, kwargs, recv=None, cls=None):
        a = fn.node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        if recv is not None and 'staticmethod' not in fn.deco:
            args = [recv] + args
        kwargs = dict(kwargs)
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
                if p in kwargs:
                    raise PyExc('TypeError')
            elif p in kwargs:
                env[p] = kwargs.pop(p)
            elif p in defaults:
                env[p] = self.eval_default(fn, defaults[p])
            else:
                raise PyExc('TypeError', value=f'missing argument {p} of {fn.name}')
        extra = args[len(params):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyExc('TypeError', value='too many arguments')
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                env[p.arg] = self.eval_default(fn, d)
            else:
                raise PyExc('TypeError')
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(DC(items=kwargs))
        elif kwargs:
            raise PyExc('TypeError', value=f'unexpected keyword {list(kwargs)} in {fn.name}')
        return env

    def eval_default(self, fn, node):
        f = Frame(fn, fn.mod, dict(fn.closure.env) if fn.closure else {})
        if fn.cls is not None:
            f.env.update({k: v for k, v in fn.cls.attrs.items() if not isinstance(v, FuncV)})
        self.frames.append(f)
        try:
            return self.eval(node)
        finally:
            self.frames.pop()

    def inline_call(self, fn, args, kwargs, recv=None, cls=None, con=None):
        if len(self.frames) > 40:
            raise Unsupported(f'recursion without contract in {fn.name}')
        if sum(1 for f in self.frames if f.fn is not None and f.fn.node is fn.node) >= 2:
            raise Unsupported(f'recursion without contract in {fn.name}')
        env = self.bind(fn, args, kwargs, recv, cls)
        self.inlined.add(fn.qual)
        if isinstance(fn.node, ast.FunctionDef) and is_generator(fn.node):
            if any('contextmanager' in d for d in fn.deco):
                return ('ctxmgr', fn, env, recv)
            return self.alloc(GC(lambda: self.run_body(fn, env, recv, con)))
        return self.run_body(fn, env, recv, con)

    def run_body(self, fn, env, recv=None, con=None):
        f = Frame(fn, fn.mod, env, con)
        f.recv = recv
        f.closure = fn.closure
        if con is not None:
            f.alias = self.alias_map(con, fn)
        up = self.frames[-1] if self.frames else None
        if con is None and up is not None and len(self.baseline_loops.get(getattr(up.owner or up, 'contract', None) and (up.owner or up).contract.key, ())) > 0:
            f.owner = up.owner or up
            cur = dict(map(tuple, local_prints(f.owner.fn.node)))
            f.moved = {n: w for n, w in self.baseline_locals.get(f.owner.contract.key, []) if w and not w.startswith('#') and cur.get(n) != w}
            f.alias = match_names(list(f.moved.items()), local_prints(fn.node), strict=True) if f.moved else {}
        self.frames.append(f)
        depth = len(self.frames)
        line = self.cur_line
        f.entry = (dict(self.heap), dict(self.fields))
        f.entry_env = dict(env)
        if f.owner is not None:
            f.entry, f.entry_env = f.owner.entry, f.owner.entry_env
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body)
            gen = is_generator(fn.node)
            if gen:
                f.out = self.alloc(LC(items=[]))
            if con is not None and con.entry and con.inline:
                self.ghost_exec(con.entry)
            try:
                self.exec_block(fn.node.body)
                ret = None
            except ReturnX as r:
                ret = r.value
            if gen:
                return f.out
            return ret
        finally:
            # keep frames consistent also on path ends
            if len(self.frames) >= depth:
                del self.frames[depth - 1:]
            self.cur_line = line

    def force(self, v):
        """run a generator to completion at its first demand; afterwards the location is a stream"""
        c = self.content(v)
        if isinstance(c, GC):
            out = c.thunk()
            if isinstance(out, IterSpec):
                out = self.iter_to_list(out)
            o = self.content(out)
            self.set_content(v, LC(items=o.items, ety=o.ety, term=o.term, kind='stream', pos=0))

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.cur_line = getattr(s, 'lineno', self.cur_line)
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} (line {self.cur_line})')
        m(s)

    def st_Pass(self, s):
        pass

    def st_Global(self, s):
        pass

    def st_Import(self, s):
        self.do_import(self.fr().env, s)

    st_ImportFrom = st_Import

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value)
            return
        self.eval(s.value)

    def do_yield(self, y):
        f = self.fr()
        if f.out is None:
            raise Unsupported('yield')
        if isinstance(y, ast.Yield):
            v = self.eval(y.value) if y.value is not None else None
            self.lib.list_append(self, f.out, v)
        else:
            v = self.eval(y.value)
            self.lib.list_extend(self, f.out, v)

    def st_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        raise ReturnX(v)

    def st_Break(self, s):
        raise BreakX()

    def st_Continue(self, s):
        raise ContinueX()

    def st_Assert(self, s):
        v = self.truth(self.eval(s.test))
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        self.check(v, 'AssertionError', 'assert ' + ast.unparse(s.test))

    def st_Raise(self, s):
        if s.exc is None:
            raise PyExc(getattr(self, 'handling', None) or 'RuntimeError')
        n = s.exc
        if isinstance(n, ast.Call):
            f = self.eval(n.func)
            if isinstance(f, ClassV):
                val = self.eval(n)
                raise PyExc(f.name, value=val, cls=f)
            nm = f.name.split('.')[-1] if isinstance(f, Lib) else str(f)
            raise PyExc(nm)
        f = self.eval(n)
        if isinstance(f, ClassV):
            raise PyExc(f.name, cls=f)
        if isinstance(f, Lib):
            raise PyExc(f.name.split('.')[-1])
        raise Unsupported('raise')

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr().env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                self.lib.call_method(self, base, 'pop' if isinstance(self.content(base), DC) else '__delitem__', [self.eval(t.slice)], {})
            else:
                raise Unsupported('del')

    def st_FunctionDef(self, s):
        self.fr().env[s.name] = FuncV(s, self.fr().mod, closure=self.fr(), deco=[ast.unparse(d) for d in s.decorator_list])

    def st_Assign(self, s):
        v = self.eval_for(s.targets[0], s.value)
        for t in s.targets:
            self.assign(t, v)
        self.after_assign(s.targets)

    def eval_for(self, target, value):
        """value of an assignment; the declared type of the local types [None] * n"""
        f = self.fr()
        ts = None
        if isinstance(value, ast.BinOp) and isinstance(target, ast.Name) and f.contract is not None and not self.spec_mode:
            base = next((b for b, n in f.alias.items() if n == target.id), target.id)
            ts = f.contract.opts.get('types', {}).get(base)
        elif isinstance(value, ast.BinOp) and isinstance(target, ast.Attribute) and not self.spec_mode:
            b = self.eval(target.value)
            if isinstance(b, Loc) and isinstance(self.heap[b.id], OC):
                ts = next((self.schemas[k.full][target.attr] for k in self.heap[b.id].cls.mro() if target.attr in self.schemas.get(k.full, {})), None)
                ts = ts if ts is not None and ts.startswith('list[') else None
        if ts is None:
            return self.eval(value)
        self.type_hint = self.type_alias.get(ts, ts)
        try:
            return self.eval(value)
        finally:
            self.type_hint = None

    def after_assign(self, targets):
        """stepping stones given by the contract for the values of a local variable"""
        f = self.fr()
        con = f.contract
        if con is None or len(self.frames) != 1 or self.pure or self.disc_ctx:
            return
        for t in targets:
            if isinstance(t, ast.Name):
                nm = next((k for k, a in f.alias.items() if a == t.id), t.id)
                code = con.opts.get('after', {}).get(nm)
                if code:
                    try:
                        self.ghost_exec(code)
                    except Unsupported:
                        pass

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval_for(s.target, s.value))
            self.after_assign([s.target])

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(id=t.id, ctx=ast.Load()))
            rhs = self.eval(s.value)
            if isinstance(s.op, ast.Add) and isinstance(cur, (Loc, View)) and isinstance(self.content(cur), LC):
                self.lib.list_extend(self, cur, rhs)
                return
            self.assign(t, self.binop(type(s.op).__name__, cur, rhs))
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            key = self.eval_slice(t.slice)
            cur = self.getitem(base, key)
            rhs = self.eval(s.value)
            if isinstance(s.op, ast.Add) and isinstance(cur, (Loc, View)) and isinstance(self.content(cur), LC):
                self.lib.list_extend(self, cur, rhs)
                return
            self.setitem(base, key, self.binop(type(s.op).__name__, cur, rhs))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            cur = self.getattr(base, t.attr)
            rhs = self.eval(s.value)
            if isinstance(s.op, ast.Add) and isinstance(cur, (Loc, View)) and isinstance(self.content(cur), LC):
                self.lib.list_extend(self, cur, rhs)
                return
            self.setattr(base, t.attr, self.binop(type(s.op).__name__, cur, rhs))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t)
            for a, b in zip(t.elts, vals):
                self.assign(a, b)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            self.setitem(base, self.eval_slice(t.slice), v)
        else:
            raise Unsupported('assignment target')

    def setvar(self, name, v):
        f = self.fr()
        con = f.contract if f.contract is not None else f.owner.contract if f.owner is not None else None
        if con is not None and not self.spec_mode and 'types' in con.opts:
            base = name
            for b, n in f.alias.items():
                if n == name:
                    base = b
            ts = con.opts['types'].get(base) if f.owner is None or base in f.moved else None
            if ts is not None:
                v = self.give_type(v, ts)
        f.env[name] = v
        self.note_write(('var', len(self.frames) - 1, name), v)

    def give_type(self, v, ts):
        """declared type of a local or attribute: empty containers get a typed symbolic content"""
        ts = self.type_alias.get(ts, ts)
        if ts.startswith(('obj:', 'abs:', 'class:', 'fn:')):
            return v
        if isinstance(v, Loc):
            c = self.heap[v.id]
            ty = parse_ty(ts)
            if isinstance(c, LC) and c.term is None and ty.kind == 'Seq' and c.kind == 'list':
                self.heap[v.id] = LC(term=self.lc_term(c, ty.elem), ety=ty.elem, kind=c.kind, pos=c.pos)
            elif isinstance(c, DC) and c.term is None and ty.kind == 'Dict':
                self.heap[v.id] = DC(term=self.dc_term(c, ty), ty=ty, default=c.default, kind=c.kind)
            elif isinstance(c, SC) and c.term is None and ty.kind == 'Set':
                self.heap[v.id] = SC(term=self.sc_term(c, ty.args[0]), ety=ty.args[0])
        elif ts.startswith(('opt[', 'float', 'real', 'ref:')) and not isinstance(v, View):
            ty = parse_ty(ts)
            return T(self.lift(v, ty), ty)
        return v

    def unpack(self, v, n, node=None):
        if v is IGNORE:
            return [IGNORE] * n
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyExc('ValueError')
            return list(v)
        if isinstance(v, T) and v.ty.kind == 'Opt' and v.ty.args[0].kind == 'Tup':
            self.check(z3.Not(TH.is_none(v.ty, v.term)), 'TypeError', 'unpacking None')
            return self.unpack(self.from_term(TH.opt_val(v.ty, v.term), v.ty.args[0]), n)
        it = self.iterspec(v)
        if it.items is not None:
            if len(it.items) != n:
                raise PyExc('ValueError')
            return list(it.items)
        self.check(to_int(it.n) == n, 'ValueError', f'unpacking exactly {n} values')
        return [it.get(i) for i in range(n)]

    # --- if
    def st_If(self, s):
        c = self.truth(self.eval(s.test))
        if isinstance(c, bool):
            self.exec_block(s.body if c else s.orelse)
            return
        c = z3.simplify(c)
        con = self.fr().contract
        if (self.merge_ifs or self.pure or (con is not None and self.only_writes(s, con.opts.get('merge', ())))) and not z3.is_true(c) and not z3.is_false(c):
            if self.try_merge_if(c, s):
                return
        if self.branch(c):
            self.narrow(s.test, True)
            self.exec_block(s.body)
        else:
            self.narrow(s.test, False)
            self.exec_block(s.orelse)

    merge_ifs = False

    def only_writes(self, s, names):
        """do the branches only log and assign the names?"""
        return bool(names) and all((isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) and t.id in names for t in x.targets)) or
                                   (isinstance(x, ast.Expr) and ast.unparse(x).startswith('log.')) or isinstance(x, ast.Pass) for x in s.body + s.orelse)

    def narrow(self, test, pos):
        pass

    def try_merge_if(self, c, s):
        if any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise)) for b in (s.body, s.orelse) for x in b for n in ast.walk(x)):
            return False
        nobl = len(self.obls)
        cnt = self.counter

        def go():
            if self.branch(c):
                self.exec_block(s.body)
            else:
                self.exec_block(s.orelse)
            return None
        base = self.snapshot()
        nh = len(self.hyps)
        try:
            r, outs = self.merged(go)
        except Unsupported:
            r = None
            self.restore(base)
        if r is None:
            del self.obls[nobl:]
            del self.hyps[nh:]
            return False
        return True

    # --- try / with
    def st_Try(self, s):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(None)
            else:
                for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    names.append(ast.unparse(x).split('.')[-1])
        f = self.fr()
        f.handlers.append(names)
        depth = len(self.frames)
        spec = self.spec_mode
        pending = None
        try:
            try:
                self.exec_block(s.body)
                f.handlers.pop()
                popped = True
            except PyExc as e:
                self.spec_mode = spec
                del self.frames[depth:]
                f.handlers.pop()
                done = False
                for h in s.handlers:
                    hn = [None] if h.type is None else [ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if any(x is None or exc_match(e.name, x) for x in hn):
                        if h.name:
                            f.env[h.name] = e.value if e.value is not None else IGNORE
                        old = getattr(self, 'handling', None)
                        self.handling = e.name
                        self.exec_block(h.body)
                        self.handling = old
                        done = True
                        break
                if not done:
                    raise
            else:
                self.exec_block(s.orelse)
        except (PyExc, ReturnX, BreakX, ContinueX) as x:
            if len(f.handlers) and f.handlers[-1] is names:
                f.handlers.pop()
            if s.finalbody:
                self.exec_block(s.finalbody)
            raise
        else:
            if s.finalbody:
                self.exec_block(s.finalbody)

    def st_With(self, s, i=0):
        if i == len(s.items):
            self.exec_block(s.body)
            return
        it = s.items[i]
        cm = self.eval(it.context_expr)
        if isinstance(cm, tuple) and cm and isinstance(cm[0], str) and cm[0] == 'ctxmgr':
            _, fn, env, recv = cm
            self.run_ctxmgr(fn, env, recv, it, lambda: self.st_With(s, i + 1))
            return
        val = self.lib.enter(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val)
        try:
            self.st_With(s, i + 1)
        except PyExc as e:
            if not self.lib.leave(self, cm, e):
                raise
        except (ReturnX, BreakX, ContinueX):
            self.lib.leave(self, cm, None)
            raise
        else:
            self.lib.leave(self, cm, None)

    def run_ctxmgr(self, fn, env, recv, item, body):
        """@contextmanager function: body runs at the yield"""
        raise Unsupported('contextmanager function')

    # ------------------------------------------------------------------ loops
    def loop_ordinal(self, node):
        """the loops of a function are those of the verified tree, matched by their headers where loops were added or removed"""
        f = self.fr()
        if f.loops is None:
            f.loops = self.match_loops(f) if f.fn is not None else {}
        return f.loops.get(id(node))

    def match_loops(self, f):
        now = loops_of(f.fn.node)
        base = self.baseline_loops.get(f.contract.key) if f.contract is not None else None
        plain = {id(n): i for i, n in enumerate(now)}
        if base is None or len(base) == len(now):
            return plain
        al = {b: a for a, b in f.alias.items()}
        head = [re.sub(r'[A-Za-z_]\w*', lambda m: al.get(m.group(0), m.group(0)), loop_header(n)) for n in now]
        cand = now
        if len(now) > len(base):      # loops that only collect were comprehensions
            new = [n for n, h in zip(now, head) if h not in base and isinstance(n, ast.For) and self.accumulator(n) is not None]
            if len(now) - len(new) <= len(base):
                cand = [n for n in now if not any(n is x for x in new)]
        if len(cand) == len(base):
            return {id(n): i for i, n in enumerate(cand)}
        hs = [h for n, h in zip(now, head) if any(n is x for x in cand)]
        out = {}
        for m in difflib.SequenceMatcher(None, base, hs, autojunk=False).get_matching_blocks():
            for d in range(m.size):
                out[id(cand[m.b + d])] = m.a + d
        return out

    def loop_spec(self, node):
        f = self.fr()
        o = self.loop_ordinal(node)
        if f.contract is not None:
            return f.contract.loops.get(o), o
        w = f.owner
        if w is not None:       # a loop moved to a helper: the contract of the function it came from knows it
            own = self.moved_loops.setdefault((w.contract.label, id(w.fn.node)), {})
            if id(node) not in own:
                if w.loops is None:
                    w.loops = self.match_loops(w)
                base = self.baseline_loops.get(w.contract.key, [])
                left = [i for i in range(len(base)) if i not in w.loops.values() and i not in own.values() and i in w.contract.loops]
                same = [i for i in left if base[i] == loop_header(node)]
                if not (isinstance(node, ast.For) and self.accumulator(node) is not None and not same):
                    own[id(node)] = (same or left or [None])[0]
            o = own.get(id(node))
            if o is not None:
                return w.contract.loops.get(o), o
        return None, o

    moved_loops = {}

    def st_For(self, s):
        it_val = self.eval(s.iter)
        it = self.iterspec(it_val)
        spec, o = self.loop_spec(s)
        if spec is None and it.items is not None:
            self.unrolled_for(s, it)
            return
        if spec is None and not isinstance(it.n, int):
            n = z3.simplify(to_int(it.n))
            if z3.is_int_value(n) and n.as_long() <= 64:
                self.unrolled_for(s, IterSpec.concrete([it.get(i) for i in range(n.as_long())]))
                return
        if spec is None and isinstance(it.n, int) and it.n <= 64:
            self.unrolled_for(s, IterSpec.concrete([it.get(i) for i in range(it.n)]))
            return
        if spec is None:
            if self.accumulate(s, it):
                return
            spec = {}
            if not self.quiet and not self.simple_loop_ok(s):
                raise Unsupported(f'loop without invariant in {self.fr().fn.name} (line {s.lineno})')
        self.cut_loop(s, spec, o, it)
        if s.orelse:
            self.exec_block(s.orelse)

    @staticmethod
    def accumulator(s):
        """a loop that only collects: (temporaries, condition, temporaries, kind, collector, key, element), or None.
        It is the comprehension of the same elements, followed by one extension of the collector"""
        def temps(b):
            out = []
            while b:
                x = b[0]
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                    pass
                elif isinstance(x, ast.Assign) and len(x.targets) == 1 and all(isinstance(y, (ast.Name, ast.Tuple, ast.expr_context)) for y in ast.walk(x.targets[0])) and len(b) > 1:
                    out.append(x)
                else:
                    break
                b = b[1:]
            return out, b
        if s.orelse:
            return None
        pre, b = temps(list(s.body))
        cond, post = None, []
        if len(b) > 1 and isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1 and isinstance(b[0].body[0], ast.Continue):
            cond = ast.UnaryOp(ast.Not(), b[0].test)
            post, b = temps(b[1:])
        elif len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
            cond = b[0].test
            post, b = temps(list(b[0].body))
        if len(b) != 1:
            return None
        x, key = b[0], None
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Yield) and x.value.value is not None:
            kind, acc, elt = 'yield', None, x.value.value
        elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name) \
                and x.value.func.attr == 'append' and len(x.value.args) == 1 and not x.value.keywords and not isinstance(x.value.args[0], ast.Starred):
            kind, acc, elt = 'append', x.value.func.value.id, x.value.args[0]
        elif isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name):
            kind, acc, elt = 'sum', x.target.id, x.value
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].value, ast.Name) and not isinstance(x.targets[0].slice, ast.Slice):
            kind, acc, elt = 'store', x.targets[0].value.id, ast.copy_location(ast.Tuple(elts=[x.targets[0].slice, x.value], ctx=ast.Load()), x)
        else:
            return None
        used = {y.id for e in [elt] + ([cond] if cond is not None else []) + [t.value for t in pre + post] for y in ast.walk(e) if isinstance(y, ast.Name)}
        bound = {y.id for t in [s.target] + [t.targets[0] for t in pre + post] for y in ast.walk(t) if isinstance(y, ast.Name)}
        if acc is not None and (acc in used or acc in bound) or any(isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)) for e in [elt] + [t.value for t in pre + post] for y in ast.walk(e)):
            return None
        if any(isinstance(y, ast.Name) and y.id == acc for y in ast.walk(s.iter)) or not all(isinstance(y, (ast.Name, ast.Tuple, ast.expr_context)) for y in ast.walk(s.target)):
            return None
        return pre, cond, post, kind, acc, elt, bound

    def accumulate(self, s, it):
        a = self.accumulator(s)
        if a is None or self.pure:
            return False
        pre, cond, post, kind, acc, elt, bound = a
        f = self.fr()
        if kind == 'sum':
            cur = f.env.get(acc, MISSING)
            if isinstance(cur, bool) or not (isinstance(cur, (int, float)) or isinstance(cur, T) and cur.ty in (INT, REAL)):
                return False
        elif kind == 'store':       # into a new dictionary
            cur = f.env.get(acc, MISSING)
            if not isinstance(cur, Loc) or not isinstance(self.heap.get(cur.id), DC) or self.heap[cur.id].items != {} or self.heap[cur.id].kind != 'dict' or self.heap[cur.id].default is not None or self.reached(cur, f, acc):
                return False
        else:
            cur = f.out if kind == 'yield' else f.env.get(acc, MISSING)
            if not isinstance(cur, Loc) or not isinstance(self.heap.get(cur.id), LC) or self.heap[cur.id].kind != 'list' or (kind == 'append' and self.reached(cur, f, acc)):
                return False
        base, nh, no, env = self.snapshot(), len(self.hyps), len(self.obls), f.env
        try:
            f.env = dict(env)

            def elem(v):
                self.assign(s.target, v)
                for t in pre + (post if cond is not None else []):
                    self.exec_block([t])
                return self.eval(elt)

            def test(v):
                self.assign(s.target, v)
                for t in pre:
                    self.exec_block([t])
                return self.truth(self.eval(cond))
            got = self.comprehend(it, elem, test if cond is not None else None)
            f.env = env
            if kind == 'sum':
                tot = self.lib.call_lib(self, 'sum', [got], {})
                self.assign(ast.Name(id=acc, ctx=ast.Store()), self.binop('Add', cur, tot))
            elif kind == 'store':
                self.set_content(cur, self.content(self.lib.dict_of_pairs(self, got)))
            elif self.heap[cur.id].items == []:
                c = self.content(got)
                self.set_content(cur, LC(items=c.items, ety=c.ety, term=c.term, kind='list'))
            else:
                self.lib.list_extend(self, cur, got)
        except (Unsupported, PyExc):
            f.env = env
            self.restore(base)
            del self.hyps[nh:]
            del self.obls[no:]
            return False
        for n in bound:
            f.env[n] = UNKNOWN
            self.note_write(('var', len(self.frames) - 1, n), UNKNOWN)
        return True

    def reached(self, loc, f, name):
        """is the object known under another name, or held by another object?"""
        def holds(v):
            if isinstance(v, Loc):
                return v.id == loc.id
            if isinstance(v, View):
                return True
            if isinstance(v, (tuple, list)):
                return any(holds(x) for x in v)
            return False
        for fr in self.frames:
            if any(holds(v) for k, v in fr.env.items() if not (fr is f and k == name) and not isinstance(v, View)):
                return True
        for i, c in self.heap.items():
            if isinstance(c, OC) and any(holds(v) for v in c.fields.values() if not isinstance(v, View)) or isinstance(c, (LC,)) and c.items is not None and any(holds(v) for v in c.items if not isinstance(v, View)) \
                    or isinstance(c, DC) and isinstance(getattr(c, 'items', None), dict) and any(holds(v) for v in c.items.values() if not isinstance(v, View)):
                return True
        return False

    def simple_loop_ok(self, s):
        return True     # havoc everything the loop writes; sound, usually too weak

    def unrolled_for(self, s, it):
        broke = False
        old = self.merge_ifs
        for v in it.items:
            self.assign(s.target, v)
            try:
                self.merge_ifs = len(it.items) > 3 or old
                self.exec_block(s.body)
            except BreakX:
                broke = True
                break
            except ContinueX:
                pass
            finally:
                self.merge_ifs = old
        if not broke and s.orelse:
            self.exec_block(s.orelse)

    def st_While(self, s):
        spec, o = self.loop_spec(s)
        if spec is None:
            # bounded concrete unrolling when the condition is concrete
            for _ in range(64):
                c = self.truth(self.eval(s.test))
                if not isinstance(c, bool):
                    c = z3.simplify(c)
                    if z3.is_true(c) or z3.is_false(c):
                        c = z3.is_true(c)
                    else:
                        break
                if isinstance(s.test, ast.Constant):
                    break
                if not c:
                    return
                try:
                    self.exec_block(s.body)
                except BreakX:
                    return
                except ContinueX:
                    pass
            spec = {}
        self.cut_loop(s, spec, o, None)
        if s.orelse:
            self.exec_block(s.orelse)

    disc_ctx = ()
    disc_cache = {}

    def discover(self, s, it, spec, o=None):
        """discovery depends only on the decisions taken so far: computed once for all paths with the same prefix"""
        key = (self.top_name, o, len(self.frames), tuple(tuple(d.made) for d in self.dec), self.disc_ctx)
        hit = self.disc_cache.get(key)
        if hit is not None and hit[3] == self.counter and hit[4] == self.loccnt:
            self.counter, self.loccnt = hit[1], hit[2]
            return hit[0]
        c0, l0 = self.counter, self.loccnt
        # paths that reach the loop with the same objects and types share what it writes
        locs = {}

        def walk(v):
            if isinstance(v, Loc) and v.id not in locs:
                locs[v.id] = len(locs)
                c = self.heap.get(v.id)
                for x in c.fields.values() if isinstance(c, OC) else (c.items or ()) if isinstance(c, LC) else ():
                    walk(x)
            elif isinstance(v, (tuple, list)):
                for x in v:
                    walk(x)
        for v in self.fr().env.values():
            walk(v)
        back = {n: i for i, n in locs.items()}
        nm = lambda i: ('loc', locs[i]) if i in locs else i
        shape = (self.top_name, id(s), len(self.frames), tuple(c[1] for c in self.disc_ctx), self.disc_ctx,
                 tuple((k, nm(v.id) if isinstance(v, Loc) else str(self.safe_type(v)) if isinstance(v, (T, View, int, str, tuple)) else type(v).__name__) for k, v in self.fr().env.items()),
                 tuple((nm(i), str(self.content_type(self.heap[i]))) for i in locs if i in self.heap))
        hit = self.disc_memo.get(shape)
        if hit is not None:
            found = {(('heap', back[k[1][1]]) + k[2:] if k[0] == 'heap' else (k[0], back[k[1][1]]) + k[2:]) if isinstance(k[1], tuple) else k:
                     ('sameloc', back[t[1][1]]) if isinstance(t, tuple) and t[0] == 'sameloc' and isinstance(t[1], tuple) else t for k, t in hit.items()}
        else:
            found = self.discover_(s, it, spec)
            if all(k[1] in locs for k in found if k[0] in ('heap', 'ofield')) and all(t[1] in locs for t in found.values() if isinstance(t, tuple) and t[0] == 'sameloc'):
                self.disc_memo[shape] = {(k[0], nm(k[1])) + k[2:] if k[0] in ('heap', 'ofield') else k: ('sameloc', nm(t[1])) if isinstance(t, tuple) and t[0] == 'sameloc' else t for k, t in found.items()}
        self.disc_cache[key] = (found, self.counter, self.loccnt, c0, l0)
        return found

    disc_memo = {}

    def discover_(self, s, it, spec):
        """which variables, locations and heap fields does the loop body write, and with which types"""
        found = {}
        obl_quiet = self.quiet
        for rnd in range(6):
            base = self.snapshot()
            nh = len(self.hyps)
            outer_writes = self.writes
            self.writes = {}
            self.quiet += 1001
            prune = self.prune_paths
            self.prune_paths = False
            ctx, self.disc_ctx = self.disc_ctx, self.disc_ctx + ((id(s), rnd),)
            try:
                for k in list(found):
                    self.havoc_key(k, found[k], base)

                def go():
                    try:
                        if it is not None:
                            i = self.fresh(INT, 'disc')
                            self.assume(z3.And(i >= 0, i < to_int(it.n)))
                            self.assign(s.target, it.get(i))
                        else:
                            c = self.truth(self.eval(s.test))
                        self.ghost_exec(spec.get('start'))
                        self.exec_block(s.body)
                        self.ghost_exec(spec.get('end'))
                    except (BreakX, ContinueX, ReturnX, PyExc, PathEnd):
                        self.discover_note = True
                    return None
                cover = self.cover
                self.explore(go, limit=3000, keep=False)
                writes = self.writes
            finally:
                self.cover = cover
                self.quiet = obl_quiet
                self.prune_paths = prune
                self.disc_ctx = ctx
                self.writes = outer_writes
                self.restore(base)
                del self.hyps[nh:]
            new = {}
            for k, vals in writes.items():
                if k[0] in ('heap', 'ofield') and k[1] > base[4]:
                    continue       # location created inside the body
                if k[0] == 'var' and k[1] >= len(self.frames):
                    continue       # variable of an inlined callee
                new[k] = vals
            info = {}
            for k, vals in new.items():
                info[k] = self.key_type(k, vals, found.get(k))
            if info == found:
                return found
            merged = dict(found)
            merged.update(info)
            if merged == found:
                return found
            found = merged
        return found

    def key_type(self, k, vals, old):
        if k[0] == 'field':
            return 'field'
        cur = self.frames[k[1]].env.get(k[2], MISSING) if k[0] == 'var' else self.heap.get(k[1])
        if k[0] == 'var':
            ty = None if old is None or not isinstance(old, Ty) else old
            allv = ([cur] if cur is not MISSING else []) + vals
            if any(isinstance(v, (FuncV, ClassV, Lib, Bound, PartialV)) or v is IGNORE or v is MISSING for v in allv):
                return ('unk', 'nonvalue')
            locs = [v for v in allv if isinstance(v, (Loc, View))]
            if locs:
                kinds = set()
                for v in locs:
                    try:
                        c = self.content(v)
                    except KeyError:
                        c = None
                    kinds.add(type(c).__name__ if c is not None else '?')
                if len(locs) == len(allv) and all(isinstance(v, Loc) for v in locs) and len(set(locs)) == 1 and locs[0].id <= self.loccnt and locs[0].id in self.heap:
                    return ('sameloc', locs[0].id)
                # rebinding to a new object: type by content type
            tys = []
            for v in allv:
                t = self.safe_type(v)
                tys.append(t)
            for t in tys:
                if t is None:
                    return ('unk', 'type')
                ty = t if ty is None else join_ty(ty, t)
                if ty is None:
                    return ('unk', f'join {tys}')
            if locs:
                if ty is EMPTY_TY and cur is MISSING:       # made in the body, filled there
                    return ('unk', 'empty')
                if any(self.kind_of(v) == 'array' for v in locs):
                    return ('unk', 'array')
                return ('loc', ty)
            return ty
        # heap content
        tys = None
        for c in [cur] + vals:
            t = self.content_type(c)
            if t is None:
                return ('unk', 'content')
            tys = t if tys is None else self.join_content(tys, t)
        return tys

    def kind_of(self, v):
        try:
            return getattr(self.content(v), 'kind', None)
        except (KeyError, Unsupported):
            return self.dead_kinds.get(v) if isinstance(v, Loc) else None

    dead_kinds = {}

    def safe_type(self, v):
        try:
            return self.type_of(v)
        except (KeyError, Unsupported):
            # location of a discarded path
            return self.dead_types.get(v) if isinstance(v, Loc) else None

    dead_types = {}

    def content_type(self, c):
        if isinstance(c, LC):
            e = self.lc_ety(c)
            return ('LC', c.kind, e)
        if isinstance(c, DC):
            return ('DC', c.kind, self.dc_ty(c), c.default)
        if isinstance(c, SC):
            return ('SC', self.sc_ety(c))
        if isinstance(c, OC):
            return ('OC', c.cls, None)
        return None

    def join_content(self, a, b):
        if a == b:
            return a
        if a[0] != b[0]:
            return ('unk', 'kinds')
        if a[0] == 'LC':
            if a[1] != b[1] and 'array' in (a[1], b[1]):
                return ('unk', 'kinds')
            e = a[2] if b[2] is None else b[2] if a[2] is None else join_ty(a[2], b[2])
            return ('LC', a[1], e)
        if a[0] == 'DC':
            e = a[2] if b[2] is None else b[2] if a[2] is None else (DictT(join_ty(a[2].args[0], b[2].args[0]), join_ty(a[2].args[1], b[2].args[1])))
            return ('DC', a[1], e, a[3])
        if a[0] == 'SC':
            return ('SC', a[1] or b[1])
        return a

    def note_write(self, key, val):
        if self.writes is not None:
            if isinstance(val, (Loc,)):
                try:
                    t = self.type_of(val)
                    if t is not None:
                        self.dead_types[val] = t
                        self.dead_kinds[val] = getattr(self.content(val), 'kind', None)
                except (KeyError, Unsupported):
                    pass
            self.writes.setdefault(key, []).append(val)

    def havoc_key(self, k, ty, base=None):
        if k[0] == 'field':
            cls, fname = k[1], k[2]
            arr = self.fresh_arr(cls, fname)
            self.fields[(cls, fname)] = arr
            self.note_write(k, arr)
            return
        if k[0] == 'var':
            f = self.frames[k[1]]
            nm = k[2]
            if isinstance(ty, tuple):
                if ty[0] == 'sameloc':
                    return
                if ty[0] == 'unk':
                    f.env[nm] = UNKNOWN
                    return
                if ty[0] == 'loc':
                    f.env[nm] = self.fresh_of_ty(ty[1], nm)
                    return
            if ty is NONE_TY:
                return
            f.env[nm] = self.from_term(self.fresh(ty, nm), ty)
            return
        # heap location
        c = self.heap.get(k[1])
        self.heap[k[1]] = self.havoc_content(c, ty, f'l{k[1]}')

    def fresh_of_ty(self, ty, nm):
        if ty is EMPTY_TY:
            raise Unsupported(f'type of {nm} unknown')
        if ty.kind == 'Seq':
            return self.alloc(LC(ety=ty.elem, term=self.fresh(ty, nm)))
        if ty.kind == 'Dict':
            return self.alloc(DC(ty=ty, term=self.fresh(ty, nm)))
        if ty.kind == 'Set':
            return self.alloc(SC(ety=ty.args[0], term=self.fresh(ty, nm)))
        return self.from_term(self.fresh(ty, nm), ty)

    def fresh_arr(self, cls, fname):
        ty = BOOL if fname == '$alloc' else self.fieldty(cls, fname)
        c = z3.Const(self.fresh_name(f'H.{cls}.{fname}'), z3.ArraySort(self.idx_sort(cls), TH.sort(ty)))
        if self.fresh_log is not None:
            self.fresh_log.append(c)
        return c

    def havoc_content(self, c, ty, nm):
        if isinstance(c, LC):
            e = ty[2] if isinstance(ty, tuple) and ty[0] == 'LC' else self.lc_ety(c)
            if e is None or e is EMPTY_TY:
                if isinstance(c, LC) and c.items == [] and ty[0] == 'LC':
                    return c          # never written with anything: stays empty
                raise Unsupported('havoc of a list of unknown element type')
            pos = None
            if c.kind == 'stream':
                pos = self.fresh(INT, nm + '.pos')
                # the elements of a stream never change, only its position
                return LC(ety=e, term=self.lc_term(c, e), kind='stream', pos=pos)
            if c.kind == 'array':
                return libnp.fresh_content(self, SeqT(e), nm)
            return LC(ety=e, term=self.fresh(SeqT(e), nm), kind=c.kind)
        if isinstance(c, DC):
            t = ty[2] if isinstance(ty, tuple) and ty[0] == 'DC' else self.dc_ty(c)
            if t is None or t is EMPTY_TY:
                raise Unsupported('havoc of a dict of unknown type')
            return DC(ty=t, term=self.fresh(t, nm), default=c.default, kind=c.kind)
        if isinstance(c, SC):
            e = ty[1] if isinstance(ty, tuple) and ty[0] == 'SC' else self.sc_ety(c)
            return SC(ety=e, term=self.fresh(SetT(e), nm))
        if isinstance(c, OC):
            fs = {}
            for k, v in c.fields.items():
                fs[k] = self.havoc_value(v, f'{nm}.{k}')
            return OC(c.cls, fs)
        raise Unsupported(f'havoc {nm} {c!r} {ty!r}')

    def havoc_value(self, v, nm):
        if isinstance(v, T):
            return self.from_term(self.fresh(v.ty, nm), v.ty)
        if isinstance(v, bool):
            return T(self.fresh(BOOL, nm), BOOL)
        if isinstance(v, int):
            return T(self.fresh(INT, nm), INT)
        if isinstance(v, str):
            return T(self.fresh(STR, nm), STR)
        if isinstance(v, tuple):
            return tuple(self.havoc_value(x, nm) for x in v)
        return v            # locations: identity kept, content havocked separately when written

    def cut_loop(self, s, spec, o, it):
        f = self.fr()
        depth = len(f.loopinfo)
        try:
            return self.cut_loop_(s, spec, o, it)
        finally:
            del f.loopinfo[depth:]

    def cut_loop_(self, s, spec, o, it):
        f = self.fr()
        is_for = it is not None
        invs = spec.get('inv', [])
        self.ghost_exec(spec.get('init'))
        entry = (dict(self.heap), dict(self.fields), dict(f.env))
        w = f.owner
        info = {'ord': o, 'k': 0, 'it': it, 'n': it.n if it else None, 'entry': entry, 'wentry': dict(w.env) if w is not None else {}}
        info['whead'] = info['wentry']
        f.loopinfo.append(info)
        for i, inv in enumerate(invs):
            self.obligation(self.spec_bool(inv), f'loop {o} invariant on entry', inv, s.lineno)
        info['head'] = entry
        mods = self.discover(s, it, spec, o)
        snap = self.snapshot()
        if spec.get('join'):
            self.join_paths(s, mods, f)
        for k, ty in mods.items():
            self.havoc_key(k, ty, snap)
        if self.disc_ctx and not any(fr.handlers for fr in self.frames):
            # discovery for a loop around this one: what this one writes is known
            for k in mods:
                if k[0] == 'var' and k[2] in self.frames[k[1]].env:
                    self.note_write(k, self.frames[k[1]].env[k[2]])
                elif k[0] == 'heap':
                    self.note_write(k, self.heap[k[1]])
                elif k[0] == 'ofield':
                    self.note_write(k, self.heap[k[1]].fields.get(k[2], MISSING))
            f.loopinfo.pop()
            return
        if is_for:
            k = self.fresh(INT, '_k')
            info['k'] = k
            n = to_int(it.n)
            self.assume(z3.And(k >= 0, k <= n))
        exit_choice = self.choose(2) if is_for else None
        if is_for:
            if exit_choice == 1:            # loop finished
                self.assume(k == n)
                info['k'] = n if not isinstance(it.n, int) else it.n
            else:
                self.assume(k < n)
            # the loop target holds the last visited element
            tn = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
            if any(('var', len(self.frames) - 1, t) in mods for t in tn):
                if exit_choice == 1:
                    last = k - 1
                    try:
                        val = it.get(last)
                        g = k > 0
                        self.assume_target(s.target, val, g)
                    except (Unsupported, PyExc):
                        pass
        head = (dict(self.heap), dict(self.fields), dict(f.env))
        info['head'] = head
        info['whead'] = dict(w.env) if w is not None else {}
        for inv in invs:
            self.assume(self.spec_bool(inv))
        if not is_for:
            c = self.truth(self.eval(s.test))
            go_on = self.branch(c) if not isinstance(c, bool) else c
        else:
            go_on = exit_choice == 0
        if not go_on:
            self.ghost_exec(spec.get('fin'))
            f.loopinfo.pop()
            self.ghost_exec(spec.get('exit'))
            return
        if self.emit_ok() and not self.quiet:
            self.vacuity('loop body of loop %s' % o)
        info['k'] = k if is_for else None
        dec0 = None
        if spec.get('dec'):
            dec0 = self.measure(spec['dec'])
        if is_for:
            for bty, b in it.bases:
                self.take_step(bty, b, k)
            self.assign(s.target, it.get(k))
        info['head'] = (dict(self.heap), dict(self.fields), dict(f.env))
        info['whead'] = dict(w.env) if w is not None else {}
        self.ghost_exec(spec.get('start'))
        info['mark'] = (len(self.hyps), self.loccnt)
        try:
            self.exec_block(s.body)
        except ContinueX:
            pass
        except BreakX:
            # leave the loop with the current state
            self.ghost_exec(spec.get('end'))
            self.ghost_exec(spec.get('brk'))
            f.loopinfo.pop()
            self.broke = True
            raise_exit = True
            if s.orelse:
                raise Unsupported('else of a loop with break')
            return
        self.ghost_exec(spec.get('end'))
        if is_for:
            info['k'] = k + 1
        self.written_as_discovered(mods, info['head'], snap, info['whead'])
        for inv in invs:
            self.obligation(self.spec_bool(inv), f'loop {o} invariant kept', inv, s.lineno)
        if dec0 is not None:
            d1 = self.measure(spec['dec'])
            self.obligation(self.less(d1, dec0), f'loop {o} terminates', str(spec['dec']), s.lineno)
        raise PathEnd()

    joins = {}

    def join_paths(self, s, mods, f):
        """the paths of the iteration around this loop that reach it in the same state, but for what this loop writes
        anyway, go on as one, which knows only what all of them know (and the invariants)"""
        if self.disc_ctx or self.quiet or len(self.dec) != 1 or len(f.loopinfo) < 2 or 'mark' not in f.loopinfo[-2] or len(self.frames) > 1:
            return
        mark, loc = f.loopinfo[-2]['mark']
        key = (id(s), tuple(h.get_id() for h in self.hyps[:mark]))
        made = tuple(self.dec[-1].made)
        st = {('heap', i): c for i, c in self.heap.items() if i <= loc and ('heap', i) not in mods}
        st.update({('field',) + tuple(k): a for k, a in self.fields.items() if ('field',) + tuple(k) not in mods})
        st.update({('var', 0, k): v for k, v in f.env.items() if ('var', 0, k) not in mods and not k.startswith('$')})
        old = self.joins.setdefault(key, (made, st, list(self.hyps)))
        if old[0] != made:
            same = lambda a, b: a is b or (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)) or (isinstance(a, T) and isinstance(b, T) and a.ty == b.ty and a.term.eq(b.term)) \
                or (isinstance(a, Loc) and isinstance(b, Loc) and a.id == b.id and a.id <= loc) or (isinstance(a, (int, str, bool)) and type(a) is type(b) and a == b)
            if st.keys() == old[1].keys() and all(same(v, old[1][k]) for k, v in st.items()):
                raise PathEnd()
            return
        hyps, self.hyps = self.hyps[:mark], []
        self._qsolver, self._qseen = None, set()
        for h in hyps:
            self.hyps.append(h)
            if not has_quant(h):
                self.qadd(h)

    def written_as_discovered(self, mods, head, snap, whead=()):
        """the iteration changed nothing that the head of the loop does not leave open"""
        if self.disc_ctx:
            return
        top = len(self.frames) - 1
        heap, fields, env = head
        for i, c in heap.items():
            if i > snap[4] or self.heap.get(i) is c:
                continue
            cur = self.heap.get(i)
            if ('heap', i) in mods:
                t = self.key_type(('heap', i), [cur], None)
                if t != mods[('heap', i)] and self.join_content(t, mods[('heap', i)]) != mods[('heap', i)]:
                    raise Unsupported(f'content written in a loop: {t} / {mods[("heap", i)]}')
            elif isinstance(c, OC) and isinstance(cur, OC):
                for k in set(c.fields) | set(cur.fields):
                    if c.fields.get(k, MISSING) is not cur.fields.get(k, MISSING) and ('ofield', i, k) not in mods:
                        raise Unsupported(f'attribute {k} written in a loop was not discovered')
            else:
                raise Unsupported(f'object written in a loop was not discovered')
        for k, a in self.fields.items():
            b = fields.get(k)
            if (b is None or not a.eq(b)) and ('field',) + tuple(k) not in mods and not (b is None and a.eq(self.field_init(k))):
                raise Unsupported(f'field {k} written in a loop was not discovered')
        for k, v in env.items():
            cur = self.fr().env.get(k, MISSING)
            if cur is not v and not k.startswith('$') and ('var', top, k) not in mods and not (isinstance(v, (int, str, bool, tuple)) and v == cur):
                raise Unsupported(f'variable {k} written in a loop was not discovered')
        w = self.fr().owner
        for k in whead:
            if w.env.get(k, MISSING) is not whead[k] and ('var', next(i for i, x in enumerate(self.frames) if x is w), k) not in mods:
                raise Unsupported(f'variable {k} written in a loop was not discovered')

    def measure(self, m):
        return [self.spec_int(x) for x in (m if isinstance(m, (list, tuple)) else [m])]

    def less(self, d1, d0):
        """lexicographic decrease of non-negative measures"""
        r = z3.BoolVal(False)
        for a, b in reversed(list(zip(d1, d0))):
            r = z3.Or(z3.And(b >= 0, a < b), z3.And(a == b, r)) if not z3.is_false(r) else z3.And(b >= 0, a < b)
        return r

    def assume_target(self, target, val, g):
        f = self.fr()
        if isinstance(target, ast.Name):
            cur = f.env.get(target.id)
            if isinstance(cur, T) and cur.ty is not None:
                try:
                    t = self.lift(val, cur.ty)
                except Unsupported:
                    return
                self.assume(z3.Implies(g, cur.term == t))
        elif isinstance(target, ast.Tuple) and isinstance(val, tuple):
            for a, b in zip(target.elts, val):
                self.assume_target(a, b, g)

    def vacuity(self, what):
        name = f'{self.top_name}: reachable: {what}'
        if sum(o.name == name for o in self.obls) >= 8:
            return
        self.obls.append(Obligation(name, 'reachable', list(self.hyps), z3.BoolVal(False), self.top_name, self.cur_line, expect_sat=True, uses=self.lemma_cutoff))

    lemma_cutoff = None
    top_name = ''

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """python truth value as bool or z3 Bool"""
        if v is UNKNOWN:
            raise Unsupported('value of unknown type')
        if isinstance(v, T):
            ty = v.ty
            if ty is BOOL:
                return v.term
            if ty is INT:
                return v.term != 0
            if ty is REAL:
                return v.term != 0
            if ty.is_seq:
                return TH.len(ty, v.term) > 0
            if ty.kind == 'Ref':
                return z3.Not(TH.is_none(ty, v.term))
            if ty.kind == 'Rec':
                return True
            if ty.kind == 'Opt':
                some = z3.Not(TH.is_none(ty, v.term))
                inner = self.truth(self.from_term(TH.opt_val(ty, v.term), ty.args[0]))
                return z3.And(some, inner) if not isinstance(inner, bool) else (some if inner else False)
            if ty.kind == 'Dict':
                return TH.len(SeqT(ty.args[0]), TH.d_keys(ty, v.term)) > 0
            if ty.kind == 'Set':
                return v.term != z3.K(TH.sort(ty.args[0]), z3.BoolVal(False))
            if ty.kind == 'Opq':
                if ty in (libfs.REC, libfs.PATH):       # classes and paths are true
                    return True
                return TH.fn(f'truthy.{ty.name()}', ty, z3.BoolSort())(v.term)
            raise Unsupported(f'truth of {ty}')
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (Loc, View)):
            c = self.content(v)
            if isinstance(c, (LC, DC, SC)):
                if isinstance(c, LC) and c.kind == 'stream':
                    return True
                return self.lib.length(self, v, truth=True)
            if isinstance(c, OC):
                m, _ = c.cls.lookup('__len__')
                if m is not None:
                    return self.truth(self.call_function(m, [], {}, recv=v))
                return True
            return True
        if isinstance(v, (ClassV, FuncV, Lib, Bound, PartialV, Spec)):
            return True
        if v is IGNORE:
            raise Unsupported('truth of an ignored value')
        raise Unsupported(f'truth of {v!r}')

    # ------------------------------------------------------------------ expressions
    def eval(self, n):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__}')
        return m(n)

    def ex_Constant(self, n):
        if isinstance(n.value, bytes) or n.value is Ellipsis:
            raise Unsupported('constant')
        return n.value

    def ex_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def lookup(self, name):
        f = self.fr()
        env = f.env
        if name in env:
            return env[name]
        cl = getattr(f, 'closure', None)
        while cl is not None:
            if name in cl.env:
                return cl.env[name]
            cl = getattr(cl, 'closure', None)
        if name in f.mod.env:
            return self.thaw(self.resolve(f.mod.env[name]))
        if name in self.lib.BUILTINS:
            return Lib(name)
        return MISSING

    def ex_Name(self, n):
        name = n.id
        if self.spec_mode:
            v = self.spec_name(name)
            if v is not MISSING:
                return v
        v = self.lookup(name)
        if v is MISSING:
            raise Unsupported(f'name {name}')
        if v is UNKNOWN:
            raise Unsupported(f'variable {name} has no known type here')
        return v

    def spec_name(self, name):
        f = self.fr()
        if name in self.bound_vars:
            return self.bound_vars[name]
        a = f.alias.get(name)
        if a is not None and a in f.env:
            return f.env[a]
        if name == 'result' and hasattr(f, 'result'):
            return f.result
        if name == '_out' and f.out is not None:
            return f.out
        if name.startswith('_') and (f.loopinfo or f.owner is not None):
            li = (f.owner.loopinfo if f.owner is not None else []) + f.loopinfo
            base, num = name[:2], name[2:]
            if name.startswith('_it'):
                base, num = '_it', name[3:]
            if base in ('_k', '_n', '_it') and (num == '' or num.isdigit()):
                info = li[-1] if num == '' else next((x for x in li if x['ord'] == int(num)), None)
                if info is not None:
                    if base == '_k':
                        return self.wrap_int(info['k'])
                    if base == '_n':
                        return self.wrap_int(info['n'])
                    it = info['it']
                    if it.items is not None:
                        return tuple(it.items)
                    if it.bases:
                        return T(it.bases[0][1], it.bases[0][0])
                    return it
        if name in f.env:
            return f.env[name]
        if f.owner is not None:
            w = f.owner
            a = w.alias.get(name)
            if a is not None and a in w.env:
                return w.env[a]
            if name in w.env:
                return w.env[name]
        if name in self.specfns:
            return self.specfns[name]
        return MISSING

    bound_vars = {}

    def wrap_int(self, k):
        if isinstance(k, int) or k is None:
            return k
        k = z3.simplify(k)
        if z3.is_int_value(k):
            return k.as_long()
        return T(k, INT)

    def ex_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                it = self.iterspec(self.eval(e.value))
                if it.items is None:
                    raise Unsupported('star of unknown length')
                out += it.items
            else:
                out.append(self.eval(e))
        return tuple(out)

    def ex_List(self, n):
        items = list(self.ex_Tuple(n))
        return self.alloc(LC(items=items))

    def ex_Set(self, n):
        return self.alloc(SC(items=list(self.ex_Tuple(n))))

    def ex_Dict(self, n):
        items = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                c = self.content(self.eval(v))
                if c.items is None:
                    raise Unsupported('** of symbolic dict')
                items.update(c.items)
                continue
            kv = self.eval(k)
            if not isinstance(kv, (str, int)):
                raise Unsupported('dict display with symbolic key')
            items[kv] = self.eval(v)
        return self.alloc(DC(items=items))

    def ex_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        if isinstance(c, bool):
            return self.eval(n.body if c else n.orelse)
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return self.eval(n.body if z3.is_true(c) else n.orelse)
        if self.spec_mode:
            return self.merge(c, self.eval(n.body), self.eval(n.orelse))
        if self.branch(c):
            return self.eval(n.body)
        return self.eval(n.orelse)

    def ex_BoolOp(self, n):
        is_and = isinstance(n.op, ast.And)
        if self.spec_mode:
            vs = []
            for x in n.values:
                t = self.truth(self.eval(x))
                if isinstance(t, bool):
                    if t != is_and:
                        return not is_and if not vs else self.from_term(z3.And(vs + [z3.BoolVal(False)]) if is_and else z3.BoolVal(True), BOOL)
                    continue
                vs.append(t)
            if not vs:
                return is_and
            return T(z3.And(vs) if is_and else z3.Or(vs), BOOL)
        v = self.eval(n.values[0])
        for x in n.values[1:]:
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and:
                    return v
                v = self.eval(x)
                continue
            t = z3.simplify(t)
            # a pure right operand gives a formula instead of a path split
            if isinstance(v, T) and v.ty is BOOL and self.is_pure_bool(x):
                w = self.eval_guarded(x, t if is_and else z3.Not(t))
                if w is not None:
                    tw = self.truth(w)
                    tw = z3.BoolVal(tw) if isinstance(tw, bool) else tw
                    v = T(z3.And(t, tw) if is_and else z3.Or(t, tw), BOOL)
                    continue
            if self.branch(t):
                if not is_and:
                    return v
                v = self.eval(x)
            else:
                if is_and:
                    return False if (isinstance(v, T) and v.ty is BOOL) else v
                v = self.eval(x)
        return v

    def is_pure_bool(self, x):
        return isinstance(x, ast.Compare) and all(isinstance(y, (ast.Compare, ast.Name, ast.Constant, ast.BinOp, ast.Attribute, ast.operator, ast.cmpop, ast.expr_context, ast.UnaryOp, ast.unaryop))
                                                  or (isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('len', 'max', 'min'))
                                                  for y in ast.walk(x))

    def eval_guarded(self, x, g):
        nobl, nh = len(self.obls), len(self.hyps)
        try:
            outs = self.explore(lambda: self.eval(x))
        except Unsupported:
            del self.obls[nobl:]
            return None
        if len(outs) == 1 and outs[0][2] == 'ok' and len(self.obls) == nobl and not outs[0][1]:
            return outs[0][3]
        del self.obls[nobl:]
        return None

    def ex_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return T(z3.Not(t), BOOL)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, T) and v.ty in (INT, REAL):
                return T(-v.term, v.ty)
            if isinstance(v, T) and v.ty is BOOL:
                return T(-self.lift(v, INT), INT)
        raise Unsupported('unary operator')

    def ex_BinOp(self, n):
        return self.binop(type(n.op).__name__, self.eval(n.left), self.eval(n.right))

    def unopt(self, v, what='value'):
        if isinstance(v, T) and v.ty.kind == 'Opt':
            self.check(z3.Not(TH.is_none(v.ty, v.term)), 'TypeError', f'{what} is not None')
            return self.from_term(TH.opt_val(v.ty, v.term), v.ty.args[0])
        return v

    def binop(self, op, a, b):
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)) and not isinstance(a, T):
            return self.concrete_binop(op, a, b)
        if a is IGNORE or b is IGNORE:
            return IGNORE
        a, b = self.unopt(a), self.unopt(b)
        r = self.lib.binop_hook(self, op, a, b)
        if r is not NotImplemented:
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        ta, tb = self.type_of(a), self.type_of(b)
        if op == 'Add' and (isinstance(a, (Loc, View)) or isinstance(b, (Loc, View)) or (ta and ta.kind == 'Seq') or (tb and tb.kind == 'Seq')):
            return self.lib.list_concat(self, a, b)
        if op == 'Mult' and isinstance(a, Loc):
            return self.lib.list_repeat(self, a, b)
        if ta is STR and tb is STR and op == 'Add':
            return T(TH.app(STR, self.lift(a, STR), self.lift(b, STR)), STR)
        num = (INT, REAL, BOOL)
        if ta in num and tb in num:
            if op == 'Div':
                x, y = self.lift(a, REAL), self.lift(b, REAL)
                self.check(y != 0, 'ZeroDivisionError', 'division by zero')
                if z3.is_rational_value(z3.simplify(y)):
                    return T(x / y, REAL)
                return T(self.lib.rdiv_fn()(x, y), REAL)
            ty = REAL if REAL in (ta, tb) else INT
            x, y = self.lift(a, ty), self.lift(b, ty)
            if op == 'Add':
                return self.from_term(z3.simplify(x + y) if self.both_const(x, y) else x + y, ty)
            if op == 'Sub':
                return T(x - y, ty)
            if op == 'Mult':
                return T(x * y, ty)
            if op in ('FloorDiv', 'Mod') and ty is INT:
                if isinstance(b, int) and b > 0:
                    return T(x / y if op == 'FloorDiv' else x % y, INT)
                self.check(y != 0, 'ZeroDivisionError', 'division by zero')
                self.check(y > 0, 'Unsupported', 'divisor is positive')
                return T(x / y if op == 'FloorDiv' else x % y, INT)
            if op == 'Pow' and isinstance(b, int) and 0 <= b <= 4:
                r = z3.IntVal(1) if ty is INT else z3.RealVal(1)
                for _ in range(b):
                    r = r * x
                return T(r, ty)
        raise Unsupported(f'{op} on {ta} and {tb}')

    def both_const(self, x, y):
        return z3.is_int_value(x) and z3.is_int_value(y)

    def concrete_binop(self, op, a, b):
        try:
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b,
                    'FloorDiv': lambda: a // b, 'Mod': lambda: a % b, 'Pow': lambda: a ** b}[op]()
        except ZeroDivisionError:
            raise PyExc('ZeroDivisionError')
        except TypeError:
            raise PyExc('TypeError')

    def ex_Compare(self, n):
        left = self.eval(n.left)
        out = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            t = self.compare(type(op).__name__, left, right)
            out = t if out is None else self.conj(out, t)
            left = right
        if isinstance(out, bool):
            return out
        if isinstance(out, (Loc, View)) or out is IGNORE:
            return out
        return T(out, BOOL) if not isinstance(out, T) else out

    def conj(self, a, b):
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return z3.And(a, b)

    def compare(self, op, a, b):
        """bool, z3 Bool"""
        if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
            r = self.lib.compare_hook(self, op, a, b)
            if r is not NotImplemented:
                return r
            r = self.equal(a, b, identity=op in ('Is', 'IsNot'))
            if op in ('IsNot', 'NotEq'):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if op in ('In', 'NotIn'):
            r = self.lib.contains(self, b, a)
            if op == 'NotIn':
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        r = self.lib.compare_hook(self, op, a, b)
        if r is not NotImplemented:
            return r
        a, b = self.unopt(a), self.unopt(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(b, float) and b == float('inf'):
            return {'Lt': True, 'LtE': True, 'Gt': False, 'GtE': False}[op]
        ta, tb = self.type_of(a), self.type_of(b)
        num = (INT, REAL, BOOL)
        if ta in num and tb in num:
            ty = REAL if REAL in (ta, tb) else INT
            x, y = self.lift(a, ty), self.lift(b, ty)
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if ta is STR and tb is STR:
            le = TH.fn('str_le', STR, STR, z3.BoolSort())
            x, y = self.lift(a, STR), self.lift(b, STR)
            return {'Lt': z3.And(le(x, y), x != y), 'LtE': le(x, y), 'Gt': z3.Not(le(x, y)), 'GtE': z3.Not(z3.And(le(x, y), x != y))}[op]
        raise Unsupported(f'comparison {op} of {ta} and {tb}')

    def equal(self, a, b, identity=False):
        if a is b:
            return True
        if a is IGNORE or b is IGNORE:
            raise Unsupported('comparison of ignored value')
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, T):
                if x.ty.kind in ('Opt', 'Ref'):
                    return TH.is_none(x.ty, x.term)
                return False
            return x is None
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            return a == b
        if isinstance(a, (ClassV, FuncV, Lib)) or isinstance(b, (ClassV, FuncV, Lib)):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.conj(r, self.equal(x, y))
            return r
        if isinstance(a, IterSpec) or isinstance(b, IterSpec):
            a = self.iter_value(a)
            b = self.iter_value(b)
        if identity and isinstance(a, Loc) and isinstance(b, Loc):
            return a == b
        if isinstance(a, Loc) and isinstance(b, Loc) and isinstance(self.content(a), OC):
            ca, cb = self.content(a), self.content(b)
            if a == b:
                return True
            if ca.cls is cb.cls and ca.cls.is_dataclass:
                r = True
                for k in ca.fields:
                    r = self.conj(r, self.equal(ca.fields[k], cb.fields[k]))
                return r
            return False
        ta, tb = self.type_of(a), self.type_of(b)
        if ta is EMPTY_TY or tb is EMPTY_TY:
            x = a if tb is EMPTY_TY else b
            n = self.lib.length(self, x)
            return n == 0
        # lists of concrete length
        if isinstance(a, (Loc, View)) and isinstance(b, (Loc, View)):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, LC) and isinstance(cb, LC) and ca.items is not None and cb.items is not None and ca.kind == cb.kind == 'list':
                return self.equal(tuple(ca.items), tuple(cb.items))
        ty = join_ty(ta, tb)
        if ty is None and ta is not None and tb is not None and ta.kind == 'Tup' and tb.kind == 'Seq':
            ty = tb
        if ty is None and ta is not None and tb is not None and tb.kind == 'Tup' and ta.kind == 'Seq':
            ty = ta
        if ty is None:
            if ta is not None and tb is not None and {ta.kind, tb.kind} & {'Int', 'Str', 'Seq'} and ta.kind != tb.kind and not {ta.kind, tb.kind} & {'Opt', 'Opq'}:
                return False
            raise Unsupported(f'equality of {ta} and {tb}')
        if ty.kind == 'Ref' and not identity and not self.spec_mode:
            m = self.refclasses[ty.args[0]].get('eq')
            if m == 'structural':
                raise Unsupported('structural == on heap nodes')
        return TH.eq(ty, self.lift(a, ty), self.lift(b, ty))

    # ------------------------------------------------------------------ attributes
    def ex_Attribute(self, n):
        base = self.eval(n.value)
        return self.getattr(base, n.attr)

    def getattr(self, b, name, default=MISSING):
        b = self.resolve(b)
        if b is IGNORE:
            return IGNORE
        if isinstance(b, T) and b.ty.kind == 'Opt':
            b = self.unopt(b, 'object')
        if isinstance(b, Loc):
            c = self.heap[b.id]
            if isinstance(c, OC):
                if name in c.fields:
                    return c.fields[name]
                v, owner = c.cls.lookup(name)
                if owner is None:
                    if name == '__class__':
                        return c.cls
                    if name == '__dict__':
                        return self.alloc(DC(items=dict(c.fields)))
                    if default is not MISSING:
                        return default
                    r = self.lib.obj_attr(self, b, c, name)
                    if r is not MISSING:
                        return r
                    raise Unsupported(f'attribute {name} of {c.cls.name}')
                return self.bind_attr(v, b, owner)
            if isinstance(c, LC) and c.kind == 'array':
                return libnp.array_attr(self, b, c, name)
            return Bound(b, None, name)
        if isinstance(b, View):
            return Bound(b, None, name)
        if isinstance(b, T):
            k = b.ty.kind
            if k == 'Ref':
                cls = b.ty.args[0]
                self.check(z3.Not(TH.is_none(b.ty, b.term)), 'AttributeError', f'object of .{name} is not None')
                rc = self.refclasses[cls]
                if name in rc['fields']:
                    ty = self.fieldty(cls, name)
                    if ty.kind in ('Dict', 'Seq', 'Set') and rc['fields'][name].split('[')[0] in ('list', 'dict', 'set', 'defaultdict', 'counter'):
                        v = View('field', (cls, name, b.term), None, ty,
                                 default=default_of(ty.args[1]) if ty.kind == 'Dict' and rc['fields'][name].startswith(('defaultdict', 'counter')) else None)
                        return v
                    return self.from_term(z3.Select(self.field_arr(cls, name), b.term), ty)
                kv = self.find_class(rc['full'])
                v, owner = kv.lookup(name)
                if owner is None:
                    raise Unsupported(f'attribute {name} of {cls}')
                return self.bind_attr(v, b, owner)
            if k == 'Rec':
                rc = self.recclasses[b.ty.args[0]]
                if name in rc['fields']:
                    ty = parse_ty(rc['fields'][name])
                    if z3.is_app(b.term) and b.term.decl().name() == f'mk.{b.ty.args[0]}':
                        return self.from_term(b.term.arg([x for x, _ in self.find_class(rc['full']).fields].index(name)), ty)
                    f = TH.fn(f'{b.ty.args[0]}.{name}', b.ty, ty)
                    return self.from_term(f(b.term), ty)
                kv = self.find_class(rc['full'])
                v, owner = kv.lookup(name)
                if owner is None:
                    raise Unsupported(f'attribute {name} of {kv.name}')
                return self.bind_attr(v, b, owner)
            if k == 'Opq':
                r = self.lib.opaque_attr(self, b, name)
                if r is not MISSING:
                    return r
            return Bound(b, None, name)
        if isinstance(b, ClassV):
            v, owner = b.lookup(name)
            if owner is None:
                if name == '__name__':
                    return b.name
                raise Unsupported(f'class attribute {b.name}.{name}')
            v = self.resolve(v)
            if isinstance(v, FuncV):
                if 'classmethod' in v.deco:
                    return Bound(b, v)
                return v if 'staticmethod' in v.deco or True else v
            return self.thaw(v)
        if isinstance(b, ModV):
            if name in b.env:
                return self.thaw(self.resolve(b.env[name]))
            try:
                return self.load_module(b.name + '.' + name)
            except Unsupported:
                raise Unsupported(f'{b.name}.{name}')
        if isinstance(b, Lib):
            return self.lib.lib_attr(self, b, name)
        if isinstance(b, SuperV):
            v = None
            seen = False
            for c in b.cls.mro():
                if seen and name in c.attrs:
                    v = c.attrs[name]
                    break
                if c is b.after:
                    seen = True
            if v is None:
                if name == '__init__':
                    return Lib('object.__init__')
                raise Unsupported(f'super().{name}')
            return Bound(b.recv, v) if 'staticmethod' not in v.deco else v
        if isinstance(b, (str, int, float, tuple)) or b is None:
            if b is None:
                self.check(z3.BoolVal(False), 'AttributeError', f'None has no attribute {name}')
            return Bound(b, None, name)
        if isinstance(b, FuncV):
            if name == '__name__':
                return b.name
        if isinstance(b, PyObj):
            if name not in b.attrs:
                raise Unsupported(f'attribute {name} of {b.kind}')
            if callable(b.attrs[name]):
                return Bound(b, None, name)
            return b.attrs[name]
        if isinstance(b, self.lib.PyTqdm) and name in ('set_postfix_str', 'set_postfix', 'set_description', 'set_description_str', 'update', 'refresh', 'close'):
            return lambda *a, **k: None         # what a progress bar shows
        raise Unsupported(f'attribute {name} of {b!r}')

    def bind_attr(self, v, recv, owner):
        v = self.resolve(v)
        if isinstance(v, FuncV):
            if 'property' in v.deco:
                return self.call_function(v, [], {}, recv=recv)
            if 'staticmethod' in v.deco:
                return v
            if 'classmethod' in v.deco:
                rc = self.heap[recv.id].cls if isinstance(recv, Loc) else self.find_class((self.refclasses.get(recv.ty.args[0]) or self.recclasses[recv.ty.args[0]])['full'])
                return Bound(rc, v)
            return Bound(recv, v)
        return self.thaw(v)

    def setattr(self, b, name, v):
        if isinstance(b, Loc):
            c = self.heap[b.id]
            if isinstance(c, OC):
                if not self.spec_mode:
                    for k in c.cls.mro():
                        ts = self.schemas.get(k.full, {}).get(name)
                        if ts is not None:
                            v = self.give_type(v, ts)
                            break
                c = self.heap[b.id]
                fs = dict(c.fields)
                fs[name] = v
                self.heap[b.id] = OC(c.cls, fs)
                self.note_write(('heap', b.id), self.heap[b.id])
                if self.writes is not None:
                    self.note_write(('ofield', b.id, name), v)
                return
        if isinstance(b, T) and b.ty.kind == 'Opt':
            b = self.unopt(b)
        if isinstance(b, T) and b.ty.kind == 'Ref':
            cls = b.ty.args[0]
            self.check(z3.Not(TH.is_none(b.ty, b.term)), 'AttributeError', f'object of .{name} is not None')
            ty = self.fieldty(cls, name)
            self.set_field_arr(cls, name, z3.Store(self.field_arr(cls, name), b.term, self.lift(v, ty)))
            return
        if b is IGNORE:
            return
        raise Unsupported(f'setting attribute {name} of {b!r}')

    # ------------------------------------------------------------------ subscripts
    def eval_slice(self, n):
        if isinstance(n, ast.Slice):
            return ('slice', self.eval(n.lower) if n.lower else None, self.eval(n.upper) if n.upper else None,
                    self.eval(n.step) if n.step else None)
        if isinstance(n, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.elts):
            return ('multi', [self.eval_slice(e) for e in n.elts])
        return self.eval(n)

    def ex_Subscript(self, n):
        b = self.eval(n.value)
        if isinstance(b, (ClassV, Lib)):
            if isinstance(b, ClassV):
                return b
            if isinstance(b, Lib) and b.name.split('.')[0] in ('typing', 'List', 'Dict'):
                return b
        return self.getitem(b, self.eval_slice(n.slice))

    def getitem(self, b, k):
        return self.lib.getitem(self, b, k)

    def setitem(self, b, k, v):
        return self.lib.setitem(self, b, k, v)

    # ------------------------------------------------------------------ f-strings
    def ex_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                spec = ''
                if v.format_spec is not None:
                    z = self.lib.HOOKS['zero_padded'](self, v.format_spec, x)
                    if z is not None:
                        parts.append(z)
                        continue
                    spec = self.eval(v.format_spec)
                parts.append(self.lib.format_value(self, x, spec, v.conversion))
        out = ''
        for p in parts:
            out = self.binop('Add', out, p) if not (isinstance(out, str) and out == '') else p
        return out

    def ex_FormattedValue(self, n):
        return self.ex_JoinedStr(ast.JoinedStr(values=[n]))

    def ex_Lambda(self, n):
        return FuncV(n, self.fr().mod, closure=self.fr())

    # ------------------------------------------------------------------ calls
    def ex_Call(self, n):
        if self.spec_mode and isinstance(n.func, ast.Name):
            h = getattr(self, 'sp_' + n.func.id, None)
            if h is not None:
                return h(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in IGNORED_CALL_ROOTS:
            v = self.lookup(n.func.value.id)
            if isinstance(v, Lib) and v.name in ('log', 'logging', 'warnings'):
                self.libuse.add('log')
                return IGNORE
        if isinstance(n.func, ast.Name) and n.func.id == 'print' and self.lookup('print') == Lib('print'):
            return None
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = self.fr()
            recv = f.env.get(f.fn.node.args.args[0].arg)
            rc = recv if isinstance(recv, ClassV) else self.heap[recv.id].cls
            return SuperV(recv, f.fn.cls, rc)
        if self.spec_mode and isinstance(n.func, ast.Name) and n.func.id in self.specfns and n.func.id not in self.bound_vars:
            f = self.specfns[n.func.id]
        else:
            f = self.eval(n.func)
        f = self.resolve(f)
        if f is IGNORE:
            return IGNORE
        # generator expressions as sole argument stay lazy enough: evaluated here
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.iterspec(self.eval(a.value))
                if it.items is None:
                    raise Unsupported('* of unknown length')
                args += it.items
            else:
                args.append(self.eval(a))
        for kw in n.keywords:
            if kw.arg is None:
                c = self.content(self.eval(kw.value))
                if c.items is None:
                    raise Unsupported('** of symbolic dict')
                kwargs.update(c.items)
            else:
                kwargs[kw.arg] = self.eval(kw.value)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        f = self.resolve(f)
        if isinstance(f, Bound):
            if f.fn is not None:
                return self.call_function(f.fn, args, kwargs, recv=f.recv)
            return self.lib.call_method(self, f.recv, f.name, args, kwargs)
        if isinstance(f, FuncV):
            return self.call_function(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Lib):
            return self.lib.call_lib(self, f.name, args, kwargs)
        if isinstance(f, PartialV):
            return self.call(f.fn, list(f.args) + args, {**f.kwargs, **kwargs})
        if isinstance(f, Spec):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, Loc) and isinstance(self.heap[f.id], OC):
            m, _ = self.heap[f.id].cls.lookup('__call__')
            if m is not None:
                return self.call_function(m, args, kwargs, recv=f)
        if isinstance(f, T) and f.ty is libfs.REC:
            return libfs.make_rec(self, f, args, kwargs)
        if callable(f):
            return f(*args, **kwargs)
        raise Unsupported(f'call of {f!r}')

    def instantiate(self, cls, args, kwargs):
        short = cls.name
        view = self.ctor_views.get(cls.full)
        if view is not None:        # objects of this class are represented by a value made of the arguments
            init, owner = cls.lookup('__init__')
            env = self.bind(init, args, kwargs, recv=IGNORE)
            fr = Frame(init, init.mod, env)
            self.frames.append(fr)
            try:
                for r in view['requires']:
                    self.obligation(self.spec_bool(r), f'precondition of {cls.name}(..)', r)
                v = self.spec_eval(view['value'])
                return self.from_term(v.term, v.ty) if isinstance(v, T) else v
            finally:
                self.frames.pop()
        rc = self.refclasses.get(short)
        if rc is not None and rc['full'] == cls.full:
            ty = RefT(short)
            r = self.fresh(ty, 'new')
            al = self.field_arr(short, '$alloc')
            self.assume(r != TH.null(ty))
            self.assume(z3.Not(z3.Select(al, r)))
            self.set_field_arr(short, '$alloc', z3.Store(al, r, z3.BoolVal(True)))
            v = T(r, ty)
            init, owner = cls.lookup('__init__')
            if init is not None:
                env = self.bind(init, args, kwargs, recv=v)
                self.call_function(init, args, kwargs, recv=v, cls=cls)
            gi = rc.get('ghost_init') or {}
            if not isinstance(gi, dict) and init is not None:       # assumed of the ghost fields of a new object
                fr = Frame(init, init.mod, dict(env))
                self.frames.append(fr)
                for g in gi:
                    self.assume(self.spec_bool(g))
                self.frames.pop()
            for g, val in (gi.items() if isinstance(gi, dict) else ()):       # ghost fields of a new object
                gt = self.fieldty(short, g)
                self.set_field_arr(short, g, z3.Store(self.field_arr(short, g), r, self.lift(T(z3.BoolVal(val), BOOL) if isinstance(val, bool) else val, gt)))
            return v
        rec = self.recclasses.get(short)
        if rec is not None and rec['full'] == cls.full:
            return self.lib.make_record(self, cls, rec, args, kwargs)
        init, owner = cls.lookup('__init__')
        obj = self.alloc(OC(cls, {}))
        if init is not None:
            self.call_function(init, args, kwargs, recv=obj)
            return obj
        if cls.is_dataclass:
            fs = {}
            flds = []
            for c in reversed(cls.mro()):
                flds += [x for x in c.fields]
            names = [x[0] for x in flds]
            if len(args) > len(names):
                raise PyExc('TypeError')
            fs.update(dict(zip(names, args)))
            for k, v in kwargs.items():
                if k not in names:
                    raise PyExc('TypeError')
                fs[k] = v
            for nme, d in flds:
                if nme not in fs:
                    if d is None:
                        raise PyExc('TypeError')
                    fs[nme] = self.eval_in(cls.mod, d)
            self.heap[obj.id] = OC(cls, fs)
            return obj
        if any(isinstance(b, Lib) for b in cls.bases) or not cls.bases or True:
            self.heap[obj.id] = OC(cls, {'args': tuple(args)})
            return obj

    def eval_in(self, mod, node):
        self.frames.append(Frame(None, mod, {}))
        try:
            return self.eval(node)
        finally:
            self.frames.pop()

    # ------------------------------------------------------------------ iteration
    def iterspec(self, v):
        """view of an iterable value; consumes streams"""
        if isinstance(v, IterSpec):
            return v
        if isinstance(v, tuple):
            return IterSpec.concrete(v)
        if isinstance(v, str):
            return IterSpec.concrete(list(v))
        if isinstance(v, (Loc, View)):
            c = self.content(v)
            if isinstance(c, GC):
                self.force(v)
                c = self.content(v)
            if isinstance(c, LC):
                if c.kind == 'stream':
                    it = self.stream_rest(v, c)
                    if c.items is not None:
                        self.set_content(v, LC(items=c.items, ety=c.ety, kind='stream', pos=len(c.items)))
                    else:
                        self.set_content(v, LC(term=c.term, ety=c.ety, kind='stream', pos=TH.len(SeqT(c.ety), c.term)))
                    return it
                if c.items is not None:
                    return IterSpec.concrete(c.items)
                ty = SeqT(c.ety) if c.ety is not None else STR
                if c.kind == 'array':
                    return libnp.array_iter(self, c, self.seq_iter(c.term, ty))
                return self.seq_iter(c.term, ty)
            if isinstance(c, DC):
                if c.items is not None:
                    return IterSpec.concrete(list(c.items))
                kt = SeqT(c.ty.args[0])
                return self.seq_iter(TH.d_keys(c.ty, c.term), kt)
            if isinstance(c, SC):
                if c.items is not None and len(c.items) == 0:
                    return IterSpec.concrete([])
                ety = self.sc_ety(c)
                return self.seq_iter(self.lib.set_enum(self, ety, self.sc_term(c, ety)), SeqT(ety))
            if isinstance(c, OC):
                m, _ = c.cls.lookup('__iter__')
                if m is not None:
                    return self.iterspec(self.call_function(m, [], {}, recv=v))
        if isinstance(v, T):
            if v.ty.kind == 'Opt':
                return self.iterspec(self.unopt(v))
            if v.ty.is_seq:
                return self.seq_iter(v.term, v.ty)
            if v.ty.kind == 'Dict':
                return self.seq_iter(TH.d_keys(v.ty, v.term), SeqT(v.ty.args[0]))
            if v.ty.kind == 'Set':
                return self.seq_iter(self.lib.set_enum(self, v.ty.args[0], v.term), SeqT(v.ty.args[0]))
            r = self.lib.iter_hook(self, v)
            if r is not None:
                return r
        if isinstance(v, PyObj) and v.kind == 'iter':
            return v.attrs['it']
        if isinstance(v, self.lib.PyTqdm):
            return self.iterspec(v.v)
        if isinstance(v, self.lib.ISlice):
            return self.iterspec(v.rest(self))
        raise Unsupported(f'iteration over {v!r}')

    def stream_rest(self, v, c):
        if c.items is not None:
            p = c.pos if isinstance(c.pos, int) else None
            if p is None:
                raise Unsupported('stream position')
            return IterSpec.concrete(c.items[p:])
        ty = SeqT(c.ety)
        t = TH.drop(ty, c.term, to_int(c.pos))
        return self.seq_iter(t, ty)

    def seq_iter(self, t, ty):
        t = self.named(t, ty)
        n = TH.len(ty, t)
        if z3.is_int_value(n) and n.as_long() <= 512:
            return IterSpec.concrete([self.elem(t, ty, z3.IntVal(i)) for i in range(n.as_long())])
        return IterSpec(n, lambda i: self.elem(t, ty, to_int(i)), base=t, ty=ty)

    def elem(self, t, ty, i):
        x = TH.idx(ty, t, i)
        if ty is STR:
            if z3.is_int_value(x):
                return chr(x.as_long())
            return T(TH.build(STR, TH.empty(STR), x), STR)
        return self.from_term(x, ty.elem)

    def iter_value(self, v):
        if isinstance(v, IterSpec):
            if v.items is not None:
                return tuple(v.items)
            if v.base is not None:
                return T(v.base, v.ty)
            return self.iter_to_list(v)
        return v

    def iter_to_list(self, it):
        if it.items is not None:
            return self.alloc(LC(items=list(it.items)))
        if it.base is not None and it.ty is not STR:
            return self.alloc(LC(term=it.base, ety=it.ty.elem))
        r = self.comprehend(it, lambda v: v)
        src = getattr(it, 'src', None)
        if src is not None and src[0] == 'items' and src[1].args[1] in (INT, REAL):
            c = self.content(r)
            self.assume(self.lib.psum_fn(c.ety)(c.term) == self.lib.dsum_fn(src[1])(src[2]))
        return r

    # ------------------------------------------------------------------ comprehensions
    def ex_ListComp(self, n):
        return self.comp(n.generators, lambda: self.eval(n.elt))

    def ex_GeneratorExp(self, n):
        g = n.generators[0]
        # lazily evaluated only with respect to the source's demand: evaluate now
        r = self.comp(n.generators, lambda: self.eval(n.elt))
        c = self.content(r)
        return self.alloc(LC(items=c.items, ety=c.ety, term=c.term, kind='stream', pos=0))

    def ex_SetComp(self, n):
        l = self.comp(n.generators, lambda: self.eval(n.elt))
        return self.lib.call_lib(self, 'set', [l], {})

    def ex_DictComp(self, n):
        it = self.iterspec(self.eval(n.generators[0].iter))
        if len(n.generators) == 1 and it.items is not None:
            # unrolled, with merged conditional stores
            d = self.alloc(DC(items={}))
            g = n.generators[0]
            save = dict(self.fr().env)
            for v in it.items:
                self.assign(g.target, v)

                def cond():
                    r = True
                    for x in g.ifs:
                        r = self.conj(r, self.truth(self.eval(x)))
                    return r
                c = cond()
                if not isinstance(c, bool):
                    c = z3.simplify(c)
                    if z3.is_true(c) or z3.is_false(c):
                        c = z3.is_true(c)
                if isinstance(c, bool):
                    if c:
                        self.setitem(d, self.eval(n.key), self.eval(n.value))
                    continue
                self.dict_to_symbolic(d, n, it)

                def go():
                    if self.branch(c):
                        self.setitem(d, self.eval(n.key), self.eval(n.value))
                r, outs = self.merged(go)
                if r is None:
                    raise Unsupported('dict comprehension with exceptions')
            self.fr().env = {**save, **{k: v for k, v in self.fr().env.items() if k in save}}
            return d
        pairs = self.comp(n.generators, lambda: (self.eval(n.key), self.eval(n.value)), it0=it)
        return self.lib.dict_of_pairs(self, pairs)

    def dict_to_symbolic(self, d, n, it):
        pass

    def comp(self, gens, elt, it0=None):
        g = gens[0]
        it = it0 if it0 is not None else self.iterspec(self.eval(g.iter))
        if len(gens) > 1:
            def inner():
                return self.comp(gens[1:], elt)
            parts = self.comp([g], inner) if False else self.comp_one(g, it, inner)
            return self.lib.flatten(self, parts)
        return self.comp_one(g, it, elt)

    def comp_one(self, g, it, elt):
        save = self.fr().env
        self.fr().env = dict(save)
        try:
            if it.items is not None:
                out = []
                symbolic = None
                for v in it.items:
                    self.assign(g.target, v)
                    keep = True
                    for x in g.ifs:
                        keep = self.conj(keep, self.truth(self.eval(x)))
                    if not isinstance(keep, bool):
                        keep = self.branch(keep)
                    if keep:
                        out.append(elt())
                return self.alloc(LC(items=out))

            def body(v):
                self.assign(g.target, v)
                return elt()

            cond = None
            if g.ifs:
                def cond(v):
                    self.assign(g.target, v)
                    r = True
                    for x in g.ifs:
                        r = self.conj(r, self.truth(self.eval(x)))
                    return r
            return self.comprehend(it, body, cond)
        finally:
            env = self.fr().env
            self.fr().env = save

    def comprehend(self, it, body, cond=None):
        """symbolic map / filter over an iterable of unknown length"""
        n = to_int(it.n)
        i = z3.Const(self.fresh_name('ci'), z3.IntSort())
        old_log, self.fresh_log = self.fresh_log, []
        nh = len(self.hyps)
        guard = z3.And(i >= 0, i < n)
        base_snapshot = self.snapshot()
        pure = self.pure
        self.pure += 1
        qs = self.qsolver()
        qs.push()
        qseen = set(self._qseen)
        try:
            self.assume(guard)
            elem = it.get(i)
            c = True
            if cond is not None:
                r, outs = self.merged(lambda: self.truth_value(cond(elem)))
                if r is None:
                    raise Unsupported('exception in a comprehension condition')
                c = self.truth(r[0])
                if not isinstance(c, bool):
                    self.assume(c)
                elif not c:
                    return self.alloc(LC(items=[]))
            r, outs = self.merged(lambda: self.comp_value(body(elem)))
            if r is None:
                exc = [o for o in outs if o[2] == 'exc']
                raise Unsupported(f'exception {exc[0][3].name if exc else "?"} in a comprehension')
            val = r[0]
            created = self.comp_alloc(base_snapshot[1], val, it, cond)
        finally:
            self.pure = pure
            inner = self.hyps[nh:]
            del self.hyps[nh:]
            log, self.fresh_log = self.fresh_log, old_log
            qs.pop()
            self._qseen = qseen
        ety = self.type_of(val)
        if ety is None or ety in (EMPTY_TY, NONE_TY):
            if ety is EMPTY_TY:
                raise Unsupported('comprehension of empty containers')
            raise Unsupported(f'comprehension element {val!r}')
        vt = self.lift(val, ety)
        # skolemise what was introduced under the binder
        for s in reversed(log):
            pass
        subst, fsubst = [], []
        for s in log:
            if isinstance(s, z3.FuncDeclRef):
                doms = [s.domain(j) for j in range(s.arity())]
                f2 = z3.Function(self.fresh_name('sk'), z3.IntSort(), *doms, s.range())
                if self.fresh_log is not None:
                    self.fresh_log.append(f2)
                fsubst.append((s, f2(i, *[z3.Var(j, d) for j, d in enumerate(doms)])))
            else:
                f2 = z3.Function(self.fresh_name('sk'), z3.IntSort(), s.sort())
                if self.fresh_log is not None:
                    self.fresh_log.append(f2)
                subst.append((s, f2(i)))

        def gen(t):
            # function substitution first: its result mentions i as a constant
            if fsubst:
                t = z3.substitute_funs(t, *fsubst)
            if subst:
                t = z3.substitute(t, *subst)
            return t
        vt = gen(vt)
        inner = [gen(h) for h in inner]
        if created:
            created = [(k, gen(x)) for k, x in created]
        gid = gen(guard)
        facts = [h for h in inner if not h.eq(gid) and h.get_id() not in (gid.arg(0).get_id(), gid.arg(1).get_id())]
        rt = SeqT(ety)
        res = self.fresh(rt, 'comp')
        j = z3.Int(self.fresh_name('cj'))
        if not created:
            can = self.canonical_comp(it, i, vt, gen(c) if cond is not None and not isinstance(c, bool) else None, ety)
            if can is not None:
                if self.spec_mode:
                    return self.alloc(LC(term=can, ety=ety))
                self.assume(res == can)
        if created:
            self.comp_alloc_facts(created, res, rt, n, base_snapshot[1])
        if cond is None:
            self.assume(TH.len(rt, res) == n)
            pats = [TH.idx(rt, res, i)]
            b = self.iter_pattern(it, i)
            pats += [p for p in b if not p.eq(pats[0])]
            self.assume(qall([i], z3.Implies(guard, self.deep_eq(rt, res, i, vt)), pats))
            cf = [f for f in facts]
            if cf:
                self.assume(qall([i], z3.Implies(guard, z3.And(cf)), pats))
        else:
            ct = gen(c) if not isinstance(c, bool) else z3.BoolVal(True)
            facts = [f for f in facts if not f.eq(ct)]
            ix = self.fresh_fn('fix', INT, INT)      # position in the result -> position in the source
            inv = self.fresh_fn('finv', INT, INT)
            m = TH.len(rt, res)
            self.assume(m <= n)
            gj = z3.And(j >= 0, j < m)
            at = lambda t, x: z3.substitute(t, (i, x))
            self.assume(qall([j], z3.Implies(gj, z3.And(ix(j) >= 0, ix(j) < n, at(ct, ix(j)), TH.idx(rt, res, j) == at(vt, ix(j)), inv(ix(j)) == j)), [TH.idx(rt, res, j), ix(j)]))
            j2 = z3.Int(self.fresh_name('cj'))
            self.assume(qall([j, j2], z3.Implies(z3.And(gj, j < j2, j2 < m), ix(j) < ix(j2)), [z3.MultiPattern(ix(j), ix(j2))]))
            self.assume(qall([j, j2], z3.Implies(z3.And(gj, j2 < m, ix(j) < ix(j2)), j < j2), [z3.MultiPattern(ix(j), ix(j2))]))
            pats = self.iter_pattern(it, i) + [inv(i)]
            self.assume(qall([i], z3.Implies(z3.And(guard, ct), z3.And(inv(i) >= 0, inv(i) < m, ix(inv(i)) == i)), pats))
            if facts:
                self.assume(qall([i], z3.Implies(z3.And(guard, ct), z3.And(facts)), pats))
            self.filter_info[res.get_id()] = dict(res=res, ix=ix, inv=inv, it=it, cond=ct, var=i, val=vt, n=n, ety=ety)
            self._keep.append(res)
        return self.alloc(LC(term=res, ety=ety))

    filter_info = {}

    def canonical_comp(self, it, i, vt, ct, ety):
        """the comprehension as a function of its source and of what it refers to: comprehensions of the same
        form denote the same function, defined by recursion over the source, so that lemmas can speak of them"""
        if it.base is not None:
            kt, ks = it.ty, it.base
        elif it.bases and len(it.bases) == 1:
            kt, ks = it.bases[0]
        else:
            return None
        if kt.kind != 'Seq':
            return None
        e = z3.Const(f'cf!e{kt}', TH.sort(kt.elem))
        x = TH.fn(TH._n('idx', kt), kt, INT, kt.elem)(ks, i)
        sub = lambda t: z3.substitute(t, (x, e))
        vt = sub(vt)
        ct = sub(ct) if ct is not None else None
        params, memo = [], {}
        inside = {}

        def has(t, c):
            k = (t.get_id(), c.get_id())
            if k not in inside:
                inside[k] = t.eq(c) or any(has(y, c) for y in t.children())
            return inside[k]

        class No(Exception):
            pass

        def walk(t):
            if z3.is_quantifier(t) or z3.is_var(t) or has(t, i):
                raise No()
            if t.eq(e) or z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
                return t
            if t.get_id() in memo:
                return memo[t.get_id()]
            if not has(t, e):
                if z3.is_bool(t) and t.num_args() > 0 and False:
                    pass
                r = z3.Const(f'cf!p{len(params)}{t.sort().sexpr()}', t.sort())
                params.append((t, r))
            else:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name():
                    raise No()
                r = t.decl()(*[walk(y) for y in t.children()])
            memo[t.get_id()] = r
            return r
        try:
            self._keep.extend([vt] + ([ct] if ct is not None else []))
            v = walk(vt)
            c = walk(ct) if ct is not None else None
        except No:
            return None
        import hashlib
        rt = SeqT(ety)
        key = f'{kt}|{ety}|{v.sexpr()}|{c.sexpr() if c is not None else ""}'
        name = ('filt' if c is not None else 'map') + '$' + hashlib.sha1(key.encode()).hexdigest()[:10]
        if name in self._canon:
            f = self._canon[name]
        else:
            f = z3.Function(name, TH.sort(kt), *[p.sort() for _, p in params], TH.sort(rt))
            self._canon[name] = f
            if name not in TH.decls:
                TH.decls[name] = f
                s = z3.Const(f'cf!s{kt}', TH.sort(kt))
                ps = [p for _, p in params]
                fs = f(s, *ps)
                bld = TH.build(kt, s, e)
                fb = f(bld, *ps)
                step = TH.build(rt, fs, v)
                if c is not None:
                    step = z3.If(c, step, fs)
                nil = f(TH.empty(kt), *ps)
                TH.axiom(name + '.nil', z3.ForAll(ps, nil == TH.empty(rt), patterns=[nil]) if ps else nil == TH.empty(rt), [name])
                TH.axiom(name + '.cons', z3.ForAll([s, e] + ps, fb == step, patterns=[fb]), [name])
                n = TH.len(kt, s)
                if c is None:
                    j = z3.Int('cf!j')
                    TH.axiom(name + '.len', z3.ForAll([s] + ps, TH.len(rt, fs) == n, patterns=[fs]), [name])
                    TH.axiom(name + '.idx', z3.ForAll([s, j] + ps, z3.Implies(z3.And(0 <= j, j < n), TH.idx(rt, fs, j) == z3.substitute(v, (e, TH.idx(kt, s, j)))), patterns=[TH.idx(rt, fs, j)]), [name])
                else:
                    TH.axiom(name + '.len', z3.ForAll([s] + ps, TH.len(rt, fs) <= n, patterns=[fs]), [name])
        return f(ks, *[t for t, _ in params])

    _canon = {}

    def comp_alloc(self, before, val, it, cond):
        """heap objects created by the element expression of a comprehension: one per element, which is the element"""
        changed = [k for k, a in self.fields.items() if before.get(k) is None or not before[k].eq(a)]
        changed = [k for k in changed if before.get(k) is not None or not self.field_init(k).eq(self.fields[k])]
        if not changed:
            return None
        if cond is not None or not (isinstance(val, T) and val.ty.kind == 'Ref' and z3.is_const(val.term) and val.term.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            raise Unsupported('heap effect in a comprehension')
        if not any(val.term.eq(x) for x in self.fresh_log if not isinstance(x, z3.FuncDeclRef)):
            raise Unsupported('heap effect in a comprehension')
        out = []
        for k in changed:
            a = self.fields[k]
            base = before[k] if before.get(k) is not None else self.field_init(k)
            v = None
            if k[0] != val.ty.args[0]:
                raise Unsupported('heap effect in a comprehension')
            while not a.eq(base):
                if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(val.term)):
                    raise Unsupported('heap effect in a comprehension')
                v = a.arg(2) if v is None else v
                a = a.arg(0)
            out.append((k, v))
        return out

    def comp_alloc_facts(self, created, res, rt, n, before):
        ref = rt.elem
        i = z3.Int(self.fresh_name('ci'))
        r = z3.Const(self.fresh_name('cr'), TH.sort(ref))
        inv = self.fresh_fn('cinv', ref, INT)
        x = TH.idx(rt, res, i)
        g = z3.And(0 <= i, i < n)
        self.assume(qall([i], z3.Implies(g, inv(x) == i), [x]))
        new = z3.And(0 <= inv(r), inv(r) < n, TH.fn(TH._n('idx', rt), rt, INT, ref)(res, inv(r)) == r)
        for k, v in created:
            old = before[k] if before.get(k) is not None else self.field_init(k)
            arr = self.fresh_arr(*k)
            self.set_field_arr(k[0], k[1], arr)
            iv = [c for c in self.consts_of(v) if c.decl().name().startswith('ci!')]
            vi = z3.substitute(v, *[(c, i) for c in iv]) if iv else v
            self.assume(qall([i], z3.Implies(g, z3.Select(arr, x) == vi), [x]))
            self.assume(qall([r], z3.Or(new, z3.Select(arr, r) == z3.Select(old, r)), [z3.Select(arr, r)] + ([z3.Select(old, r)] if z3.is_const(old) else [])))

    def consts_of(self, t):
        out, seen, st = {}, set(), [t]
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[y.get_id()] = y
            st.extend(y.children())
        return out.values()

    def deep_eq(self, rt, res, i, vt):
        return TH.idx(rt, res, i) == vt

    def iter_pattern(self, it, i):
        if it.base is not None:
            return [TH.fn(TH._n('idx', it.ty), it.ty, INT, it.ty.elem)(it.base, i)]
        if getattr(it, 'pats', None):
            return it.pats(i)
        return []

    def truth_value(self, c):
        return c if isinstance(c, bool) else T(c, BOOL)

    def comp_value(self, v):
        """element of a comprehension: containers are taken by value"""
        if isinstance(v, (Loc, View)):
            c = self.content(v)
            if isinstance(c, (LC, DC, SC)):
                if isinstance(c, LC) and c.items is not None and len(c.items) > 0 and self.lc_ety(c) is None:
                    raise Unsupported('heterogeneous list in comprehension')
                ty = self.type_of(v)
                if ty is EMPTY_TY:
                    raise Unsupported('empty container in a comprehension')
                return self.from_term(self.lift(v, ty), ty)
            if isinstance(c, OC):
                x = libfs.as_loaded(self, v)
                if x is not None:
                    return x
                raise Unsupported('objects in a symbolic comprehension')
        if isinstance(v, tuple):
            return tuple(self.comp_value(x) for x in v)
        return v


class PyObj:
    """a library object with concrete structure"""
    def __init__(self, kind, **attrs):
        self.kind, self.attrs = kind, attrs


UNKNOWN = Marker('UNKNOWN')


def qall(vs, body, pats):
    """quantify over constants vs"""
    ps = []
    for p in pats:
        if isinstance(p, z3.PatternRef):
            ps.append(p)
        elif contains_all(p, vs):
            ps.append(p)
    b = z3.substitute(body, *[(v, v) for v in vs])
    if ps:
        return z3.ForAll(vs, body, patterns=ps)
    return z3.ForAll(vs, body)


def contains_all(t, vs):
    ids = {v.get_id() for v in vs}
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        ids.discard(x.get_id())
        stack.extend(x.children())
    return not ids
