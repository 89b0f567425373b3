"""Calls: contracts, inlining, built-ins."""
import ast
import hashlib
from fractions import Fraction
import z3
from .vals import *
from .engine import *
from .exec import *
from .exec import _numeq, _mentions

IGNORED = {'print', 'sys.stdout.write', 'sys.stderr.write', 'warnings.warn'}
CLOSE_TOL = None


class ContractMismatch(Undecided):
    """The contract text no longer fits the source (renamed local etc.)."""


class Calls(Executor):
    spec_mode = False
    MAX_DEPTH = 12

    # ------------------------------------------------------------- calls
    def ev_Call(self, n, st):
        line = n.lineno if hasattr(n, 'lineno') else self.line
        if isinstance(n.func, ast.Name) and n.func.id not in st.env:
            f = n.func.id
            if self.spec_mode and f == 'implies' and len(n.args) == 2:
                def then(a, s):
                    a = self.truth(a, s.heap)
                    if a is False:
                        return [(True, s)]
                    return self.bind(self.ev(n.args[1], s), lambda b, s2: [
                        (Implies(a, self.truth(b, s2.heap)), s2)])
                return self.bind(self.ev(n.args[0], st), then)
            if self.spec_mode and f in ('forall', 'exists'):
                return [(self.spec_quant(n, st, f == 'forall'), st)]
            if self.spec_mode and f == 'adjacent':
                return [(self.spec_adjacent(n, st), st)]
            if self.spec_mode and f in ('every_text', 'every_number'):
                return [(self.spec_texts(n, st, f == 'every_text'), st)]
            if self.spec_mode and f == 'total':
                return [(self.spec_total(n, st), st)]
            b = self.glob(f, self.frames[-1].info.module)
            if isinstance(b, Builtin):
                if b.name in IGNORED:
                    return [(None, st)]
                if b.name in ('any', 'all') and len(n.args) == 1 and \
                        isinstance(n.args[0], ast.GeneratorExp):
                    return self.quantifier(n.args[0], st, b.name == 'all')
                if b.name in ('list', 'sum', 'max', 'min', 'sorted', 'tuple',
                              'set') and \
                        len(n.args) == 1 and \
                        isinstance(n.args[0], ast.GeneratorExp):
                    g = n.args[0]
                    lc = ast.ListComp(g.elt, g.generators)
                    ast.copy_location(lc, g)
                    args = [lc]
                    return self.do_call(n, st, args)
                if b.name == 'list' and len(n.args) == 1 and \
                        isinstance(n.args[0], ast.Call) and isinstance(
                            n.args[0].func, ast.Name) and \
                        n.args[0].func.id in ('range', 'zip', 'enumerate',
                                              'reversed'):
                    lc = ast.parse('[_x for _x in 0]', mode='eval').body
                    lc.generators[0].iter = n.args[0]
                    ast.copy_location(lc, n)
                    return self.ev(lc, st)
                if b.name == 'isinstance':
                    return self.bind(self.ev(n.args[0], st), lambda v, s: [
                        (self.isinst(v, n.args[1]), s)])
                if b.name == 'super':
                    raise Undecided('super')
        elif isinstance(n.func, ast.Attribute):
            t = ast.unparse(n.func)
            if t in IGNORED:
                return [(None, st)]
        self.line = line
        return self.do_call(n, st, n.args)

    def do_call(self, n, st, args):
        if any(isinstance(a, ast.Starred) for a in args) or \
                any(k.arg is None for k in n.keywords):
            raise Undecided('starred call')
        nodes = list(args) + [k.value for k in n.keywords]
        names = [k.arg for k in n.keywords]

        def go(f, s):
            def go2(vs, s2):
                pos = vs[:len(args)]
                kw = dict(zip(names, vs[len(args):]))
                self.line = n.lineno if hasattr(n, 'lineno') else self.line
                return self.apply(f, pos, kw, s2)
            return self.bind(self.evs(nodes, s), go2)
        return self.bind(self.ev(n.func, st), go)

    def isinst(self, v, tn):
        t = ast.unparse(tn)
        if isinstance(v, Obj):
            return t.split('.')[-1] == v.cls or \
                self.subclass(v.cls, t.split('.')[-1])
        if t in ('str', 'basestring', 'native_str'):
            return isinstance(v, (str, SymStr, Opaque))
        if t in ('int', 'float') and is_num(v):
            return is_int(v) == (t == 'int')
        raise Undecided('isinstance')

    def apply(self, f, pos, kw, s):
        if isinstance(f, Fn):
            return self.call_fn(f, pos, kw, s)
        if isinstance(f, Cls):
            return self.construct(f.name, pos, kw, s)
        if isinstance(f, LambdaV):
            return self.call_lambda(f, pos, s)
        if isinstance(f, Builtin):
            return self.builtin(f, pos, kw, s)
        if isinstance(f, Opaque):
            return [(Opaque(), s)]
        raise Undecided('call of %r' % (f,))

    def call_lambda(self, f, pos, s):
        saved = s.env
        s.env = dict(f.env)
        for a, v in zip(f.node.args.args, pos):
            s.env[a.arg] = v
        out = []
        for v, s2 in self.ev(f.node.body, s):
            s2.env = dict(saved)
            out.append((v, s2))
        return out

    def bind_args(self, info, pos, kw):
        a = info.node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Undecided('variable arguments')
        names = [x.arg for x in a.args]
        if len(pos) > len(names):
            raise Undecided('too many arguments')
        env = dict(zip(names, pos))
        for k, v in kw.items():
            if k not in names or k in env:
                raise Undecided('keyword argument ' + k)
            env[k] = v
        ds = a.defaults
        for nm, d in zip(names[len(names) - len(ds):], ds):
            if nm not in env:
                env[nm] = self.const_expr(d, info.module, info.cls)
        for nm in names:
            if nm not in env:
                raise Undecided('missing argument ' + nm)
        return env

    def call_fn(self, fn, pos, kw, s):
        info = fn.info
        if fn.recv is not None:
            pos = [fn.recv] + list(pos)
        env = self.bind_args(info, pos, kw)
        con = self.specs.contracts.get(info.qual)
        if isinstance(fn.recv, Obj):
            # an inherited method may have its own contract
            con = self.specs.contracts.get('%s.%s' % (
                fn.recv.cls, info.qual.split('.')[1]), con)
        root = self.root_contract
        if con is not None and not con.inline_always and not (
                root is not None and info.qual in root.inline) and not (
                self.spec_mode) and not self.force_inline(info):
            return self.call_contract(con, info, env, s)
        return self.inline(info, env, s)

    def force_inline(self, info):
        return self.bounded and info.qual not in self.bounded_contracts

    bounded_contracts = ()

    def inline(self, info, env, s, want=None):
        if self.depth > self.MAX_DEPTH or \
                sum(1 for f in self.frames if f.info is info) > 1:
            raise Undecided('recursion or call depth at ' + info.qual)
        self.inlined.add(info.qual)
        caller = s.env
        s.env = env
        con = self.specs.contracts.get(info.qual)
        fr = Frame(info, con)
        fr.args0, fr.heap0 = dict(env), dict(s.heap)
        self.frames.append(fr)
        self.depth += 1
        old_pending, self.pending = self.pending, []
        line = self.line
        try:
            outs = self.exec_block(body_of(info.node), s)
        finally:
            self.frames.pop()
            self.depth -= 1
            pend, self.pending = self.pending, old_pending
        self.line = line
        res = []
        for kind, s2, v in outs + pend:
            if kind == 'x':
                s2.env = dict(caller)
                self.pending.append(('x', s2, v))
            elif kind == 'r':
                s2.env = dict(caller)
                res.append((v, s2))
            elif kind == 'n':
                s2.env = dict(caller)
                res.append((None, s2))
        if not res:
            raise PathDead()
        if len(res) > 1 and self.merging():
            res = self.merge_values(res)
        return res

    def construct(self, name, pos, kw, s):
        c = self.prog.classes[name]
        if self.is_exc(name):
            return [(Opaque(), s)]
        if self.spec_mode:
            raise Undecided('construction in a contract')
        o = Obj(name, self.new_ref(s))
        f = self.prog.method(name, '__init__')
        if f is None:
            return [(o, s)]
        return [(o, s2) for _, s2 in self.call_fn(Fn(f, o), pos, kw, s)]

    def is_exc(self, name):
        c = self.prog.classes.get(name)
        while c is not None:
            b = c.bases[0].split('.')[-1] if c.bases else None
            if b in ('Exception', 'ValueError', 'RuntimeError'):
                return True
            c = self.prog.classes.get(b)
        return False

    # ------------------------------------------------------------- contracts
    def coerce(self, t, v, s, what):
        """Check an actual against a declared type."""
        if t in (None, 'any', 'opaque'):
            return v
        if t.startswith('opt:'):
            if v is None or isinstance(v, Opt):
                return v
            return self.coerce(t[4:], v, s, what)
        if isinstance(v, Opt):
            self.oblige(s, 'precondition', '%s is not None' % what,
                        Not(v.none))
            v = v.val
        if t == 'real':
            v = self.as_num(v, s)
            return v
        if t == 'int':
            if is_bool(v):
                v = self.as_num(v, s)
            if is_int(v):
                return v
            raise Undecided('%s: int expected, got %r' % (what, v))
        if t == 'bool':
            if is_bool(v):
                return v
            return self.truth(v, s.heap)
        if t == 'str':
            if isinstance(v, (str, SymStr)):
                return v
            if isinstance(v, Opaque):
                return SymStr(self.fresh('s', I))
            raise Undecided('%s: str expected' % what)
        if t.startswith('list:'):
            if isinstance(v, Lst):
                if v.elem in (None, '?'):
                    v.elem = t[5:]
                if data_key(v.elem) != data_key(t[5:]):
                    raise Undecided('%s: %s expected, got list:%s' % (
                        what, t, v.elem))
                return v
            if isinstance(v, tuple):
                return self.mk_list([self.coerce(t[5:], x, s, what)
                                     for x in v], s)
            raise Undecided('%s: list expected, got %r' % (what, v))
        if isinstance(v, Obj) and (v.cls == t or self.subclass(v.cls, t)):
            return v
        raise Undecided('%s: %s expected, got %r' % (what, t, v))

    def fresh_value(self, t, name, st, pre=False):
        """An arbitrary value of a type.  pre: part of the initial heap."""
        if t in (None, 'any', 'opaque'):
            return Opaque()
        if t == 'none':
            return None
        if t.startswith('opt:'):
            return Opt(self.fresh(name + '_none', B),
                       self.fresh_value(t[4:], name, st, pre))
        if t.startswith('tuple:'):
            return tuple(self.fresh_value(x, '%s_%d' % (name, i), st, pre)
                         for i, x in enumerate(t[6:].split(',')))
        c = self.fresh(name, sort_of(t))
        if t in ('real', 'int', 'bool'):
            return c
        if t == 'str':
            return SymStr(c)
        if pre:
            st.pc.append(c < 0)
            self.premade.add(c.get_id())
            self.keep.append(c)
        else:
            st.pc.append(c < zi(st.alloc))
        return self.wrap(t, c)

    keep = []

    def call_contract(self, con, info, env, s):
        self.used_contracts.add(con.name)
        env = dict(env)
        for a, t in con.args.items():
            if a not in env:
                raise ContractMismatch('%s has no argument %s' % (
                    info.qual, a))
            env[a] = self.coerce(t, env[a], s, '%s of %s' % (a, info.qual))
        env['old'] = OldNS(dict(env), dict(s.heap))
        if con.cases:
            self.check_cases(con, env, s)
        for nm, fn in con.requires if self.collect else ():
            if nm in con.private:
                continue
            self.oblige(s, 'precondition', '%s: %s' % (info.qual, nm),
                        self.sev(fn, env, s, con))
        for exc, fn in con.raises.items():
            c = self.sev(fn, env, s, con)
            self.raise_fork(s, exc, c, info.qual)
        for exc, fn in con.may_raise.items():
            c = self.sev(fn, env, s, con)
            c = simp_bool(And(c, self.fresh('raises', B)))
            self.raise_fork(s, exc, c, info.qual)
        # effects
        heap0 = dict(s.heap)
        alloc0 = s.alloc
        if con.allocates:
            a = self.fresh('alloc', I)
            s.pc.append(a >= zi(s.alloc))
            s.alloc = a
        for loc in con.modifies:
            self.havoc_loc(loc, env, s, heap0)
        res = None
        if con.result is not None:
            if con.fresh:
                res = self.fresh_value(con.result, 'res', s)
                if isinstance(res, (Obj, Lst)):
                    s.pc.append(zi(res.ref) >= zi(alloc0))
                    self.postmade.add(res.ref.get_id())
                    self.keep.append(res.ref)
                elif isinstance(res, Opt) and isinstance(res.val, (Obj, Lst)):
                    s.pc.append(zi(res.val.ref) >= zi(alloc0))
            else:
                res = self.fresh_value(con.result, 'res', s)
                if not con.allocates and isinstance(res, (Obj, Lst)) and \
                        not isz(alloc0) and alloc0 == 0:
                    self.premade.add(res.ref.get_id())
                    self.keep.append(res.ref)
        env['result'] = res
        env['old'] = OldNS(env['old'].args, heap0)
        env['_alloc0'] = alloc0
        # (the dry runs of loops only collect what is written)
        for nm, fn in con.ensures if self.collect else ():
            if nm in con.private:
                continue
            s.assume(self.sev(fn, env, s, con))
        for nm, fn in con.assumes if self.collect else ():
            self.assumed.add('%s: %s' % (info.qual, (
                ast.get_docstring(fn) or nm).replace('\n', ' ')))
            s.assume(self.sev(fn, env, s, con))
        if s.pc and z3.is_false(s.pc[-1]):
            raise PathDead()
        return [(res, s)]

    def raise_fork(self, s, exc, c, qual):
        c = simp_bool(c) if isz(c) else c
        if c is False:
            return
        self.may_raise(s, exc, c, '%s does not raise %s' % (qual, exc))

    def check_cases(self, con, env, s):
        """The arguments are among the values the contract is verified for
        (cases are part of the precondition)."""
        alts = []
        for case in con.cases:
            g = True
            for k, v in case.items():
                w = env.get(k)
                if isz(w):
                    g = And(g, w == v)
                elif isinstance(w, SymStr):
                    g = And(g, self.equals(w, v))
                elif not (isinstance(w, type(v)) and w == v):
                    g = False
            if g is True:
                return
            alts.append(g)
        g = Or(*alts)
        if g is False:
            raise Undecided('arguments of %s match no verified case'
                            % con.target)
        self.oblige(s, 'precondition', '%s: a verified case' % con.target, g)

    def loc_keys(self, loc, env, st, heap):
        """A location of a modifies clause -> list of (key, ref or None)."""
        # 'self.f'  'self.f[]'  'self.*'  'Class.f'  'x[]'
        if loc == 'files':
            return [(('written',), None, I)]
        lst = loc.endswith('[]')
        if lst:
            loc = loc[:-2]
        parts = loc.split('.')
        if parts[0] in self.prog.classes and parts[0] not in env:
            fs = self.field_types.get(parts[0], {}) if parts[1] == '*' else {
                parts[1]: self.ftype(parts[0], parts[1])[0]}
            return [(k, None, so) for f, t in fs.items()
                    for k, so in self.field_keys(parts[0], f, t)]
        v = env[parts[0]]
        for i, p in enumerate(parts[1:]):
            last = i == len(parts) - 2
            if last and not lst:
                if p == '*':
                    out = []
                    for f, t in self.field_types.get(v.cls, {}).items():
                        out += [(k, v.ref, so) for k, so in self.field_keys(
                            v.cls, f, t)]
                    return out
                t, c = self.ftype(v.cls, p)
                return [(k, v.ref, so)
                        for k, so in self.field_keys(c, p, t)]
            v = self.read_field(Obj(v.cls, v.ref), p, heap)
            if isinstance(v, Opt):
                v = v.val
        if not lst or not isinstance(v, Lst):
            raise Undecided('modifies ' + loc)
        return [(('len',), v.ref, I),
                ((data_key(v.elem),), v.ref, sort_of(v.elem))]

    def field_keys(self, c, f, t):
        if t == 'opaque':
            return []
        if t.startswith('opt:'):
            return [((c, f), sort_of(t[4:])), ((c, f, 'none'), B)]
        return [((c, f), sort_of(t))]

    def key_sort(self, key):
        if key[0] in ('len', 'written'):
            return I
        if key[0].startswith('data:'):
            return {'R': R, 'B': B}.get(key[0][5:], I)
        if len(key) == 3:
            return B
        t, c = self.ftype(key[0], key[1])
        if t.startswith('opt:'):
            t = t[4:]
        return sort_of(t)

    def havoc_loc(self, loc, env, s, heap0):
        for key, ref, so in self.loc_keys(loc, env, s, heap0):
            self.havoc_key(s, key, ref, so)

    def havoc_key(self, s, key, ref, so=None):
        so = self.key_sort(key)
        m = self.hmap(s.heap, key, so)
        if ref is None:
            m2 = self.fresh('H', m.sort())
            s.heap[key] = m2
            self.wf_map(s, key, m2)
            if self.writes is not None:
                self.writes.append((key, None, so))
            return
        v = self.fresh('hv', m.range())
        s.heap[key] = z3.Store(m, zi(ref), v)
        self.wf_entry(s, key, v)
        if self.writes is not None:
            self.writes.append((key, zi(ref), so))

    def is_refkey(self, key):
        if key[0] == 'data:ref':
            return True
        if key[0] in ('len', 'written') or key[0].startswith('data:') or \
                len(key) == 3:
            return key[0] == 'written'
        t, c = self.ftype(key[0], key[1])
        if t is None:
            return False
        if t.startswith('opt:'):
            t = t[4:]
        return t not in ('real', 'int', 'bool', 'str', 'opaque')

    def wf_entry(self, s, key, v):
        if key[0] == 'len':
            s.pc.append(v >= 0)
        elif key[0] == 'data:ref':
            j = z3.Int('j!wf')
            s.pc.append(z3.ForAll([j], z3.Select(v, j) < zi(s.alloc),
                                  patterns=[z3.Select(v, j)]))
        elif self.is_refkey(key):
            s.pc.append(v < zi(s.alloc))

    def wf_map(self, s, key, m):
        o, j = z3.Ints('o!wf j!wf')
        if key[0] == 'len':
            s.pc.append(z3.ForAll([o], z3.Select(m, o) >= 0,
                                  patterns=[z3.Select(m, o)]))
        elif key[0] == 'data:ref':
            t = z3.Select(z3.Select(m, o), j)
            s.pc.append(z3.ForAll([o, j], t < zi(s.alloc), patterns=[t]))
        elif self.is_refkey(key):
            t = z3.Select(m, o)
            s.pc.append(z3.ForAll([o], t < zi(s.alloc), patterns=[t]))

    # ------------------------------------------------------- spec evaluation
    def sev(self, fn, env, st, con):
        """Evaluate the contract function fn (ast.FunctionDef) to a formula."""
        names = [a.arg for a in fn.args.args]
        e = {}
        for nm in names:
            if nm not in env and nm in self.ghosts:
                e[nm] = self.ghosts[nm]
                continue
            if nm not in env:
                raise ContractMismatch('contract refers to unknown %s' % nm)
            v = env[nm]
            if isinstance(v, MaybeUndef):
                if v.cond is False:
                    raise ContractMismatch('%s is undefined' % nm)
                v = v.val
            e[nm] = v
        for h in ('_alloc0',):
            if h in env:
                e[h] = env[h]
        v = self.spec_body(fn.body, e, st, con)
        return self.truth(v, st.heap)

    def sev_val(self, fn, env, st, con):
        e = {a.arg: env[a.arg] for a in fn.args.args}
        return self.spec_body(fn.body, e, st, con)

    def spec_body(self, body, env, st, con):
        old_mode, self.spec_mode = self.spec_mode, True
        sub = State()
        sub.env, sub.heap, sub.alloc = env, dict(st.heap), st.alloc
        sub.pc = []
        fr = Frame(con.pseudo)
        self.frames.append(fr)
        facts0 = self.spec_facts
        self.spec_facts = []
        try:
            v = None
            for stmt in body:
                if isinstance(stmt, ast.Expr) and isinstance(
                        stmt.value, ast.Constant):
                    continue
                if isinstance(stmt, ast.Assign):
                    self.assign(stmt.targets[0], self.sp(stmt.value, sub),
                                sub)
                elif isinstance(stmt, ast.Return):
                    v = self.sp(stmt.value, sub)
                    break
                else:
                    raise Undecided('statement in contract')
            # new facts about mathematical functions hold in any state
            if old_mode and self.bound:
                # (a quantifier drops the path condition of its body)
                facts0 = facts0 + self.spec_facts
            else:
                st.pc.extend(self.spec_facts)
            st.pc.extend(sub.pc)
            # maps first touched in the contract are the initial maps
            return v
        finally:
            self.spec_facts = facts0
            self.frames.pop()
            self.spec_mode = old_mode

    def sp(self, node, st):
        res = self.ev(node, st)
        if len(res) != 1:
            raise Undecided('forking contract expression')
        return res[0][0]

    def spec_quant(self, n, st, is_all):
        lo, hi = self.sp(n.args[0], st), self.sp(n.args[1], st)
        lam = n.args[2]
        nm = lam.args.args[0].arg
        if not isz(lo) and not isz(hi) and hi - lo <= 12:
            fs = []
            for i in range(lo, hi):
                st.env[nm] = i
                fs.append(self.truth(self.sp(lam.body, st), st.heap))
            st.env.pop(nm, None)
            return And(*fs) if is_all else Or(*fs)
        if self.bounded and not isz(lo):
            fs = []
            for i in range(lo, lo + self.bounded + 1):
                st.env[nm] = i
                b = self.truth(self.sp(lam.body, st), st.heap)
                r = self.num_cmp('<', i, hi)
                fs.append(Implies(r, b) if is_all else And(r, b))
            st.env.pop(nm, None)
            return And(*fs) if is_all else Or(*fs)
        k = z3.Int('%s!q%d' % (nm, next(self.counter)))
        st.env[nm] = k
        self.bound.append(k)
        try:
            n0 = len(st.pc)
            b = self.truth(self.sp(lam.body, st), st.heap)
            del st.pc[n0:]
        finally:
            self.bound.pop()
            st.env.pop(nm, None)
        rng = z3.And(zi(lo) <= k, k < zi(hi))
        if is_all:
            return z3.ForAll([k], z3.Implies(rng, zb(b)))
        return z3.Exists([k], z3.And(rng, zb(b)))

    def spec_texts(self, n, st, text=True):
        """For every text or number."""
        lam = n.args[0]
        nm = lam.args.args[0].arg
        k = z3.Const('%s!t%d' % (nm, next(self.counter)), I if text else R)
        was = st.env.get(nm)
        st.env[nm] = SymStr(k) if text else k
        self.bound.append(k)
        try:
            n0 = len(st.pc)
            b = self.truth(self.sp(lam.body, st), st.heap)
            del st.pc[n0:]
        finally:
            self.bound.pop()
            st.env.pop(nm, None)
            if was is not None:
                st.env[nm] = was
        return z3.ForAll([k], zb(b))

    def spec_adjacent(self, n, st):
        """Neighbouring indices i, j = i + 1 as two quantified variables, so
        that instantiation does not produce ever new indices."""
        lo, hi = self.sp(n.args[0], st), self.sp(n.args[1], st)
        lam = n.args[2]
        nms = [a.arg for a in lam.args.args]
        if not isz(lo) and not isz(hi) and hi - lo <= 12:
            fs = []
            for i in range(lo, hi - 1):
                st.env[nms[0]], st.env[nms[1]] = i, i + 1
                fs.append(self.truth(self.sp(lam.body, st), st.heap))
            for nm in nms:
                st.env.pop(nm, None)
            return And(*fs)
        ks = [z3.Int('%s!q%d' % (nm, next(self.counter))) for nm in nms]
        for nm, k in zip(nms, ks):
            st.env[nm] = k
            self.bound.append(k)
        try:
            n0 = len(st.pc)
            b = self.truth(self.sp(lam.body, st), st.heap)
            del st.pc[n0:]
        finally:
            for nm in nms:
                self.bound.pop()
                st.env.pop(nm, None)
        i, j = ks
        rng = z3.And(zi(lo) <= i, i + 1 <= j, j <= i + 1, j < zi(hi))
        return z3.ForAll([i, j], z3.Implies(rng, zb(b)))

    def spec_total(self, n, st):
        """Sum of an expression over a range of indices: a function named
        by the expression and applied to its free parts, with the recurrence
        at both ends, and equality of sums with equal terms."""
        lo, hi = zi(self.sp(n.args[0], st)), zi(self.sp(n.args[1], st))
        lam = n.args[2]
        nm = lam.args.args[0].arg
        k = z3.Int('k!total')
        if any(b.eq(k) for b in self.bound):
            raise Undecided('nested total')
        st.env[nm] = k
        self.bound.append(k)
        try:
            n0 = len(st.pc)
            b = zr(self.as_num(self.sp(lam.body, st), st))
            del st.pc[n0:]
        finally:
            self.bound.pop()
            st.env.pop(nm, None)
        frees = []

        def strip(e):
            if not _mentions(e, k):
                if z3.is_rational_value(e) or z3.is_int_value(e):
                    return e
                for i, f in enumerate(frees):
                    if f.eq(e):
                        break
                else:
                    i = len(frees)
                    frees.append(e)
                return z3.Const('free!%d' % i, e.sort())
            if e.num_args() == 0:
                return e
            return e.decl()(*[strip(c) for c in e.children()])
        if not z3.is_app(b):
            raise Undecided('total of a quantified term')
        shape = strip(b).sexpr()
        name = 'total_' + hashlib.md5(shape.encode()).hexdigest()[:10]
        f = uf(name, *([x.sort() for x in frees] + [I, I, R]))

        def app(x, y):
            return f(*(frees + [x, y]))

        def at(i):
            return z3.substitute(b, (k, i))
        t = app(lo, hi)
        use = self.root_contract.sums
        facts = [z3.Implies(hi <= lo, t == 0),
                 z3.Implies(hi > lo,
                            t == app(lo, hi - 1) + at(hi - 1))]
        if 'first' in use:
            facts.append(z3.Implies(hi > lo, t == app(lo + 1, hi) + at(lo)))
        if 'sign' in use:
            facts.append(z3.Implies(z3.ForAll(
                [k], z3.Implies(z3.And(lo <= k, k < hi), b >= 0)), t >= 0))
        if not any(_mentions(t, x) for x in self.bound):
            for t2, b2, lo2, hi2 in self.totals[-12:]:
                if t2.eq(t) or not t.decl().eq(t2.decl()):
                    continue
                alike = all(
                    x.eq(y) for x, y in zip(t.children()[:-2],
                                            t2.children()[:-2]))
                if not alike:
                    facts.append(z3.Implies(z3.And(
                        lo == lo2, hi == hi2, z3.ForAll([k], z3.Implies(
                            z3.And(lo <= k, k < hi), b == b2))), t == t2))
                elif 'prefix' in use:
                    facts.append(z3.Implies(
                        z3.And(lo == lo2, lo <= hi2, hi2 <= hi),
                        t == t2 + app(hi2, hi)))
                    facts.append(z3.Implies(
                        z3.And(lo == lo2, lo <= hi, hi <= hi2),
                        t2 == t + app(hi, hi2)))
            if not any(t2.eq(t) for t2, _, _, _ in self.totals):
                self.totals.append((t, b, lo, hi))
            self.add_facts(facts)
        return t

    def spec_opaque(self, h, pos, s):
        pos = [v.val if isinstance(v, Opt) and isinstance(v.val, Obj)
               else v for v in pos]
        texts = [isinstance(v, (str, SymStr)) for v in pos]
        objs = [isinstance(v, Obj) for v in pos]
        if any(objs) and h.name in (self.root_contract.reveal or ()):
            raise Undecided('reveal of a function of objects')
        whole = [a.annotation is not None and ast.unparse(a.annotation)
                 == 'int' for a in h.node.args.args]
        args = [self.str_ref(v) if tx else zi(v.ref) if ob
                else zi(self.as_num(v, s)) if wh else zr(self.as_num(v, s))
                for v, tx, ob, wh in zip(pos, texts, objs, whole)]
        t = uf('opaque_' + h.name, *([a.sort() for a in args] + [
            B if h.hidden else R]))(*args)
        rev = self.root_contract.reveal or ()
        if h.name in rev or '~' + h.name in rev:
            if any(texts) or any(whole):
                self.spec_definition(h, args, texts, s)
                return t
            was, self.in_opaque = self.in_opaque, True
            v = self.spec_body(h.node.body, dict(zip(
                [a.arg for a in h.node.args.args],
                [SymStr(a) if tx else a for a, tx in zip(args, texts)])),
                s, h)
            self.in_opaque = was
            v = zb(self.truth(v, s.heap)) if h.hidden else zr(
                self.as_num(v, s))
            self.add_facts([t == v])
            if h.name not in rev:
                # '~name': left out of the first attempts
                self.soft.append(self.spec_facts[-1])
        return t

    def spec_definition(self, h, args, texts, s):
        """The definition of a function of texts and whole numbers, for all
        arguments."""
        if h.name in self.revealed:
            return
        self.revealed[h.name] = True
        vs = [z3.Const('%s!%s%d' % (a.arg, h.name, i), x.sort())
              for i, (a, x) in enumerate(zip(h.node.args.args, args))]
        t = uf('opaque_' + h.name, *([a.sort() for a in args] + [
            B if h.hidden else R]))(*vs)
        was, self.in_opaque = self.in_opaque, True
        bound, self.bound = self.bound, list(vs)
        try:
            v = self.spec_body(h.node.body, dict(zip(
                [a.arg for a in h.node.args.args],
                [SymStr(a) if tx else a for a, tx in zip(vs, texts)])), s, h)
        finally:
            self.in_opaque, self.bound = was, bound
        v = zb(self.truth(v, s.heap)) if h.hidden else zr(self.as_num(v, s))
        self.axioms.append(z3.ForAll(vs, t == v, patterns=[t]))

    def whole_facts(self, v):
        """Sums and differences of integers are integers (two of the three
        decide the third): hard for the solver when unbounded."""
        if any(v.eq(w) for w in self.wholes):
            return
        facts = []
        for w in self.wholes:
            for t in (v + w, v - w):
                t = z3.simplify(t)
                a, b, c = z3.IsInt(v), z3.IsInt(w), z3.IsInt(t)
                facts += [z3.Implies(z3.And(a, b), c),
                          z3.Implies(z3.And(a, c), b),
                          z3.Implies(z3.And(b, c), a)]
        self.wholes.append(v)
        self.keep.append(v)
        self.soft_axioms.extend(facts)

    def spec_builtin(self, name, pos, s):
        if name == 'is_whole':
            v = zr(self.as_num(pos[0], s))
            if not self.in_opaque and not any(
                    _mentions(v, b) for b in self.bound):
                self.whole_facts(v)
            return z3.IsInt(v)
        if name == 'consider':
            return True     # its definition is known from here on
        if name == 'line':
            return self.file_line(pos[0], self.as_num(pos[1], s))
        if name == 'line_count':
            return self.file_length(pos[0])
        if name == 'words_in':
            return self.words_of(pos[0])[0]
        if name == 'word':
            return SymStr(z3.Select(self.words_of(pos[0])[1],
                                    zi(self.as_num(pos[1], s))))
        if name == 'pickled':
            return Obj('TauModel', uf('pickled_in', I, I)(
                self.str_ref(pos[0])))
        if name == 'written_to':
            return Obj('TauModel', self.select(self.hmap(
                pos[1].heap if len(pos) > 1 else s.heap, ('written',), I),
                self.str_ref(pos[0])))
        if name == 'joined':
            return self.str_joined(pos[0], self.as_num(pos[1], s), s)
        if name == 'is_number':
            if isinstance(pos[0], str):
                try:
                    float(pos[0])
                    return True
                except ValueError:
                    return False
            return uf('str_isfloat', I, B)(self.str_ref(pos[0]))
        if name == 'implies':
            return Implies(self.truth(pos[0], s.heap),
                           self.truth(pos[1], s.heap))
        if name == 'iff':
            a, b = (self.truth(x, s.heap) for x in pos)
            return simp_bool(zb(a) == zb(b))
        if name == 'close':
            return self.num_cmp('==', self.as_num(pos[0], s),
                                self.as_num(pos[1], s))
        if name == 'unchanged':
            a, b = pos
            return And(self.num_cmp('==', self.llen(a, s.heap),
                                    self.llen(b, s.heap)), simp_bool(
                self.ldata(a, s.heap) == self.ldata(b, s.heap)))
        if name == 'same':
            return self.identical(pos[0], pos[1])
        if name == 'is_none':
            v = pos[0]
            return v.none if isinstance(v, Opt) else v is None
        if name == 'is_fresh':
            v = pos[0]
            if v is None:
                return False
            a0 = s.env.get('_alloc0', 0)
            if isinstance(v, Opt):
                return And(Not(v.none), self.num_cmp('>=', zi(v.val.ref),
                                                     a0))
            return self.num_cmp('>=', zi(v.ref), a0)
        if name == 'valid':
            v = pos[0]
            return True
        if name == 'unchanged':
            raise Undecided('unchanged')
        return NotImplemented

    # ------------------------------------------------------------- builtins
    def builtin(self, f, pos, kw, s):
        name = f.name
        if self.spec_mode and '.' not in name:
            r = self.spec_builtin(name, pos, s)
            if r is not NotImplemented:
                return [(r, s)]
            h = self.specs.helpers.get(name)
            if h is not None:
                return [(self.spec_helper(h, pos, s), s)]
        if f.recv is not None or name.startswith('.'):
            return self.method_builtin(name[1:], f.recv, pos, kw, s)
        base = name.split('.')[-1]
        mod = name.split('.')[0] if '.' in name else ''
        m = getattr(self, 'bi_' + base, None)
        if name.startswith('os.path.') and m is not None or name in (
                'pickle.load', 'pickle.dump', 'io.open', 'os.makedirs',
                'inspect.getfile', 'inspect.currentframe'):
            return m(pos, kw, s)
        if mod in ('', 'math', 'np', 'numpy', 'copy', 'itertools'):
            if base in MATH1 and len(pos) == 1:
                return self.mathcall(base, pos, s)
            if base in ('atan2', 'pow') and len(pos) == 2:
                return self.mathcall(base, pos, s)
            if m is not None:
                return m(pos, kw, s)
        raise Undecided('builtin ' + name)

    def spec_helper(self, h, pos, s):
        if h.opaque:
            return self.spec_opaque(h, pos, s)
        env = dict(zip([a.arg for a in h.node.args.args], pos))
        if '_alloc0' in s.env:
            env['_alloc0'] = s.env['_alloc0']
        return self.spec_body(h.node.body, env, s, h)

    def mathcall(self, name, pos, s):
        a = [self.as_num(v, s) for v in pos]
        if name == 'pow' and len(pos) == 2:
            if not isz(a[1]) and a[1] == 2:
                return [(self.arith('*', a[0], a[0]), s)]
            if not self.spec_mode:
                self.may_raise(s, 'OverflowError', self.fresh('ovf', B),
                               'pow does not overflow') if any(
                    'OverflowError' in hs for fr in self.frames
                    for hs in fr.handlers) else None
                self.assumed.add('math.pow does not overflow and its base '
                                 'is positive')
        dom = {'sqrt': lambda: self.num_cmp('<', a[0], 0),
               'log': lambda: self.num_cmp('<=', a[0], 0),
               'asin': lambda: Or(self.num_cmp('<', a[0], -1),
                                  self.num_cmp('>', a[0], 1)),
               'acos': lambda: Or(self.num_cmp('<', a[0], -1),
                                  self.num_cmp('>', a[0], 1))}
        if name in dom and not self.spec_mode:
            self.may_raise(s, 'ValueError', dom[name](),
                           'math.%s argument in domain' % name)
        if name == 'exp':
            self.assumed.add('math.exp does not overflow')
        facts = []
        r = self.mathfn(name, a, s, facts)
        if self.spec_mode:
            self.add_facts(facts)
        else:
            s.pc.extend(zb(f) for f in facts)
        return [(r, s)]

    def bi_len(self, pos, kw, s):
        v = pos[0]
        if isinstance(v, Opt):
            self.oblige(s, 'safety', 'len() of None', Not(v.none))
            v = v.val
        if v is None and self.spec_mode:
            return [(0, s)]
        if isinstance(v, (str, tuple)):
            return [(len(v), s)]
        if isinstance(v, Lst):
            return [(self.llen(v, s.heap), s)]
        if isinstance(v, SymStr):
            return [(self.str_length(v, s), s)]
        if isinstance(v, Obj):
            f = self.prog.method(v.cls, '__len__')
            if f:
                return self.call_fn(Fn(f, v), [], {}, s)
        raise Undecided('len')

    def bi_abs(self, pos, kw, s):
        v = self.as_num(pos[0], s)
        if not isz(v):
            return [(abs(v), s)]
        return [(z3.If(v >= 0, v, -v), s)]

    bi_fabs = bi_abs

    def minmax(self, pos, s, op):
        if len(pos) == 1 and isinstance(pos[0], Lst):
            l = pos[0]
            n = self.llen(l, s.heap)
            if not isz(n) and n <= 12:
                pos = [self.lget(l, i, s.heap) for i in range(n)]
                if not pos:
                    self.may_raise(s, 'ValueError', True, 'min/max of empty')
            else:
                if not self.spec_mode:
                    self.may_raise(s, 'ValueError',
                                   self.num_cmp('==', n, 0),
                                   'min/max of a non-empty list')
                if l.elem not in ('real', 'int'):
                    raise Undecided('min/max of objects')
                r = self.fresh('mm', sort_of(l.elem))
                w = self.fresh('w', I)
                j = z3.Int('mj!%d' % next(self.counter))
                d = self.ldata(l, s.heap)
                s.pc += [w >= 0, w < zi(n), r == self.select(d, w),
                         z3.ForAll([j], z3.Implies(
                             z3.And(j >= 0, j < zi(n)),
                             zb(self.num_cmp(op + '=', r,
                                             self.select(d, j)))))]
                return [(r, s)]
        vs = [self.as_num(v, s) for v in pos]
        acc = vs[0]
        for v in vs[1:]:
            c = self.num_cmp(op, v, acc)
            acc = self.ite(c, v, acc)
        return [(acc, s)]

    def extreme(self, pos, s):
        """min or max with a key: some element of the list (which one is
        left open)."""
        l = pos[0]
        if len(pos) > 1 or not isinstance(l, Lst) or self.spec_mode:
            raise Undecided('min/max with key')
        n = self.llen(l, s.heap)
        self.may_raise(s, 'ValueError', self.num_cmp('==', n, 0),
                       'min/max of a non-empty list')
        w = self.fresh('w', I)
        s.pc += [w >= 0, w < zi(n)]
        return [(self.lget(l, w, s.heap), s)]

    def bi_min(self, pos, kw, s):
        if kw:
            return self.extreme(pos, s)
        return self.minmax(pos, s, '<')

    def bi_max(self, pos, kw, s):
        if kw:
            return self.extreme(pos, s)
        return self.minmax(pos, s, '>')

    def bi_float(self, pos, kw, s):
        v = pos[0]
        if isinstance(v, str):
            try:
                return [(const_of(float(v)), s)]
            except ValueError:
                self.may_raise(s, 'ValueError', True, 'float(%r)' % v)
        if isinstance(v, (SymStr, Opaque)):
            r = self.str_ref(v)
            self.may_raise(s, 'ValueError', Not(uf('str_isfloat', I, B)(r)),
                           'text is a number')
            return [(uf('str_float', I, R)(r), s)]
        v = self.as_num(v, s)
        if isz(v):
            return [(zr(v), s)]
        return [(Fraction(v), s)]

    def bi_int(self, pos, kw, s):
        v = pos[0]
        if isinstance(v, str):
            try:
                return [(int(v), s)]
            except ValueError:
                self.may_raise(s, 'ValueError', True, 'int(%r)' % v)
        v = self.as_num(v, s)
        if is_int(v):
            return [(v, s)]
        if not isz(v):
            return [(int(v), s)]
        return [(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)), s)]

    def bi_round(self, pos, kw, s):
        v = self.as_num(pos[0], s)
        if len(pos) > 1 or kw:
            raise Undecided('round digits')
        if not isz(v):
            return [(round(v), s)]
        f = z3.ToInt(v)
        d = v - z3.ToReal(f)
        h = z3.Q(1, 2)
        return [(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(
            f % 2 == 0, f, f + 1))), s)]

    def bi_floor(self, pos, kw, s):
        v = self.as_num(pos[0], s)
        if not isz(v):
            import math
            return [(math.floor(v), s)]
        return [(v if is_int(v) else z3.ToInt(v), s)]

    def bi_ceil(self, pos, kw, s):
        v = self.as_num(pos[0], s)
        if not isz(v):
            import math
            return [(math.ceil(v), s)]
        return [(v if is_int(v) else -z3.ToInt(-v), s)]

    def bi_fmod(self, pos, kw, s):
        raise Undecided('fmod')

    def bi_radians(self, pos, kw, s):
        v = self.as_num(pos[0], s)
        return [(self.arith('/', self.arith('*', v, PI), 180), s)]

    def bi_degrees(self, pos, kw, s):
        v = self.as_num(pos[0], s)
        return [(self.arith('/', self.arith('*', v, 180), PI), s)]

    def bi_bool(self, pos, kw, s):
        return [(self.truth(pos[0], s.heap), s)]

    def bi_str(self, pos, kw, s):
        if isinstance(pos[0], (str, SymStr)):
            return [(pos[0], s)]
        return [(Opaque(), s)]

    def bi_repr(self, pos, kw, s):
        return [(Opaque(), s)]

    def bi_isnan(self, pos, kw, s):
        self.assumed.add('floats are real numbers: isnan/isinf is False')
        return [(False, s)]

    bi_isinf = bi_isnan

    def bi_divide(self, pos, kw, s):
        a, b = self.as_num(pos[0], s), self.as_num(pos[1], s)
        # numpy returns inf/nan with a warning; treated as an error here
        self.may_raise(s, 'ZeroDivisionError', self.num_cmp('==', b, 0),
                       'no division by zero (np.divide)')
        return [(self.arith('/', a, b), s)]

    def bi_list(self, pos, kw, s):
        if not pos:
            return [(self.new_list(s, '?', 0), s)]
        v = pos[0]
        if isinstance(v, Lst):
            n = self.llen(v, s.heap)
            if v.elem in (None, '?'):
                return [(self.new_list(s, v.elem, n), s)]
            return [(self.new_list(s, v.elem, n, self.ldata(v, s.heap)), s)]
        if isinstance(v, (tuple, str)):
            return [(self.mk_list(list(v), s), s)]
        if isinstance(v, SetV):
            return [(self.mk_list(list(v.items), s), s)]
        if isinstance(v, SetOf):
            return [(self.members_once(v.src, s, v.order), s)]
        raise Undecided('list()')

    def bi_set(self, pos, kw, s):
        if not pos:
            raise Undecided('set()')
        if isinstance(pos[0], Lst):
            # its members now: a copy, as the list may change later
            return [(SetOf(self.bi_list(pos, {}, s)[0][0]), s)]
        if isinstance(pos[0], (SetOf, SetV)):
            return [(pos[0], s)]
        raise Undecided('set()')

    def members_once(self, l, s, order):
        """The members of a list, each once: in the order of their first
        place in it, or in any order."""
        n = self.llen(l, s.heap)
        if l.elem in (None, '?'):
            return self.new_list(s, l.elem, n)
        if l.elem not in self.SCALARS:
            raise Undecided('set of ' + l.elem)
        d = self.ldata(l, s.heap)
        c = next(self.counter)
        pf = z3.Function('from!%d' % c, I, I)
        qf = z3.Function('into!%d' % c, I, I)
        m = self.fresh('distinct', I)
        r = self.new_list(s, l.elem, m, self.fresh('lst', d.sort()))
        rd = self.ldata(r, s.heap)
        j, k = z3.Ints('j!ds k!ds')
        s.pc += [m >= 0, m <= zi(n), (m == 0) == (zi(n) <= 0)]
        s.pc.append(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < m), z3.And(
                pf(j) >= 0, pf(j) < zi(n), qf(pf(j)) == j,
                z3.Select(rd, j) == self.select(d, pf(j)))),
            patterns=[z3.Select(rd, j)]))
        s.pc.append(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < zi(n)), z3.And(
                qf(j) >= 0, qf(j) < m,
                z3.Select(rd, qf(j)) == self.select(d, j))),
            patterns=[qf(j)] if z3.is_quantifier(d)
            else [self.select(d, j), qf(j)]))
        s.pc.append(z3.ForAll([j, k], z3.Implies(
            z3.And(j >= 0, j < k, k < m),
            z3.Select(rd, j) != z3.Select(rd, k)),
            patterns=[z3.MultiPattern(z3.Select(rd, j),
                                      z3.Select(rd, k))]))
        if order:
            s.pc.append(z3.ForAll([j, k], z3.Implies(
                z3.And(j >= 0, j < k, k < m), pf(j) < pf(k)),
                patterns=[z3.MultiPattern(pf(j), pf(k))]))
        return r

    def bi_tuple(self, pos, kw, s):
        v = pos[0]
        if isinstance(v, tuple):
            return [(v, s)]
        raise Undecided('tuple()')

    def bi_array(self, pos, kw, s):
        return self.bi_list(pos, kw, s)

    bi_asarray = bi_array

    def bi_sum(self, pos, kw, s):
        l = pos[0]
        if isinstance(l, Lst):
            n = self.llen(l, s.heap)
            if not isz(n) and n <= 12:
                acc = pos[1] if len(pos) > 1 else 0
                for i in range(n):
                    acc = self.arith('+', acc, self.as_num(
                        self.lget(l, i, s.heap), s))
                return [(acc, s)]
        raise Undecided('sum')

    def bi_deepcopy(self, pos, kw, s):
        v = pos[0]
        if is_num(v) or is_bool(v) or isinstance(v, (str, SymStr)) \
                or v is None:
            return [(v, s)]
        if isinstance(v, Lst):
            return [(self.copy_list(v, s), s)]
        if isinstance(v, Obj):
            return [(self.copy_obj(v, s, True), s)]
        raise Undecided('deepcopy')

    def bi_copy(self, pos, kw, s):
        v = pos[0]
        if isinstance(v, Lst):
            return self.bi_list(pos, kw, s)
        if isinstance(v, Obj):
            return [(self.copy_obj(v, s, False), s)]
        return [(v, s)]

    SCALARS = ('real', 'int', 'bool', 'str')

    def copy_list(self, v, s):
        n = self.llen(v, s.heap)
        if v.elem in self.SCALARS or v.elem in (None, '?'):
            return self.bi_list([v], {}, s)[0][0]
        if v.elem.startswith('list:'):
            if not isz(n) and n <= 4:
                return self.mk_list([self.copy_list(self.lget(
                    v, i, s.heap), s) for i in range(n)], s)
            raise Undecided('deepcopy of nested list')
        # list of objects with scalar fields
        fs = self.field_types.get(v.elem, {})
        for f, t in fs.items():
            t = t[4:] if t.startswith('opt:') else t
            if t not in self.SCALARS + ('opaque',):
                raise Undecided('deepcopy of ' + v.elem)
        self.assumed.add('deepcopy: list elements are not aliased')
        base = zi(s.alloc)
        d = self.ldata(v, s.heap)
        j, o = z3.Ints('j!dc o!dc')
        for f, t in fs.items():
            for key, so in self.field_keys(v.elem, f, t):
                m = self.hmap(s.heap, key, so)
                m2 = self.fresh('H', m.sort())
                s.pc.append(z3.ForAll([j], z3.Implies(
                    z3.And(j >= 0, j < zi(n)), z3.Select(m2, base + j) ==
                    self.select(m, self.select(d, j))),
                    patterns=[z3.Select(m2, base + j)]))
                s.pc.append(z3.ForAll([o], z3.Implies(
                    o < base, z3.Select(m2, o) == z3.Select(m, o)),
                    patterns=[z3.Select(m2, o)]))
                s.heap[key] = m2
                if self.writes is not None:
                    self.writes.append((key, base, so))
        s.alloc = simp_num(base + zi(n))
        return self.new_list(s, v.elem, n, self.lam(lambda j: base + j))

    def copy_obj(self, v, s, deep):
        o = Obj(v.cls, self.new_ref(s))
        for f, t in self.field_types.get(v.cls, {}).items():
            if t == 'opaque':
                continue
            x = self.read_field(v, f, s.heap)
            if deep:
                if isinstance(x, Lst):
                    x = self.copy_list(x, s)
                elif isinstance(x, Obj):
                    x = self.copy_obj(x, s, True)
            self.write_field(s, o, f, x)
        return o

    def bi_sorted(self, pos, kw, s):
        l = pos[0]
        if not isinstance(l, Lst):
            raise Undecided('sorted')
        key = kw.get('key')
        rev = kw.get('reverse', False)
        if rev not in (True, False):
            raise Undecided('sorted reverse')
        n = self.llen(l, s.heap)
        d = self.ldata(l, s.heap)
        pf = z3.Function('perm!%d' % next(self.counter), I, I)
        qf = z3.Function('perminv!%d' % next(self.counter), I, I)
        r = self.new_list(s, l.elem, n,
                          self.fresh('lst', d.sort()))
        rd = self.ldata(r, s.heap)
        j, k = z3.Ints('j!so k!so')

        def keyof(x):
            if key is None:
                return self.as_num(x, s)
            old, self.spec_mode = self.spec_mode, True
            try:
                res = self.apply(key, [x], {}, s)
            finally:
                self.spec_mode = old
            return self.as_num(res[0][0], s)
        rng = z3.And(j >= 0, j < zi(n))
        s.pc.append(z3.ForAll([j], z3.Implies(rng, z3.And(
            pf(j) >= 0, pf(j) < zi(n), qf(pf(j)) == j,
            z3.Select(rd, j) == self.select(d, pf(j)))),
            patterns=[z3.Select(rd, j)]))
        s.pc.append(z3.ForAll([j], z3.Implies(rng, z3.And(
            qf(j) >= 0, qf(j) < zi(n), pf(qf(j)) == j,
            z3.Select(rd, qf(j)) == self.select(d, j))),
            patterns=[qf(j)]))
        if not (z3.is_quantifier(d)):
            s.pc.append(z3.ForAll([j], z3.Implies(rng, qf(j) >= 0),
                                  patterns=[z3.Select(d, j)]))
        a = keyof(self.wrap(l.elem, z3.Select(rd, j)))
        b = keyof(self.wrap(l.elem, z3.Select(rd, k)))
        s.pc.append(z3.ForAll([j, k], z3.Implies(
            z3.And(rng, j <= k, k < zi(n)), zb(self.num_cmp(
                '>=' if rev else '<=', a, b))),
            patterns=[z3.MultiPattern(z3.Select(rd, j), z3.Select(rd, k))]))
        return [(r, s)]

    def bi_Decimal(self, pos, kw, s):
        return [(self.as_num(pos[0], s), s)]

    def bi_count(self, pos, kw, s):
        raise Undecided('count outside a for loop')

    # ------------------------------------------------------- methods
    def method_builtin(self, name, r, pos, kw, s):
        if isinstance(r, Opaque):
            return [(Opaque(), s)]
        if isinstance(r, Obj) and r.cls == 'File':
            return self.file_method(r, name, pos, kw, s)
        if name == 'partition' and isinstance(r, (str, SymStr)):
            return [(self.str_partition(r, pos[0]), s)]
        if name == 'split' and isinstance(r, SymStr):
            return [(self.str_split(r, pos, kw, s), s)]
        if isinstance(r, str):
            if name == 'format' or (name == 'join'):
                return [(Opaque(), s)]
            if name in ('endswith', 'startswith', 'lower', 'upper', 'strip',
                        'isdigit', 'rstrip', 'count', 'find', 'replace',
                        'isalpha', 'index') and \
                    all(isinstance(p, (str, tuple)) or (
                        is_int(p) and not isz(p)) for p in pos):
                try:
                    return [(getattr(r, name)(*pos), s)]
                except ValueError:
                    self.may_raise(s, 'ValueError', True, 'str.' + name)
        if isinstance(r, SymStr):
            if name in ('endswith', 'startswith'):
                return [(self.str_test(name, r, pos, s), s)]
            if name in ('lower', 'upper', 'strip', 'rstrip', 'lstrip') \
                    and not pos:
                return [(SymStr(uf('str_' + name, I, I)(r.ref)), s)]
            if name == 'isdigit':
                t = self.strpred('isdigit', r)
                self.str_facts(s, [z3.Implies(t, zi(self.str_length(
                    r, s)) >= 1)])
                return [(t, s)]
            if name == 'format':
                return [(Opaque(), s)]
        if isinstance(r, Lst):
            m = getattr(self, 'lm_' + name, None)
            if m is not None:
                return m(r, pos, kw, s)
        if is_num(r):
            if name in ('to_integral_value', 'to_integral'):
                return self.bi_round([r], {}, s)
            if name == 'quantize':
                raise Undecided('quantize')
        raise Undecided('method .%s of %r' % (name, r))

    def lm_append(self, l, pos, kw, s):
        n = self.llen(l, s.heap)
        v = pos[0]
        if isinstance(v, Opt):
            self.oblige(s, 'safety', 'appended value is not None',
                        Not(v.none))
            v = v.val
        self.list_store(s, l, n, v)
        self.set_len(s, l, self.arith('+', n, 1))
        return [(None, s)]

    def lm_extend(self, l, pos, kw, s):
        o = pos[0]
        if isinstance(o, tuple):
            o = self.mk_list(list(o), s)
        if not isinstance(o, Lst):
            raise Undecided('extend')
        if l.elem in (None, '?'):
            l.elem = o.elem
        if o.elem in (None, '?'):
            return [(None, s)]
        if l.elem == 'int' and o.elem == 'real':
            raise ElemMismatch(l)
        na, nb = self.llen(l, s.heap), self.llen(o, s.heap)
        if data_key(l.elem) != data_key(o.elem):
            raise Undecided('extend with other type')
        self.set_data(s, l, self.cat_data(l, o, na, nb, l.elem, s))
        self.set_len(s, l, self.arith('+', na, nb))
        return [(None, s)]

    def lm_insert(self, l, pos, kw, s):
        n = self.llen(l, s.heap)
        i = self.clamp(pos[0], n, s, 0)
        self.fix_elem(l, pos[1])
        d = self.ldata(l, s.heap)
        x = self.unwrap(l.elem, pos[1])
        if not isz(n) and not isz(i):
            nd = d
            for j in range(n, i, -1):
                nd = z3.Store(nd, j, self.select(d, j - 1))
            nd = z3.Store(nd, i, x)
        else:
            nd = self.lam(lambda j: z3.If(
                j < zi(i), self.select(d, j),
                z3.If(j == zi(i), x, self.select(d, j - 1))))
        self.set_data(s, l, nd)
        self.set_len(s, l, self.arith('+', n, 1))
        return [(None, s)]

    def lm_pop(self, l, pos, kw, s):
        n = self.llen(l, s.heap)
        i = pos[0] if pos else -1
        j0 = self.norm_index(i, n, s, 'pop index in range')
        v = self.lget(l, j0, s.heap)
        self.del_at(l, j0, n, s)
        return [(v, s)]

    def del_at(self, l, j0, n, s):
        d = self.ldata(l, s.heap)
        last = self.arith('-', n, 1)
        if not (not isz(j0) and not isz(last) and j0 == last) and not (
                isz(j0) and isz(last) and z3.simplify(j0 - last).eq(
                    z3.IntVal(0))):
            if not isz(n) and not isz(j0):
                nd = d
                for j in range(j0, n - 1):
                    nd = z3.Store(nd, j, self.select(d, j + 1))
            else:
                nd = self.lam(lambda j: z3.If(
                    j < zi(j0), self.select(d, j), self.select(d, j + 1)))
            self.set_data(s, l, nd)
        self.set_len(s, l, last)

    def lm_index(self, l, pos, kw, s):
        n = self.llen(l, s.heap)
        x = pos[0]
        if len(pos) > 1:
            raise Undecided('index with start')
        r = self.fresh('idx', I)
        j = z3.Int('ij!%d' % next(self.counter))
        found = self.contains(l, x, s)
        self.may_raise(s, 'ValueError', Not(found), 'value is in the list')
        s.pc += [r >= 0, r < zi(n),
                 zb(self.equals(self.lget(l, r, s.heap), x)),
                 z3.ForAll([j], z3.Implies(
                     z3.And(j >= 0, j < r),
                     zb(Not(self.equals(self.lget(l, j, s.heap), x)))))]
        return [(r, s)]

    def lm_copy(self, l, pos, kw, s):
        return self.bi_list([l], {}, s)

    def lm_reverse(self, l, pos, kw, s):
        n = self.llen(l, s.heap)
        d = self.ldata(l, s.heap)
        self.set_data(s, l, self.lam(lambda j: self.select(
            d, zi(n) - 1 - j)))
        return [(None, s)]

    def lm_sort(self, l, pos, kw, s):
        r = self.bi_sorted([l], kw, s)[0][0]
        self.set_data(s, l, self.ldata(r, s.heap))
        return [(None, s)]

    def lm_tolist(self, l, pos, kw, s):
        return self.bi_list([l], {}, s)


def body_of(node):
    b = node.body
    if b and isinstance(b[0], ast.Expr) and isinstance(
            b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        return b[1:]
    return b
