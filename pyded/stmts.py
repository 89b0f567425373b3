"""Statements and loops."""
import ast
import z3
from .vals import *
from .engine import *
from .exec import *
from .exec import _numeq, _mentions
from .calls import Calls, ContractMismatch, body_of


def assigned(nodes):
    """Names a loop body can assign."""
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
    for node in nodes:
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target)
    return out


class Stmts(Calls):
    MAX_OUT = 400

    def merging(self):
        for fr in reversed(self.frames):
            if fr.contract is not None:
                return fr.contract.merge
        return True

    # ------------------------------------------------------------ blocks
    def exec_block(self, stmts, st):
        live = [st]
        done = []
        for i, stmt in enumerate(stmts):
            nxt = []
            for s in live:
                for o in self.exec_stmt(stmt, s):
                    if o[0] == 'n':
                        nxt.append(o[1])
                    else:
                        done.append(o)
            if len(nxt) > 1 and self.merging():
                nxt = self.merge_states(nxt)
            live = nxt
            if not live:
                break
            if len(live) + len(done) > self.MAX_OUT:
                raise Undecided('too many paths')
        return [('n', s, None) for s in live] + done

    def exec_stmt(self, n, st):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Undecided('statement %s at line %s' % (type(n).__name__,
                                                         n.lineno))
        self.line = n.lineno
        old, self.pending = self.pending, []
        try:
            try:
                out = m(n, st)
            except PathDead:
                out = []
            out = out + self.pending
        finally:
            self.pending = old
        return out

    def merge_states(self, ss):
        acc = [ss[0]]
        for s in ss[1:]:
            for i, a in enumerate(acc):
                m = self.try_merge(a, s)
                if m is not None:
                    acc[i] = m
                    break
            else:
                acc.append(s)
        return acc

    def merge_values(self, res):
        acc = [res[0]]
        for v, s in res[1:]:
            for i, (v0, a) in enumerate(acc):
                m = self.try_merge(a, s, (v0, v))
                if m is not None:
                    acc[i] = (m.ret, m)
                    break
            else:
                acc.append((v, s))
        return acc

    def try_merge(self, a, b, vals=None):
        if not self.concrete_ok(a, b, vals):
            return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (
                a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])):
            n += 1
        ca = And(*a.pc[n:])
        cb = And(*b.pc[n:])
        ea, eb = a.pc[n:], b.pc[n:]
        # the branch condition: first differing conjuncts
        if not ea or not eb:
            return None
        c = self.branch_cond(ea, eb)
        if c is None:
            return None
        try:
            m = State()
            m.pc = list(a.pc[:n])
            m.steps = a.steps
            for f in ea:
                if not f.eq(c):
                    m.pc.append(zb(Implies(c, f)))
            nc = zb(Not(c))
            for f in eb:
                if not f.eq(nc):
                    m.pc.append(zb(Implies(nc, f)))
            m.alloc = a.alloc if _numeq(a.alloc, b.alloc) else z3.If(
                c, zi(a.alloc), zi(b.alloc))
            for k in set(a.heap) | set(b.heap):
                x = a.heap.get(k)
                y = b.heap.get(k)
                if x is None:
                    x = self.base_maps[k]
                if y is None:
                    y = self.base_maps[k]
                m.heap[k] = x if x is y or x.eq(y) else merge_maps(c, x, y)
            for k in list(a.env) + [k for k in b.env if k not in a.env]:
                if k in a.env and k in b.env:
                    m.env[k] = self.ite(c, a.env[k], b.env[k])
                elif k in a.env:
                    v = a.env[k]
                    vc = v.cond if isinstance(v, MaybeUndef) else True
                    vv = v.val if isinstance(v, MaybeUndef) else v
                    m.env[k] = MaybeUndef(And(c, vc), vv)
                else:
                    v = b.env[k]
                    vc = v.cond if isinstance(v, MaybeUndef) else True
                    vv = v.val if isinstance(v, MaybeUndef) else v
                    m.env[k] = MaybeUndef(And(Not(c), vc), vv)
            if vals is not None:
                m.ret = self.ite(c, vals[0], vals[1])
            return m
        except Undecided:
            return None

    def branch_cond(self, ea, eb):
        """A condition c with c in ea and not c in eb."""
        for f in ea[:1]:
            nf = zb(Not(f))
            for g in eb[:1]:
                if g.eq(nf) or f.eq(zb(Not(g))):
                    return f
        return None

    def concrete_ok(self, a, b, vals):
        """Do not merge paths that differ in a concrete string or flag."""
        def bad(x, y):
            return isinstance(x, str) and isinstance(y, str) and x != y
        if vals is not None and bad(*vals):
            return False
        for k, v in a.env.items():
            if k in b.env and bad(v, b.env[k]):
                return False
        return True

    # -------------------------------------------------------- statements
    def ex_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [('n', st, None)]
        return [('n', s, None) for _, s in self.ev(n.value, st)]

    def ex_Pass(self, n, st):
        return [('n', st, None)]

    ex_Import = ex_ImportFrom = ex_Global = ex_Pass

    def ex_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            for t in n.targets:
                self.assign(t, self.name_value(t, v, s), s)
            out.append(('n', s, None))
        return out

    def name_value(self, t, v, st):
        """A constant for the value of a local variable that the contract
        lists in `named`: keeps terms small."""
        if not isinstance(t, ast.Name) or len(self.frames) != 1 or \
                t.id not in self.root_contract.named or not isz(v) or \
                not is_num(v) or v.num_args() == 0:
            return v
        c = self.fresh(t.id, v.sort())
        st.pc.append(c == v)
        return c

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            return [('n', st, None)]
        return [(self.assign(n.target, v, s), ('n', s, None))[1]
                for v, s in self.ev(n.value, st)]

    def ex_AugAssign(self, n, st):
        load = ast.parse(ast.unparse(n.target), mode='eval').body
        for x in ast.walk(load):
            if hasattr(x, 'lineno'):
                x.lineno = n.lineno
        out = []
        for vs, s in self.evs([load, n.value], st):
            a, b = vs
            if isinstance(a, Lst) and isinstance(n.op, ast.Add):
                self.lm_extend(a, [b], {}, s)
                out.append(('n', s, None))
                continue
            for r, s2 in self.binop(type(n.op), a, b, s):
                self.assign(n.target, r, s2)
                out.append(('n', s2, None))
        return out

    def ex_Return(self, n, st):
        if n.value is None:
            return [('r', st, None)]
        return [('r', s, v) for v, s in self.ev(n.value, st)]

    def ex_Break(self, n, st):
        return [('b', st, None)]

    def ex_Continue(self, n, st):
        return [('c', st, None)]

    def ex_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and not isinstance(
                    t.slice, ast.Slice):
                (l, i), s = self.evs([t.value, t.slice], st)[0]
                nn = self.llen(l, st.heap)
                self.del_at(l, self.norm_index(i, nn, st), nn, st)
            elif isinstance(t, ast.Subscript) and t.slice.upper is None and \
                    t.slice.step is None and t.slice.lower is not None:
                (l, i), s = self.evs([t.value, t.slice.lower], st)[0]
                nn = self.llen(l, st.heap)
                self.set_len(st, l, self.clamp(i, nn, st, 0))
            else:
                raise Undecided('del')
        return [('n', st, None)]

    def ex_Assert(self, n, st):
        out = []
        for v, s in self.ev(n.test, st):
            c = self.truth(v, s.heap)
            self.may_raise(s, 'AssertionError', Not(c), 'assertion holds')
            out.append(('n', s, None))
        return out

    def ex_Raise(self, n, st):
        if n.exc is None:
            return [('x', st, self.frames[-1].current_exc)]
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        name = ast.unparse(e).split('.')[-1]
        return self.raised(st, name)

    def raised(self, st, name):
        caught = any(exc_matches(name, h) for fr in self.frames
                     for hs in fr.handlers for h in hs)
        con = self.root_contract
        if caught or con is None or name in con.raises or \
                name in con.may_raise:
            return [('x', st, name)]
        self.oblige(st, 'raise', 'does not raise %s' % name, False)
        return []

    def ex_If(self, n, st):
        out = []
        for v, s in self.ev(n.test, st):
            t = self.truth(v, s.heap)
            t = simp_bool(t) if isz(t) else t
            if isinstance(t, bool):
                out += self.exec_block(n.body if t else n.orelse, s)
                continue
            s1, s2 = s.copy(), s
            s1.pc.append(t)
            s2 = s.copy()
            s2.pc.append(zb(Not(t)))
            r = []
            for sx, blk in ((s1, n.body), (s2, n.orelse)):
                if not self.feasible(sx):
                    continue
                r.append(self.exec_block(blk, sx))
            norm = [[o for o in x if o[0] == 'n'] for x in r]
            if len(r) == 2 and len(norm[0]) == 1 and len(norm[1]) == 1 and \
                    self.merging():
                m = self.try_merge(norm[0][0][1], norm[1][0][1])
                if m is not None:
                    out.append(('n', m, None))
                    out += [o for x in r for o in x if o[0] != 'n']
                    continue
            for x in r:
                out += x
        return out

    def ex_With(self, n, st):
        for i in n.items:
            t = ast.unparse(i.context_expr)
            if t.startswith(('open(', 'io.open(')) and len(n.items) == 1:
                res = self.ev(i.context_expr, st)
                if len(res) != 1:
                    raise Undecided('with open')
                v, st = res[0]
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st)
                continue
            if not t.startswith(('np.errstate', 'numpy.errstate')):
                raise Undecided('with ' + t)
        return self.exec_block(n.body, st)

    def ex_Try(self, n, st):
        if n.finalbody:
            return self.ex_finally(n, st)
        names = []
        for h in n.handlers:
            names.append(self.handler_names(h))
        fr = self.frames[-1]
        fr.handlers.append([x for hs in names for x in hs])
        try:
            outs = self.exec_block(n.body, st)
        finally:
            fr.handlers.pop()
        res = []
        for kind, s, v in outs:
            if kind == 'n' and n.orelse:
                res += self.exec_block(n.orelse, s)
            elif kind == 'x':
                for h, hs in zip(n.handlers, names):
                    if any(exc_matches(v, x) for x in hs):
                        if h.name:
                            s.env[h.name] = Opaque()
                        old = getattr(fr, 'current_exc', None)
                        fr.current_exc = v
                        res += self.exec_block(h.body, s)
                        fr.current_exc = old
                        break
                else:
                    res += self.raised(s, v)
            else:
                res.append((kind, s, v))
        return res

    def ex_finally(self, n, st):
        """The last part is run however the rest ends."""
        body = ast.Try(body=n.body, handlers=n.handlers, orelse=n.orelse,
                       finalbody=[])
        ast.copy_location(body, n)
        outs = self.ex_Try(body, st) if n.handlers else \
            self.exec_block(n.body, st)
        res = []
        for kind, s, v in outs:
            for kind2, s2, v2 in self.exec_block(n.finalbody, s):
                res.append((kind, s2, v) if kind2 == 'n'
                           else (kind2, s2, v2))
        return res

    def handler_names(self, h):
        if h.type is None:
            return ['Exception']
        if isinstance(h.type, ast.Tuple):
            return [ast.unparse(x).split('.')[-1] for x in h.type.elts]
        return [ast.unparse(h.type).split('.')[-1]]

    # ------------------------------------------------------------ loops
    def ex_For(self, n, st):
        out = []
        for it, s in self.iters(n.iter, st):
            out += self.loop(n, s, it)
        return out

    def ex_While(self, n, st):
        return self.loop(n, st, None)

    def loop_no(self, n):
        info = self.frames[-1].info
        return info.loops.get(id(n))

    def loop(self, n, st, it):
        con = self.frames[-1].contract
        no = self.loop_no(n)
        has_inv = con is not None and no in con.loops
        if it is not None and it.n is not None and not isz(it.n) and \
                it.n <= 40 and not (has_inv and it.n > 8):
            return self.unroll(n, st, it, it.n, True)
        if self.bounded:
            return self.unroll(n, st, it, self.bounded + 1, False)
        if it is None and not has_inv:
            # a loop with a concrete number of iterations
            r = self.try_concrete_while(n, st)
            if r is not None:
                return r
        return self.loop_rule(n, st, it, con, no)

    def try_concrete_while(self, n, st):
        t = self.peek_test(n, st)
        if not isinstance(t, bool):
            return None
        if t is False:
            return self.exec_block(n.orelse, st)
        snap = st.copy()
        c0, obls, cnt = self.collect, len(self.obls), 0
        try:
            return self.unroll(n, st.copy(), None, 64, True)
        except (TooLong, Undecided):
            del self.obls[obls:]
            return None

    def peek_test(self, n, st):
        old, self.collect = self.collect, False
        p, self.pending = self.pending, []
        try:
            res = self.ev(n.test, st.copy())
            if len(res) != 1:
                return None
            t = self.truth(res[0][0], res[0][1].heap)
            return simp_bool(t) if isz(t) else t
        except (Undecided, PathDead):
            return None
        finally:
            self.collect, self.pending = old, p

    def unroll(self, n, st, it, limit, exact):
        live, done, out = [st], [], []
        k = 0
        while live:
            if k > limit or (k == limit and it is not None and exact):
                if exact and it is None:
                    raise TooLong('loop')
                if exact:
                    break
            nxt = []
            for s in live:
                if it is not None:
                    c = it.cond(k, s)
                    c = simp_bool(c) if isz(c) else c
                    if c is not True:
                        if c is False:
                            done.append(s)
                            continue
                        e = s.copy()
                        e.pc.append(zb(Not(c)))
                        if self.feasible(e):
                            done.append(e)
                        s.pc.append(c)
                        if not self.feasible(s):
                            continue
                    if k >= limit:
                        self.cut = True
                        continue
                    self.assign(n.target, it.item(k, s), s)
                    bodies = [s]
                else:
                    bodies = []
                    for v, s2 in self.ev(n.test, s):
                        t = self.truth(v, s2.heap)
                        t = simp_bool(t) if isz(t) else t
                        if t is False:
                            done.append(s2)
                        elif t is True:
                            bodies.append(s2)
                        else:
                            if exact:
                                raise TooLong('symbolic loop condition')
                            e = s2.copy()
                            e.pc.append(zb(Not(t)))
                            if self.feasible(e):
                                done.append(e)
                            s2.pc.append(t)
                            if self.feasible(s2):
                                bodies.append(s2)
                    if k >= limit:
                        self.cut = True
                        continue
                for b in bodies:
                    for o in self.exec_block(n.body, b):
                        if o[0] in ('n', 'c'):
                            nxt.append(o[1])
                        elif o[0] == 'b':
                            out.append(('n', o[1], None))
                        else:
                            out.append(o)
            if len(nxt) > 1 and self.merging():
                nxt = self.merge_states(nxt)
            if len(nxt) > self.MAX_OUT:
                raise Undecided('too many paths')
            if exact and it is None and (len(nxt) > 4 or len(out) > 24):
                raise TooLong('loop')
            live = nxt
            k += 1
        done += live
        for s in done:
            if n.orelse:
                out += self.exec_block(n.orelse, s)
            else:
                out.append(('n', s, None))
        return out

    # ----- the invariant rule
    def loop_rule(self, n, st, it, con, no):
        mods = assigned([ast.Module(n.body, [])])
        # a list that is only extended in place stays the same list
        plain = assigned([x for x in ast.walk(ast.Module(n.body, []))
                          if not isinstance(x, ast.AugAssign)
                          and isinstance(x, ast.stmt)
                          and not any(isinstance(y, ast.AugAssign)
                                      for y in ast.walk(x))])
        plain += assigned([ast.For(x.target, ast.Constant(0), [], [])
                           for x in ast.walk(ast.Module(n.body, []))
                           if isinstance(x, ast.For)])
        mods = [v for v in mods if v in plain or not (
            isinstance(st.env.get(v), Lst))]
        tnames = assigned([ast.For(n.target, ast.Constant(0), [], [])]) \
            if it is not None else []
        for t in tnames:
            if t not in mods:
                mods.append(t)
        L = _Loop(self, n, st, it, con, no, mods, tnames)
        return L.run()


class TooLong(Undecided):
    pass


def merge_maps(c, x, y):
    return z3.If(c, x, y)


class _Loop:
    """One application of the loop rule."""

    def __init__(self, E, n, st, it, con, no, mods, tnames):
        self.E, self.n, self.entry, self.it = E, n, st, it
        self.con, self.no = con, no
        self.mods, self.tnames = mods, tnames
        self.inv = con.loops.get(no) if con is not None else None
        self.dec = con.decreases.get(no) if con is not None else None
        self.types = {}
        self.frames = {}
        self.plan = {}          # key -> (refs or None, fresh_writes)
        self.closed = {}        # var -> z3 function k -> value at end of it.
        self.affine = {}
        self.lens = {}          # id -> (ref, c)
        self.search = None      # k -> formula
        self.allocs = False

    def dry(self, st, k, first):
        """Run the body once without recording obligations."""
        E = self.E
        old, E.collect = E.collect, False
        p, E.pending = E.pending, []
        w, E.writes = E.writes, []
        try:
            s = st.copy()
            outs = self.body(s, k)
            writes = E.writes
            return outs, writes
        finally:
            E.collect, E.pending, E.writes = old, p, w

    def body(self, s, k):
        """Condition + body at iteration k: outcomes incl. ('e', s) exits."""
        E, n = self.E, self.n
        res = []
        if self.it is not None:
            c = self.it.cond(k, s)
            c = simp_bool(c) if isz(c) else c
            if c is not True:
                s.pc.append(zb(c))
                if c is False:
                    return []
            E.assign(n.target, self.it.item(k, s), s)
            starts = [s]
        else:
            starts = []
            for v, s2 in E.ev(n.test, s):
                t = E.truth(v, s2.heap)
                t = simp_bool(t) if isz(t) else t
                if t is False:
                    continue
                if t is not True:
                    s2.pc.append(t)
                starts.append(s2)
        for b in starts:
            res += E.exec_block(n.body, b)
        return res + [o for o in E.pending]

    def vtype(self, v):
        E = self.E
        if isinstance(v, MaybeUndef):
            t = self.vtype(v.val)
            return t if t.startswith('undef:') else 'undef:' + t
        if v is None:
            return 'none'
        if isinstance(v, tuple):
            return 'tuple:' + ','.join(self.vtype(x) for x in v)
        if isinstance(v, Opaque):
            return 'opaque'
        if isinstance(v, (LambdaV, Fn, Cls, Builtin, Iter, SetV, Mod)):
            raise Undecided('loop variable of type %r' % (v,))
        return E.type_of(v)

    def jtype(self, a, b):
        if a == b:
            return a
        u = a.startswith('undef:') or b.startswith('undef:')
        if u:
            a = a[6:] if a.startswith('undef:') else a
            b = b[6:] if b.startswith('undef:') else b
            t = self.jtype(a, b)
            return t if t.startswith('undef:') else 'undef:' + t
        if a == 'undef' or b == 'undef':
            o = b if a == 'undef' else a
            return o if o.startswith('undef') else 'undef:' + o
        o = False
        if a == 'none' or b == 'none':
            x = b if a == 'none' else a
            return x if x.startswith('opt:') or x == 'none' else 'opt:' + x
        if a.startswith('opt:') or b.startswith('opt:'):
            a = a[4:] if a.startswith('opt:') else a
            b = b[4:] if b.startswith('opt:') else b
            return 'opt:' + self.jtype(a, b)
        if {a, b} == {'int', 'real'}:
            return 'real'
        if 'opaque' in (a, b):
            return 'opaque'
        if a.startswith('tuple:') and b.startswith('tuple:'):
            xs, ys = a[6:].split(','), b[6:].split(',')
            if len(xs) == len(ys):
                return 'tuple:' + ','.join(self.jtype(x, y)
                                           for x, y in zip(xs, ys))
        return self.E.join_type(a, b)

    def outs_types(self, outs):
        """Types at the loop head after one more iteration."""
        E = self.E
        ch = False
        for kind, s, _ in outs:
            if kind not in ('n', 'c'):
                continue
            for v in self.mods:
                t = self.vtype(s.env[v]) if v in s.env else 'undef'
                old = self.types.get(v)
                new = t if old is None else self.jtype(old, t)
                if new != old:
                    self.types[v] = new
                    ch = True
        return ch

    def note_writes(self, writes, mark):
        """Record which locations the body writes."""
        E = self.E
        ch = False
        created = E.created[mark:]
        for key, ref, sort in writes:
            cur = self.plan.setdefault(key, {'refs': [], 'all': False,
                                             'fresh': False, 'sort': sort})
            if cur['all']:
                continue
            if ref is None:
                cur['all'] = True
                ch = True
                continue
            r = z3.simplify(ref)
            # fresh in the loop?
            d = z3.simplify(r - zi(self.head_alloc))
            if z3.is_int_value(d) and d.as_long() >= 0:
                if not cur['fresh']:
                    cur['fresh'] = True
                    ch = True
                continue
            if any(_mentions(r, c) for c in created):
                if E.quick(self.head_state, r >= zi(self.head_alloc)) \
                        if False else False:
                    continue
                if self.fresh_by_state(r):
                    if not cur['fresh']:
                        cur['fresh'] = True
                        ch = True
                    continue
                cur['all'] = True
                ch = True
                continue
            if not any(r.eq(x) for x in cur['refs']):
                cur['refs'].append(r)
                ch = True
        return ch

    def fresh_by_state(self, r):
        """Is r provably allocated after the loop started, on all outcomes?"""
        E = self.E
        return all(E.quick(s, r >= zi(self.entry.alloc))
                   for _, s, _ in self.last_outs) if self.last_outs else False

    def head(self, k):
        """The arbitrary state at the head of iteration k."""
        E = self.E
        s = self.entry.copy()
        s.pc.append(k >= 0)
        if self.allocs:
            a = E.fresh('alloc', I)
            s.pc.append(a >= zi(s.alloc))
            s.alloc = a
        for key, p in self.plan.items():
            m = E.hmap(s.heap, key, p['sort'])
            if p['all']:
                m2 = E.fresh('H', m.sort())
                s.heap[key] = m2
                E.wf_map(s, key, m2)
                ok = self.frame_of(key)
                if ok is not None:
                    o = z3.Int('o!fr')
                    s.pc.append(z3.ForAll([o], z3.Implies(
                        z3.And(o < 0, *[o != r for r in ok]),
                        z3.Select(m2, o) == E.select(m, o)),
                        patterns=[z3.Select(m2, o)]))
                continue
            if p['fresh']:
                m2 = E.fresh('H', m.sort())
                o = z3.Int('o!fr')
                s.pc.append(z3.ForAll([o], z3.Implies(
                    z3.And(o < zi(self.entry.alloc),
                           *[o != r for r in p['refs']]),
                    z3.Select(m2, o) == E.select(m, o)),
                    patterns=[z3.Select(m2, o)]))
                s.heap[key] = m2
                E.wf_map(s, key, m2)
                for r in p['refs']:
                    pass
                continue
            for r in p['refs']:
                if key[0] == 'len' and r.get_id() in self.lens:
                    c, ent = self.lens[r.get_id()][1:]
                    v = zi(E.arith('+', ent, E.arith('*', c, k)))
                    m = z3.Store(m, r, v)
                else:
                    v = E.fresh('hv', m.range())
                    m = z3.Store(m, r, v)
                    E.wf_entry(s, key, v)
            s.heap[key] = m
        if self.it is not None and self.it.at_head is not None:
            self.it.at_head(k, s)
        self.heads = {}
        for v in self.mods:
            if v in self.closed:
                f = self.closed[v]
                at = f(simp_num(k - 1) if isz(k) else k - 1)
                if v in self.entry.env:
                    val = E.ite(simp_bool(k == 0), self.entry.env[v], at)
                else:
                    val = MaybeUndef(simp_bool(k > 0), at)
                s.env[v] = val
                continue
            if v in self.affine:
                s.env[v] = E.arith('+', self.entry.env[v],
                                   E.arith('*', self.affine[v], k))
                continue
            t = self.types.get(v)
            if t is None or t == 'undef':
                s.env.pop(v, None)
                continue
            und = t.startswith('undef:')
            if und:
                t = t[6:]
            val = E.fresh_value(t, v, s)
            self.heads[v] = val
            if und:
                val = MaybeUndef(simp_bool(k > 0) if v in self.always
                                 else E.fresh('def_' + v, B), val)
            s.env[v] = val
        self.head_alloc = s.alloc
        self.head_state = s
        return s

    def frame_of(self, key):
        """The references the contract lets change, for a location the loop
        writes through changing references (contracts with auto_frame)."""
        E = self.E
        con = E.root_contract
        if con is None or not getattr(con, 'auto_frame', False):
            return None
        fr = E.frames[0]
        if not hasattr(fr, 'args0'):
            return None
        if key not in self.frames:
            ok = []
            for loc in con.modifies:
                for k2, ref, so in E.loc_keys(loc, fr.args0, self.entry,
                                              fr.heap0):
                    if k2 == key:
                        ok.append(ref)
            self.frames[key] = None if any(r is None for r in ok) else \
                [zi(r) for r in ok]
        return self.frames[key]

    def check_frame(self, s):
        E = self.E
        if not E.collect:
            return
        for key, p in self.plan.items():
            ok = self.frame_of(key) if p['all'] else None
            if ok is None:
                continue
            m0 = E.hmap(self.entry.heap, key, p['sort'])
            m1 = E.hmap(s.heap, key, p['sort'])
            if m0.eq(m1):
                continue
            o = E.fresh('o', I)
            E.oblige(s.copy(), 'frame', 'loop %d: %s is left unchanged' % (
                self.no, '.'.join(key)), z3.Implies(
                    z3.And(o < 0, *[o != r for r in ok]),
                    E.select(m1, o) == E.select(m0, o)), self.n.lineno)

    def assume_inv(self, s, k):
        E = self.E
        if self.it is not None and self.it.n is not None:
            # k items have been taken, so k <= n, if n does not change
            s.pc.append(zb(E.num_cmp('<=', k, self.it.n)))
        if self.search is not None:
            j = z3.Int('sj!%d' % next(E.counter))
            s.pc.append(z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < k), self.search(j))))
            s.pc.append(zb(Or(k == 0, self.search(k - 1))))
        if self.inv is not None:
            for nm, fn in self.inv:
                s.assume(E.sev(fn, self.ienv(s, k), s, self.con))

    def ienv(self, s, k):
        env = dict(s.env)
        env['k'] = k
        fr = self.E.frames[-1]
        env['old'] = OldNS(fr.args0, fr.heap0) if hasattr(fr, 'args0') \
            else None
        env['pre'] = OldNS(dict(self.entry.env), dict(self.entry.heap))
        env['_alloc0'] = 0
        if self.it is not None and isinstance(self.it.src, Lst):
            env['seq'] = self.it.src
        return env

    def check_inv(self, s, k, what):
        E = self.E
        self.check_frame(s)
        if self.it is not None and self.it.check is not None:
            E.oblige(s, 'safety', 'the position in the file',
                     self.it.check(k, s), self.n.lineno)
        if self.inv is None or not E.collect:
            return
        known = []      # earlier clauses, if simple
        for nm, fn in self.inv:
            s2 = s.copy()
            g = E.sev(fn, self.ienv(s, k), s2, self.con)
            known += [f for f in s2.pc[len(s.pc):] if not has_quant(f)]
            s2.pc.extend(known)
            E.oblige(s2, 'invariant', 'loop %d %s: %s' % (self.no, what, nm),
                     g, self.n.lineno)
            if isz(g) and not has_quant(g):
                known.append(g)

    def run(self):
        E, n = self.E, self.n
        entry = self.entry
        self.always = set()
        self.last_outs = []
        self.head_alloc = entry.alloc
        self.head_state = entry
        for v in self.mods:
            self.types[v] = self.vtype(entry.env[v]) if v in entry.env \
                else 'undef'
        # round 0: types after the first iteration
        k0 = 0
        mark = len(E.created)
        try:
            outs, writes = self.dry(entry, k0, True)
        except PathDead:
            outs, writes = [], []
        except UndefRead:
            outs, writes = [], []
        self.last_outs = outs
        self.outs_types(outs)
        # further rounds until types and write set are stable
        k = E.fresh('k', I)
        for rnd in range(8):
            mark = len(E.created)
            h = self.head(k)
            self.assume_quiet(h, k)
            try:
                outs, writes = self.dry(h, k, False)
            except PathDead:
                outs, writes = [], []
            self.last_outs = outs
            ch = self.outs_types(outs)
            if self.note_writes(writes, mark):
                ch = True
            al = any(not _numeq(s.alloc, h.alloc) for _, s, _ in outs)
            if al and not self.allocs:
                self.allocs = True
                ch = True
            norm = [s for kd, s, _ in outs if kd in ('n', 'c')]
            al2 = set(v for v in self.mods
                      if norm and all(v in s.env and not isinstance(
                          s.env[v], MaybeUndef) for s in norm))
            if al2 != self.always:
                self.always = al2
                ch = True
            if not ch and self.find_closed(h, outs, k, mark):
                ch = True
            if not ch:
                break
        else:
            raise Undecided('loop types do not stabilise')
        if self.it is not None and self.it.n is not None and \
                self.src_written():
            self.it = Iter(self.it.cond, self.it.item, None, self.it.src)
        self.find_search(h, outs, k, mark)
        # 1. invariant holds at entry
        s0 = entry.copy()
        E_n = self.it.n if self.it is not None else None
        self.check_inv(s0, 0, 'entry')
        # 2. preserved
        k = E.fresh('k', I)
        h = self.head(k)
        self.assume_inv(h, k)
        d0 = None
        if self.dec is not None:
            d0 = E.as_num(E.sev_val(self.dec, self.ienv(h, k), h,
                                    self.con), h)
        p, E.pending = E.pending, []
        try:
            outs = self.body(h.copy(), k)
        except PathDead:
            outs = list(E.pending)
        E.pending = p
        res = []
        for kind, s, v in outs:
            if kind in ('n', 'c'):
                k1 = simp_num(k + 1)
                if d0 is not None:
                    d1 = E.as_num(E.sev_val(self.dec, self.ienv(s, k1), s,
                                            self.con), s)
                    E.oblige(s, 'termination', 'loop %d decreases' % self.no,
                             And(E.num_cmp('<', d1, d0),
                                 E.num_cmp('>=', d0, 0)), n.lineno)
                self.check_inv(s, k1, 'preserved')
            elif kind == 'b':
                res.append(('n', s, None))
            else:
                res.append((kind, s, v))
        # 3. exit
        k = E.fresh('k', I)
        x = self.head(k)
        self.assume_inv(x, k)
        exits = []
        if self.it is not None:
            c = self.it.cond(k, x)
            c = simp_bool(c) if isz(c) else c
            if c is not True:
                x.pc.append(zb(Not(c)))
                exits = [x]
        else:
            for v, s2 in E.ev(n.test, x):
                t = E.truth(v, s2.heap)
                t = simp_bool(t) if isz(t) else t
                if t is True:
                    continue
                if t is not False:
                    s2.pc.append(zb(Not(t)))
                exits.append(s2)
        for s in exits:
            if self.it is not None and isinstance(n.target, ast.Name):
                pass
            if n.orelse:
                res += E.exec_block(n.orelse, s)
            else:
                res.append(('n', s, None))
        # the writes of the loop, for enclosing loops and the frame check
        if E.writes is not None:
            for key, p in self.plan.items():
                if p['all']:
                    E.writes.append((key, None, p['sort']))
                else:
                    for r in p['refs']:
                        E.writes.append((key, r, p['sort']))
                    if p['fresh']:
                        E.writes.append((key, zi(self.entry.alloc),
                                         p['sort']))
        return res

    def assume_quiet(self, h, k):
        """Invariants for the dry runs (a user invariant may talk about a
        variable whose type is not known yet)."""
        if self.it is not None and self.it.n is not None:
            h.pc.append(zb(self.E.num_cmp('<=', k, self.it.n)))
        if self.inv is not None:
            for nm, fn in self.inv:
                try:
                    h.assume(self.E.sev(fn, self.ienv(h, k), h, self.con))
                except ContractMismatch:
                    pass

    def src_written(self):
        srcs = self.it.src if isinstance(self.it.src, list) else [self.it.src]
        p = self.plan.get(('len',))
        if p is None:
            return False
        for s in flatten(srcs):
            if isinstance(s, Lst):
                if p['all'] or any(not self.E.distinct(r, s.ref)
                                   for r in p['refs']):
                    return True
        return False

    def local_consts(self, mark, k):
        return [c for c in self.E.created[mark:] if not c.eq(k)]

    def mentions_any(self, t, consts):
        ids = set(c.get_id() for c in consts)
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids:
                return True
            if z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo.extend(x.children())
        return False

    def find_closed(self, h, outs, k, mark):
        """Closed forms: value after iteration k depends on k only."""
        E = self.E
        norm = [s for kd, s, _ in outs if kd in ('n', 'c')]
        if not norm:
            return False
        loc = self.local_consts(mark, k)
        found = False
        for v in self.mods:
            if v in self.closed or v in self.affine:
                continue
            vals = [s.env.get(v) for s in norm]
            if any(x is None or isinstance(x, (MaybeUndef, tuple, Opaque))
                   for x in vals):
                continue
            if not self.all_same(vals):
                continue
            x = vals[0]
            # affine
            hv = h.env.get(v)
            if is_int(x) and is_int(hv) and v in self.entry.env and \
                    is_int(self.entry.env[v]):
                d = simp_num(zi(x) - zi(hv))
                if not isz(d):
                    self.affine[v] = d
                    found = True
                    continue
            terms = self.terms(x)
            if terms is None:
                continue
            if any(self.mentions_any(t, loc) for t in terms):
                continue
            if self.reads_written(x):
                continue
            self.closed[v] = self.make_closed(x, k)
            found = True
        p = self.plan.get(('len',))
        if p is not None and not p['all'] and not p['fresh']:
            for r in p['refs']:
                if r.get_id() in self.lens:
                    continue
                m0 = h.heap.get(('len',))
                ds = []
                for s in norm:
                    d = simp_num(E.select(s.heap[('len',)], r) -
                                 E.select(m0, r))
                    ds.append(d)
                if all(not isz(d) for d in ds) and len(set(ds)) == 1:
                    ent = E.num_out(simp_num(E.select(E.hmap(
                        self.entry.heap, ('len',), I), r)))
                    self.lens[r.get_id()] = (r, ds[0], ent)
                    found = True
        return found

    def reads_written(self, x):
        return False

    def all_same(self, vals):
        x = vals[0]
        for y in vals[1:]:
            if x is y:
                continue
            if isinstance(x, (Obj, Lst)) and type(x) == type(y) and \
                    _numeq(x.ref, y.ref):
                continue
            if isz(x) and isz(y) and x.eq(y):
                continue
            if not isz(x) and not isz(y) and type(x) == type(y) and \
                    not isinstance(x, (Obj, Lst, SymStr, Opt)) and x == y:
                continue
            return False
        return True

    def terms(self, x):
        if isz(x):
            return [x]
        if isinstance(x, (Obj, Lst)):
            return [zi(x.ref)]
        if isinstance(x, SymStr):
            return [x.ref]
        if isinstance(x, (bool, int, str)) or is_num(x):
            return []
        if isinstance(x, Opt):
            t = self.terms(x.val)
            return None if t is None else t + [zb(x.none)]
        return None

    def make_closed(self, x, k):
        def sub(t, kk):
            return z3.substitute(t, (k, zi(kk)))

        def f(kk, x=x):
            if isz(x):
                return sub(x, kk)
            if isinstance(x, Obj):
                return Obj(x.cls, simp_num(sub(zi(x.ref), kk)), x.heap)
            if isinstance(x, Lst):
                return Lst(x.elem, simp_num(sub(zi(x.ref), kk)), x.heap,
                           x.site)
            if isinstance(x, SymStr):
                return SymStr(sub(x.ref, kk))
            if isinstance(x, Opt):
                return Opt(simp_bool(sub(zb(x.none), kk)), f(kk, x.val))
            return x
        return f

    def find_search(self, h, outs, k, mark):
        """What a normally completed iteration says about its item."""
        E = self.E
        norm = [s for kd, s, _ in outs if kd in ('n', 'c')]
        if len(norm) == 0 or len(norm) > 6:
            return
        loc = self.local_consts(mark, k)
        disj = []
        for s in norm:
            conj = []
            for f in s.pc[len(h.pc):]:
                if self.mentions_any(f, loc):
                    continue          # weaker, still sound
                conj.append(f)
            disj.append(And(*conj))
        d = Or(*disj)
        if d is True or (isz(d) and size_over(d, 4000)):
            return

        def search(j):
            return z3.substitute(zb(d), (k, j))
        self.search = search


def size_over(t, n):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > n:
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def flatten(x):
    if isinstance(x, list):
        for y in x:
            for z in flatten(y):
                yield z
    else:
        yield x
