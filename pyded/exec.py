"""Expressions, statements, calls and loops."""
import ast
from fractions import Fraction
from decimal import Decimal
import z3
from .vals import *
from .engine import *
from .strings import Strings
from .files import Files

MATH1 = ('sqrt', 'sin', 'cos', 'asin', 'acos', 'exp', 'log')
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
       ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
       ast.Eq: '==', ast.NotEq: '!='}


class PathDead(Exception):
    pass


import pyded.engine as _e
_e.PathDead = PathDead


def const_of(v):
    if isinstance(v, float):
        return Fraction(Decimal(repr(v)))
    return v


class Executor(Strings, Files, Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.frames, self.pending, self.line = [], [], 0
        self.real_sites = set()
        self.root_contract = None
        self.spec_facts = []
        self.bound = []
        self.axioms.append(z3.And(PI > z3.Q(314159265, 100000000),
                                  PI < z3.Q(314159266, 100000000)))

    # ------------------------------------------------------------- helpers
    def bind(self, pairs, fn):
        out, dead = [], False
        for v, s in pairs:
            try:
                out += fn(v, s)
            except PathDead:
                dead = True
        if not out:
            raise PathDead()
        return out

    def evs(self, nodes, st):
        """Evaluate nodes left to right: list of (values, state)."""
        res = [([], st)]
        for n in nodes:
            res = self.bind(res, lambda vs, s: [(vs + [v], s2)
                                                for v, s2 in self.ev(n, s)])
        return res

    spec_mode = False

    def quick(self, st, cond, ms=300):
        """Is cond certainly true here (best effort)?"""
        cond = simp_bool(cond) if isz(cond) else cond
        if isinstance(cond, bool):
            return cond
        if self.spec_mode:
            return False
        s = z3.Solver()
        s.set('timeout', ms)
        for c in st.pc:
            if not z3.is_quantifier(c):
                s.add(c)
        s.add(z3.Not(cond))
        if s.check() == z3.unsat:
            return True
        if self.bounded:
            return False
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*self.axioms)
        s.add(*st.pc)
        s.add(z3.Not(cond))
        return s.check() == z3.unsat

    def feasible(self, st, ms=150):
        s = z3.Solver()
        s.set('timeout', ms if self.collect else 25)
        for c in st.pc:
            if not z3.is_quantifier(c):
                s.add(c)
        return s.check() != z3.unsat

    def flush_facts(self, st):
        if self.spec_facts:
            for f in self.spec_facts:
                st.pc.append(f)
            self.spec_facts = []

    def add_facts(self, facts):
        for f in facts:
            if self.bound:
                vs = [b for b in self.bound
                      if _mentions(f, b)]
                if vs:
                    f = z3.ForAll(vs, f)
            self.spec_facts.append(f)

    # ------------------------------------------------------------- names
    def lookup(self, name, st):
        env = st.env
        if name in env:
            v = env[name]
            if isinstance(v, MaybeUndef):
                if v.cond is False:
                    raise UndefRead(name)
                self.oblige(st, 'safety', 'local %s is defined' % name,
                            v.cond)
                env[name] = v.val
                return v.val
            return v
        return self.glob(name, self.frames[-1].info.module)

    def glob(self, name, module, seen=0):
        if module is None:
            if name == 'pi':
                return PI
            if name in self.specs.consts:
                return self.specs.consts[name]
            if name in self.prog.classes and name not in self.specs.helpers:
                return Cls(name)
        if module is not None:
            if name in module.funcs:
                return Fn(module.funcs[name])
            if name in module.classes:
                return Cls(name)
            if name in module.imports:
                m, a = module.imports[name]
                if a is None:
                    return Mod(m)
                if m == 'math' and a == 'pi':
                    return PI
                if m in self.prog.modules and seen < 5:
                    return self.glob(a, self.prog.modules[m], seen + 1)
                if a in self.prog.modules:
                    return Mod('taupy.' + a)
                return Builtin(a)
            if name in module.consts:
                return self.const_expr(module.consts[name], module)
        return Builtin(name)

    def const_expr(self, node, module, cls=None):
        try:
            v = ast.literal_eval(node)
            if isinstance(v, (bool, int, float, str, type(None))):
                return const_of(v)
        except Exception:
            pass
        if isinstance(node, ast.List) and not node.elts:
            return None
        if isinstance(node, ast.Name) and cls is not None \
                and node.id in cls.consts:
            return self.const_expr(cls.consts[node.id], module, cls)
        st = State()
        fr = Frame(_Pseudo(module))
        self.frames.append(fr)
        try:
            res = self.ev(node, st)
            if len(res) != 1:
                raise Undecided('constant')
            return res[0][0]
        finally:
            self.frames.pop()

    # ------------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Undecided('expression %s at line %s' % (
                type(n).__name__, getattr(n, 'lineno', '?')))
        self.line = getattr(n, 'lineno', self.line)
        return m(n, st)

    def ev_Constant(self, n, st):
        return [(const_of(n.value), st)]

    def ev_Name(self, n, st):
        return [(self.lookup(n.id, st), st)]

    def ev_Tuple(self, n, st):
        return [(tuple(vs), s) for vs, s in self.evs(n.elts, st)]

    def ev_List(self, n, st):
        out = []
        for vs, s in self.evs(n.elts, st):
            out.append((self.mk_list(vs, s), s))
        return out

    def mk_list(self, vs, s):
        if not vs:
            l = self.new_list(s, '?', 0)
            l.site = self.line
            return l
        t = self.type_of(vs[0])
        for v in vs[1:]:
            t = self.join_type(t, self.type_of(v))
        if t == 'int' and self.line in self.real_sites:
            t = 'real'
        l = self.new_list(s, t, len(vs))
        l.site = self.line
        d = self.ldata(l, s.heap)
        for i, v in enumerate(vs):
            d = z3.Store(d, i, self.unwrap(t, v))
        self.set_data(s, l, d)
        return l

    def join_type(self, a, b):
        if a == b:
            return a
        if {a, b} == {'int', 'real'}:
            return 'real'
        if a == 'list:?' and b.startswith('list:'):
            return b
        if b == 'list:?' and a.startswith('list:'):
            return a
        raise Undecided('types %s and %s in one list' % (a, b))

    def ev_Dict(self, n, st):
        return [(Opaque(), st)]

    def ev_JoinedStr(self, n, st):
        return [(Opaque(), st)]

    def ev_Lambda(self, n, st):
        return [(LambdaV(n, dict(st.env)), st)]

    def ev_UnaryOp(self, n, st):
        out = []
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                out.append((Not(self.truth(v, s.heap)), s))
            elif isinstance(n.op, ast.USub):
                out.append((-self.as_num(v, s), s))
            elif isinstance(n.op, ast.UAdd):
                out.append((v, s))
            else:
                raise Undecided('unary operator')
        return out

    def ev_BinOp(self, n, st):
        return self.bind(self.evs([n.left, n.right], st),
                         lambda vs, s: self.binop(type(n.op), vs[0], vs[1], s))

    def binop(self, op, a, b, s):
        o = OPS.get(op)
        if o is None:
            raise Undecided('operator')
        if o == '+':
            if isinstance(a, str) and isinstance(b, str):
                return [(a + b, s)]
            if isinstance(a, (str, SymStr, Opaque)) or \
                    isinstance(b, (str, SymStr, Opaque)):
                if isinstance(a, Lst) or isinstance(b, Lst):
                    raise Undecided('list + opaque')
                return [(self.str_plus(a, b, s), s)]
            if isinstance(a, Lst) and isinstance(b, Lst):
                return [(self.concat(a, b, s), s)]
            if isinstance(a, tuple) and isinstance(b, tuple):
                return [(a + b, s)]
        if o == '%' and isinstance(a, (str, SymStr, Opaque)):
            return [(self.str_format(a, b, s), s)]
        if o == '*':
            if isinstance(a, (str, SymStr, Opaque)) or \
                    isinstance(b, (str, SymStr, Opaque)):
                return [(Opaque(), s)]
            if isinstance(b, Lst):
                a, b = b, a
            if isinstance(a, Lst):
                return [(self.repeat(a, b, s), s)]
        a, b = self.as_num(a, s), self.as_num(b, s)
        if o in ('/', '//', '%') and not self.spec_mode:
            self.may_raise(s, 'ZeroDivisionError', self.num_cmp('==', b, 0),
                           'no division by zero')
        if o == '**':
            if not isz(b) and b == 2:
                return [(self.arith('*', a, a), s)]
            facts = []
            r = self.mathfn('pow', [a, b], s, facts)
            if self.spec_mode:
                self.add_facts(facts)
            else:
                s.pc.extend(zb(f) for f in facts)
            return [(r, s)]
        return [(self.arith(o, a, b), s)]

    def ev_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        if self.spec_mode:
            acc = is_and
            for o in n.values:
                t = self.truth(self.sp(o, st), st.heap)
                acc = And(acc, t) if is_and else Or(acc, t)
                if acc is (not is_and):
                    break
            return [(acc, st)]
        return self.boolop(is_and, n.values, st)

    def same_state(self, a, b):
        if a.alloc is not b.alloc and not _numeq(a.alloc, b.alloc):
            return False
        for k, v in b.heap.items():
            w = a.heap.get(k)
            if w is None:
                w = self.base_maps[k]
            if w is not v and not w.eq(v):
                return False
        for k, v in b.env.items():
            if a.env.get(k) is not v:
                return False
        return True

    def boolop(self, is_and, ops, st):
        out = []
        for v, s in self.ev(ops[0], st):
            t = self.truth(v, s.heap)
            t = simp_bool(t) if isz(t) else t
            if len(ops) == 1:
                out.append((t, s))
                continue
            go = t if is_and else Not(t)
            if go is True:
                out += self.boolop(is_and, ops[1:], s)
                continue
            if go is False:
                out.append((not is_and, s))
                continue
            s2 = s.copy()
            s2.pc.append(zb(go))
            n0 = len(s2.pc)
            try:
                res = self.boolop(is_and, ops[1:], s2)
            except PathDead:
                res = []
            if len(res) == 1 and self.same_state(s, res[0][1]):
                v2, s3 = res[0]
                for f in s3.pc[n0:]:
                    s.pc.append(zb(Implies(go, f)))
                out.append((And(t, v2) if is_and else Or(t, v2), s))
            else:
                s.pc.append(zb(Not(go)))
                out.append((not is_and, s))
                out += res
        return out

    def ev_IfExp(self, n, st):
        out = []
        for v, s in self.ev(n.test, st):
            t = self.truth(v, s.heap)
            t = simp_bool(t) if isz(t) else t
            if isinstance(t, bool):
                out += self.ev(n.body if t else n.orelse, s)
                continue
            if self.spec_mode:
                out.append((self.ite(t, self.sp(n.body, s),
                                     self.sp(n.orelse, s)), s))
                continue
            s1, s2 = s.copy(), s.copy()
            s1.pc.append(t)
            s2.pc.append(zb(Not(t)))
            n0 = len(s1.pc)
            r1 = self.safe_ev(n.body, s1)
            r2 = self.safe_ev(n.orelse, s2)
            if len(r1) == 1 and len(r2) == 1 and \
                    self.same_state(s, r1[0][1]) and \
                    self.same_state(s, r2[0][1]):
                a, b = r1[0][0], r2[0][0]
                if not (isinstance(a, str) or isinstance(b, str)):
                    try:
                        m = self.ite(t, a, b)
                        for f in r1[0][1].pc[n0:]:
                            s.pc.append(zb(Implies(t, f)))
                        for f in r2[0][1].pc[n0:]:
                            s.pc.append(zb(Implies(Not(t), f)))
                        out.append((m, s))
                        continue
                    except Undecided:
                        pass
            out += r1 + r2
        if not out:
            raise PathDead()
        return out

    def safe_ev(self, n, s):
        try:
            return self.ev(n, s)
        except PathDead:
            return []

    def ev_Compare(self, n, st):
        # a chain is a conjunction (operands here are side-effect free)
        def go(vs, s):
            acc = True
            for op, a, b in zip(n.ops, vs[:-1], vs[1:]):
                acc = And(acc, self.compare(op, a, b, s))
            return [(acc, s)]
        return self.bind(self.evs([n.left] + n.comparators, st), go)

    def compare(self, op, a, b, s):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.identical(a, b))
        if isinstance(op, ast.Eq):
            return self.eq_call(a, b, s)
        if isinstance(op, ast.NotEq):
            return Not(self.eq_call(a, b, s))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, s)
            return Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b,
                    '>=': a >= b}[CMP[type(op)]]
        return self.num_cmp(CMP[type(op)], self.as_num(a, s),
                            self.as_num(b, s))

    def eq_call(self, a, b, s):
        if isinstance(a, Obj) and isinstance(b, Obj) and \
                self.prog.method(a.cls, '__eq__'):
            raise Undecided('user-defined equality')
        return self.equals(a, b)

    def contains(self, c, x, s):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (SymStr, str)) and isinstance(x, (SymStr, str)):
            return self.strpred('contains', c, x)
        if isinstance(c, tuple):
            return Or(*[self.equals(x, y) for y in c])
        if isinstance(c, SetV):
            return Or(*[self.equals(x, y) for y in c.items])
        if isinstance(c, SetOf):
            c = c.src
        if isinstance(c, Lst):
            j = z3.Int('cj!%d' % next(self.counter))
            n = self.llen(c, s.heap)
            if c.elem in (None, '?'):
                return False
            if not isz(n) and n <= 64:
                return Or(*[self.equals(x, self.lget(c, i, s.heap))
                            for i in range(n)])
            return z3.Exists([j], z3.And(j >= 0, j < n, zb(
                self.equals(x, self.lget(c, j, s.heap)))))
        raise Undecided('in')

    def strpred(self, name, *args):
        key = ['str_' + name]
        zs = []
        for a in args:
            zs.append(self.str_ref(a))
        return uf('str_' + name, *([I] * len(zs) + [B]))(*zs)

    def ev_Attribute(self, n, st):
        return self.bind(self.ev(n.value, st),
                         lambda v, s: self.attr(v, n.attr, s))

    def attr(self, v, name, s):
        if isinstance(v, OldNS):
            if name not in v.args:
                raise Undecided('old.%s' % name)
            x = v.args[name]
            return [(_retag(x, v.heap), s)]
        if isinstance(v, Opt):
            self.oblige(s, 'safety', 'receiver of .%s is not None' % name,
                        Not(v.none))
            return self.attr(v.val, name, s)
        if isinstance(v, Obj) and v.cls == 'File' and name in (
                'readline', 'close', 'readlines', 'read', 'write'):
            return [(Builtin('.' + name, v), s)]
        if isinstance(v, Builtin) and v.recv is None:
            return [(self.builtin_attr(v.name + '.' + name), s)]
        if isinstance(v, Obj):
            f = self.prog.method(v.cls, name)
            if f is not None:
                if f.is_property:
                    return self.call_fn(Fn(f, v), [], {}, s)
                if f.is_static:
                    return [(Fn(f), s)]
                return [(Fn(f, Cls(v.cls) if f.is_class else v), s)]
            t, c = self.ftype(v.cls, name)
            if t is not None:
                return [(self.read_field(v, name, s.heap), s)]
            cc = self.prog.class_const(v.cls, name)
            if cc is not None:
                return [(self.const_expr(cc[0], cc[1].module, cc[1]), s)]
            if name == '__dict__':
                return [(Opaque(), s)]
            raise Undecided('unknown attribute %s.%s' % (v.cls, name))
        if isinstance(v, Cls):
            f = self.prog.method(v.name, name)
            if f is not None:
                return [(Fn(f, v if f.is_class else None), s)]
            cc = self.prog.class_const(v.name, name)
            if cc is not None:
                return [(self.const_expr(cc[0], cc[1].module, cc[1]), s)]
            raise Undecided('class attribute')
        if isinstance(v, Mod):
            if v.name == 'math' and name == 'pi':
                return [(PI, s)]
            if v.name.startswith('taupy.'):
                return [(self.glob(name, self.prog.modules[v.name[6:]]), s)]
            return [(self.builtin_attr(v.name + '.' + name), s)]
        if isinstance(v, (Lst, str, SymStr, Opaque, SetV)) or is_num(v):
            return [(Builtin('.' + name, v), s)]
        raise Undecided('attribute %s of %r' % (name, v))

    def builtin_attr(self, name):
        if name in ('os.path.extsep', 'os.extsep'):
            return '.'
        if name in ('os.path.sep', 'os.sep'):
            return '/'
        if name == 'sys.version_info':
            return tuple(z3.Int('python_version!%d' % i) for i in range(3))
        return Builtin(name)

    def ev_Subscript(self, n, st):
        if isinstance(n.slice, ast.Slice):
            parts = [x if x is not None else ast.Constant(None)
                     for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            return self.bind(self.evs([n.value] + parts, st),
                             lambda vs, s: [(self.slice(vs[0], vs[1], vs[2],
                                                        vs[3], s), s)])
        return self.bind(self.evs([n.value, n.slice], st),
                         lambda vs, s: [(self.index(vs[0], vs[1], s), s)])

    def norm_index(self, i, n, s, st_desc='index in range'):
        """Python index semantics; obligation that it is in range."""
        i = self.as_num(i, s)
        if not is_int(i):
            raise Undecided('non-integer index')
        if self.spec_mode:
            if not isz(i) and i < 0:
                return self.arith('+', n, i)
            return i
        if not isz(i):
            if i < 0:
                j = self.arith('+', n, i)
                self.may_raise(s, 'IndexError', self.num_cmp('<', j, 0),
                               st_desc)
                return j
            self.may_raise(s, 'IndexError', self.num_cmp('>=', i, n), st_desc)
            return i
        self.may_raise(s, 'IndexError', Or(
            self.num_cmp('<', self.arith('+', i, n), 0),
            self.num_cmp('>=', i, n)), st_desc)
        if self.quick(s, i >= 0):
            return i
        return z3.If(i < 0, i + n, i)

    def index(self, v, i, s):
        if isinstance(v, Opt):
            self.oblige(s, 'safety', 'indexed value is not None', Not(v.none))
            v = v.val
        if isinstance(v, tuple):
            if isz(i):
                raise Undecided('symbolic tuple index')
            return v[int(i)]
        if isinstance(v, str):
            if isz(i):
                return self.str_index(v, i, s)
            return v[int(i)]
        if isinstance(v, SymStr):
            return self.str_index(v, i, s)
        if isinstance(v, Opaque):
            return Opaque()
        if isinstance(v, Lst):
            n = self.llen(v, s.heap)
            j = self.norm_index(i, n, s)
            return self.lget(v, j, s.heap)
        raise Undecided('subscript of %r' % (v,))

    def clamp(self, i, n, s, default):
        if i is None:
            return default
        i = self.as_num(i, s)
        if not isz(i):
            if i < 0:
                j = self.arith('+', n, i)
                if not isz(j):
                    return max(j, 0)
                return z3.If(j < 0, z3.IntVal(0), j)
            if not isz(n):
                return min(i, n)
            if i == 0:
                return 0
            return z3.If(z3.IntVal(i) > n, zi(n), z3.IntVal(i))
        if self.quick(s, z3.And(i >= 0, zb(self.num_cmp('<=', i, n)))):
            return i
        j = z3.If(i < 0, i + n, i)
        return z3.If(j < 0, z3.IntVal(0), z3.If(j > n, zi(n), j))

    def slice(self, v, a, b, c, s):
        if isinstance(v, str):
            if isz(a) or isz(b):
                return self.str_slice(v, a, b, s)
            return v[a:b:c]
        if isinstance(v, SymStr):
            if c is not None:
                raise Undecided('string slice with a step')
            return self.str_slice(v, a, b, s)
        if isinstance(v, tuple):
            return v[a:b:c]
        if c is not None or not isinstance(v, Lst):
            raise Undecided('slice')
        n = self.llen(v, s.heap)
        lo = self.clamp(a, n, s, 0)
        hi = self.clamp(b, n, s, n)
        m = self.arith('-', hi, lo)
        if isz(m):
            if not self.quick(s, m >= 0):
                m = z3.If(m < 0, z3.IntVal(0), m)
        else:
            m = max(m, 0)
        if v.elem in (None, '?'):
            return self.new_list(s, v.elem, m)
        d = self.ldata(v, s.heap)
        if not isz(lo) and lo == 0:
            nd = d
        elif not isz(m) and m <= 8:
            nd = self.fresh('lst', d.sort())
            for i in range(m):
                nd = z3.Store(nd, i, self.select(d, self.arith('+', lo, i)))
        else:
            nd = self.lam(lambda j: self.select(d, j + zi(lo)))
        return self.new_list(s, v.elem, m, nd, v.site)

    def concat(self, a, b, s):
        ea = a.elem if a.elem not in (None, '?') else b.elem
        na, nb = self.llen(a, s.heap), self.llen(b, s.heap)
        if ea in (None, '?'):
            return self.new_list(s, ea, 0)
        t = self.join_type(a.elem, b.elem) if a.elem not in (None, '?') and \
            b.elem not in (None, '?') else ea
        if data_key(t) != data_key(ea):
            raise Undecided('list + list of different types')
        return self.new_list(s, t, self.arith('+', na, nb),
                             self.cat_data(a, b, na, nb, t, s))

    def cat_data(self, a, b, na, nb, t, s):
        if not isz(nb) and nb <= 4 and b.elem not in (None, '?'):
            d = self.ldata(Lst(t, a.ref, a.heap), s.heap)
            e = self.ldata(b, s.heap)
            for i in range(nb):
                d = z3.Store(d, zi(self.arith('+', na, i)), self.select(e, i))
            return d
        if not isz(na) and na == 0:
            return self.ldata(b, s.heap)
        d = self.ldata(Lst(t, a.ref, a.heap), s.heap)
        if b.elem in (None, '?'):
            return d
        e = self.ldata(b, s.heap)
        if self.bounded or self.spec_mode:
            return self.lam(lambda j: z3.If(
                j < zi(na), self.select(d, j), self.select(e, j - zi(na))))
        r = self.fresh('cat', d.sort())
        j = z3.Int('j!cat')
        first = z3.Implies(z3.And(j >= 0, j < zi(na)),
                           z3.Select(r, j) == self.select(d, j))
        second = z3.Implies(z3.And(j >= 0, j < zi(nb)),
                            z3.Select(r, zi(na) + j) == self.select(e, j))
        s.pc.append(z3.ForAll([j], first, patterns=[z3.Select(r, j)]))
        s.pc.append(z3.ForAll([j], z3.Implies(
            z3.And(j >= zi(na), j < zi(na) + zi(nb)),
            z3.Select(r, j) == self.select(e, j - zi(na))),
            patterns=[z3.Select(r, j)]))
        for arr, f in ((d, first), (e, second)):
            if not z3.is_quantifier(arr):
                try:
                    s.pc.append(z3.ForAll(
                        [j], f, patterns=[self.select(arr, j)]))
                except z3.Z3Exception:
                    pass
        return r

    def repeat(self, a, n, s):
        m = self.llen(a, s.heap)
        if isz(m) or m != 1:
            raise Undecided('list repetition')
        n = self.as_num(n, s)
        x = self.select(self.ldata(a, s.heap), 0)
        cnt = max(n, 0) if not isz(n) else (
            n if self.quick(s, n >= 0) else z3.If(n < 0, z3.IntVal(0), n))
        return self.new_list(s, a.elem, cnt, z3.K(I, x), a.site)

    # ----------------------------------------------------- comprehensions
    def ev_ListComp(self, n, st):
        if len(n.generators) != 1:
            raise Undecided('nested comprehension generators')
        g = n.generators[0]
        return self.bind(self.iters(g.iter, st),
                         lambda it, s: self.comp(n, g, it, s))

    def concrete_items(self, it, s):
        """List of item values if the iterable has a small concrete size."""
        if it.n is not None and not isz(it.n) and it.n <= 40:
            return [it.item(i, s) for i in range(it.n)]
        return None

    def comp(self, n, g, it, s):
        items = self.concrete_items(it, s)
        saved = dict(s.env)
        if items is not None:
            res = [([], s)]
            for x in items:
                def step(vs, s2, x=x):
                    self.assign(g.target, x, s2)
                    conds = [(True, s2)]
                    for c in g.ifs:
                        conds = self.bind(conds, lambda acc, s3: [
                            (And(acc, self.truth(v, s4.heap)), s4)
                            for v, s4 in self.ev(c, s3)])
                    out = []
                    for cv, s3 in conds:
                        if cv is False:
                            out.append((vs, s3))
                        elif cv is True:
                            out += [(vs + [v], s4)
                                    for v, s4 in self.ev(n.elt, s3)]
                        else:
                            sf = s3.copy()
                            sf.assume(Not(cv))
                            out.append((vs, sf))
                            s3.assume(cv)
                            out += [(vs + [v], s4)
                                    for v, s4 in self.ev(n.elt, s3)]
                    return out
                res = self.bind(res, step)
            out = []
            for vs, s2 in res:
                s2.env = dict(saved)
                out.append((self.mk_list(vs, s2), s2))
            return out
        if g.ifs:
            raise Undecided('filtered comprehension')
        k = self.fresh('k', I)
        mark = len(self.created)
        sub = s.copy()
        cnt = it.n
        if cnt is None:
            raise Undecided('comprehension over unbounded iterable')
        sub.pc.append(z3.And(k >= 0, k < zi(cnt)))
        a_k = self.fresh('alloc', I)
        sub.alloc = a_k
        sub.pc.append(a_k >= zi(s.alloc))
        n0 = len(sub.pc)
        self.assign(g.target, it.item(k, sub), sub)
        old_writes, self.writes = self.writes, []
        res = self.ev(n.elt, sub)
        writes, self.writes = self.writes, old_writes
        if len(res) != 1:
            raise Undecided('comprehension element forks')
        v, s2 = res[0]
        per = simp_num(zi(s2.alloc) - a_k)
        afn = None
        if isz(per):
            if writes:
                raise Undecided('comprehension element allocates unboundedly')
            afn = z3.Function('allocs!%d' % next(self.counter), I, I)
        t = self.type_of(v)
        term = self.unwrap(t, v)
        skolems = [c for c in self.created[mark:] if not c.eq(a_k)]
        sub_map = [(a_k, zi(s.alloc) + k * per if afn is None else afn(k))]
        for c in skolems:
            f = z3.Function('sk_%s' % c.decl().name(), I, c.sort())
            sub_map.append((c, f(k)))

        def close(x):
            return z3.substitute(x, *sub_map)
        j = z3.Int('q!%d' % next(self.counter))

        def q(body):
            b = z3.substitute(close(body), (k, j))
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(cnt)), b))
        for f in s2.pc[n0:]:
            s.pc.append(q(f))
        # heap effects: only on objects allocated by the element expression
        by_key = {}
        for key, ref, sort in writes:
            by_key.setdefault(key, []).append((ref, sort))
        for key, rs in by_key.items():
            sort = rs[0][1]
            m0 = self.hmap(s.heap, key, sort)
            m2 = self.fresh('H', m0.sort())
            for ref, _ in rs:
                d = simp_num(ref - a_k)
                if isz(d):
                    raise Undecided('comprehension element writes shared data')
            refs = {}
            for ref, _ in rs:
                refs[str(z3.simplify(ref))] = ref
            for ref in refs.values():
                val = self.select(s2.heap[key], ref)
                s.pc.append(q(z3.Select(m2, ref) == val))
            o = z3.Int('o')
            s.pc.append(z3.ForAll([o], z3.Implies(
                o < zi(s.alloc), z3.Select(m2, o) == z3.Select(m0, o)),
                patterns=[z3.Select(m2, o)]))
            s.heap[key] = m2
            if self.writes is not None:
                self.writes.append((key, zi(s.alloc), sort))
        if afn is not None:
            s.pc.append(afn(0) == zi(s.alloc))
            s.pc.append(z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < zi(cnt)), z3.And(
                    afn(j) >= zi(s.alloc), afn(j) <= afn(j + 1),
                    afn(j + 1) <= afn(zi(cnt)),
                    afn(j + 1) == z3.substitute(close(zi(s2.alloc)),
                                                (k, j)))),
                patterns=[afn(j)]))
            s.pc.append(z3.Implies(zi(cnt) >= 0,
                                   afn(zi(cnt)) >= zi(s.alloc)))
            a2 = self.fresh('alloc', I)
            s.pc.append(z3.Implies(zi(cnt) >= 0, a2 == afn(zi(cnt))))
            s.pc.append(a2 >= zi(s.alloc))
            s.alloc = a2
        elif per != 0:
            s.alloc = simp_num(zi(s.alloc) + zi(cnt) * per)
        s.env = saved
        tt = z3.substitute(close(term), (k, j))
        body = z3.substitute_vars  # noqa
        lam = z3.Lambda([j], tt)
        return [(self.new_list(s, t, cnt, lam), s)]

    def ev_GeneratorExp(self, n, st):
        return [(LambdaV(n, None), st)]

    def quantifier(self, gen, st, is_all):
        """any(...) / all(...) over a generator expression."""
        g = gen.generators[0]
        if len(gen.generators) != 1:
            raise Undecided('generators')

        def go(it, s):
            saved = dict(s.env)
            items = self.concrete_items(it, s)
            if items is not None:
                res = [(is_all, s)]
                for x in items:
                    def step(acc, s2, x=x):
                        if acc is (not is_all):
                            return [(acc, s2)]
                        self.assign(g.target, x, s2)
                        nodes = list(g.ifs) + [gen.elt]
                        r = []
                        for vs, s3 in self.evs(nodes, s2):
                            ts = [self.truth(v, s3.heap) for v in vs]
                            if is_all:
                                b = Implies(And(*ts[:-1]), ts[-1])
                                r.append((And(acc, b), s3))
                            else:
                                r.append((Or(acc, And(*ts)), s3))
                        return r
                    res = self.bind(res, step)
                for _, s2 in res:
                    s2.env = dict(saved)
                return res
            if it.n is None:
                raise Undecided('quantifier over unbounded iterable')
            k = z3.Int('g!%d' % next(self.counter))
            sub = s.copy()
            sub.pc.append(z3.And(k >= 0, k < zi(it.n)))
            n0 = len(sub.pc)
            self.assign(g.target, it.item(k, sub), sub)
            res = self.evs(list(g.ifs) + [gen.elt], sub)
            if len(res) != 1 or len(res[0][1].pc) != n0 or \
                    not self.same_heap(s, res[0][1]):
                raise Undecided('effects in generator expression')
            ts = [zb(self.truth(v, s.heap)) for v in res[0][0]]
            rng = z3.And(k >= 0, k < zi(it.n))
            s.env = saved
            if is_all:
                return [(z3.ForAll([k], z3.Implies(
                    z3.And(rng, *ts[:-1]), ts[-1])), s)]
            return [(z3.Exists([k], z3.And(rng, *ts)), s)]
        return self.bind(self.iters(g.iter, st), go)

    def same_heap(self, a, b):
        for k, v in b.heap.items():
            w = a.heap.get(k)
            if w is None:
                w = self.base_maps[k]
            if w is not v and not w.eq(v):
                return False
        return True

    # ------------------------------------------------------------ iterables
    def iters(self, node, st):
        """List of (Iter, state) for an iterable expression."""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                and node.func.id not in st.env and not node.keywords:
            f = node.func.id
            if f == 'range':
                return self.bind(self.evs(node.args, st), self.it_range)
            if f == 'enumerate' and len(node.args) in (1, 2):
                def go(it, s):
                    def item(k, s2):
                        return (k, it.item(k, s2))
                    return [(Iter(it.cond, item, it.n, it.src), s)]
                if len(node.args) == 1:
                    return self.bind(self.iters(node.args[0], st), go)
                return self.bind(
                    self.ev(node.args[1], st), lambda off, s0: self.bind(
                        self.iters(node.args[0], s0), lambda it, s: [(Iter(
                            it.cond, lambda k, s2: (self.arith('+', k, off),
                                                    it.item(k, s2)),
                            it.n, it.src), s)]))
            if f == 'zip':
                res = [([], st)]
                for a in node.args:
                    res = self.bind(res, lambda its, s: [
                        (its + [it], s2) for it, s2 in self.iters(a, s)])
                return [(self.it_zip(its), s) for its, s in res]
            if f == 'count':
                def mk(vs, s):
                    start = vs[0] if vs else 0
                    return [(Iter(lambda k, s2: True, lambda k, s2:
                                  self.arith('+', start, k), None), s)]
                return self.bind(self.evs(node.args, st), mk)
            if f == 'reversed':
                def rev(it, s):
                    if it.n is None:
                        raise Undecided('reversed')
                    return [(Iter(lambda k, s2: self.num_cmp('<', k, it.n),
                                  lambda k, s2: it.item(self.arith(
                                      '-', self.arith('-', it.n, 1), k), s2),
                                  it.n, it.src), s)]
                return self.bind(self.iters(node.args[0], st), rev)
        return self.bind(self.ev(node, st), lambda v, s: [(self.it_val(v, s),
                                                           s)])

    def it_val(self, v, s):
        if isinstance(v, Opt):
            self.oblige(s, 'safety', 'iterable is not None', Not(v.none))
            v = v.val
        if isinstance(v, Iter):
            return v
        if isinstance(v, (tuple, str)):
            def item(k, s2):
                if isz(k):
                    raise Undecided('symbolic index in tuple iteration')
                return v[k]
            return Iter(lambda k, s2: k < len(v), item, len(v), None)
        if isinstance(v, SetV):
            return self.it_val(tuple(v.items), s)
        if isinstance(v, Obj) and v.cls == 'File':
            return self.file_iter(v, s, Iter)
        if isinstance(v, Lst):
            n = self.llen(v, s.heap)
            return Iter(lambda k, s2: self.num_cmp('<', k, self.llen(
                v, s2.heap)), lambda k, s2: self.lget(v, k, s2.heap), n, v)
        raise Undecided('iteration over %r' % (v,))

    def it_range(self, vs, s):
        vs = [self.as_num(v, s) for v in vs]
        if not all(is_int(v) for v in vs):
            raise Undecided('range of non-integers')
        lo, hi, step = 0, None, 1
        if len(vs) == 1:
            hi = vs[0]
        else:
            lo, hi = vs[:2]
            if len(vs) == 3:
                step = vs[2]
        if isz(step) or step not in (1, -1):
            raise Undecided('range step')
        n = self.arith('-', hi, lo) if step == 1 else self.arith('-', lo, hi)
        n = simp_num(n)
        if not isz(n):
            n = max(n, 0)
        elif not self.quick(s, n >= 0):
            n = z3.If(n < 0, z3.IntVal(0), n)
        return [(Iter(lambda k, s2: self.num_cmp('<', k, n),
                      lambda k, s2: self.arith('+' if step == 1 else '-',
                                               lo, k), n), s)]

    def it_zip(self, its):
        n = None
        for it in its:
            if it.n is not None:
                if n is None:
                    n = it.n
                elif not isz(n) and not isz(it.n):
                    n = min(n, it.n)
                elif isz(n) and isz(it.n) and z3.simplify(n).eq(
                        z3.simplify(it.n)):
                    pass
                else:
                    n = z3.If(zi(n) < zi(it.n), zi(n), zi(it.n))
        return Iter(lambda k, s: And(*[it.cond(k, s) for it in its]),
                    lambda k, s: tuple(it.item(k, s) for it in its), n,
                    [it.src for it in its])

    # ------------------------------------------------------------- assignment
    def assign(self, target, v, st):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(v, Lst):
                n = self.llen(v, st.heap)
                if isz(n):
                    raise Undecided('unpacking of a list')
                v = tuple(self.lget(v, i, st.heap) for i in range(n))
            if not isinstance(v, tuple) or len(v) != len(target.elts):
                raise Undecided('unpacking')
            for t, x in zip(target.elts, v):
                self.assign(t, x, st)
        elif isinstance(target, ast.Attribute):
            res = self.ev(target.value, st)
            if len(res) != 1:
                raise Undecided('forking assignment target')
            o = res[0][0]
            if isinstance(o, Opt):
                self.oblige(st, 'safety', 'receiver is not None', Not(o.none))
                o = o.val
            if not isinstance(o, Obj):
                if isinstance(o, Cls) and target.attr == 'DEBUG':
                    # only what is printed depends on it
                    self.assumed.add('debug flags are off')
                    return
                raise Undecided('attribute assignment to %r' % (o,))
            self.write_field(st, o, target.attr, v)
        elif isinstance(target, ast.Subscript):
            res = self.evs([target.value, target.slice], st)
            if len(res) != 1:
                raise Undecided('forking assignment target')
            (l, i), s = res[0]
            if not isinstance(l, Lst):
                raise Undecided('item assignment')
            n = self.llen(l, st.heap)
            j = self.norm_index(i, n, st, 'assigned index in range')
            self.list_store(st, l, j, v)
        else:
            raise Undecided('assignment target')

    def list_store(self, st, l, j, v):
        self.fix_elem(l, v)
        d = self.ldata(l, st.heap)
        self.set_data(st, l, z3.Store(d, zi(j), self.unwrap(l.elem, v)))

    def fix_elem(self, l, v):
        if l.elem in (None, '?'):
            t = self.type_of(v)
            if t.startswith('opt') or t == 'opaque':
                raise Undecided('list of %s' % t)
            if t == 'int' and l.site in self.real_sites:
                t = 'real'
            l.elem = t
        elif l.elem == 'int' and is_num(v) and not is_int(v):
            raise ElemMismatch(l)
        elif l.elem == 'list:?' and isinstance(v, Lst):
            l.elem = 'list:' + v.elem


def _retag(x, heap):
    if isinstance(x, Obj):
        return Obj(x.cls, x.ref, heap)
    if isinstance(x, Lst):
        return Lst(x.elem, x.ref, heap)
    if isinstance(x, Opt):
        return Opt(x.none, _retag(x.val, heap))
    if isinstance(x, tuple):
        return tuple(_retag(y, heap) for y in x)
    return x


class ElemMismatch(Undecided):
    """A list first seen with ints is later given reals."""

    def __init__(self, l):
        Undecided.__init__(self, 'list of ints receives reals')
        self.l = l


class _Pseudo:
    def __init__(self, module):
        self.module, self.qual, self.loops, self.cls = module, '?', {}, None


def _numeq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    return zi(a).eq(zi(b))


def _mentions(f, c):
    seen, todo = set(), [f]
    cid = c.get_id()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == cid:
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False
