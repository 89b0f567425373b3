"""Symbolic executor / verification condition generator for the Python subset
used by taupy.  Contracts are given as Python text (see spec.py)."""
import ast
import itertools
from fractions import Fraction
from decimal import Decimal
import z3
from .vals import *

EXC_PARENT = {'ZeroDivisionError': 'ArithmeticError',
              'OverflowError': 'ArithmeticError',
              'ArithmeticError': 'Exception', 'IndexError': 'LookupError',
              'KeyError': 'LookupError', 'LookupError': 'Exception',
              'ValueError': 'Exception', 'TypeError': 'Exception',
              'AttributeError': 'Exception', 'AssertionError': 'Exception',
              'RuntimeError': 'Exception', 'IOError': 'Exception',
              'NotImplementedError': 'RuntimeError'}


def exc_matches(name, handler):
    while name is not None:
        if name == handler:
            return True
        name = EXC_PARENT.get(name, 'Exception' if name != 'Exception'
                              else None)
    return False


PI = z3.Real('pi')
UF = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in UF:
        UF[key] = z3.Function(name, *sorts)
    return UF[key]


def _mono(x, y, r, r2):
    return z3.And((x < y) == (r < r2), (x == y) == (r == r2))


class State:
    def __init__(self):
        self.env, self.heap, self.pc = {}, {}, []
        self.alloc = 0
        self.steps = 0

    def copy(self):
        s = State()
        s.env, s.heap, s.pc = dict(self.env), dict(self.heap), list(self.pc)
        s.alloc = self.alloc
        return s

    def assume(self, c):
        c = simp_bool(c) if isz(c) else c
        if c is True:
            return True
        self.pc.append(zb(c))
        return c is not False


class Obligation:
    def __init__(self, kind, desc, line, pc, goal, fn):
        self.kind, self.desc, self.line = kind, desc, line
        self.pc, self.goal, self.fn = pc, goal, fn
        self.status, self.seconds = None, 0.0


class Frame:
    def __init__(self, info, contract=None):
        self.info, self.contract = info, contract
        self.handlers = []      # stack of lists of exception names caught


def _occurs(t, b):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(b):
            return True
        if z3.is_app(x):
            todo += x.children()
    return False


def has_quant(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


class Engine:
    MAX_PATHS = 600

    def __init__(self, prog, specs, bounded=0):
        self.prog, self.specs = prog, specs
        self.bounded = bounded         # >0: unroll loops, concrete lists
        self.obls = []
        self.collect = True
        self.counter = itertools.count()
        self.created = []
        self.axioms = []
        self.strs = {}
        self.str_names = []
        self.base_maps = {}
        self.writes = None
        self.field_types = specs.fields
        self.depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.premade = set()
        self.postmade = set()
        self.lambda_n = 0
        self.mapps = []
        # facts that a first attempt at a proof leaves out
        self.soft = []
        self.wholes, self.soft_axioms = [], []
        self.in_opaque = False
        self.totals, self.revealed = [], {}
        self.ghosts = {}
        self.joins, self.has_strings = [], False
        self.files_seen, self.words_axiom = False, False
        self.paths_seen = False

    # ---------------------------------------------------------------- basics
    def fresh(self, name, sort):
        c = z3.Const('%s!%d' % (name, next(self.counter)), sort)
        self.created.append(c)
        return c

    def intern(self, s):
        if s not in self.strs:
            self.strs[s] = len(self.str_names)
            self.str_names.append(s)
            self.axioms.append(z3.Function('str_len', I, I)(
                z3.IntVal(-1000000 - self.strs[s])) == len(s))
            self.axioms.append(z3.Function('str_isdigit', I, B)(
                z3.IntVal(-1000000 - self.strs[s])) == s.isdigit())
            if 1 <= len(s) <= 8:
                for i, c in enumerate(s):
                    self.axioms.append(z3.Function('str_sub', I, I, I, I)(
                        z3.IntVal(-1000000 - self.strs[s]), i, i + 1)
                        == z3.IntVal(self.intern(c)))
        return -1000000 - self.strs[s]

    def str_ref(self, v):
        if isinstance(v, str):
            return z3.IntVal(self.intern(v))
        if isinstance(v, SymStr):
            return v.ref
        if isinstance(v, Opaque):
            return self.fresh('str', I)
        raise Undecided('string expected')

    def lit_text(self, term):
        """The literal text of a string identity, or None."""
        if z3.is_int_value(term):
            k = -1000000 - term.as_long()
            if 0 <= k < len(self.str_names):
                return self.str_names[k]
        return None

    def wrap_str(self, term):
        t = simp_num(term)
        if isinstance(t, int):
            k = -1000000 - t
            if 0 <= k < len(self.str_names):
                return self.str_names[k]
        return SymStr(term)

    # ---------------------------------------------------------------- heap
    def hmap(self, heap, key, sort):
        if key not in heap:
            if key not in self.base_maps:
                if key[0] == 'len':
                    m = z3.Const('H_len', z3.ArraySort(I, I))
                elif key[0].startswith('data:'):
                    m = z3.Const('H_' + key[0].replace(':', '_'),
                                 z3.ArraySort(I, z3.ArraySort(I, sort)))
                else:
                    m = z3.Const('H_' + '_'.join(key), z3.ArraySort(I, sort))
                self.base_maps[key] = m
                self.map_axioms(key, m, sort)
            # a map never touched so far has its initial value in every state
            heap[key] = self.base_maps[key]
        return heap[key]

    def map_axioms(self, key, m, sort):
        if self.bounded:
            return
        o, j = z3.Ints('o j')
        if key[0] == 'len':
            self.axioms.append(z3.ForAll([o], z3.Select(m, o) >= 0,
                                         patterns=[z3.Select(m, o)]))
        elif key[0] == 'data:ref':
            t = z3.Select(z3.Select(m, o), j)
            self.axioms.append(z3.ForAll([o, j], z3.Implies(o < 0, t < 0),
                                         patterns=[t]))
        elif not key[0].startswith('data:') and key[0] != 'written':
            t = self.field_types.get(key[0], {}).get(key[1], 'opaque')
            if t.startswith('opt:'):
                t = t[4:]
            if len(key) == 2 and t not in ('real', 'int', 'bool', 'str',
                                           'opaque'):
                s = z3.Select(m, o)
                self.axioms.append(z3.ForAll([o], z3.Implies(o < 0, s < 0),
                                             patterns=[s]))

    def is_pre(self, t):
        """Is the reference term known to denote a pre-existing object?"""
        if isinstance(t, int):
            return t < 0
        if z3.is_int_value(t):
            return t.as_long() < 0
        if t.get_id() in self.premade:
            return True
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return self.is_pre(t.arg(1)) and self.is_pre(t.arg(2))
        if z3.is_select(t):
            a = t.arg(0)
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                    and any(a.eq(m) for m in self.base_maps.values()):
                return self.is_pre(t.arg(1))
            if z3.is_select(a):
                b = a.arg(0)
                if z3.is_const(b) and any(b.eq(m)
                                          for m in self.base_maps.values()):
                    return self.is_pre(a.arg(1))
        return False

    def distinct(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a != b
        a, b = zi(a), zi(b)
        if a.eq(b):
            return False
        d = z3.simplify(a == b)
        if z3.is_false(d):
            return True
        for x, y in ((a, b), (b, a)):
            if self.is_new(x) and self.is_pre(y):
                return True
        return False

    def is_new(self, t):
        """A reference allocated since the start (known syntactically)."""
        if z3.is_int_value(t):
            return t.as_long() >= 0
        if t.get_id() in self.postmade:
            return True
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
                return t.decl().name().startswith('alloc!')
            if k == z3.Z3_OP_ADD:
                return all(self.is_new(x) for x in t.children())
            if k == z3.Z3_OP_ITE:
                return self.is_new(t.arg(1)) and self.is_new(t.arg(2))
        return False

    def select(self, arr, idx):
        idx = zi(idx)
        while True:
            if z3.is_store(arr):
                k = arr.arg(1)
                if k.eq(idx) or z3.is_true(z3.simplify(k == idx)):
                    return arr.arg(2)
                if self.distinct(k, idx):
                    arr = arr.arg(0)
                    continue
            elif z3.is_quantifier(arr) and arr.is_lambda():
                return z3.substitute_vars(arr.body(), idx)
            elif z3.is_const_array(arr):
                return arr.arg(0)
            elif z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_ITE:
                a = self.select(arr.arg(1), idx)
                b = self.select(arr.arg(2), idx)
                if a.eq(b):
                    return a
                return z3.If(arr.arg(0), a, b)
            return z3.Select(arr, idx)

    def wrap(self, t, term, heap=None):
        """A z3 term of declared type t as a value."""
        if t == 'real':
            return self.num_out(term)
        if t == 'int':
            return self.num_out(term)
        if t == 'bool':
            return simp_bool(term)
        if t == 'str':
            return self.wrap_str(term)
        if t.startswith('list:'):
            return Lst(t[5:], term, heap)
        if t == 'opaque':
            return Opaque()
        return Obj(t, term, heap)

    def num_out(self, term):
        if isz(term):
            if z3.is_int_value(term):
                return term.as_long()
            if z3.is_rational_value(term):
                return Fraction(term.numerator_as_long(),
                                term.denominator_as_long())
        return term

    def unwrap(self, t, v):
        if t == 'real':
            if isinstance(v, (bool,)) or not is_num(v):
                raise Undecided('real expected, got %r' % (v,))
            return zr(v)
        if t == 'int':
            if is_int(v):
                return zi(v)
            raise Undecided('int expected, got %r' % (v,))
        if t == 'bool':
            if is_bool(v):
                return zb(v)
            if isinstance(v, int):
                return zb(v != 0)
            raise Undecided('bool expected, got %r' % (v,))
        if t == 'str':
            return self.str_ref(v)
        if t.startswith('list:') and isinstance(v, Lst):
            if v.elem is None or v.elem == '?':
                v.elem = t[5:]
            if data_key(v.elem) != data_key(t[5:]):
                raise Undecided('list element type %s vs %s' % (v.elem, t))
            return zi(v.ref)
        if isinstance(v, Obj):
            if v.cls != t and not self.subclass(v.cls, t):
                raise Undecided('%s expected, got %s' % (t, v.cls))
            return zi(v.ref)
        raise Undecided('cannot store %r as %s' % (v, t))

    def subclass(self, a, b):
        while a in self.prog.classes:
            if a == b:
                return True
            bs = self.prog.classes[a].bases
            a = bs[0].split('.')[-1] if bs else None
        return False

    def ftype(self, cls, f):
        c = cls
        while c is not None:
            if c in self.field_types and f in self.field_types[c]:
                return self.field_types[c][f], c
            ci = self.prog.classes.get(c)
            c = ci.bases[0].split('.')[-1] if ci and ci.bases else None
            if c == 'object':
                c = None
        return None, cls

    def read_field(self, o, f, heap):
        if o.heap is not None:
            heap = o.heap
        t, c = self.ftype(o.cls, f)
        if t is None:
            return None
        if t == 'opaque':
            return Opaque()
        if t.startswith('opt:'):
            n = self.select(self.hmap(heap, (c, f, 'none'), B), o.ref)
            v = self.select(self.hmap(heap, (c, f), sort_of(t[4:])), o.ref)
            n = simp_bool(n)
            w = self.wrap(t[4:], v, o.heap)
            if n is True:
                return None
            if n is False:
                return w
            return Opt(n, w)
        v = self.select(self.hmap(heap, (c, f), sort_of(t)), o.ref)
        return self.wrap(t, v, o.heap)

    def write(self, st, key, ref, term, sort):
        m = self.hmap(st.heap, key, sort)
        st.heap[key] = z3.Store(m, zi(ref), term)
        if self.writes is not None:
            self.writes.append((key, zi(ref), sort))

    def write_field(self, st, o, f, v):
        t, c = self.ftype(o.cls, f)
        if t is None:
            t = self.type_of(v)
            self.field_types.setdefault(o.cls, {})[f] = t
            c = o.cls
        if t == 'opaque':
            return
        if t.startswith('opt:'):
            s = sort_of(t[4:])
            if v is None:
                self.write(st, (c, f, 'none'), o.ref, z3.BoolVal(True), B)
                # value component irrelevant
            elif isinstance(v, Opt):
                self.write(st, (c, f, 'none'), o.ref, zb(v.none), B)
                self.write(st, (c, f), o.ref, self.unwrap(t[4:], v.val), s)
            else:
                self.write(st, (c, f, 'none'), o.ref, z3.BoolVal(False), B)
                self.write(st, (c, f), o.ref, self.unwrap(t[4:], v), s)
            return
        if isinstance(v, Opt):
            self.oblige(st, 'safety', 'value of %s is not None' % f,
                        Not(v.none))
            v = v.val
        self.write(st, (c, f), o.ref, self.unwrap(t, v), sort_of(t))

    def type_of(self, v):
        if isinstance(v, Opt):
            return 'opt:' + self.type_of(v.val)
        if is_bool(v):
            return 'bool'
        if is_int(v):
            return 'int'
        if is_num(v):
            return 'real'
        if isinstance(v, (str, SymStr)):
            return 'str'
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Lst):
            return 'list:' + (v.elem or '?')
        return 'opaque'

    # lists
    def llen(self, l, heap):
        if l.heap is not None:
            heap = l.heap
        return self.num_out(simp_num(self.select(
            self.hmap(heap, ('len',), I), l.ref)))

    def ldata(self, l, heap):
        if l.heap is not None:
            heap = l.heap
        return self.select(self.hmap(heap, (data_key(l.elem),),
                                     sort_of(l.elem)), l.ref)

    def lget(self, l, i, heap):
        if l.elem in (None, '?'):
            raise Undecided('list of unknown element type')
        t = self.select(self.ldata(l, heap), i)
        return self.wrap(l.elem, t, l.heap)

    def new_ref(self, st):
        r = st.alloc
        st.alloc = simp_num(r + 1)
        return r

    def new_list(self, st, elem, n, data=None, site=None):
        r = self.new_ref(st)
        l = Lst(elem, r, None, site)
        self.write(st, ('len',), r, zi(n), I)
        if elem not in (None, '?'):
            if data is None:
                data = self.fresh('lst', z3.ArraySort(I, sort_of(elem)))
            self.set_data(st, l, data)
        return l

    def set_data(self, st, l, data):
        self.write(st, (data_key(l.elem),), l.ref, data,
                   z3.ArraySort(I, sort_of(l.elem)).range())

    def set_len(self, st, l, n):
        self.write(st, ('len',), l.ref, zi(n), I)

    def join_elem(self, l, v):
        """Fix the element type of a list created as []."""
        t = v if isinstance(v, str) else None
        if l.elem in (None, '?'):
            l.elem = t
        return l.elem

    def lam(self, f):
        """z3 lambda j: f(j) for Python function f on Int terms."""
        self.lambda_n += 1
        j = z3.Int('lj!%d' % self.lambda_n)
        return z3.Lambda([j], f(j))

    # ---------------------------------------------------------- obligations
    def oblige(self, st, kind, desc, goal, line=None):
        if self.spec_mode:
            return
        goal = simp_bool(goal) if isz(goal) else goal
        if self.collect:
            self.obls.append(Obligation(kind, desc, line or self.line,
                                        list(st.pc), zb(goal),
                                        self.frames[-1].info.qual))
        if goal is not True:
            st.pc.append(zb(goal))

    def may_raise(self, st, exc, cond, desc):
        """The operation raises exc if cond.  Either an obligation that it
        does not, or, where the exception is caught or allowed by the
        contract, a separate path."""
        cond = simp_bool(cond) if isz(cond) else cond
        if cond is False or self.spec_mode:
            return []
        caught = any(exc_matches(exc, h) for fr in self.frames
                     for hs in fr.handlers for h in hs)
        con = self.root_contract
        allowed = con is not None and (exc in con.raises or
                                       exc in con.may_raise)
        if caught or allowed:
            s2 = st.copy()
            ok = s2.assume(cond)
            st.assume(Not(cond))
            if ok:
                self.pending.append(('x', s2, exc))
            if cond is True:
                raise PathDead()
            return []
        self.oblige(st, 'safety', desc, Not(cond))
        if cond is True:
            raise PathDead()
        return []

    # ---------------------------------------------------------- arithmetic
    def as_num(self, v, st):
        if isinstance(v, Opt):
            self.oblige(st, 'safety', 'operand is not None', Not(v.none))
            return self.as_num(v.val, st)
        if isinstance(v, bool):
            return int(v)
        if is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if is_num(v):
            return v
        raise Undecided('number expected, got %r' % (v,))

    def arith(self, op, a, b):
        if not isz(a) and not isz(b):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if b == 0:
                    return z3.Real('undef_div')
                return Fraction(a) / Fraction(b)
            if op == '//':
                return a // b
            if op == '%':
                return a % b
        both_int = is_int(a) and is_int(b)
        if op == '+' and both_int or op == '-' and both_int or \
                op == '*' and both_int:
            x, y = zi(a), zi(b)
        elif op in ('//', '%') and both_int:
            x, y = zi(a), zi(b)
            return x / y if op == '//' else x % y
        else:
            x, y = zr(a), zr(b)
        if op == '+':
            if not isz(a) and a == 0 and (both_int or not isz(b) or b.sort() == R):
                return b
            if not isz(b) and b == 0 and (both_int or not isz(a) or a.sort() == R):
                return a
            return x + y
        if op == '-':
            if not isz(b) and b == 0 and (both_int or not isz(a) or a.sort() == R):
                return a
            return x - y
        if op == '*':
            for p, q, w in ((a, b, y), (b, a, x)):
                if not isz(p) and p == 1:
                    return w
                if not isz(p) and p == 0:
                    return 0 if both_int else Fraction(0)
            return x * y
        if op == '/':
            return x / y
        if op == '%':
            q = z3.ToReal(z3.ToInt(x / y))
            return x - q * y
        if op == '//':
            return z3.ToReal(z3.ToInt(x / y))
        raise Undecided('operator ' + op)

    def neg(self, a):
        return -a

    def num_cmp(self, op, a, b):
        if not isz(a) and not isz(b):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
                    '==': a == b, '!=': a != b}[op]
        if is_int(a) and is_int(b):
            x, y = zi(a), zi(b)
        else:
            x, y = zr(a), zr(b)
        if op == '<':
            return x < y
        if op == '<=':
            return x <= y
        if op == '>':
            return x > y
        if op == '>=':
            return x >= y
        if op == '==':
            return simp_bool(x == y)
        return simp_bool(x != y)

    def equals(self, a, b):
        """== of two values as a formula (identity for objects)."""
        if isinstance(a, Opt) and isinstance(b, Opt):
            return Or(And(a.none, b.none),
                      And(Not(a.none), Not(b.none),
                          self.equals(a.val, b.val)))
        if isinstance(a, Opt):
            if b is None:
                return a.none
            return And(Not(a.none), self.equals(a.val, b))
        if isinstance(b, Opt):
            return self.equals(b, a)
        if a is None or b is None:
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            return simp_bool(self.str_ref(a) == self.str_ref(b))
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return simp_bool(zb(a) == zb(b))
        if is_num(a) and is_num(b):
            return self.num_cmp('==', a, b)
        if (is_bool(a) or is_bool(b)) and (is_num(a) or is_num(b)):
            return self.num_cmp('==', self.as_num(a, None),
                                self.as_num(b, None))
        if isinstance(a, Obj) and isinstance(b, Obj):
            return simp_bool(zi(a.ref) == zi(b.ref))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.equals(x, y) for x, y in zip(a, b)])
        if isinstance(a, Lst) and isinstance(b, Lst):
            raise Undecided('list equality')
        if type(a) != type(b) and not isinstance(a, Opaque) \
                and not isinstance(b, Opaque):
            return False
        raise Undecided('equality of %r and %r' % (a, b))

    def identical(self, a, b):
        if isinstance(a, Lst) and isinstance(b, Lst):
            return simp_bool(zi(a.ref) == zi(b.ref))
        return self.equals(a, b)

    def truth(self, v, heap):
        if isinstance(v, bool):
            return v
        if is_bool(v):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, SymStr):
            return v.ref != self.str_ref('')
        if is_num(v):
            return self.num_cmp('!=', v, 0)
        if isinstance(v, Lst):
            return self.num_cmp('>', self.llen(v, heap), 0)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Opt):
            return And(Not(v.none), self.truth(v.val, heap))
        if isinstance(v, Obj):
            if self.prog.method(v.cls, '__len__') or \
                    self.prog.method(v.cls, '__bool__'):
                raise Undecided('truth of object with __len__')
            return True
        raise Undecided('truth of %r' % (v,))

    def ite(self, c, a, b):
        """Merge two values."""
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if a is None and b is None:
            return None
        if isinstance(a, Opt) or isinstance(b, Opt) or a is None or b is None:
            an = a.none if isinstance(a, Opt) else a is None
            bn = b.none if isinstance(b, Opt) else b is None
            av = a.val if isinstance(a, Opt) else a
            bv = b.val if isinstance(b, Opt) else b
            if av is None:
                av = bv
            if bv is None:
                bv = av
            return Opt(simp_bool(z3.If(zb(c), zb(an), zb(bn))),
                       self.ite(c, av, bv))
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            return simp_bool(z3.If(zb(c), zb(a), zb(b)))
        if is_num(a) and is_num(b):
            if not isz(a) and not isz(b) and a == b and is_int(a) == is_int(b):
                return a
            if isz(a) and isz(b) and a.eq(b):
                return a
            if is_int(a) and is_int(b):
                return z3.If(zb(c), zi(a), zi(b))
            return z3.If(zb(c), zr(a), zr(b))
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            if isinstance(a, str) and isinstance(b, str) and a == b:
                return a
            return SymStr(z3.If(zb(c), self.str_ref(a), self.str_ref(b)))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.heap is b.heap:
            if self.subclass(a.cls, b.cls):
                return Obj(b.cls, simp_num(z3.If(zb(c), zi(a.ref), zi(b.ref))),
                           a.heap)
            if self.subclass(b.cls, a.cls):
                return Obj(a.cls, simp_num(z3.If(zb(c), zi(a.ref), zi(b.ref))),
                           a.heap)
        if isinstance(a, Lst) and isinstance(b, Lst) and a.heap is b.heap:
            ea, eb = a.elem, b.elem
            if ea in (None, '?'):
                ea = eb
            if eb in (None, '?'):
                eb = ea
            if ea is None or ea == '?' or data_key(ea) == data_key(eb):
                return Lst(ea, simp_num(z3.If(zb(c), zi(a.ref), zi(b.ref))),
                           a.heap)
        if isinstance(a, tuple) and isinstance(b, tuple) and \
                len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        if isinstance(a, MaybeUndef) or isinstance(b, MaybeUndef):
            ac = a.cond if isinstance(a, MaybeUndef) else True
            bc = b.cond if isinstance(b, MaybeUndef) else True
            av = a.val if isinstance(a, MaybeUndef) else a
            bv = b.val if isinstance(b, MaybeUndef) else b
            return MaybeUndef(simp_bool(z3.If(zb(c), zb(ac), zb(bc))),
                              self.ite(c, av, bv))
        raise Undecided('cannot merge %r and %r' % (a, b))

    # ----------------------------------------------------------- math functions
    def mathfn(self, name, args, st, facts):
        """mathfn1, plus monotonicity between the applications met so far and
        the functional equation of log."""
        r = self.mathfn1(name, args, st, facts)
        if name in ('log', 'exp', 'atan2', 'sqrt', 'asin', 'acos', 'cos'):
            self.pair_facts(name, [zr(a) for a in args], r, facts)
        if name == 'log':
            a = zr(args[0])
            k = a.decl().kind() if z3.is_app(a) else None
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_MUL) and a.num_args() == 2 \
                    and not (z3.is_rational_value(a.arg(0))
                             and z3.is_rational_value(a.arg(1))):
                x, y = a.arg(0), a.arg(1)
                lx = self.mathfn('log', [x], st, facts)
                ly = self.mathfn('log', [y], st, facts)
                facts.append(z3.Implies(
                    z3.And(x > 0, y > 0),
                    r == (lx - ly if k == z3.Z3_OP_DIV else lx + ly)))
        return r

    def pair_facts(self, name, a, r, facts):
        n = len(facts)
        self.pair_facts1(name, a, r, facts)
        self.soft.extend(facts[n:])

    def pair_facts1(self, name, a, r, facts):
        if getattr(self, 'bound', None):
            if any(_occurs(r, b) for b in self.bound):
                return
        known = False
        for n2, a2, r2 in self.mapps[-24:]:
            if r2.eq(r):
                known = True
                continue
            x, y = a[0], a2[0]
            if n2 == name == 'log':
                facts.append(z3.Implies(z3.And(x > 0, y > 0),
                                        _mono(x, y, r, r2)))
            elif n2 == name == 'exp':
                facts.append(_mono(x, y, r, r2))
            elif n2 == name == 'sqrt':
                facts.append(z3.Implies(z3.And(x >= 0, y >= 0),
                                        _mono(x, y, r, r2)))
            elif n2 == name == 'asin':
                facts.append(z3.Implies(
                    z3.And(x >= -1, y >= -1, x <= 1, y <= 1),
                    _mono(x, y, r, r2)))
            elif n2 == name == 'acos':
                facts.append(z3.Implies(
                    z3.And(x >= -1, y >= -1, x <= 1, y <= 1),
                    _mono(x, y, r2, r)))
            elif n2 == name == 'cos':
                facts.append(z3.Implies(
                    z3.And(x >= 0, y >= 0, x <= PI, y <= PI),
                    _mono(x, y, r2, r)))
                facts.append(z3.Implies(
                    z3.Or(x == -y, x - y == 2 * PI, y - x == 2 * PI),
                    r == r2))
            elif n2 == name == 'atan2':
                facts.append(z3.Implies(
                    z3.And(x >= 0, x == y), z3.And(
                        z3.Implies(a[1] <= a2[1], r >= r2),
                        z3.Implies(a[1] >= a2[1], r <= r2))))
            elif {n2, name} == {'exp', 'log'}:
                (e, re), (g, rg) = ((x, r), (y, r2)) if name == 'exp' else (
                    (y, r2), (x, r))
                facts.append(z3.Implies(g > 0, z3.And(
                    (e >= rg) == (re >= g), (e == rg) == (re == g),
                    (e >= -rg) == (re * g >= 1),
                    (e == -rg) == (re * g == 1))))
        if not known:
            self.mapps.append((name, a, r))

    def mathfn1(self, name, args, st, facts):
        """Uninterpreted mathematical functions with the axioms used."""
        a = zr(args[0])

        def app(fn, *xs):
            return uf(fn, *([R] * len(xs) + [R]))(*xs)
        if name == 'sqrt':
            r = app('sqrt', a)
            facts.append(z3.Implies(a >= 0, z3.And(r >= 0, r * r == a)))
        elif name in ('sin', 'cos'):
            r = app(name, a)
            s, c = app('sin', a), app('cos', a)
            facts.append(z3.And(s * s + c * c == 1, r >= -1, r <= 1))
            n = len(facts)
            facts.append(z3.Implies(a == 0, z3.And(s == 0, c == 1)))
            facts.append(z3.Implies(a == PI, z3.And(s == 0, c == -1)))
            facts.append(z3.Implies(z3.Or(2 * a == PI, 2 * a == -PI),
                                    c == 0))
            facts.append(z3.Implies(z3.And(2 * a <= PI, 2 * a >= -PI),
                                    c >= 0))
            facts.append(z3.Implies(z3.And(a >= 0, a <= PI), s >= 0))
            self.soft.extend(facts[n:])
        elif name == 'asin':
            r = app('asin', a)
            facts.append(z3.Implies(z3.And(a >= -1, a <= 1), z3.And(
                2 * r <= PI, 2 * r >= -PI, app('sin', r) == a,
                (r >= 0) == (a >= 0), (r == 0) == (a == 0))))
        elif name == 'acos':
            r = app('acos', a)
            facts.append(z3.Implies(z3.And(a >= -1, a <= 1), z3.And(
                r >= 0, r <= PI, app('cos', r) == a)))
        elif name == 'exp':
            r = app('exp', a)
            facts.append(z3.And(r > 0, app('log', r) == a,
                                (a == 0) == (r == 1), (a > 0) == (r > 1)))
        elif name == 'log':
            r = app('log', a)
            facts.append(z3.Implies(a > 0, z3.And(
                app('exp', r) == a, (r > 0) == (a > 1), (r == 0) == (a == 1))))
        elif name == 'atan2':
            b = zr(args[1])
            r = app('atan2', a, b)
            facts.append(z3.And(r <= PI, r >= -PI,
                                z3.Implies(a >= 0, r >= 0),
                                z3.Implies(z3.And(a == 0, b > 0), r == 0)))
        elif name == 'pow':
            b = zr(args[1])
            f2 = []
            lg = self.mathfn('log', [a], st, facts)
            r = self.mathfn('exp', [b * lg], st, facts)
        else:
            raise Undecided('math.' + name)
        return r

    def pi(self):
        return PI
