"""A last tactic for goals of nonlinear real arithmetic among many other
facts: only the arithmetic is kept (every other term becomes a variable of
its own, integers become reals), which can only make the goal harder to
prove, and a decision procedure for real polynomials is run."""
import z3

ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS,
         z3.Z3_OP_DIV}
CMP = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}
BOOL = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES,
        z3.Z3_OP_IFF, z3.Z3_OP_XOR}


class HasQuantifier(Exception):
    pass


class Pure:
    def __init__(self):
        self.memo, self.vars, self.side = {}, {}, []
        self.keep = []

    def var(self, t):
        b = z3.is_bool(t)
        i = t.get_id()
        if i not in self.vars:
            self.keep.append(t)
            n = len(self.vars)
            self.vars[i] = z3.Bool('b%d' % n) if b else z3.Real('x%d' % n)
        return self.vars[i]

    def go(self, t):
        i = t.get_id()
        if i not in self.memo:
            self.keep.append(t)
            self.memo[i] = self.step(t)
        return self.memo[i]

    def step(self, t):
        if z3.is_quantifier(t):
            raise HasQuantifier()
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return z3.RealVal(t.as_string() if z3.is_int_value(t)
                              else t.as_fraction())
        if z3.is_true(t) or z3.is_false(t):
            return t
        k = t.decl().kind()
        ch = t.children()
        if z3.is_bool(t):
            if k in BOOL:
                xs = [self.go(c) for c in ch]
                return t.decl()(*xs) if k not in (
                    z3.Z3_OP_AND, z3.Z3_OP_OR) else (
                    z3.And(*xs) if k == z3.Z3_OP_AND else z3.Or(*xs))
            if k in CMP or (k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)
                            and z3.is_arith(ch[0]) and len(ch) == 2):
                a, b = self.go(ch[0]), self.go(ch[1])
                if k == z3.Z3_OP_LE:
                    return a <= b
                if k == z3.Z3_OP_GE:
                    return a >= b
                whole = z3.is_int(ch[0])
                if k == z3.Z3_OP_LT:
                    return a + 1 <= b if whole else a < b
                if k == z3.Z3_OP_GT:
                    return a >= b + 1 if whole else a > b
                if k == z3.Z3_OP_EQ:
                    return a == b
                return z3.Or(a + 1 <= b, b + 1 <= a) if whole else a != b
            if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
                return self.go(ch[0]) == self.go(ch[1])
            if k == z3.Z3_OP_ITE:
                return z3.If(*[self.go(c) for c in ch])
            return self.var(t)
        if z3.is_arith(t):
            if k == z3.Z3_OP_TO_REAL:
                return self.go(ch[0])
            if k == z3.Z3_OP_ITE:
                return z3.If(*[self.go(c) for c in ch])
            if k == z3.Z3_OP_DIV:
                a, b = self.go(ch[0]), self.go(ch[1])
                if z3.is_rational_value(z3.simplify(b)):
                    return a / b
                # a fresh quotient
                q = self.var(t)
                self.side.append(z3.Implies(b != 0, q * b == a))
                return q
            if k in ARITH and not (z3.is_int(t) and k == z3.Z3_OP_DIV):
                xs = [self.go(c) for c in ch]
                r = xs[0]
                if k == z3.Z3_OP_UMINUS:
                    return -r
                for x in xs[1:]:
                    r = r + x if k == z3.Z3_OP_ADD else \
                        r - x if k == z3.Z3_OP_SUB else r * x
                return r
            return self.var(t)
        raise HasQuantifier()


def _names(t, memo):
    i = t.get_id()
    if i not in memo:
        out = set()
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(str(x))
            todo += x.children()
        memo[i] = out
    return memo[i]


def check(facts, goal, ms, rounds=3):
    """unsat when the goal follows from the arithmetic of the facts."""
    P = Pure()
    try:
        g = P.go(goal)
    except HasQuantifier:
        return z3.unknown
    pure = []
    for f in facts:
        for c in (f.children() if z3.is_and(f) else [f]):
            try:
                n = len(P.side)
                pure.append((P.go(c), P.side[n:]))
            except HasQuantifier:
                del P.side[n:]
    memo = {}
    used = set(_names(g, memo))
    for q in P.side:
        if _names(q, memo) & used:
            used |= _names(q, memo)
    chosen, left = [], list(pure)
    for r in range(rounds):
        new = set()
        rest = []
        for c, sd in left:
            ns = _names(c, memo)
            if ns and ns & used:
                chosen.append(c)
                new |= ns
            else:
                rest.append((c, sd))
        if not new:
            break
        # variables of large facts do not spread the selection
        used |= new
        left = rest
        s = z3.Tactic('qfnra').solver() if False else \
            z3.Then('simplify', 'propagate-values', 'solve-eqs',
                    'elim-term-ite', 'purify-arith', 'qfnra-nlsat').solver()
        s.set('timeout', max(200, int(ms / rounds)))
        for c in chosen:
            s.add(c)
        for q in P.side:
            if _names(q, memo) <= used:
                s.add(q)
        s.add(z3.Not(g))
        try:
            if s.check() == z3.unsat:
                return z3.unsat
        except z3.Z3Exception:
            pass
    return z3.unknown
