"""Strings: identities with a length, substrings and concatenation.

A string is an integer (its identity); literals have fixed identities.  The
functions below are uninterpreted, with the axioms that the proofs need.
"""
import z3
from .vals import *
from .vals import isz, zi


def S_len(s):
    return z3.Function('str_len', I, I)(s)


def S_sub(s, a, b):
    return z3.Function('str_sub', I, I, I, I)(s, zi(a), zi(b))


def S_cat(s, t):
    return z3.Function('str_cat', I, I, I)(s, t)


def joined(d, n):
    return z3.Function('str_joined', z3.ArraySort(I, I), I, I)(d, zi(n))


class Strings:
    """Mixed into the executor."""

    def str_theory(self):
        if self.has_strings:
            return
        self.has_strings = True
        n, a, b, c, d, x = z3.Ints('sn sa sb sc sd sx')
        empty = z3.IntVal(self.intern(''))
        sub, cat = S_sub, S_cat
        self.axioms += [
            z3.ForAll([n], S_len(n) >= 0, patterns=[S_len(n)]),
            z3.ForAll([n, a, b], z3.Implies(
                z3.And(0 <= a, a <= b, b <= S_len(n)),
                z3.And(S_len(sub(n, a, b)) == b - a,
                       z3.Implies(a == b, sub(n, a, b) == empty))),
                patterns=[sub(n, a, b)]),
            z3.ForAll([n, a, b, c], z3.Implies(
                z3.And(0 <= a, a <= b, b <= c, c <= S_len(n)),
                cat(sub(n, a, b), sub(n, b, c)) == sub(n, a, c)),
                patterns=[cat(sub(n, a, b), sub(n, b, c))]),
            z3.ForAll([n, a, b, c, d], z3.Implies(
                z3.And(0 <= a, a <= b, b <= S_len(n), 0 <= c, c <= d,
                       d <= b - a),
                sub(sub(n, a, b), c, d) == sub(n, a + c, a + d)),
                patterns=[sub(sub(n, a, b), c, d)]),
            z3.ForAll([x], cat(empty, x) == x, patterns=[cat(empty, x)]),
            z3.ForAll([x], cat(x, empty) == x, patterns=[cat(x, empty)]),
            S_len(empty) == 0]

    def str_facts(self, s, facts):
        if self.spec_mode:
            self.add_facts(facts)
        else:
            have = {f.get_id() for f in s.pc}
            s.pc.extend(f for f in facts if f.get_id() not in have)

    def str_length(self, v, s):
        if isinstance(v, str):
            return len(v)
        self.str_theory()
        n = S_len(v.ref)
        self.str_facts(s, [n >= 0, S_sub(v.ref, 0, n) == v.ref,
                           (n == 0) == (v.ref == self.str_ref(''))])
        return n

    def str_sub(self, v, a, b, s):
        """The part from a to b, which are in range."""
        self.str_theory()
        r = S_sub(self.str_ref(v), a, b)
        self.str_facts(s, [z3.Implies(
            z3.And(0 <= zi(a), zi(a) <= zi(b),
                   zi(b) <= S_len(self.str_ref(v))),
            S_len(r) == zi(b) - zi(a))])
        return SymStr(r)

    def str_index(self, v, i, s):
        n = self.str_length(v, s)
        j = self.norm_index(i, n, s, 'string index in range')
        return self.str_sub(v, j, self.arith('+', j, 1), s)

    def str_slice(self, v, a, b, s):
        n = self.str_length(v, s)
        lo = self.clamp(a, n, s, 0)
        hi = self.clamp(b, n, s, n)
        if isz(lo) or isz(hi):
            hi = z3.If(zi(hi) < zi(lo), zi(lo), zi(hi)) \
                if not self.quick(s, zi(lo) <= zi(hi)) else hi
        elif hi < lo:
            hi = lo
        return self.str_sub(v, lo, hi, s)

    def str_plus(self, a, b, s):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        self.str_theory()
        x, y = self.str_ref(a), self.str_ref(b)
        r = S_cat(x, y)
        if z3.is_app(x) and x.decl().name() == 'str_cat':
            t, u = self.lit_text(x.arg(1)), self.lit_text(y)
            if t is not None and u is not None:
                self.str_facts(s, [r == S_cat(x.arg(0),
                                              self.str_ref(t + u))])
        self.str_facts(s, [S_len(r) == zi(self.str_length(a, s)) + zi(
            self.str_length(b, s))])
        return SymStr(r)

    def str_test(self, name, v, args, s):
        """startswith and endswith."""
        p = args[0]
        if isinstance(p, tuple):
            return Or(*[self.str_test(name, v, [x], s) for x in p])
        if not isinstance(p, str):
            return self.strpred(name, v, p)
        n = self.str_length(v, s)
        r = self.strpred(name, v, p)
        self.str_theory()
        m = len(p)
        part = S_sub(v.ref, 0, m) if name == 'startswith' else \
            S_sub(v.ref, n - m, n)
        self.str_facts(s, [r == z3.And(n >= m, part == self.str_ref(p))])
        return r

    def str_joined(self, l, n, s):
        """The concatenation of the first n elements of a list."""
        self.str_theory()
        d = self.ldata(l, s.heap)
        n = zi(n)
        t = joined(d, n)
        facts = [z3.Implies(n <= 0, t == self.str_ref('')),
                 z3.Implies(n <= 1, joined(d, n - 1) == self.str_ref('')),
                 z3.Implies(n > 0, t == S_cat(joined(d, n - 1),
                                              z3.Select(d, n - 1)))]
        k = z3.Int('k!joined')
        seen = [t]
        for t2, d2, n2 in self.joins[-8:]:
            if t2.eq(t):
                continue
            for m in (n2, n - 1, n):
                if not d2.eq(d):
                    facts.append(z3.Implies(z3.And(m >= 0, z3.ForAll(
                        [k], z3.Implies(z3.And(0 <= k, k < m),
                                        z3.Select(d, k)
                                        == z3.Select(d2, k)))),
                        joined(d, m) == joined(d2, m)))
        if not any(t2.eq(t) for t2, _, _ in self.joins):
            self.joins.append((t, d, n))
        self.str_facts(s, facts)
        return SymStr(t)
