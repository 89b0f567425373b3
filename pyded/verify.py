"""Verification of one function against its contract; solver driver."""
import os
import pickle
import time
import z3
from . import nla
from .vals import *
from .engine import *
from .exec import *
from .stmts import Stmts, TooLong
from .calls import ContractMismatch, body_of
from .source import Program
from .contracts import Specs


class Result:
    def __init__(self, name, target):
        self.name, self.target = name, target
        self.obls = []          # (kind, desc, line, status, seconds)
        self.status = 'ok'      # ok | failed | undecided | error
        self.reason = ''
        self.used, self.inlined, self.assumed = [], [], []
        self.seconds = 0.0
        self.props = []

    def counts(self):
        n = len(self.obls)
        return n, sum(1 for o in self.obls if o[3] == 'proved')


def args_of_case(con, case):
    d = dict(con.args)
    return d


class Verifier:
    def __init__(self, prog=None, specs=None):
        self.prog = prog or Program()
        self.specs = specs or Specs()

    def generate(self, con, bounded=0, sizes=None):
        """All obligations of one contract (over its cases)."""
        sites = set()
        for attempt in range(8):
            engines = []
            try:
                for case in (con.cases or [{}]):
                    E = Stmts(self.prog, self.specs, bounded)
                    E.real_sites = sites
                    self.run_case(E, con, case)
                    if E.paths_seen:
                        for t in list(E.str_names):
                            E.plain_fact(t)
                    engines.append((case, E))
                return engines
            except ElemMismatch as e:
                if e.l.site is None or e.l.site in sites:
                    raise
                sites.add(e.l.site)
        raise Undecided('element types')

    def run_case(self, E, con, case):
        if con.lemma:
            return self.run_lemma(E, con)
        info = self.prog.find(con.target)
        if info is None:
            raise ContractMismatch('no function ' + con.target)
        st = State()
        E.root_contract = con
        fr = Frame(info, con)
        E.frames = [fr]
        env = {}
        a = info.node.args
        names = [x.arg for x in a.args]
        for x in con.args:
            if x not in names:
                raise ContractMismatch('%s has no argument %s' % (
                    con.target, x))
        for nm in names:
            if nm in case:
                v = case[nm]
                env[nm] = const_of(v)
            elif nm in con.args:
                env[nm] = E.fresh_value(con.args[nm], nm, st, True)
            elif nm == 'cls' and info.cls is not None:
                env[nm] = Cls(info.cls.name)
            elif nm == 'self' and info.cls is not None:
                env[nm] = E.fresh_value(info.cls.name, nm, st, True)
            else:
                i = len(a.defaults) - (len(names) - names.index(nm))
                if i < 0:
                    raise ContractMismatch('argument %s undeclared' % nm)
                env[nm] = E.const_expr(a.defaults[i], info.module, info.cls)
        E.ghosts = {g: E.fresh_value(t, 'ghost_' + g, st)
                    for g, t in con.ghost.items()}
        st.env = dict(env)
        fr.args0, fr.heap0 = dict(env), {}
        env['_alloc0'] = 0
        for nm, fn in con.requires:
            st.assume(E.sev(fn, env, st, con))
        heap0 = {}
        E.writes = []
        E.entry_pc = list(st.pc)
        outs = E.exec_block(body_of(info.node), st)
        outs += E.pending
        E.exits = {'r': 0, 'x': 0}
        E.reach = []
        for kind, s, v in outs:
            if kind in ('b', 'c'):
                raise Undecided('break outside loop')
            E.line = info.node.lineno
            env2 = dict(env)
            env2['old'] = OldNS(dict(env), heap0)
            if kind == 'x':
                E.exits['x'] += 1
                cond = con.raises.get(v)
                if cond is not None:
                    pre = State()
                    pre.pc, pre.alloc = s.pc, 0
                    g = E.sev(cond, env2, self.at(E, s, heap0), con)
                    E.oblige(s, 'exception', '%s only when specified' % v, g)
                elif v in con.may_raise:
                    g = E.sev(con.may_raise[v], env2,
                              self.at(E, s, heap0), con)
                    E.oblige(s, 'exception', '%s only when allowed' % v, g)
                else:
                    # caught upstream impossible: uncaught exception
                    E.oblige(s, 'exception', 'no %s' % v, False)
                continue
            E.exits['r'] += 1
            E.reach.append(list(s.pc))
            if con.result is not None:
                if v is None and not con.result.startswith('opt:') \
                        and con.result != 'none':
                    E.oblige(s, 'result', 'a value is returned', False)
                    continue
                v = E.coerce(con.result, v, s, 'result')
                if con.result == 'real' and is_int(v):
                    v = zr(v)
            env2['result'] = v
            for exc, cond in con.raises.items():
                g = E.sev(cond, env2, self.at(E, s, heap0), con)
                E.oblige(s, 'exception', '%s whenever specified' % exc,
                         Not(g))
            if con.fresh and isinstance(v, (Obj, Lst)):
                E.oblige(s, 'frame', 'result is freshly allocated',
                         E.num_cmp('>=', zi(v.ref), 0))
            for nm, fn in con.ensures:
                s2 = s.copy()
                g = E.sev(fn, env2, s2, con)
                E.oblige(s2, 'postcondition', nm, g)
            self.frame(E, con, env, s, heap0)
        if not con.allocates and con.result is not None:
            pass
        return E

    def at(self, E, s, heap):
        """The state s with another heap (shares path condition)."""
        x = State()
        x.env, x.heap, x.alloc = {}, dict(heap), 0
        x.pc = s.pc
        return x

    def frame(self, E, con, env, s, heap0):
        written = {}
        for key, ref, so in E.writes:
            written.setdefault(key, (so, []))[1].append(ref)
        allowed = {}
        for loc in con.modifies:
            for key, ref, so in E.loc_keys(loc, env, s, heap0):
                allowed.setdefault(key, []).append(ref)
        for key, (so, refs) in sorted(written.items(), key=str):
            if key not in s.heap:
                continue
            if any(r is None for r in allowed.get(key, [])):
                continue
            m0, m1 = E.base_maps[key], s.heap[key]
            if m0.eq(m1):
                continue
            ok = [zi(r) for r in allowed.get(key, [])]
            todo = []
            for r in refs:
                if r is None:
                    todo = None
                    break
                r = z3.simplify(r)
                if z3.is_int_value(r) and r.as_long() >= 0:
                    continue
                if any(r.eq(z3.simplify(x)) for x in ok):
                    continue
                todo.append(r)
            name = '.'.join(key)
            if todo is not None and not todo:
                continue
            o = z3.Int('o!frame')
            g = z3.Implies(z3.And(o < 0, *[o != x for x in ok]),
                           E.select(m1, o) == z3.Select(m0, o))
            E.oblige(s.copy(), 'frame', '%s is left unchanged' % name, g)

    def run_lemma(self, E, con):
        st = State()
        E.root_contract = con
        con.qual = con.name
        E.frames = [Frame(con.pseudo, con)]
        con.pseudo.qual = con.name
        env = {}
        for nm, t in con.args.items():
            env[nm] = E.fresh_value(t, nm, st, True)
        env['_alloc0'] = 0
        env['old'] = OldNS(dict(env), {})
        for nm, fn in con.requires:
            st.assume(E.sev(fn, env, st, con))
        E.entry_pc = list(st.pc)
        E.exits, E.reach = {'r': 1, 'x': 0}, [list(st.pc)]
        for nm, fn in con.ensures:
            s2 = st.copy()
            E.oblige(s2, 'lemma', nm, E.sev(fn, env, s2, con))


# (name, part of the time, options, seed): whatever proves the obligation
# counts; a model counts only with all facts and no restriction.
TACTICS = [
    ('track', 0.06, {}, 0),
    ('nla', 0.1, {}, 0),
    ('linear', 0.06, {'smt.arith.nl': False}, 0),
    ('ematch', 0.14, {}, 0),
    ('relevant', 0.06, {'smt.relevancy': 0}, 0),
    ('split', 0.06, {'smt.case_split': 3}, 0),
    ('nonra', 0.06, {'smt.arith.nl.nra': False}, 0),
    ('ematch', 0.2, {}, 1),
    ('relevant', 0.12, {'smt.relevancy': 0}, 1),
    ('default', 0.3, {}, 0),
]


def solve(E, ob, timeout, seed=1):
    """'proved' | 'refuted' | 'unknown', model"""
    if z3.is_true(ob.goal):
        return 'proved', None, 'trivial'
    t0 = time.time()
    soft = {f.get_id() for f in E.soft}
    pc, seen = [], set()
    for f in ob.pc:
        if f.get_id() not in seen:
            seen.add(f.get_id())
            pc.append(f)
    slim = [f for f in pc if f.get_id() not in soft]
    for name, part, opts, sd in TACTICS:
        ms = max(200, int(timeout * 1000 * part))
        if name == 'nla':
            if nla.check(E.axioms + pc, ob.goal, ms) == z3.unsat:
                return 'proved', None, name
            continue
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', seed + sd)
        if name != 'default':
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
        for k, v in opts.items():
            s.set(k, v)
        if name == 'track':
            # one assumption per fact: no preprocessing across facts
            s.set('unsat_core', True)
            for i, f in enumerate(E.axioms + slim + [z3.Not(ob.goal)]):
                s.assert_and_track(f, 'track!%d' % i)
        else:
            s.add(*E.axioms)
            s.add(*(pc + E.soft_axioms if name in ('ematch', 'default')
                    else slim))
            s.add(z3.Not(ob.goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', None, name
        if r == z3.sat and name in ('ematch', 'default') and not opts:
            # under ematch: without quantifiers this is a real model
            return 'refuted', s.model(), name
    return 'unknown', None, 'timeout'


def solve_some(E, todo, timeout):
    out, bad = {}, 0
    for i in todo:
        t0 = time.time()
        # one failure decides; the others only tell where
        st, _, how = solve(E, E.obls[i], timeout if bad < 2
                           else min(timeout, 2.0))
        bad += st != 'proved'
        out[i] = (st, time.time() - t0)
    return out


def solve_all(E, timeout, procs=4):
    """(status, seconds) per obligation; long lists in several processes."""
    n = len(E.obls)
    if n < 60:
        out = solve_some(E, range(n), timeout)
        return [out[i] for i in range(n)]
    kids = []
    for j in range(procs):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump(solve_some(E, range(j, n, procs), timeout), f)
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, rd))
    out = {}
    for pid, rd in kids:
        with os.fdopen(rd, 'rb') as f:
            try:
                out.update(pickle.load(f))
            except EOFError:
                pass
        os.waitpid(pid, 0)
    return [out.get(i, ('unknown', 0.0)) for i in range(n)]


def verify(target, timeout=8.0, prog=None, specs=None, verbose=False):
    V = Verifier(prog, specs)
    con = V.specs.contracts.get(target) or V.specs.lemmas.get(target)
    r = Result(con.name, con.target or con.name)
    r.props = list(con.props)
    t0 = time.time()
    try:
        engines = V.generate(con)
    except Undecided as e:
        r.status, r.reason = 'undecided', '%s: %s' % (type(e).__name__, e)
        r.seconds = time.time() - t0
        return r
    except RecursionError as e:
        r.status, r.reason = 'undecided', 'recursion'
        r.seconds = time.time() - t0
        return r
    bad = 0
    for case, E in engines:
        tag = (' [' + ', '.join('%s=%r' % kv for kv in case.items()) + ']') \
            if case else ''
        r.used += [x for x in E.used_contracts if x not in r.used]
        r.inlined += [x for x in E.inlined if x not in r.inlined]
        r.assumed += [x for x in E.assumed if x not in r.assumed]
        for ob, (st, dt) in zip(E.obls, solve_all(
                E, max(con.timeout or 0, timeout))):
            r.obls.append((ob.kind, ob.desc + tag, ob.line, st,
                           round(dt, 3), ob.fn))
            if verbose and st != 'proved':
                print('  ', st, ob.kind, ob.desc + tag, 'line', ob.line,
                      ob.fn)
            if st != 'proved':
                bad += 1
        # the precondition is satisfiable and a normal exit is reachable
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(*[c for c in E.entry_pc])
        c1 = s.check()
        ok = 'proved' if c1 != z3.unsat else 'vacuous'
        r.obls.append(('cover', 'precondition is satisfiable' + tag, 0, ok,
                       0.0, r.target))
        if c1 == z3.unsat:
            bad += 1
        if E.exits['r']:
            reach = False
            for pc in E.reach:
                s = z3.Solver()
                s.set('timeout', 600)
                s.add(*E.axioms)
                s.add(*pc)
                if s.check() != z3.unsat:
                    reach = True
                    break
            r.obls.append(('cover', 'a normal exit is reachable' + tag, 0,
                           'proved' if reach else 'vacuous', 0.0, r.target))
            if not reach:
                bad += 1
    if bad:
        r.status = 'failed'
    r.seconds = time.time() - t0
    return r


if __name__ == '__main__':
    import sys
    import traceback
    V = Specs()
    P = Program()
    names = sys.argv[1:] or list(V.contracts) + list(V.lemmas)
    for t in names:
        try:
            r = verify(t, prog=P, specs=V, verbose=True)
        except Exception:
            traceback.print_exc()
            continue
        n, k = r.counts()
        print('%-45s %-9s %d/%d %.1fs %s' % (t, r.status, k, n, r.seconds,
                                             r.reason))
