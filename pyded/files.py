"""Text files, path names and pickles.

A file is what it holds when it is opened: a list of lines that depends on its
path, read from a position.  Writing is a list of (path, object) pairs.  Paths
are texts; the functions of os.path are uninterpreted, with the few axioms
named in evidence.
"""
import ast
import z3
from .vals import *
from .vals import isz, zi
from .engine import uf
from .strings import S_cat

S = z3.ArraySort(I, I)


class Files:
    """Mixed into the executor."""

    # ------------------------------------------------------------ lines
    def file_line(self, path, j):
        return SymStr(uf('file_line', I, I, I)(self.str_ref(path), zi(j)))

    def file_length(self, path):
        if not self.files_seen:
            self.files_seen = True
            p = z3.Int('p!file')
            f = uf('file_length', I, I)
            self.axioms.append(z3.ForAll([p], f(p) >= 0, patterns=[f(p)]))
        return uf('file_length', I, I)(self.str_ref(path))

    def bi_open(self, pos, kw, s):
        mode = pos[1] if len(pos) > 1 else kw.get('mode', 'r')
        if not isinstance(mode, str):
            raise Undecided('open mode')
        if self.spec_mode:
            raise Undecided('open in a contract')
        for k, t in (('path', 'str'), ('pos', 'int'), ('writing', 'bool')):
            self.field_types.setdefault('File', {}).setdefault(k, t)
        self.assumed.add('a file that is opened can be read or written')
        path = pos[0]
        if isinstance(path, Opaque):
            path = SymStr(self.fresh('path', I))
        o = Obj('File', self.new_ref(s))
        self.write_field(s, o, 'path', path)
        self.write_field(s, o, 'pos', 0)
        self.write_field(s, o, 'writing',
                         any(c in mode for c in 'wax+'))
        return [(o, s)]

    def file_method(self, o, name, pos, kw, s):
        if name == 'close':
            return [(None, s)]
        if name == 'readline':
            path = self.read_field(o, 'path', s.heap)
            p = self.read_field(o, 'pos', s.heap)
            n = self.file_length(path)
            more = self.num_cmp('<', p, n)
            v = self.ite(more, self.file_line(path, p), '')
            # (past the end the position counts on, which changes nothing)
            self.write_field(s, o, 'pos', self.arith('+', p, 1))
            return [(v, s)]
        raise Undecided('file method ' + name)

    def file_iter(self, o, s, Iter):
        path = self.read_field(o, 'path', s.heap)
        p0 = self.read_field(o, 'pos', s.heap)
        n0 = self.file_length(path)
        rest = zi(n0) - zi(p0)
        it = Iter(
            lambda k, s2: self.num_cmp('<', self.arith('+', p0, k), n0),
            None, z3.If(rest > 0, rest, z3.IntVal(0)), None)

        def item(k, s2):
            at = self.arith('+', p0, k)
            self.write_field(s2, o, 'pos', self.arith('+', at, 1))
            return self.file_line(path, at)
        it.item = item

        def at_head(k, s2):
            """The position in the file at the start of an iteration."""
            self.write_field(s2, o, 'pos', self.arith('+', p0, k))
        it.at_head = at_head
        it.check = lambda k, s2: zi(self.read_field(o, 'pos', s2.heap)) == \
            zi(p0) + zi(k)
        return it

    # ------------------------------------------------------------ words
    def core_text(self, v):
        """White space at the ends makes no difference to split()."""
        r = self.str_ref(v)
        while z3.is_app(r) and r.decl().name() in (
                'str_rstrip', 'str_strip', 'str_lstrip'):
            r = r.arg(0)
        return r

    def words_of(self, v):
        r = self.core_text(v)
        n = uf('words_len', I, I)(r)
        x = z3.Int('x!words')
        if not self.words_axiom:
            self.words_axiom = True
            f = uf('words_len', I, I)
            self.axioms.append(z3.ForAll([x], f(x) >= 0, patterns=[f(x)]))
        return n, uf('words_data', I, S)(r)

    def str_split(self, v, pos, kw, s):
        if pos or kw:
            raise Undecided('split with a separator')
        n, d = self.words_of(v)
        if self.spec_mode:
            raise Undecided('split in a contract: use words(text)')
        return self.new_list(s, 'str', n, d)

    def str_partition(self, v, p):
        r, q = self.str_ref(v), self.str_ref(p)
        return tuple(SymStr(uf('str_' + w, I, I, I)(r, q))
                     for w in ('before', 'separator', 'after'))

    # ------------------------------------------------------------ paths
    def path_theory(self):
        """Paths as on POSIX; plain texts have no separator."""
        if self.paths_seen:
            return
        self.paths_seen = True
        self.str_theory()
        self.assumed.add('os.path: the name of a path joined from a '
                         'directory and a name without separator is that '
                         'name; stem and extension put together are the '
                         'name')
        a, b, c = z3.Ints('pa pb pc')
        base, dr, join, stem = (uf('path_' + x, *([I] * (n + 1)))
                                for x, n in (('base', 1), ('dir', 1),
                                             ('join', 2), ('stem', 1)))
        ext = uf('path_ext', I, I)
        plain, cat = uf('str_plain', I, B), S_cat
        self.axioms += [
            z3.ForAll([a, b], z3.Implies(plain(b), base(join(a, b)) == b),
                      patterns=[join(a, b)]),
            z3.ForAll([a], plain(base(a)), patterns=[base(a)]),
            z3.ForAll([a], z3.Implies(plain(a), base(a) == a),
                      patterns=[base(a)]),
            z3.ForAll([a], z3.Implies(plain(a), z3.And(
                plain(stem(a)), plain(ext(a)))), patterns=[stem(a)]),
            z3.ForAll([a], cat(stem(a), ext(a)) == a, patterns=[stem(a)]),
            z3.ForAll([a, b], z3.Implies(z3.And(plain(a), plain(b)),
                                         plain(cat(a, b))),
                      patterns=[cat(a, b)]),
            z3.ForAll([a, b, c], z3.Implies(cat(a, c) == cat(b, c), a == b),
                      patterns=[z3.MultiPattern(cat(a, c), cat(b, c))]),
            z3.ForAll([a, b, c], cat(cat(a, b), c) == cat(a, cat(b, c)),
                      patterns=[cat(cat(a, b), c)])]

    def plain_fact(self, v):
        if isinstance(v, str):
            f = uf('str_plain', I, B)(self.str_ref(v))
            f = f if '/' not in v else z3.Not(f)
            if not any(f.eq(x) for x in self.axioms):
                self.axioms.append(f)

    def path_fn(self, name, *vs):
        self.path_theory()
        return SymStr(uf('path_' + name, *([I] * (len(vs) + 1)))(
            *[self.str_ref(v) for v in vs]))

    def bi_basename(self, pos, kw, s):
        return [(self.path_fn('base', pos[0]), s)]

    def bi_dirname(self, pos, kw, s):
        return [(self.path_fn('dir', pos[0]), s)]

    def bi_abspath(self, pos, kw, s):
        return [(self.path_fn('abs', pos[0]), s)]

    def bi_join(self, pos, kw, s):
        v = pos[0]
        for w in pos[1:]:
            v = self.path_fn('join', v, w)
        return [(v, s)]

    def bi_splitext(self, pos, kw, s):
        a = self.path_fn('stem', pos[0])
        b = self.path_fn('ext', pos[0])
        return [((a, b), s)]

    def bi_exists(self, pos, kw, s):
        return [(self.strpred('file_exists', pos[0]), s)]

    def bi_makedirs(self, pos, kw, s):
        self.assumed.add('os.makedirs succeeds')
        return [(None, s)]

    def bi_currentframe(self, pos, kw, s):
        return [(Opaque(), s)]

    def bi_getfile(self, pos, kw, s):
        """The file of the module being run."""
        m = self.frames[-1].info.module if self.frames else None
        return [(SymStr(z3.Int('source_file!%s' % getattr(m, 'name', ''))),
                 s)]

    def str_format(self, a, b, s):
        """template % values, if it is known what the values are."""
        vs = b if isinstance(b, tuple) else (b,)
        if not isinstance(a, str) or not all(
                isinstance(v, (str, SymStr)) or is_num(v) and is_int(v)
                for v in vs):
            return Opaque()
        ts = [self.str_ref(a)] + [
            self.str_ref(v) if isinstance(v, (str, SymStr)) else zi(v)
            for v in vs]
        r = uf('str_format%d' % len(vs), *([I] * (len(ts) + 1)))(*ts)
        if '/' not in a and not any(isinstance(v, (str, SymStr))
                                    for v in vs):
            f = uf('str_plain', I, B)(r)
            if not any(f.eq(x) for x in self.axioms):
                self.axioms.append(f)
        return SymStr(r)

    # ------------------------------------------------------------ pickles
    def bi_load(self, pos, kw, s):
        """pickle.load: what the file at that path holds."""
        o = pos[0]
        if not (isinstance(o, Obj) and o.cls == 'File'):
            raise Undecided('pickle.load')
        self.assumed.add('pickle.load gives the object the file holds')
        r = uf('pickled_in', I, I)(self.str_ref(
            self.read_field(o, 'path', s.heap)))
        s.pc.append(r < 0)
        return [(Obj('TauModel', r), s)]

    def bi_dump(self, pos, kw, s):
        o = pos[1]
        if not (isinstance(o, Obj) and o.cls == 'File'
                and isinstance(pos[0], Obj)):
            raise Undecided('pickle.dump')
        w = self.read_field(o, 'writing', s.heap)
        self.oblige(s, 'safety', 'the file is opened for writing',
                    self.truth(w, s.heap))
        self.write(s, ('written',), self.str_ref(self.read_field(
            o, 'path', s.heap)), zi(pos[0].ref), I)
        return [(None, s)]
