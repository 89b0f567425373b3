"""Loads the contract files (/verif/contracts/*.py) as ASTs."""
import ast
import os
import z3
from .vals import *
from .exec import _Pseudo


class ContractSpec:
    def __init__(self, name):
        self.name = name
        self.target = None
        self.args, self.result, self.fresh = {}, None, False
        self.allocates = False
        self.private = []
        self.ghost = {}
        self.reveal = []
        self.named = []
        self.sums = ()
        self.modifies, self.props, self.inline, self.cases = [], [], [], None
        self.requires, self.ensures = [], []
        self.assumes = []
        self.raises, self.may_raise = {}, {}
        self.loops, self.decreases = {}, {}
        self.merge, self.inline_always, self.trusted = True, False, False
        self.bounded_only = False
        self.bounds = {}
        self.lemma = False
        self.timeout = None
        self.pseudo = _Pseudo(None)
        self.node = None
        self.file = None


class Helper:
    def __init__(self, node):
        self.node = node
        self.pseudo = _Pseudo(None)
        self.name = node.name
        names = [d.id for d in node.decorator_list
                 if isinstance(d, ast.Name)]
        self.hidden = 'hidden' in names
        self.opaque = self.hidden or 'opaque' in names


class Specs:
    def __init__(self, d=None):
        self.contracts, self.lemmas, self.helpers = {}, {}, {}
        self.fields, self.consts = {}, {}
        self.dir = d or os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), 'contracts')
        for f in sorted(os.listdir(self.dir)):
            if f.endswith('.py') and not f.startswith('_'):
                self.load(os.path.join(self.dir, f))

    def once(self, name, table, path):
        """Names are shared by all contract files."""
        if name in table:
            raise ValueError('%s: %s is defined twice' % (path, name))

    def load(self, path):
        tree = ast.parse(open(path).read(), path)
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Name):
                nm = n.targets[0].id
                try:
                    v = ast.literal_eval(n.value)
                except ValueError:
                    continue
                if nm == 'FIELDS':
                    for c, fs in v.items():
                        d = self.fields.setdefault(c, {})
                        for k, t in fs.items():
                            if d.setdefault(k, t) != t:
                                raise ValueError('%s: %s.%s has two types' %
                                                 (path, c, k))
                else:
                    from .exec import const_of
                    self.once(nm, self.consts, path)
                    self.consts[nm] = const_of(v)
            elif isinstance(n, ast.FunctionDef):
                self.once(n.name, self.helpers, path)
                self.helpers[n.name] = Helper(n)
            elif isinstance(n, ast.ClassDef):
                self.load_class(n, path)

    def load_class(self, n, path):
        c = ContractSpec(n.name)
        c.node, c.file = n, os.path.basename(path)
        bases = [ast.unparse(b) for b in n.bases]
        c.lemma = 'Lemma' in bases
        for s in n.body:
            if isinstance(s, ast.Assign):
                nm = s.targets[0].id
                setattr(c, nm, ast.literal_eval(s.value))
            elif isinstance(s, ast.FunctionDef):
                nm = s.name
                if nm.startswith('requires'):
                    c.requires.append((nm[9:] or 'pre', s))
                elif nm.startswith('ensures'):
                    c.ensures.append((nm[8:] or 'post', s))
                elif nm.startswith('assumes'):
                    # a fact for callers that is not proved
                    c.assumes.append((nm[8:] or 'fact', s))
                elif nm.startswith('raises_'):
                    c.raises[nm[7:]] = s
                elif nm.startswith('may_raise_'):
                    c.may_raise[nm[10:]] = s
                elif nm.startswith('loop'):
                    num, _, tag = nm[4:].partition('_')
                    c.loops.setdefault(int(num), []).append((tag or 'inv', s))
                elif nm.startswith('decreases'):
                    c.decreases[int(nm[9:])] = s
        # clauses about ghost values say nothing to a caller
        c.private = list(c.private) + [
            nm for nm, f in c.requires + c.ensures
            if any(a.arg in c.ghost for a in f.args.args)]
        if c.fresh:
            c.allocates = True
        if c.lemma:
            self.once(c.name, self.lemmas, path)
            self.lemmas[c.name] = c
        elif c.target:
            if c.target in self.contracts:
                raise Exception('two contracts for ' + c.target)
            self.contracts[c.target] = c
