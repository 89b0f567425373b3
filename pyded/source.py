"""Loads the real source of /repo/taupy on every run and builds class and
function tables from its AST.  Nothing is copied by hand: what the verifier
executes symbolically is exactly the AST of the files in the working tree."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class FuncInfo:
    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = node.name
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.is_static = 'staticmethod' in decs
        self.is_class = 'classmethod' in decs
        self.is_property = 'property' in decs
        self.qual = (cls.name + '.' if cls else module.name + '.') + node.name
        # loops in source order, nested loops after their parent
        self.loops = {}
        for n in walk_pre(node):
            if isinstance(n, (ast.For, ast.While)):
                self.loops[id(n)] = len(self.loops)


def walk_pre(node):
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield ch
        for x in walk_pre(ch):
            yield x


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.consts = {}, {}
        self.bases = [ast.unparse(b) for b in node.bases]
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(s, module, self)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 \
                    and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value


class ModuleInfo:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path, 'rb').read(), path)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for s in ast.walk(self.tree):
            if isinstance(s, ast.ImportFrom) and s.module:
                for a in s.names:
                    self.imports[a.asname or a.name] = (
                        s.module.split('.')[-1], a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (
                        a.name, None)
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = FuncInfo(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 \
                    and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        d = os.path.join(self.repo, 'taupy')
        self.modules, self.classes = {}, {}
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                m = ModuleInfo(f[:-3], os.path.join(d, f))
                self.modules[m.name] = m
                for c in m.classes.values():
                    self.classes[c.name] = c

    def find(self, qual):
        """'Class.method' or 'module.function' -> FuncInfo or None"""
        a, b = qual.split('.')
        if a in self.classes and b in self.classes[a].methods:
            return self.classes[a].methods[b]
        if a in self.modules and b in self.modules[a].funcs:
            return self.modules[a].funcs[b]
        if a in self.classes:
            return self.method(a, b)
        return None

    def method(self, cls, name):
        c = self.classes.get(cls)
        while c is not None:
            if name in c.methods:
                return c.methods[name]
            nxt = None
            for b in c.bases:
                b = b.split('.')[-1]
                if b in self.classes:
                    nxt = self.classes[b]
                    break
            c = nxt
        return None

    def class_const(self, cls, name):
        c = self.classes.get(cls)
        while c is not None:
            if name in c.consts:
                return c.consts[name], c
            nxt = None
            for b in c.bases:
                b = b.split('.')[-1]
                if b in self.classes:
                    nxt = self.classes[b]
                    break
            c = nxt
        return None
