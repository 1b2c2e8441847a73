"""Front end: parse every module of the package, resolve imports, classes, MRO, functions."""
import ast
import os
import warnings

PKG = "e2cnn"

# canonical spellings of external names
ALIAS = {
    "torch.nn.functional": "F", "torch.nn.functional.": "F.",
}


class Func:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = getattr(node, "name", "<lambda>")
        decs = []
        for d in getattr(node, "decorator_list", []):
            decs.append(ast.unparse(d))
        self.decorators = decs
        self.is_static = "staticmethod" in decs
        self.is_classmethod = "classmethod" in decs
        self.is_property = any(d == "property" or d.endswith("cached_property") for d in decs)
        self.is_abstract = any("abstractmethod" in d for d in decs)

    @property
    def qual(self):
        base = self.module.name
        if self.cls is not None:
            return f"{base}.{self.cls.name}.{self.name}"
        return f"{base}.{self.name}"

    def is_generator(self):
        if isinstance(self.node, ast.Lambda):
            return False
        for n in walk_own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f"<func {self.qual}>"


def walk_own(fn):
    """walk a function body without descending into nested functions/classes"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.class_attrs = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, module, cls=self)
                if any(d.endswith(".setter") for d in f.decorators):
                    continue
                self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.class_attrs[s.target.id] = s.value
        self._mro = None

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.bindings = {}   # name -> ('class', Class) | ('func', Func) | ('mod', dotted) | ('from', dotted, name) | ('const', node)
        self.stars = []


class Project:
    def __init__(self, root="/repo", pkg=PKG, overlay=None):
        self.root = root
        self.overlay = overlay or {}      # path relative to root -> syntax tree (self-tests only)
        self.modules = {}
        self.errors = []
        base = os.path.join(root, pkg)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        for m in self.modules.values():
            self._bind(m)
        self.classes = {}
        for m in self.modules.values():
            for k, b in m.bindings.items():
                if b[0] == "class":
                    self.classes[b[1].qual] = b[1]

    def _load(self, path):
        rel = os.path.relpath(path, self.root)[:-3]
        parts = rel.split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        tree = self.overlay.get(os.path.relpath(path, self.root))
        if tree is None:
            with open(path, encoding="utf8") as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
        self.modules[name] = Module(name, path, tree, is_pkg)

    def _abs(self, m, module, level):
        if level == 0:
            return module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return ".".join(parts + ([module] if module else []))

    def _bind(self, m):
        def stmts(body):
            for s in body:
                yield s
                if isinstance(s, ast.If):
                    yield from stmts(s.body)
                    yield from stmts(s.orelse)
                elif isinstance(s, ast.Try):
                    for h in s.handlers:
                        yield from stmts(h.body)
                    yield from stmts(s.body)
                    yield from stmts(s.orelse)
                elif isinstance(s, ast.With):
                    yield from stmts(s.body)
        m.multi = set()       # names without one fixed value
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.multi |= set(n.names)
        for s in m.tree.body:
            if isinstance(s, ast.Try):
                def names(b):
                    r = set()
                    for x in stmts(b):
                        if isinstance(x, (ast.Import, ast.ImportFrom)):
                            r |= {(al.asname or al.name).split(".")[0] for al in x.names}
                        elif isinstance(x, ast.Assign):
                            r |= {t.id for t in x.targets if isinstance(t, ast.Name)}
                    return r
                for h in s.handlers:
                    m.multi |= names(h.body) & (names(s.body) | names(s.orelse))
        for s in stmts(m.tree.body):
            if isinstance(s, ast.If) and "__main__" in ast.unparse(s.test):
                continue
            if isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        m.bindings[al.asname] = ("mod", al.name)
                    else:
                        m.bindings[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                tgt = self._abs(m, s.module, s.level)
                for al in s.names:
                    if al.name == "*":
                        m.stars.append(tgt)
                    else:
                        m.bindings[al.asname or al.name] = ("from", tgt, al.name)
            elif isinstance(s, ast.ClassDef):
                m.bindings[s.name] = ("class", Class(s, m))
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.bindings[s.name] = ("func", Func(s, m))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.bindings[t.id] = ("const", s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.bindings[s.target.id] = ("const", s.value)

    # -------------------------------------------------------------- resolution
    def exports(self, mod):
        b = mod.bindings.get("__all__")
        if b and b[0] == "const" and isinstance(b[1], (ast.List, ast.Tuple)):
            return [e.value for e in b[1].elts if isinstance(e, ast.Constant)]
        return None

    def resolve(self, mod, name, depth=0):
        """-> ('class', Class) | ('func', Func) | ('mod', dotted) | ('ext', dotted) | ('const', node, Module) | None"""
        if depth > 20:
            return None
        b = mod.bindings.get(name)
        if b is None:
            for st in mod.stars:
                sm = self.modules.get(st)
                if sm is None:
                    continue
                ex = self.exports(sm)
                if ex is not None and name not in ex:
                    continue
                if ex is None and name.startswith("_"):
                    continue
                r = self.resolve(sm, name, depth + 1)
                if r is not None:
                    return r
            sub = f"{mod.name}.{name}"
            if mod.is_pkg and sub in self.modules:
                return ("mod", sub)
            return None
        if b[0] == "class":
            return b
        if b[0] == "func":
            return b
        if name in mod.multi and b[0] in ("const", "mod", "from"):
            return ("multi", f"{mod.name}.{name}")
        if b[0] == "const":
            return ("const", b[1], mod)
        if b[0] == "mod":
            if b[1].split(".")[0] == PKG:
                return ("mod", b[1])
            return ("ext", b[1])
        if b[0] == "from":
            return self.resolve_dotted(b[1], b[2], depth + 1)
        return None

    def resolve_dotted(self, modname, name, depth=0):
        if modname.split(".")[0] != PKG:
            return ("ext", f"{modname}.{name}")
        sm = self.modules.get(modname)
        if sm is None:
            return None
        r = self.resolve(sm, name, depth + 1)
        if r is None and f"{modname}.{name}" in self.modules:
            return ("mod", f"{modname}.{name}")
        return r

    # -------------------------------------------------------------- classes
    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.resolve_expr(cls.module, b)
            out.append(r)
        return out

    def resolve_expr(self, mod, node):
        if isinstance(node, ast.Name):
            return self.resolve(mod, node.id)
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(mod, node.value)
            if r is None:
                return None
            if r[0] == "mod":
                return self.resolve_dotted(r[1], node.attr)
            if r[0] == "ext":
                return ("ext", f"{r[1]}.{node.attr}")
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve_expr(mod, ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    def mro(self, cls):
        if cls._mro is None:
            seqs = []
            direct = []
            for b in self.bases(cls):
                if b and b[0] == "class":
                    seqs.append(list(self.mro(b[1])))
                    direct.append(b[1])
                elif b and b[0] == "ext":
                    seqs.append([("ext", b[1])])
                    direct.append(("ext", b[1]))
            seqs.append(direct)
            out = [cls]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            cls._mro = out
        return cls._mro

    def find_method(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if isinstance(c, Class) and name in c.methods:
                return c.methods[name]
        return None

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.class_attrs:
                return c.class_attrs[name], c.module
        return None

    def ext_bases(self, cls):
        return [c[1] for c in self.mro(cls) if not isinstance(c, Class)]

    def subclasses(self, cls):
        return [c for c in self.classes.values() if c is not cls and cls in self.mro(c)]

    def cls(self, name):
        """class by (unique or dotted-suffix) name"""
        c = [x for q, x in self.classes.items() if q == name or q.endswith("." + name)]
        if len(c) == 1:
            return c[0]
        if not c:
            return None
        c.sort(key=lambda x: len(x.qual))
        return c[0]

    def func(self, name):
        """function by dotted suffix, e.g. 'group.utils.psi'"""
        for m in self.modules.values():
            for k, b in m.bindings.items():
                if b[0] == "func" and (b[1].qual == name or b[1].qual.endswith("." + name)):
                    return b[1]
        return None

    def all_functions(self):
        """every function and method (not nested ones), in a fixed order"""
        for mn in sorted(self.modules):
            m = self.modules[mn]
            for k in sorted(m.bindings):
                b = m.bindings[k]
                if b[0] == "func":
                    yield b[1]
                elif b[0] == "class":
                    for n in sorted(b[1].methods):
                        yield b[1].methods[n]
