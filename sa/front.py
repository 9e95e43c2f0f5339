"""Front end: parses the sources of /repo and resolves modules, classes, functions."""
import ast, os, warnings

REPO = os.environ.get("GPCM_REPO", "/repo")


class AnalysisError(Exception):
    """An anchor of the analysis vanished: the check cannot give an answer."""


class FnInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        q = (cls.name + "." if cls else "") + self.name
        if parent:
            q = parent + "." + q
        self.qual = q
        self.decos = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self._locals = None

    @property
    def where(self):
        return f"{self.module.rel}:{self.qual}"

    def has(self, *names):
        return any(d.split("(")[0].split(".")[-1] in names for d in self.decos)

    def __repr__(self):
        return "<fn " + self.where + ">"


class ClsInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.bases = node.bases
        self.own = {}  # name -> list of FnInfo
        self.consts = {}  # name -> expression

    def __repr__(self):
        return "<cls " + self.name + ">"


class Module:
    def __init__(self, path, rel, dotted):
        self.path, self.rel, self.dotted = path, rel, dotted
        self.src = open(path, encoding="utf-8").read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.src)
        self.imports = {}  # local name -> dotted path
        self.fns = {}  # name -> list of FnInfo
        self.classes = {}
        self.assigns = {}  # name -> list of expressions


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        for sub in ("gpcm", "experiments"):
            base = os.path.join(self.root, sub)
            for d, dirs, files in os.walk(base):
                dirs[:] = sorted(x for x in dirs if not x.startswith((".", "__pycache__", "_experiments")))
                for f in sorted(files):
                    if f.endswith(".py") and f != "_version.py":
                        p = os.path.join(d, f)
                        rel = os.path.relpath(p, self.root)
                        dotted = rel[:-3].replace(os.sep, ".")
                        if dotted.endswith(".__init__"):
                            dotted = dotted[: -len(".__init__")]
                        try:
                            self.modules[dotted] = Module(p, rel, dotted)
                        except SyntaxError as e:
                            raise AnalysisError(f"cannot parse {rel}: {e}")
        self.attached = []  # functions attached with @method(cls)
        self.fit_overloads = []
        for m in self.modules.values():
            self._scan(m)
        for fn, clsname in self.attached:
            c = self.find_class(fn.module, clsname)
            if c is not None:
                c.own.setdefault(fn.name, []).append(fn)
                fn.attached_to = c

    def _scan(self, m):
        is_pkg = os.path.basename(m.path) == "__init__.py"
        pkg = m.dotted if is_pkg else m.dotted.rpartition(".")[0]

        def imp(node):
            if isinstance(node, ast.Import):
                for a in node.names:
                    m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            else:
                base = node.module or ""
                if node.level:
                    parts = pkg.split(".")
                    parts = parts[: len(parts) - (node.level - 1)]
                    base = ".".join(parts + ([node.module] if node.module else []))
                for a in node.names:
                    m.imports[a.asname or a.name] = base + "." + a.name

        for node in ast.walk(m.tree):
            if isinstance(node, (ast.Import, ast.ImportFrom)):
                imp(node)

        def top(stmts):
            for node in stmts:
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fn = FnInfo(node, m)
                    if any(d == "fit.dispatch" for d in fn.decos):
                        self.fit_overloads.append(fn)
                    else:
                        m.fns.setdefault(node.name, []).append(fn)
                    for d in node.decorator_list:
                        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "method" and d.args:
                            self.attached.append((fn, ast.unparse(d.args[0])))
                elif isinstance(node, ast.ClassDef):
                    c = ClsInfo(node, m)
                    m.classes[node.name] = c
                    for b in node.body:
                        if isinstance(b, ast.FunctionDef):
                            c.own.setdefault(b.name, []).append(FnInfo(b, m, c))
                        elif isinstance(b, ast.Assign):
                            for t in b.targets:
                                if isinstance(t, ast.Name):
                                    c.consts[t.id] = b.value
                elif isinstance(node, ast.Assign):
                    for t in node.targets:
                        if isinstance(t, ast.Name):
                            m.assigns.setdefault(t.id, []).append(node.value)
                elif isinstance(node, (ast.If, ast.Try)):
                    top(node.body)

        top(m.tree.body)

    def find_class(self, module, name):
        if name in module.classes:
            return module.classes[name]
        d = module.imports.get(name)
        if d:
            r = self.resolve(d)
            if isinstance(r, ClsInfo):
                return r
        return None

    def resolve(self, dotted, depth=0):
        """Resolve a dotted path to a module, class, or functions of the program."""
        if dotted in self.modules:
            return self.modules[dotted]
        if depth > 5 or "." not in dotted:
            return None
        base, _, name = dotted.rpartition(".")
        m = self.modules.get(base)
        if m is None:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.fns:
            return m.fns[name]
        if name in m.imports:
            return self.resolve(m.imports[name], depth + 1)
        # Re-exported by a star import.
        for node in m.tree.body:
            if isinstance(node, ast.ImportFrom) and any(a.name == "*" for a in node.names):
                pkg = m.dotted if m.path.endswith("__init__.py") else m.dotted.rpartition(".")[0]
                r = self.resolve(".".join(x for x in (pkg, node.module, name) if x), depth + 1)
                if r is not None:
                    return r
        return None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            p = self.find_class(c.module, ast.unparse(b))
            if p is not None:
                for x in self.mro(p):
                    if x not in out:
                        out.append(x)
        return out

    def methods(self, c, name):
        for x in self.mro(c):
            if name in x.own:
                return x.own[name]
        return None

    def class_const(self, c, name):
        for x in self.mro(c):
            if name in x.consts:
                return x.consts[name]
        return None

    def subclass(self, c, name):
        return any(x.name == name for x in self.mro(c))

    def get_class(self, dotted):
        c = self.resolve(dotted)
        if not isinstance(c, ClsInfo):
            raise AnalysisError(f"class {dotted} not found")
        return c

    def all_functions(self):
        """All functions, methods and nested functions."""
        out = []

        def nested(fn):
            out.append(fn)
            for n in ast.iter_child_nodes(fn.node):
                walk(n, fn)

        def walk(n, fn):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                nested(FnInfo(n, fn.module, None, fn.qual))
                return
            for k in ast.iter_child_nodes(n):
                walk(k, fn)

        for m in self.modules.values():
            for fs in m.fns.values():
                for f in fs:
                    nested(f)
            for c in m.classes.values():
                for fs in c.own.values():
                    for f in fs:
                        if f.cls is c:
                            nested(f)
        for f in self.fit_overloads:
            nested(f)
        return out
