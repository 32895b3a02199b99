"""Program model: modules, classes, functions, docstrings and name resolution.

Everything is read from the sources under <repo>/pygsp on every run.
"""

import ast
import os
import re


class AnalysisBroken(Exception):
    """The analysis cannot do its work (vanished anchor, unparsable source)."""


def digest_doc(doc):
    """Return {param: (type text, description)} from a numpydoc docstring."""
    out = {}
    if not doc:
        return out
    lines = doc.expandtabs().splitlines()
    section = None
    indent = None
    cur = None
    for i, line in enumerate(lines):
        strip = line.strip()
        if i + 1 < len(lines) and re.fullmatch(r"\s*-{3,}\s*", lines[i + 1]):
            section = strip.lower()
            indent = len(line) - len(line.lstrip())
            cur = None
            continue
        if re.fullmatch(r"-{3,}", strip):
            continue
        if section not in ("parameters", "other parameters"):
            continue
        if not strip:
            continue
        ind = len(line) - len(line.lstrip())
        if ind == indent:
            m = re.match(r"([\w\*, ]+?)\s*:\s*(.*)$", strip)
            if m:
                cur = [n.strip().lstrip("*") for n in m.group(1).split(",")]
                for n in cur:
                    out[n] = [m.group(2), ""]
            elif re.fullmatch(r"\*{0,2}\w+", strip):
                cur = [strip.lstrip("*")]
                out[cur[0]] = ["", ""]
            else:
                cur = None
        elif cur:
            for n in cur:
                out[n][1] += " " + strip
    return {k: tuple(v) for k, v in out.items()}


def doc_options(typetext, desc=""):
    """Return the option strings a numpydoc type lists: ``{'a', 'b'}``."""
    m = re.search(r"\{([^{}]*)\}", typetext)
    if m:
        return re.findall(r"""['"]([^'"]+)['"]""", m.group(1))
    return []


class Func:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = getattr(node, "name", "<lambda>")
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.args = self.posonly + [x.arg for x in a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.args[len(self.args) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[x.arg] = d
        self.is_lambda = isinstance(node, ast.Lambda)
        self.decorators = [] if self.is_lambda else node.decorator_list
        self.is_generator = not self.is_lambda and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)
        )

    @property
    def all_params(self):
        return (
            self.args
            + ([self.vararg] if self.vararg else [])
            + self.kwonly
            + ([self.kwarg] if self.kwarg else [])
        )

    @property
    def qualname(self):
        q = self.name
        if self.outer is not None:
            return f"{self.outer.qualname}.{q}"
        if self.cls is not None:
            q = f"{self.cls.name}.{q}"
        return f"{self.module.name}.{q}"

    @property
    def doc(self):
        if self.is_lambda:
            return None
        return ast.get_docstring(self.node, clean=False)

    def deco_names(self):
        out = []
        for d in self.decorators:
            if isinstance(d, ast.Call):
                d = d.func
            out.append(ast.unparse(d))
        return out

    @property
    def is_property(self):
        return "property" in self.deco_names() or any(
            n.endswith("cached_property") for n in self.deco_names()
        )

    @property
    def is_setter(self):
        return any(n.endswith(".setter") for n in self.deco_names())

    @property
    def is_classmethod(self):
        return "classmethod" in self.deco_names()

    @property
    def is_staticmethod(self):
        return "staticmethod" in self.deco_names()

    def __repr__(self):
        return f"<Func {self.qualname}>"


def walk_own(node):
    """Walk a function body without entering nested functions or classes."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.base_nodes = node.bases
        self.bases = []
        self.ext_bases = []
        for st in node.body:
            self._scan(st)

    def _scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(st, self.module, self)
            if f.is_setter:
                self.setters[f.name] = f
            else:
                self.methods[f.name] = f
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
            self.attrs[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try, ast.With)):
            for sub in ast.iter_child_nodes(st):
                if isinstance(sub, ast.stmt):
                    self._scan(sub)

    @property
    def qualname(self):
        return f"{self.module.name}.{self.name}"

    def mro(self):
        out = [self]
        seqs = [b.mro() for b in self.bases] + [list(self.bases)]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in t if x is not h] for t in seqs]
            seqs = [t for t in seqs if t]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, other):
        return other in self.mro()

    @property
    def doc(self):
        return ast.get_docstring(self.node, clean=False)

    def __repr__(self):
        return f"<Class {self.qualname}>"


class Module:
    def __init__(self, name, path, src, is_pkg):
        self.name = name
        self.path = path
        self.src = src
        self.is_pkg = is_pkg
        self.tree = ast.parse(src, path)
        self.functions = {}
        self.classes = {}
        self.imports = {}  # local name -> ('module', dotted) or ('from', dotted, name)
        self.globals = {}  # name -> value node
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = Func(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st, self)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("module", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_from(st)
                for a in st.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.globals[n.id] = st.value if t is n else None
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for sub in ("body", "orelse", "finalbody"):
                    self._scan(getattr(st, sub, []) or [])
                for h in getattr(st, "handlers", []) or []:
                    self._scan(h.body)

    def resolve_from(self, st):
        if not st.level:
            return st.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[: len(parts) - (st.level - 1)]
        if st.module:
            parts = parts + st.module.split(".")
        return ".".join(parts)

    @property
    def rel(self):
        return self.path


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        root = os.path.join(repo, "pygsp")
        if not os.path.isdir(root):
            raise AnalysisBroken(f"no package at {root}")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__", "data"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = f == "__init__.py"
                if is_pkg:
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    self.modules[name] = Module(name, rel, src, is_pkg)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {rel}: {e}")
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_nodes:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, Class):
                        c.bases.append(r)
                    else:
                        c.ext_bases.append(ast.unparse(b))

    # -- name resolution ---------------------------------------------------

    def resolve_name(self, module, name, depth=0):
        """Resolve a module-level name: Func, Class, Module, ('ext', dotted),
        ('global', Module, name) or None."""
        if depth > 12:
            return None
        if name in module.functions:
            return module.functions[name]
        if name in module.classes:
            return module.classes[name]
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "module":
                return self.resolve_dotted(imp[1])
            return self.resolve_member(imp[1], imp[2], depth + 1)
        if name in module.globals:
            return ("global", module, name)
        return None

    def resolve_dotted(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        return ("ext", dotted)

    def resolve_member(self, modname, name, depth=0):
        if modname in self.modules:
            m = self.modules[modname]
            r = self.resolve_name(m, name, depth)
            if r is not None:
                return r
            if f"{modname}.{name}" in self.modules:
                return self.modules[f"{modname}.{name}"]
            return None
        if f"{modname}.{name}" in self.modules:
            return self.modules[f"{modname}.{name}"]
        return ("ext", f"{modname}.{name}" if modname else name)

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if isinstance(b, Module):
                return self.resolve_member(b.name, node.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
        return None

    # -- enumeration -------------------------------------------------------

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def cls(self, name):
        for c in self.all_classes():
            if c.name == name:
                return c
        raise AnalysisBroken(f"class {name} not found")

    def find_class(self, name):
        for c in self.all_classes():
            if c.name == name:
                return c
        return None

    def func(self, modname, name):
        m = self.modules.get(modname)
        if m is None or name not in m.functions:
            # moved? look everywhere
            for m in self.modules.values():
                if name in m.functions:
                    return m.functions[name]
            raise AnalysisBroken(f"function {modname}.{name} not found")
        return m.functions[name]

    def graph_classes(self):
        g = self.cls("Graph")
        return [c for c in self.all_classes() if c.is_subclass(g)]

    def filter_classes(self):
        f = self.cls("Filter")
        return [c for c in self.all_classes() if c.is_subclass(f)]

    def all_functions(self):
        """Every function, method and property of the package (nested functions excluded)."""
        out = []
        for m in self.modules.values():
            out += m.functions.values()
            for c in m.classes.values():
                out += c.methods.values()
                out += c.setters.values()
        return out

    def public_functions(self):
        for m in self.modules.values():
            for f in m.functions.values():
                if not f.name.startswith("_"):
                    yield f

    def doc_of(self, func):
        """Parameter documentation of a callable, own or of its class."""
        d = dict(digest_doc(func.doc))
        if func.cls is not None and func.name == "__init__":
            for k, v in digest_doc(func.cls.doc).items():
                d.setdefault(k, v)
        return d

    def inherited_doc(self, func):
        d = self.doc_of(func)
        if func.cls is not None:
            for c in func.cls.mro()[1:]:
                g = c.methods.get(func.name)
                if g is not None:
                    for k, v in self.doc_of(g).items():
                        d.setdefault(k, v)
        return d
