"""Entry points of the package and their abstract executions."""

import ast
import re
import sys

from .interp import Interp
from .model import AnalysisBroken, Class, Func, Program
from .terms import Term, const, leaves, skey, walk

sys.setrecursionlimit(20000)

SCALAR_DOC = re.compile(r"^\W*(int|float|bool|boolean|scalar|number)\b", re.I)
STR_DOC = re.compile(r"^\W*(str|string)\b", re.I)
ARRAYISH = re.compile(r"\b(array|arrays|ndarray|array_like|array-like|lists?|list|matrix|sequence|tuple|dict|iterable|set)\b", re.I)


class Entry:
    def __init__(self, func, cls, kind):
        self.func = func  # Func analysed
        self.cls = cls  # class of self (may be a subclass of func.cls), or None
        self.kind = kind  # 'function', 'method', 'property', 'setter', 'init'

    @property
    def name(self):
        if self.cls is not None and self.func.cls is not self.cls:
            return f"{self.cls.qualname}.{self.func.name}"
        return self.func.qualname

    def __repr__(self):
        return f"<Entry {self.name}>"


class Result:
    def __init__(self, entry, interp, params, returns, raises, obj=None):
        self.entry = entry
        self.it = interp
        self.params = params
        self.returns = returns
        self.raises = raises
        self.obj = obj
        self.events = interp.events


def doc_kind(prog, func, p):
    """Kind of a parameter according to documentation and default."""
    d = prog.inherited_doc(func).get(p)
    if d is None and func.cls is not None:
        for c in func.cls.mro():
            i = c.methods.get("__init__")
            if i is not None:
                d = prog.doc_of(i).get(p)
                if d:
                    break
    txt = d[0] if d else ""
    if txt:
        if ARRAYISH.search(txt):
            return None
        if SCALAR_DOC.search(txt):
            return "scalar" if not re.search(r"\b(str|string)\b", txt) else None
        if STR_DOC.search(txt):
            return "str" if not re.search(r"\bor\b(?!\s+None)", txt) else None
        if re.match(r"^\W*\{", txt):
            return "str"
    dn = func.defaults.get(p)
    if dn is not None and isinstance(dn, ast.Constant) and isinstance(dn.value, (int, float, str, bool)) and dn.value is not None:
        return "str" if isinstance(dn.value, str) else "scalar"
    return None


def param_class(prog, func, p, i):
    """Graph or Filter when the documentation (or the naming convention) says so."""
    g, f = prog.find_class("Graph"), prog.find_class("Filter")
    d = prog.inherited_doc(func).get(p)
    if d is None and func.cls is not None:
        d = digest_cls(prog, func.cls, p)
    txt = d[0] if d else ""
    if re.search(r"\bor\b|list|sparse|array|\[", txt) and re.search(r"[Gg]raph", txt):
        return None
    if re.search(r"networkx|graph_tool|graph-tool|graphtool|nx\.|gt\.", txt, re.I):
        return None
    if re.search(r"\bFilters?\b|filter bank", txt):
        return f
    if re.search(r"\bGraph\b|^\W*graph\b", txt):
        return g
    if not txt:
        if p in ("G", "graph"):
            return g
        if p in ("f", "g", "filters") and func.cls is None and i == 0:
            return f
    return None


def digest_cls(prog, cls, p):
    from .model import digest_doc
    for c in cls.mro():
        d = digest_doc(c.doc).get(p)
        if d:
            return d
    return None


class Program2:
    """Program plus its entry points and cached abstract executions."""

    def __init__(self, repo):
        self.prog = Program(repo)
        self.cache = {}
        self.entries = list(self._entries())
        self.fields = {}

    def _entries(self):
        prog = self.prog
        for m in prog.modules.values():
            for f in m.functions.values():
                if not f.name.startswith("_"):
                    yield Entry(f, None, "function")
            for c in m.classes.values():
                if c.name.startswith("_"):
                    continue
                host = self.host(c)
                for f in c.methods.values():
                    if f.name == "__init__":
                        continue
                    if f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__")):
                        continue
                    k = "property" if f.is_property else "method"
                    yield Entry(f, host, k)
                for f in c.setters.values():
                    yield Entry(f, host, "setter")
                if c.lookup("__init__") is not None:
                    yield Entry(c.lookup("__init__"), c, "init")
                # inherited operations whose meaning an override changes
                over = [n for n in c.methods if n not in ("__init__", "_get_extra_repr", "__repr__") and any(n in b.methods for b in c.mro()[1:])]
                if over:
                    seen = set(c.methods)
                    for b in c.mro()[1:]:
                        for f in b.methods.values():
                            if f.name in seen or f.name.startswith("_"):
                                continue
                            seen.add(f.name)
                            yield Entry(f, c, "property" if f.is_property else "method")

    def host(self, c):
        """The class whose instances run the methods of a mixin."""
        g, f = self.prog.find_class("Graph"), self.prog.find_class("Filter")
        for b in (g, f):
            if b is not None and c is not b and c in b.mro():
                return b
        return c

    def make_params(self, it, func, skip_self, overrides=None):
        args = {}
        names = func.args + func.kwonly
        for i, p in enumerate(names):
            if skip_self and i == 0:
                continue
            if overrides and p in overrides:
                args[p] = overrides[p]
                continue
            cls = param_class(self.prog, func, p, i)
            args[p] = it.param(p, cls, doc_kind(self.prog, func, p) if cls is None else None, func)
        if func.vararg:
            args[func.vararg] = it.param("*" + func.vararg, func=func)
        if func.kwarg:
            args[func.kwarg] = (overrides or {}).get(func.kwarg) or it.param("**" + func.kwarg, func=func)
        return args

    def interp(self, opaque=()):
        self.discover_fields()
        return Interp(self.prog, opaque=opaque, hints={"fields": self.fields})

    def discover_fields(self):
        if self.fields or getattr(self, "_disc", False):
            return
        self._disc = True
        for m in self.prog.modules.values():
            for c in m.classes.values():
                init = c.methods.get("__init__")
                if init is None:
                    continue
                for n in ast.walk(init.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                        t = n.targets[0]
                        if not (isinstance(t.value, ast.Name) and init.args and t.value.id == init.args[0]):
                            continue
                        v = n.value
                        k = None
                        if isinstance(v, ast.Name) and v.id in init.args:
                            k = param_class(self.prog, init, v.id, 1)
                        elif isinstance(v, ast.Call):
                            r = self.prog.resolve_expr(m, v.func)
                            if isinstance(r, Class):
                                k = r
                        if k is not None:
                            self.fields[(c.name, t.attr)] = k

    def run(self, entry, overrides=None, opaque=(), key=None, interp=None, prep=None):
        ck = None
        if overrides is None and interp is None:
            ck = (entry.name, entry.kind, tuple(sorted(opaque)))
            if ck in self.cache:
                return self.cache[ck]
        it = interp or self.interp(opaque)
        func = entry.func
        if callable(overrides):
            overrides = overrides(it)
        is_method = entry.cls is not None and not func.is_staticmethod
        params = self.make_params(it, func, is_method, overrides)
        if entry.kind == "init":
            r = self._run_init(it, entry, params)
        else:
            args = self.entry_env(func, params)
            self_term = None
            if is_method:
                if func.is_classmethod:
                    self_term = it.intern("class", entry.cls, entry.cls.name)
                else:
                    self_term = it.param("self", entry.cls, func=func)
                args[func.args[0]] = self_term
                params = dict(params)
                params["self"] = self_term
            deco = [d for d in func.deco_names() if d not in ("property", "staticmethod", "classmethod") and not d.endswith(".setter")]
            if deco and entry.cls is None:
                r = self._run_decorated(it, entry, params)
            else:
                if prep:
                    prep(it)
                returns, raises = it.run(func, args, self_term=self_term)
                r = Result(entry, it, params, returns, raises)
        if ck is not None:
            self.cache[ck] = r
        return r

    def run_raw(self, entry):
        """A decorated function without its decorators."""
        it = self.interp()
        params = self.make_params(it, entry.func, False)
        returns, raises = it.run(entry.func, self.entry_env(entry.func, params))
        return Result(entry, it, params, returns, raises)

    def entry_env(self, func, params):
        args = {}
        for k, v in params.items():
            if k == func.kwarg:
                args[k] = v if v.op == "kwdict" else Term("kwdict", None, [v])
            elif k == func.vararg:
                args[k] = v if v.op == "tuple" else Term("tuple", None, [Term("starred", None, [v])])
            else:
                args[k] = v
        return args

    def _caller(self, it, module):
        node = ast.parse("def _entry(): pass").body[0]
        return Func(node, module)

    def _run_call(self, it, entry, params, do):
        from .interp import Exit, Frame, State
        f = self._caller(it, entry.func.module)
        st = State()
        envid = it.new_env(st)
        fr = Frame(f, envid, ())
        it.frames.append(fr)
        it.catch.append([])
        try:
            v, st = do(st, f.node)
        finally:
            it.frames.pop()
            raises = it.catch.pop()
        returns = [Exit("return", v, st, f.node, entry.func)] if st is not None else []
        return returns, raises, v

    def _kwsplit(self, func, params, skip_self):
        pos, kw = [], {}
        names = func.args[1:] if skip_self else func.args
        for p in names:
            pos.append(params[p])
        if func.vararg and params[func.vararg].op != "tuple":
            pos.append(Term("starred", None, [params[func.vararg]]))
        elif func.vararg:
            pos += params[func.vararg].args
        for p in func.kwonly:
            kw[p] = params[p]
        if func.kwarg:
            v = params[func.kwarg]
            if v.op == "kwdict":
                kw.update(v.kw)
                if v.args:
                    kw["**"] = Term("kwdict", None, list(v.args))
            else:
                kw["**"] = Term("kwdict", None, [v])
        return pos, kw

    def _run_init(self, it, entry, params):
        pos, kw = self._kwsplit(entry.func, params, True)
        holder = {}

        def do(st, node):
            v, st = it.instantiate(entry.cls, pos, kw, node, st)
            holder["obj"] = v
            return v, st

        # remember the object even when every path raises
        returns, raises, v = self._run_call(it, entry, params, do)
        return Result(entry, it, params, returns, raises, obj=holder.get("obj"))

    def _run_decorated(self, it, entry, params):
        pos, kw = self._kwsplit(entry.func, params, False)
        # the decorated functions of the package are called with keywords
        fn = it.func_term(entry.func)

        def do(st, node):
            p = pos
            k = dict(kw)
            if fn.x is not entry.func and len(fn.x.args) <= 1 and fn.x.kwarg and not fn.x.vararg:
                p = pos[:1]
                k.update(dict(zip(entry.func.args[1:], pos[1:])))
                k.setdefault("title", it.param("title"))
            return it.call(fn, p, k, node, st)

        returns, raises, v = self._run_call(it, entry, params, do)
        return Result(entry, it, params, returns, raises)

    def escaped(self, r):
        """Execute the closures an entry creates but does not call, with symbolic arguments.

        Returns the executions [(closure event, argument terms, returns, raises)]; their events are in r.escaped_events.
        """
        if hasattr(r, "escaped_runs"):
            return r.escaped_runs
        from .interp import Frame
        it = r.it
        out = []
        mark = len(it.events)
        done = set()
        st = it.merge_all([x.state for x in r.returns]) if r.returns else None
        todo = [e for e in it.events if e.kind == "closure"]
        while todo and st is not None:
            ev = todo.pop(0)
            t = ev.term
            if id(t.x.node) in it.ran or id(t.x.node) in done or t.uid not in it.closures:
                continue
            chain = it.closures[t.uid][0]
            if any(e not in st.envs for e in chain):
                continue
            done.add(id(t.x.node))
            f = t.x
            names = [p for p in f.args if p not in f.defaults]
            pos = [it.param(p, doc_cls(self.prog, f, p), None, f) for p in names]
            fr = Frame(ev.func, chain[0] if chain else 0, chain[1:])
            it.frames.append(fr)
            it.catch.append([])
            n0 = len(it.events)
            try:
                v, s2 = it.call(t, pos, {}, f.node, st.clone())
            finally:
                it.frames.pop()
                raises = it.catch.pop()
            out.append((ev, pos, v, s2, raises))
            todo += [e for e in it.events[n0:] if e.kind == "closure"]
        r.escaped_runs = out
        r.escaped_events = it.events[mark:]
        del it.events[mark:]
        return out

    def extra_entries(self):
        """Private functions and methods, for the analyses that must see every function."""
        known = {(e.func, e.cls) for e in self.entries}
        for m in self.prog.modules.values():
            for f in m.functions.values():
                if (f, None) not in known:
                    yield Entry(f, None, "function")
            for c in m.classes.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    h = self.host(c)
                    if (f, h) not in known and f.name != "__init__":
                        yield Entry(f, h, "property" if f.is_property else "method")
                if c.name.startswith("_") and "__init__" in c.methods:
                    yield Entry(c.methods["__init__"], c, "init")

    def all_results(self, opaque=()):
        for e in self.entries:
            yield self.run(e, opaque=opaque)


def doc_cls(prog, f, p):
    return param_class(prog, f, p, 0) if not f.is_lambda else None


def roots(it, t, st=None):
    """Ultimate objects a write through `t` may reach."""
    return it.alias_roots(t, st)
