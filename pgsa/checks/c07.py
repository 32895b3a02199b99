"""C07: every accepted parameter is honoured."""

import ast

import itertools
import re

from ..analysis import Entry
from ..terms import Term, const, leaves, walk
from . import c05
from .common import each

# what makes no difference, and why
EXEMPT = {
    # (owner of the operation, parameter): reason
    ("Gabor", "method"): "the bank is filtered exactly: the method of the base class is only checked",
    ("Gabor", "order"): "the bank is filtered exactly: the order of the approximation of the base class has no meaning",
    ("Gabor", "kwargs"): "the options of the base class's filter() have no meaning",
    ("Modulation", "method"): "the bank is filtered exactly",
    ("Modulation", "order"): "the bank is filtered exactly",
    ("Modulation", "kwargs"): "the bank is filtered exactly",
}
# options under which another parameter has no meaning: {(operation, option): {value: parameters}}
MODES = {
    ("filter", "method"): {"exact": {"order"}},
    ("analyze", "method"): {"exact": {"order"}},
    ("synthesize", "method"): {"exact": {"order"}},
    ("set_coordinates", "kind"): {k: {"kwargs"} | ({"seed"} if k.endswith("1D") or k in ("line2D", "ring2D", "laplacian_eigenmap2D", "laplacian_eigenmap3D") else set())
                                  for k in ("line1D", "line2D", "ring2D", "random2D", "random3D", "community2D", "laplacian_eigenmap2D", "laplacian_eigenmap3D")},
    ("graph_multiresolution", "sparsify"): {False: {"sparsify_eps"}},
    ("prox_tv", "use_matrix"): {False: {"At", "A"}},
    ("NNGraph", "NNtype"): {"knn": {"epsilon"}, "radius": {"k"}},
    ("_plot_graph", "backend"): {"pyqtgraph": {"ax", "colorbar", "highlight", "indices"}},
    ("plot", "backend"): {"pyqtgraph": {"ax", "colorbar", "highlight", "indices"}},
}
# attributes with a meaning of their own
CORE = {"N", "Ne", "n_vertices", "n_edges", "Nf", "n_filters", "coords", "plotting", "kernels", "W", "A", "G", "signals"}
SAME = {"numpy.asarray", "numpy.asanyarray", "numpy.array", "numpy.atleast_1d", "numpy.ascontiguousarray", "builtins.list", "builtins.tuple", "builtins.int", "builtins.float",
        "builtins.bool", "builtins.str", "numpy.squeeze", "copy.copy", "copy.deepcopy", "numpy.copy"}
SAME_M = {"copy", "astype", "squeeze", "tolist"}

PURE = ("numpy.", "scipy.", "builtins.", "functools.", "math.", "copy.", "itertools.", "collections.", "operator.")
IMPURE = {"builtins.print", "builtins.setattr", "builtins.open", "builtins.exec", "builtins.eval", "builtins.delattr", "builtins.input"}
QUIET = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}


class Reach:
    """What a set of values is computed from, following the objects they consist of in a final state."""

    def __init__(self, it, obj=None):
        self.it = it
        self.obj = obj
        self.seen = set()
        self.params = set()
        self.forwarded = set()

    def add(self, t, st):
        stack = [t]
        while stack:
            u = stack.pop()
            if u is None or not isinstance(u, Term):
                continue
            k = (u.uid)
            if k in self.seen:
                continue
            self.seen.add(k)
            if u.op == "param":
                self.params.add(u.ident)
            if u.op == "kwget":
                self.forwarded.add(u.x if isinstance(u.x, str) and u.name is None else u.name)
            stack.extend(u.children())
            if st is not None:
                v = st.ver.get(u.ident)
                if v is not None and v is not u:
                    stack.append(v)
                if u.op == "obj":
                    for (i, f), w in st.heap.items():
                        if i != u.ident:
                            continue
                        if self.obj is not None and self.obj.ident == i and f not in self.read:
                            # recording a parameter, or the default it stands for, under its name is no use of it
                            if w.op == "param" and w.name.lstrip("*") == f.lstrip("_"):
                                continue
                            if w.op == "phi":
                                z = Reach(self.it, self.obj)
                                z.seen = {x for x in self.seen if x == k}
                                z.add(w, st)
                                named = {x.ident for x in walk(w) if x.op == "param" and x.name.lstrip("*") == f.lstrip("_")}
                                if named:
                                    self.params |= z.params - named
                                    self.forwarded |= z.forwarded
                                    continue
                        stack.append(w)
            if u.op == "func":
                self.capture(u, st, stack)
            if u.op == "maybe" and isinstance(u.x, Term):
                stack.append(u.x)

    def capture(self, u, st, stack):
        """The variables a function object reads when it is called."""
        c = self.it.closures.get(u.uid)
        if c is None or st is None:
            return
        names = {n.id for n in ast.walk(u.x.node) if isinstance(n, ast.Name)}
        for e in c[0]:
            for n in names:
                v = st.envs.get(e, {}).get(n)
                if v is not None:
                    stack.append(v)
        if c[2] is not None:
            stack.append(c[2])


def effects(it, r):
    """What the execution does besides returning: [(terms, state)]."""
    for ev in list(r.events) + list(r.escaped_events):
        st = ev.state
        if ev.kind in ("store", "mstore", "gstore"):
            if ev.kind == "store" and local(ev.term):
                continue
            yield ev, [ev.term, ev.info[1]] if ev.kind != "gstore" else [ev.term]
        elif ev.kind == "mutate":
            rts = [t for t, d in it.alias_roots(ev.term, st)]
            if rts and all(t.op not in ("param", "attr", "opaque", "unk", "elem") for t in rts):
                continue
            yield ev, [ev.info["index"], ev.info["value"]]
        elif ev.kind == "ecall":
            n = ev.term.name or ""
            if (n.startswith(PURE) or n.startswith("pkg:")) and n not in IMPURE and not n.startswith("numpy.random"):
                continue
            yield ev, [ev.term]
        elif ev.kind == "mcall":
            if ev.term.name in QUIET or it.kind(ev.term.args[0]) in ("array", "sparse", "str", "scalar"):
                continue
            yield ev, [ev.term]
        elif ev.kind in ("ucall", "with"):
            yield ev, [ev.term]


def influence(P, r, strong=False):
    return reach(P, r, strong).params


def reach(P, r, strong=False):
    """The parameters that reach what the operation returns, leaves behind, asks of others or (unless `strong`) checks."""
    it = r.it
    P.escaped(r)
    R = Reach(it, r.obj if strong else None)
    exits = list(r.returns) + ([] if strong else list(r.raises))
    conds = []
    for x in exits:
        R.add(x.value, x.state)
        conds += [(c, t, x.state) for c, t in x.state.path]
        if r.obj is not None:
            R.add(r.obj, x.state)
    for ev, ts in effects(it, r):
        for t in ts:
            if isinstance(t, Term):
                R.add(t, ev.state)
        conds += [(c, t, ev.state) for c, t in ev.state.path]
    for ev in list(r.events) + list(r.escaped_events):
        if ev.kind == "if" and isinstance(ev.node, ast.If) and leaps(ev.node):
            R.add(ev.term, ev.state)
        if ev.kind == "loop":
            R.add(ev.term, ev.state)
        if ev.kind == "assert" and not strong:
            R.add(ev.term, ev.state)
    for ev, pos, v, s2, raises in r.escaped_runs:
        R.add(v, s2)
    both = {}
    for c, t, st in conds:
        both.setdefault(c.uid, set()).add(t)
    deciding = set()
    for ev in list(r.events) + list(r.escaped_events):
        if ev.kind == "if" and isinstance(ev.node, ast.If) and not any(isinstance(z, ast.Raise) for b in ev.node.body + ev.node.orelse for z in ast.walk(b)):
            deciding |= {u.uid for u in tests(ev.term)}
    for c, t, st in conds:
        if not strong or len(both[c.uid]) == 2 or c.uid in deciding:
            R.add(c, st)
    return R


def tests(c):
    """A condition and those it is made of."""
    out, stack = [], [c]
    while stack:
        u = stack.pop()
        out.append(u)
        if u.op == "bool" or u.op == "un" and u.name == "not":
            stack += u.args
    return out


def leaps(n):
    """The branch leaves the straight line."""
    return any(isinstance(z, (ast.Break, ast.Continue, ast.Return)) for b in n.body + n.orelse for z in ast.walk(b))


def local(t):
    """An object made by the call itself: what is stored in it counts when it is part of what is left behind."""
    return all(u.op == "obj" for u in leaves(t))


def attributes_read(prog):
    """Names of attributes some function other than a constructor or a textual representation reads."""
    out = set()
    for m in prog.modules.values():
        def visit(n):
            if isinstance(n, ast.FunctionDef) and n.name in ("__init__", "_get_extra_repr"):
                return
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            for c in ast.iter_child_nodes(n):
                visit(c)
        visit(m.tree)
    return out


def sources(t):
    """What a value is, up to conversions: its alternatives."""
    out, stack, seen = [], [t], set()
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op == "phi":
            stack += u.args[1:]
        elif u.op in ("mu", "maybe"):
            stack += u.args
        elif u.op == "ecall" and u.name in SAME and u.args:
            stack.append(u.args[0])
        elif u.op == "mcall" and u.name in SAME_M:
            stack.append(u.args[0])
        elif u.op in ("list", "tuple") and len(u.args) == 1 and u.args[0].op != "starred":
            stack.append(u.args[0])
        else:
            out.append(u)
    return out


def given(t, p):
    """Alternatives of the value of an attribute when the parameter `p` is given."""
    out, stack, seen = [], [t], set()
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op == "phi":
            c, truth = u.args[0], True
            while c.op == "un" and c.name == "not":
                c, truth = c.args[0], not truth
            if c.op == "cmp" and c.name in ("is", "is not", "==", "!=") and any(a is p for a in c.args) and any(a.op == "const" and a.x is None for a in c.args):
                none = (c.name in ("is", "==")) == truth
                stack.append(u.args[2] if none else u.args[1])
            elif c is p:
                stack.append(u.args[1] if truth else u.args[2])
            else:
                stack += u.args[1:]
        elif u.op in ("mu", "maybe"):
            stack += u.args
        elif u.op == "ecall" and u.name in SAME and u.args:
            stack.append(u.args[0])
        elif u.op == "mcall" and u.name in SAME_M:
            stack.append(u.args[0])
        elif u.op in ("list", "tuple") and len(u.args) == 1 and u.args[0].op != "starred":
            stack.append(u.args[0])
        else:
            out.append(u)
    return out


def why_not(e, p):
    for c in ([e.cls] if e.cls is not None else []):
        for b in c.mro():
            if (b.name, p) in EXEMPT:
                return EXEMPT[(b.name, p)]
    return None


def only_option(P, e, p):
    """A parameter with one documented value: there is nothing to choose."""
    docs = c05.own_docs(P.prog, e)
    owner = f"{e.func.cls.name}.{e.func.name}" if e.func.cls is not None else e.func.name
    opts = (c05.doc_options(docs.get(p, ("",))[0]) if p in docs else []) or c05.PROSE.get((owner, p)) or c05.PROSE.get((owner.split(".")[-1], p)) or []
    return len(opts) == 1


def unsupported(r, t):
    """The parameter is there to be refused: NotImplementedError."""
    for x in r.raises:
        if x.value is not None and (x.value.name or "").endswith("NotImplementedError"):
            if any(u is t for c, _ in x.state.path for u in walk(c)):
                return True
    return False


def dead(r):
    return not r.returns


def check_effect(P, R, r, inf, inf2):
    e = r.entry
    for p, t in r.params.items():
        if p == "self" or t.op != "param":
            continue
        R.count("parameters")
        where = f"{e.func.module.path}:{e.func.node.lineno}"
        if why_not(e, p) or e.func.name.startswith("__") and e.func.name != "__init__":
            R.count("parameters_without_meaning")
        elif t.ident not in inf:
            R.finding("ignored", f"{e.name}:{p}", f"{e.name} accepts {p}, but {p} reaches neither the result, nor an attribute, nor a check", where, e.name)
        elif t.ident not in inf2 and not only_option(P, e, p) and not unsupported(r, t):
            R.finding("only-checked", f"{e.name}:{p}", f"{e.name} checks or records {p}, but nothing it does or computes depends on {p}", where, e.name)


def check_decorated(P, R, r):
    """A decorated function honours its parameters itself."""
    e = r.entry
    if e.cls is not None or not [d for d in e.func.deco_names() if d not in ("property", "staticmethod", "classmethod")]:
        return
    try:
        raw = P.run_raw(e)
    except Exception:  # noqa: BLE001 - C13 decides whether it runs
        return
    if dead(raw):
        return
    inf = influence(P, raw)
    for p, t in raw.params.items():
        if t.op == "param" and not t.name.startswith("*") and t.ident not in inf and not why_not(e, p) and p not in ("self", "i"):
            R.finding("ignored", f"{e.name}:{p}", f"{e.name} accepts {p}, but {p} reaches neither the result, nor an attribute, nor a check", f"{e.func.module.path}:{e.func.node.lineno}", e.name)


def taken(f):
    """Options an operation takes out of its ** arguments: {name: (line, names of the variable)}."""
    out = {}
    if not f.kwarg:
        return out
    for n in ast.walk(f.node):
        k = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "get") and isinstance(n.func.value, ast.Name) and n.func.value.id == f.kwarg and n.args:
            k = n.args[0]
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == f.kwarg and isinstance(n.ctx, ast.Load):
            k = n.slice
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
            out.setdefault(k.value, n.lineno)
    return out


def check_taken(P, R, r):
    e = r.entry
    names = taken(e.func)
    if not names:
        return
    inf = reach(P, r).forwarded
    for k, line in names.items():
        R.count("options_taken_from_keywords")
        if k not in inf:
            R.finding("ignored", f"{e.name}:**{k}", f"{e.name} takes {k} out of its keyword arguments, but it reaches neither the result, nor an attribute, nor a check",
                      f"{e.func.module.path}:{line}", e.name)
    public = {x.func for x in P.entries}
    for ev in r.events:
        if ev.kind != "call" or ev.func is not e.func:
            continue
        f, env = ev.info
        if f not in public or f is e.func:
            continue
        for q, v in env.items():
            if q not in names or q not in f.defaults:
                continue
            if v.op == "const" and given_default(f, q, v) or v.op == "kwget" and v.x == "default" and any(
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == q for n in ast.walk(e.func.node)):
                R.finding("dropped", f"{e.name}:**{q}->{f.qualname}", f"{e.name} accepts {q} but calls {f.qualname}, which accepts {q} too, without it", ev.site, e.name, ev.trace())


def given_default(f, q, v):
    try:
        return ast.literal_eval(f.defaults[q]) == v.x
    except (ValueError, SyntaxError):
        return False


NUMERIC = re.compile(r"^\W*(int|integer|float|number|real|scalar|positive|non-?negative)\b", re.I)


def check_truth(P, R, e):
    """A numeric parameter replaced by a default when it is false, i.e. also when zero was given."""
    docs = None
    nones = {p for p, d in e.func.defaults.items() if isinstance(d, ast.Constant) and d.value is None}
    if not nones or not isinstance(e.func.node, ast.FunctionDef):
        return

    def is_p(x):
        return isinstance(x, ast.Name) and x.id in nones

    def binds(body, p):
        for s in body:
            for n in ast.walk(s):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
                if any(isinstance(t, ast.Name) and t.id == p for t in ts):
                    return True
        return False

    hits = []
    for n in ast.walk(e.func.node):
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and is_p(n.values[0]) and not isinstance(getattr(n, "ctx", None), ast.Store):
            hits.append((n.values[0].id, n, "or"))
        elif isinstance(n, ast.If):
            t = n.test
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and is_p(t.operand) and binds(n.body, t.operand.id):
                hits.append((t.operand.id, n, "if"))
            elif is_p(t) and n.orelse and binds(n.orelse, t.id):
                hits.append((t.id, n, "if"))
        elif isinstance(n, ast.IfExp):
            t, other = n.test, n.orelse
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, other = t.operand, n.body
            if is_p(t) and not (isinstance(other, ast.Constant) and not other.value or is_p(other)):
                hits.append((t.id, n, "ifexp"))
    tests = {id(x) for n in ast.walk(e.func.node) if isinstance(n, (ast.If, ast.While, ast.Assert, ast.IfExp)) for x in ast.walk(n.test)}
    for p, n, how in hits:
        if how == "or" and id(n) in tests or why_not(e, p):
            continue
        docs = docs if docs is not None else c05.own_docs(P.prog, e)
        txt = docs.get(p) or [""]
        if NUMERIC.match(txt[0] or ""):
            R.finding("zero-replaced", f"{e.name}:{p}", f"{e.name} replaces {p} by a default whenever it is false: a given zero is not honoured", f"{e.func.module.path}:{n.lineno}", e.name)


CHANGES = {"sort", "sorted", "abs", "absolute", "fabs", "round", "around", "rint", "clip", "unique", "minimum", "maximum", "min", "max", "sqrt", "log", "exp", "floor", "ceil", "trunc", "flip", "cumsum",
           "reversed", "negative", "square", "power"}


def number(u):
    return u.op == "const" and isinstance(u.x, (int, float)) and not isinstance(u.x, bool)


def check_clamped(P, R, r):
    """A numeric parameter replaced by a constant when it is larger or smaller."""
    e = r.entry
    mine = {t.ident: p for p, t in r.params.items() if t.op == "param" and p != "self" and isinstance(e.func.defaults.get(p), ast.Constant)
            and isinstance(e.func.defaults[p].value, (int, float)) and not isinstance(e.func.defaults[p].value, bool)}
    if not mine:
        return
    P.escaped(r)
    for ev in list(r.events) + list(r.escaped_events):
        if ev.kind != "ecall" or ev.term.name not in ("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum", "numpy.clip", "numpy.fmin", "numpy.fmax"):
            continue
        args = list(ev.term.args) + [v for v in ev.term.kw.values() if isinstance(v, Term)]
        if len(args) == 1 and args[0].op in ("list", "tuple"):
            args = list(args[0].args)
        R.count("clamped_values")
        ps = [mine[u.ident] for a in args for u in sources(a) if u.op == "param" and u.ident in mine]
        cs = [u.x for a in args for u in [a] if number(u) and abs(u.x) not in (0, 1)]
        for p in ps:
            if cs:
                R.finding("clamped", f"{e.name}:{p}", f"{e.name} replaces {p} by {cs[0]!r} without notice when it is on the other side of it ({ev.term.name} in {ev.func.qualname})", ev.site, e.name, ev.trace())


def check_overwritten(P, R, e):
    """A parameter rebound to a constant whatever was given."""
    body = [n for n in e.func.node.body] if isinstance(e.func.node, ast.FunctionDef) else []
    names = set(e.func.args + e.func.kwonly) - {"self"}
    for n in body:
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
        for t in ts:
            if isinstance(t, ast.Name) and t.id in names and isinstance(n.value, ast.Constant) and not why_not(e, t.id):
                R.finding("overwritten", f"{e.name}:{t.id}", f"{e.name} replaces {t.id} by {n.value.value!r} whatever was given", f"{e.func.module.path}:{n.lineno}", e.name)


def nondefault(c, truth, t, d):
    """The condition tells that the parameter has another value than its default."""
    while c.op == "un" and c.name == "not":
        c, truth = c.args[0], not truth
    if c is t:
        return truth and not d
    if c.op != "cmp" or len(c.args) != 2:
        return False
    a, b = c.args
    op = c.name
    if b is t:
        a, b = b, a
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if a is not t or not number(b) or b.x != d:
        return False
    return (op in (">", "<", "!=") and truth) or (op in ("<=", ">=", "==") and not truth)


def check_pinned(P, R, r):
    """Where a numeric parameter is known to differ from its default, what is returned depends on its value."""
    e = r.entry
    for p, t in r.params.items():
        d = e.func.defaults.get(p)
        if t.op != "param" or not isinstance(d, ast.Constant) or not isinstance(d.value, (int, float)) or isinstance(d.value, bool) or why_not(e, p):
            continue
        for x in r.returns:
            if x.value is None or x.value.op == "const" or not any(nondefault(c, tr, t, d.value) for c, tr in x.state.path):
                continue
            R.count("returns_under_a_given_value")
            z = Reach(r.it, r.obj)
            z.add(x.value, x.state)
            if t.ident not in z.params:
                R.finding("ignored-in-mode", f"{e.name}:{p}:{p}!={d.value!r}", f"{e.name} tells apart {p} from its default {d.value!r}, but what it then returns does not depend on {p}",
                          f"{e.func.module.path}:{getattr(x.node, 'lineno', e.func.node.lineno)}", e.name)


def check_attrs(P, R, r):
    e = r.entry
    if r.obj is None:
        return
    for x in r.returns:
        for p, t in r.params.items():
            if p in CORE or t.op != "param":
                continue
            v = x.state.heap.get((r.obj.ident, p))
            if v is None:
                continue
            R.count("configuration_attributes")
            if v is t:
                continue
            others = {u.ident: q for q, u in r.params.items() if q not in (p, "self") and u.op == "param"}
            alts = given(v, t)
            fields = [w for (b, k), w in x.state.heap.items() if b == r.obj.ident and k != p]
            for u in alts:
                if u.op == "param" and u.ident in others:
                    R.finding("attribute-exchanged", f"{e.name}:{p}", f"after construction, the attribute {p} can hold the parameter {others[u.ident]} although {p} was given",
                              f"{e.func.module.path}:{e.func.node.lineno}", e.name)
                elif u.op == "const" and not any(z is t for z in alts) and not any(z is t for z in walk(v)):
                    R.finding("attribute-overwritten", f"{e.name}:{p}", f"after construction, the attribute {p} is {u.x!r} whatever was given",
                              f"{e.func.module.path}:{e.func.node.lineno}", e.name)
                elif (u.op in ("bin", "un") or u.op == "ecall" and u.name.rpartition(".")[2] in CHANGES and u.name.split(".")[0] in ("numpy", "builtins", "math")
                      or u.op == "mcall" and u.name in ("clip", "round", "cumsum")) and any(z is t for z in walk(u)):
                    if u.op == "ecall" and u.name.rpartition(".")[2] in ("sort", "sorted", "unique") and any(z is u for w in fields for z in walk(w)):
                        continue  # the graph is made of the values in this order
                    R.finding("attribute-changed", f"{e.name}:{p}", f"after construction, the attribute {p} is not the value that was given but {u!r}",
                              f"{e.func.module.path}:{e.func.node.lineno}", e.name)


def keyed(it, t):
    """Entries with a constant name of the dictionaries a value is made of."""
    for u in walk(t):
        if u.op == "dict":
            items = it.literal_items(u)
            ks = u.x if isinstance(u.x, (list, tuple)) else None
            if ks and len(ks) == len(u.args):
                for k, v in zip(ks, u.args):
                    yield (k.x if isinstance(k, Term) else k), v
        elif u.op == "store" and len(u.args) >= 3 and u.args[1].op == "const" and isinstance(u.args[1].x, str):
            yield u.args[1].x, u.args[2]
        if u.op in ("mutcall", "dict"):
            for k, v in u.kw.items():
                yield k, v


def check_repr(P, R):
    for m in P.prog.modules.values():
        for c in m.classes.values():
            f, i = c.methods.get("_get_extra_repr"), c.lookup("__init__")
            if f is None or i is None:
                continue
            params = {q for b in c.mro() for q in ((b.methods["__init__"].args + b.methods["__init__"].kwonly) if "__init__" in b.methods else [])} - {"self"}
            try:
                r = P.run(Entry(f, c, "method"))
            except Exception:  # noqa: BLE001 - C13 decides whether it runs
                continue
            for x in r.returns:
                for k, v in keyed(r.it, x.value):
                    if k not in params:
                        continue
                    at = {u.name.lstrip("_") for u in walk(v) if u.op == "attr" and u.args[0].op == "param"} & params
                    R.count("reported_attributes")
                    if at and k not in at:
                        R.finding("reported-exchanged", f"{c.qualname}:{k}", f"the description of the object reports {', '.join(sorted(at))} under the name {k}",
                                  f"{f.module.path}:{f.node.lineno}", f.qualname)


def check_forward(P, R, r, public):
    e = r.entry
    mine = {t.ident: p for p, t in r.params.items() if t.op == "param" and p != "self"}
    for ev in r.events:
        if ev.kind != "call":
            continue
        f, env = ev.info
        if f.is_lambda or f.outer is not None or f is e.func:
            continue
        R.count("calls")
        for q, v in env.items():
            if q not in r.params or q == "self" or r.params[q].op != "param":
                continue
            R.count("parameters_passed_on")
            src = {u.ident for u in sources(v) if u.op == "param" and u.ident in mine}
            t = r.params[q]
            if src and t.ident not in src and not any(u is t for u in walk(v)) and f in public:
                p = mine[next(iter(src))]
                if why_not(e, q):
                    continue
                R.finding("exchanged", f"{e.name}:{p}->{f.qualname}:{q}", f"{e.name} passes its {p} as the {q} of {f.qualname} although it has a {q} itself", ev.site, e.name, ev.trace())
            elif v.op == "const" and q != "method" and q in f.defaults and f in public and same_meaning(P, e, f, q) and not why_not(e, q):
                c = {c_.uid for c_, _ in ev.state.path if any(u is t for u in walk(c_))}
                if c:
                    continue  # the call is made for particular values only
                R.finding("dropped", f"{e.name}:{q}->{f.qualname}", f"{e.name} accepts {q} but calls {f.qualname}, which accepts {q} too, with {v.x!r}", ev.site, e.name, ev.trace())


def same_meaning(P, e, f, q):
    """Both document the parameter, or one inherits from the other."""
    if f.cls is not None and e.cls is not None and e.cls.is_subclass(f.cls):
        return True
    return f.name == e.func.name


def mode_params(P, e):
    """{(option, value): parameters without meaning}, from the documentation and the table."""
    docs = c05.own_docs(P.prog, e)
    out = {}
    for p, (ty, desc) in docs.items():
        for m in re.finditer(r"\bonly (?:\w+ )?(?:if|for|when|with)\s+`*(\w+)`* *(?:==?|is) *`*['\"](\w+)['\"]", desc, re.I):
            out.setdefault(m.group(1), {}).setdefault(p, set()).add(m.group(2))
    return out


def dimensions(e, o):
    """Parameters with few values: options with documented values, and flags."""
    d = {p: v for p, (v, kw) in (o[1].items() if o else ()) if not kw and len(v) > 1}
    for p, n in e.func.defaults.items():
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            d[p] = [True, False]
    return d


def check_modes(P, R):
    Reach.read = set()
    opts = c05.options(P)
    todo = {(e.name, e.kind): e for e in P.entries}
    for k, (e, ps) in opts.items():
        todo.setdefault(k, e)
    for k, e in todo.items():
        dims = dimensions(e, opts.get(k))
        if not dims:
            continue
        docs = mode_params(P, e)
        owner = e.func.name if e.kind != "init" else e.func.cls.name
        combos = [{}]
        for n in (1, 2) if len(dims) <= 6 else (1,):
            for c in itertools.combinations(sorted(dims), n):
                combos += [dict(zip(c, v)) for v in itertools.product(*[dims[x] for x in c])]
        unused, used = {}, set()
        for c in combos:
            try:
                r = P.run(e, overrides={p: const(v) for p, v in c.items()})
                if not r.returns:
                    continue
                i = influence(P, r, True)
            except Exception:  # noqa: BLE001 - C05 and C13 decide whether it runs
                continue
            R.count("modes")
            for q, t in r.params.items():
                if t.op == "param" and q != "self":
                    R.count("parameters_in_a_mode")
                    if t.ident in i:
                        used.add(q)
                    else:
                        unused.setdefault(q, []).append(c)
        for q in sorted(set(unused) & used):
            if why_not(e, q):
                continue
            seen = []
            for c in unused[q]:
                if not c:
                    break
                if any(s.items() <= c.items() for s in seen):
                    continue
                seen.append(c)
                if any(v not in docs.get(o, {}).get(q, {v}) or q in MODES.get((owner, o), {}).get(v, ()) for o, v in c.items()):
                    continue
                how = ", ".join(f"{o}={v!r}" for o, v in c.items())
                R.finding("ignored-in-mode", f"{e.name}:{q}:{how}", f"{e.name} honours {q}, except with {how}", f"{e.func.module.path}:{e.func.node.lineno}", e.name)


NUM = r"['\"`]*(-?\d+(?:\.\d+)?(?:e-?\d+)?|True|False|None|(?<=['\"])\w+(?=['\"]))"


def check_defaults(P, R):
    seen = set()
    for e in P.entries:
        docs = c05.own_docs(P.prog, e)
        for p, d in e.func.defaults.items():
            if p not in docs or (e.func, p) in seen:
                continue
            seen.add((e.func, p))
            txt = " ".join(docs[p])
            m = re.search(r"\(?\bdefault(?:s)?\b\s*(?:is|to|=|:|value is)?\s*(?:\(?None\)?,?\s*)?" + NUM + r"(?![\w.]*[\w/])", txt)
            if not m or "None" in m.group(0):
                continue
            try:
                have = ast.literal_eval(d)
                want = ast.literal_eval(m.group(1))
            except (ValueError, SyntaxError):
                try:
                    have, want = ast.literal_eval(d), m.group(1)
                except (ValueError, SyntaxError):
                    continue
            if have is None:
                continue
            R.count("documented_defaults")
            if have != want:
                R.finding("default", f"{e.name}:{p}", f"{e.name} documents {want!r} as the default of {p}, which is {have!r}", f"{e.func.module.path}:{e.func.node.lineno}", e.name)


def check(P, R):
    R.rule("For each parameter of each public callable: does anything the execution returns, leaves in an object, asks of a library with effects, or decides depend on it "
           "(data and control dependences, through helpers, base classes and closures)? A parameter on which nothing depends is ignored; one on which nothing but a "
           "rejection or its own unread attribute depends is only checked. The same under each documented value of each option string, except for parameters documented as "
           "meaningful for other values. Attributes named after a constructor parameter must hold it (up to conversions) when it is given; descriptions must report attributes "
           "under their names; an argument must not be passed as another parameter of the same operation nor replaced by a constant when handed to the base class.")
    public = {e.func for e in P.entries}
    attributes = attributes_read(P.prog)
    for r in each(P, R):
        if dead(r):
            continue
        Reach.read = attributes
        check_effect(P, R, r, influence(P, r), influence(P, r, True))
        check_attrs(P, R, r)
        check_forward(P, R, r, public)
        check_decorated(P, R, r)
        check_taken(P, R, r)
        check_clamped(P, R, r)
        check_overwritten(P, R, r.entry)
        check_truth(P, R, r.entry)
        check_pinned(P, R, r)
    check_repr(P, R)
    check_defaults(P, R)
    check_modes(P, R)
    R.need("parameters", 250)
    R.need("configuration_attributes", 60)
    R.need("reported_attributes", 40)
    R.need("parameters_passed_on", 100)
    R.need("parameters_in_a_mode", 60)
