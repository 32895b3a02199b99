"""Flow-sensitive interprocedural abstract interpreter.

Executes the syntax tree of a function on abstract values (`Term`), inlining the
package's own functions, and produces the value graph of the results plus a log
of events (mutations, stores, external calls, raises, ...).  Nothing of the
analysed code is ever run.
"""

import ast
import builtins

from . import libspec
from .model import AnalysisBroken, Class, Func, Module
from .terms import FALSE, NONE, TRUE, Term, const, is_const, leaves, skey

MAX_DEPTH = 40
MAX_STEPS = 400000
BUILTINS = set(dir(builtins))
OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
    ast.LShift: "<<", ast.RShift: ">>",
}
CMPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}


class State:
    __slots__ = ("envs", "heap", "ver", "facts", "dirty", "path")

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.ver = {}
        self.facts = frozenset()
        self.dirty = {}
        self.path = ()

    def clone(self):
        s = State()
        s.envs = dict(self.envs)
        s.heap = dict(self.heap)
        s.ver = dict(self.ver)
        s.facts = self.facts
        s.dirty = dict(self.dirty)
        s.path = self.path
        return s

    def getvar(self, envid, name):
        return self.envs[envid].get(name)

    def setvar(self, envid, name, t):
        e = dict(self.envs[envid])
        e[name] = t
        self.envs[envid] = e

    def delvar(self, envid, name):
        e = dict(self.envs[envid])
        e.pop(name, None)
        self.envs[envid] = e


class Event:
    __slots__ = ("kind", "term", "node", "func", "stack", "state", "info", "loops")

    def __init__(self, kind, term, node, func, stack, state, info, loops):
        self.kind = kind
        self.term = term
        self.node = node
        self.func = func
        self.stack = stack
        self.state = state
        self.info = info
        self.loops = loops

    @property
    def site(self):
        return f"{self.func.module.path}:{getattr(self.node, 'lineno', '?')}"

    def trace(self):
        return " <- ".join(f"{f.qualname}" for f, _ in reversed(self.stack))


class Frame:
    def __init__(self, func, envid, parent_envs, self_term=None):
        self.func = func
        self.envid = envid
        self.chain = (envid,) + tuple(parent_envs)
        self.self_term = self_term
        self.returns = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.yields = None


class Loop:
    def __init__(self, node, state):
        self.node = node
        self.breaks = []
        self.continues = []


class Exit:
    def __init__(self, kind, value, state, node=None, func=None, stack=(), info=None):
        self.kind = kind
        self.value = value
        self.state = state
        self.node = node
        self.func = func
        self.stack = stack
        self.info = info
        self.live = ()


EXC_PARENTS = {
    "ImportError": ("Exception",), "ModuleNotFoundError": ("ImportError", "Exception"),
    "KeyError": ("LookupError", "Exception"), "IndexError": ("LookupError", "Exception"),
    "AttributeError": ("Exception",), "TypeError": ("Exception",), "ValueError": ("Exception",),
    "NotImplementedError": ("RuntimeError", "Exception"), "RuntimeError": ("Exception",),
    "AssertionError": ("Exception",), "NameError": ("Exception",),
    "UnboundLocalError": ("NameError", "Exception"), "StopIteration": ("Exception",),
    "ZeroDivisionError": ("ArithmeticError", "Exception"), "OSError": ("Exception",),
    "FileNotFoundError": ("OSError", "Exception"), "ArpackNoConvergence": ("ArpackError", "RuntimeError", "Exception"),
    "LinAlgError": ("ValueError", "Exception"),
}


IN_PLACE = {"append", "extend", "insert", "pop", "popitem", "clear", "remove", "update", "setdefault", "add", "discard", "appendleft", "popleft", "sort", "reverse"}


def changes_in_place(n, name):
    """Whether a statement or a call changes the contents of what a name refers to."""
    def is_it(x):
        return isinstance(x, ast.Name) and x.id == name
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and is_it(n.func.value):
        return n.func.attr in IN_PLACE
    return isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and is_it(n.value)


class Interp:
    def __init__(self, prog, self_cls=None, opaque=(), hints=None):
        self.prog = prog
        self.opaque = set(opaque)  # qualnames not inlined
        self.hints = hints or {}
        self.events = []
        self.mute = 0
        self.frames = []
        self.stack = []
        self.catch = []  # innermost last: list of Exit for raises
        self.snap = []  # failure snapshots of enclosing try bodies
        self.loopstack = []
        self.nenv = 0
        self.steps = 0
        self.attrs = {}
        self.globs = {}
        self.clshint = {}  # term ident -> Class
        self.modenv = {}
        self.inlined = set()
        self.ran = set()  # ids of the function nodes executed
        self.calls_seen = 0
        self.decorated = {}
        self.graph_cls = prog.find_class("Graph")
        self.filter_cls = prog.find_class("Filter")
        self.kindhint = {}

    # -- infrastructure ------------------------------------------------------

    @property
    def frame(self):
        return self.frames[-1]

    def emit(self, kind, term, node, state, info=None):
        if self.mute:
            return
        f = self.frame.func
        self.events.append(Event(kind, term, node, f, tuple(self.stack), state.clone(), info, tuple(self.loopstack)))

    def T(self, op, name=None, args=(), kw=None, node=None, ident=None, x=None):
        f = self.frames[-1].func if self.frames else None
        return Term(op, name, args, kw, ident=ident, node=node, func=f, x=x)

    def param(self, name, cls=None, kind=None, func=None):
        t = Term("param", name, func=func)
        if cls is not None:
            self.clshint[t.ident] = cls
        if kind:
            self.kindhint[t.ident] = kind
        return t

    def cur(self, st, t):
        return st.ver.get(t.ident, t)

    # -- class of a value ------------------------------------------------------

    def cls_of(self, t, st=None, depth=0):
        if depth > 8:
            return None
        if t.op == "obj":
            return t.x
        c = self.clshint.get(t.ident)
        if c is not None:
            return c
        if st is not None:
            for f in st.facts:
                if f[0] == "isa" and f[1] == skey(t):
                    return f[2]
        if t.op == "attr":
            b = self.cls_of(t.args[0], st, depth + 1)
            if b is not None:
                c = self.field_class(b, t.name)
                if c is not None:
                    return c
        if t.op in ("sub", "elem"):
            k = self.elem_cls(t.args[0], depth + 1)
            if k is not None:
                return k
        if t.op in ("phi", "mu"):
            cs = set()
            for u in leaves(t):
                if u is t:
                    continue
                if u.op == "const" and u.x is None:
                    continue
                c = self.cls_of(u, st, depth + 1)
                cs.add(c)
            if len(cs) == 1:
                return cs.pop()
            if cs and None not in cs:
                # common base
                for b in list(cs)[0].mro():
                    if all(x.is_subclass(b) for x in cs):
                        return b
        return None

    def elem_cls(self, t, depth=0):
        h = self.hints.get("elem", {}).get(t.ident)
        if h is not None:
            return h
        for u in leaves(t):
            if u.op == "param" and u.name in ("Gs", "graphs_list"):
                return self.graph_cls
            if u.op in ("list", "tuple"):
                for a in u.args:
                    c = self.cls_of(a, None, depth + 1)
                    if c is not None:
                        return c
            if u.op in ("mutcall", "store") and u.args:
                c = self.elem_cls(u.args[0], depth + 1) if depth < 8 else None
                if c is None and u.op == "mutcall" and u.name == "append":
                    c = self.cls_of(u.args[1], None, depth + 1)
                if c is not None:
                    return c
        return None

    FIELD_CLASSES = {("Filter", "G"): "Graph", ("Modulation", "_kernel"): "Filter",
                     ("Grid2dImgPatches", "Gg"): "Graph", ("Grid2dImgPatches", "Gp"): "Graph"}

    def field_class(self, cls, name):
        for c in cls.mro():
            n = self.FIELD_CLASSES.get((c.name, name))
            if n:
                return self.prog.find_class(n)
        # discovered from constructor stores
        return self.hints.get("fields", {}).get((cls.name, name))

    # -- kinds -------------------------------------------------------------------

    def kind(self, t, depth=0):
        """Coarse runtime kind of a value, or None when not known."""
        if depth > 12:
            return None
        k = self.kindhint.get(t.ident)
        if k:
            return k
        op = t.op
        if op == "const":
            if t.x is None:
                return "none"
            if isinstance(t.x, str):
                return "str"
            return "scalar"
        if op in ("list", "dict", "set", "tuple", "kwdict", "obj", "func"):
            return {"kwdict": "dict"}.get(op, op)
        if op == "fstr":
            return "str"
        if op == "comp":
            return t.name if t.name in ("list", "dict", "set") else "iter"
        if op in ("phi", "mu"):
            ks = {self.kind(u, depth + 1) for u in leaves(t) if u is not t}
            ks.discard("none")
            return ks.pop() if len(ks) == 1 else None
        if op == "inplace" or op == "store" or op == "mutcall":
            return self.kind(t.args[0], depth + 1)
        if op == "bin":
            a, b = (self.kind(u, depth + 1) for u in t.args[:2])
            if a == b == "scalar":
                return "scalar"
            if "array" in (a, b) and "sparse" not in (a, b):
                return "array"
            if a == b == "sparse" or (a == "sparse" and b == "scalar") or (b == "sparse" and a == "scalar"):
                return "sparse"
            if "str" in (a, b):
                return "str"
            if a == b and a in ("list", "tuple"):
                return a
            if "list" in (a, b) and t.name in ("+", "*"):
                return "list"
            return None
        if op == "un":
            return self.kind(t.args[0], depth + 1)
        if op in ("cmp", "bool"):
            return None if op == "bool" else "scalar" if all(
                self.kind(a, depth + 1) in ("scalar", "str", "none") for a in t.args) else None
        if op == "attr":
            if t.name in ("N", "Ne", "n_vertices", "n_edges", "lmax", "Nf", "n_filters", "_lmax", "ndim", "nnz", "size",
                          "n_features_in", "n_features_out"):
                return "scalar"
            if t.name in ("shape", "dtype"):
                return "tuple"
            if t.name in ("lap_type", "_lmax_method"):
                return "str"
            if t.name in ("signals", "plotting", "info", "mr") and self.is_graph(t.args[0]):
                return "dict"
            if t.name in ("L", "W", "D", "_D", "_adjacency", "A", "_A") and self.is_graph(t.args[0]):
                return "sparse"
            if t.name in ("U", "_U", "e", "_e", "dw", "d", "_d", "_dw", "coords") and self.is_graph(t.args[0]):
                return "array"
            if t.name == "T":
                return self.kind(t.args[0], depth + 1)
            if t.name in ("data", "row", "col", "indices", "indptr"):
                return "array" if self.kind(t.args[0], depth + 1) == "sparse" else None
            return None
        if op == "sub":
            b = self.kind(t.args[0], depth + 1)
            if b == "tuple" and t.args[0].op == "attr" and t.args[0].name == "shape":
                return "scalar"
            if b == "str":
                return "str"
            i = t.args[1]
            if i.op == "tuple" and any(z.op in ("slice", "ext") or (z.op == "const" and z.x is Ellipsis) for z in i.args):
                return b if b == "sparse" else "array"
            if i.op == "slice" and b in ("array", "list", "tuple"):
                return b
            return None
        if op == "ecall":
            n = t.name
            if n in libspec.SCALAR_FUNCS:
                return "scalar"
            if n in ("builtins.list", "builtins.sorted"):
                return "list"
            if n == "builtins.dict" or n == "collections.Counter":
                return "dict"
            if n in ("builtins.set", "builtins.frozenset"):
                return "set"
            if n in ("builtins.range", "builtins.zip", "builtins.map", "builtins.enumerate"):
                return "iter"
            if n.startswith("scipy.sparse.") and not n.startswith("scipy.sparse.linalg") and n != "scipy.sparse.issparse":
                return "sparse"
            if n in ("numpy.sqrt", "numpy.log", "numpy.exp", "numpy.power", "numpy.abs", "builtins.min", "builtins.max",
                     "builtins.abs", "numpy.cos", "numpy.sin", "builtins.sum"):
                ks = {self.kind(a, depth + 1) for a in t.args}
                if ks == {"scalar"}:
                    return "scalar"
                if "array" in ks:
                    return "array"
                return None
            if n in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.arange", "numpy.linspace",
                     "numpy.array", "numpy.concatenate", "numpy.stack", "numpy.asarray", "numpy.asanyarray",
                     "numpy.identity", "numpy.eye", "numpy.kron", "numpy.diag", "numpy.mgrid", "numpy.zeros_like",
                     "numpy.empty_like", "numpy.ones_like", "numpy.full_like", "numpy.atleast_2d", "numpy.atleast_1d",
                     "numpy.expand_dims", "numpy.ravel", "numpy.where", "numpy.tensordot", "numpy.matmul", "numpy.sort",
                     "numpy.copy", "numpy.ascontiguousarray", "numpy.squeeze", "numpy.reshape"):
                return "array"
            return None
        if op == "mcall":
            b = self.kind(t.args[0], depth + 1)
            if t.name in ("toarray", "flatten", "nonzero"):
                return "array"
            if t.name in ("format", "join", "lower", "upper", "strip", "rpartition"):
                return "str"
            if t.name in ("tocsr", "tocsc", "tocoo", "tolil", "asfptype"):
                return "sparse"
            if t.name in ("copy", "reshape", "ravel", "astype", "swapaxes", "transpose"):
                return b
            if t.name in ("keys", "values", "items"):
                return "iter"
            if t.name in ("is_integer", "isdecimal"):
                return "scalar"
            return None
        return None

    def is_graph(self, t):
        c = self.cls_of(t)
        return c is not None and self.graph_cls is not None and c.is_subclass(self.graph_cls)

    def is_filter(self, t):
        c = self.cls_of(t)
        return c is not None and self.filter_cls is not None and c.is_subclass(self.filter_cls)

    # -- deciding conditions -------------------------------------------------------

    def decide(self, t, st, depth=0):
        """True, False or None (unknown) for the truth value of a condition."""
        if depth > 10:
            return None
        if t.op == "const":
            return bool(t.x)
        k = skey(t)
        if ("T", k) in st.facts:
            return True
        if ("F", k) in st.facts:
            return False
        if t.op == "un" and t.name == "not":
            d = self.decide(t.args[0], st, depth + 1)
            return None if d is None else not d
        if t.op == "bool":
            ds = [self.decide(a, st, depth + 1) for a in t.args]
            if t.name == "and":
                if False in ds:
                    return False
                return True if all(d is True for d in ds) else None
            if True in ds:
                return True
            return False if all(d is False for d in ds) else None
        if t.op == "phi":
            c = self.decide(t.args[0], st, depth + 1)
            if c is not None:
                return self.decide(t.args[1 if c else 2], st, depth + 1)
            a = self.decide(t.args[1], self.assumed(st, t.args[0], True), depth + 1)
            b = self.decide(t.args[2], self.assumed(st, t.args[0], False), depth + 1)
            return a if a is b else None
        if t.op in ("list", "tuple", "dict", "set", "kwdict") and t.ident not in st.ver:
            if t.op == "kwdict":
                return True if t.kw else (None if t.args else False)
            return len(t.args) > 0 if not any(a.op == "starred" for a in t.args) else None
        if t.op in ("func", "class", "module"):
            return True
        if t.op == "cmp":
            return self.decide_cmp(t, st, depth)
        if t.op == "ecall" and t.name == "builtins.isinstance" and len(t.args) == 2:
            return self.decide_isinstance(t.args[0], t.args[1], st)
        if t.op == "ecall" and t.name == "builtins.callable" and t.args:
            if t.args[0].op in ("func", "class"):
                return True
        return None

    def nonnull(self, t, st, depth=0):
        """Whether a value is None: True (not None), False (None), None."""
        if depth > 10:
            return None
        if t.op == "const":
            return t.x is not None
        if ("notnone", skey(t)) in st.facts:
            return True
        if ("none", skey(t)) in st.facts:
            return False
        if t.op == "phi":
            c = self.decide(t.args[0], st, depth + 1)
            if c is not None:
                return self.nonnull(t.args[1 if c else 2], st, depth + 1)
            a = self.nonnull(t.args[1], self.assumed(st, t.args[0], True), depth + 1)
            b = self.nonnull(t.args[2], self.assumed(st, t.args[0], False), depth + 1)
            return a if a is b else None
        if t.op in ("bin", "un", "cmp", "list", "tuple", "dict", "set", "kwdict", "func", "class", "module", "obj",
                    "comp", "store", "inplace", "mutcall", "fstr", "bool", "boundmeth", "ext", "slice", "partial"):
            return True
        if t.op == "ecall" and t.name.split(".")[0] in ("numpy", "scipy", "functools", "logging", "given"):
            return True
        if t.op == "ecall" and t.name in ("builtins.len", "builtins.list", "builtins.int", "builtins.float",
                                          "builtins.dict", "builtins.set", "builtins.tuple", "builtins.range",
                                          "builtins.max", "builtins.min", "builtins.abs", "builtins.sorted"):
            return True
        if t.op == "unpack":
            return True if t.args[0].op == "ecall" else None
        if t.op == "sub" and t.args[0].op in ("bin",):
            return True
        return None

    def decide_isinstance(self, v, c, st):
        if c.op == "tuple":
            ds = [self.decide_isinstance(v, x, st) for x in c.args]
            if True in ds:
                return True
            return False if ds and all(d is False for d in ds) else None
        vc = self.cls_of(v, st)
        if c.op == "class":
            if vc is not None:
                if vc.is_subclass(c.x):
                    return True
                if v.op == "obj" or not c.x.is_subclass(vc):
                    return False
                return None
            if v.op in ("const", "list", "tuple", "dict", "func", "set"):
                return False
            return None
        if c.op == "ext" and c.name.startswith("builtins."):
            n = c.name[9:]
            if v.op == "const":
                ty = {"str": str, "int": int, "float": float, "bool": bool, "list": list, "tuple": tuple,
                      "dict": dict, "set": set}.get(n)
                if ty:
                    return isinstance(v.x, ty)
            if n == "str":
                k = self.kind(v)
                if k == "str":
                    return True
                if k is not None:
                    return False
            if n in ("list", "tuple", "dict", "set") and v.op in ("list", "tuple", "dict", "set"):
                return v.op == n
            if vc is not None:
                return False
        if vc is not None and c.op == "ext":
            return False
        return None

    def dim_of(self, t):
        """Dimension of a square matrix of an existing graph (invariant of Graph: W and L are n_vertices by n_vertices)."""
        if t.op == "tuple" and len(t.args) == 2:
            a, b = self.dim_of(t.args[0]), self.dim_of(t.args[1])
            return ("pair", a) if a is not None and a == b else None
        if t.op == "attr" and t.name in ("N", "n_vertices") and self.is_graph(t.args[0]) and t.args[0].op != "obj":
            return ("n", skey(t.args[0]))
        if t.op == "sub" and t.args[1].op == "const" and t.args[1].x in (0, 1, -1, -2):
            s = t.args[0]
            p = self.dim_of(s)
            return p[1] if p is not None and p[0] == "pair" else None
        x = None
        if t.op == "attr" and t.name == "shape":
            x = t.args[0]
        elif t.op == "ecall" and t.name == "numpy.shape" and t.args:
            x = t.args[0]
        if x is not None and x.op == "attr" and x.name in ("W", "_adjacency", "L", "A", "_A") and self.is_graph(x.args[0]) and x.args[0].op != "obj":
            return ("pair", ("n", skey(x.args[0])))
        return None

    def decide_cmp(self, t, st, depth):
        a, b = t.args
        op = t.name
        if op in ("is", "is not", "==", "!="):
            for x, y in ((a, b), (b, a)):
                if y.op == "const" and y.x is None:
                    n = self.nonnull(x, st, depth + 1)
                    if n is None:
                        return None
                    return n if op in ("is not", "!=") else not n
        if a.op == "const" and b.op == "const":
            try:
                return bool({
                    "==": lambda: a.x == b.x, "!=": lambda: a.x != b.x, "<": lambda: a.x < b.x,
                    "<=": lambda: a.x <= b.x, ">": lambda: a.x > b.x, ">=": lambda: a.x >= b.x,
                    "in": lambda: a.x in b.x, "not in": lambda: a.x not in b.x,
                    "is": lambda: a.x is b.x or (a.x == b.x and type(a.x) is type(b.x)),
                    "is not": lambda: not (a.x is b.x or (a.x == b.x and type(a.x) is type(b.x))),
                }[op]())
            except TypeError:
                return None
        if op in ("==", "!=", "<", ">", "<=", ">="):
            da, db = self.dim_of(a), self.dim_of(b)
            if da is not None and da == db:
                return op in ("==", "<=", ">=")
        if op in ("in", "not in"):
            keys = self.literal_items(b, st)
            if keys is not None and a.op == "const" and all(k.op == "const" for k in keys):
                r = any(k.x == a.x for k in keys)
                return r if op == "in" else not r
            if b.op == "kwdict" and a.op == "const":
                if a.x in b.kw:
                    return op == "in"
                if not b.args:
                    return op == "not in"
            if a.op == "phi":
                r = [self.decide_cmp(Term("cmp", op, [x, b]), st, depth + 1) for x in a.args[1:]]
                if r[0] is not None and r[0] == r[1]:
                    return r[0]
        if op in ("==", "!=", "is", "is not"):
            for x, y in ((a, b), (b, a)):
                if x.op == "phi" and is_const(y):
                    c = self.decide(x.args[0], st, depth + 1)
                    if c is not None:
                        return self.decide_cmp(Term("cmp", op, [x.args[1 if c else 2], y]), st, depth + 1)
                    r = [self.decide(Term("cmp", op, [z, y]), self.assumed(st, x.args[0], i == 0), depth + 1)
                         for i, z in enumerate(x.args[1:])]
                    if r[0] is not None and r[0] == r[1]:
                        return r[0]
                # a known distinct constant
                if is_const(y) and not is_const(x):
                    if self.kind(x) in ("list", "dict", "set", "obj", "func") :
                        return op in ("!=", "is not")
                    for f in st.facts:
                        if f[0] == "eqc" and f[1] == skey(x):
                            r = f[2] == y.x
                            return r if op in ("==", "is") else not r
        if op in ("is", "is not") and a.ident == b.ident and a.op not in ("phi", "mu"):
            return op == "is"
        if a.op in ("class", "func", "module") and b.op in ("class", "func", "module") and op in ("is", "is not", "==", "!="):
            r = a.x is b.x
            return r if op in ("is", "==") else not r
        # facts under the canonical form
        for c, pos in canon(t):
            k = skey(c)
            if ("T", k) in st.facts:
                return pos
            if ("F", k) in st.facts:
                return not pos
        return None

    def literal_items(self, t, st=None):
        """Elements (keys, for a dict) of a literal container, or None."""
        if t.op in ("list", "tuple", "set"):
            if any(a.op == "starred" for a in t.args):
                return None
            return t.args
        if t.op == "dict":
            ks = t.x
            if ks is None or any(k is None for k in ks):
                return None
            return ks
        if t.op == "mcall" and t.name == "keys" and len(t.args) == 1:
            return self.literal_items(t.args[0])
        if t.op == "ecall" and t.name in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted") and len(t.args) == 1:
            return self.literal_items(t.args[0])
        if t.op == "store" and t.args[1].op == "const":
            base = self.literal_items(t.args[0])
            if base is not None and self.kind(t) == "dict":
                return list(base) + [t.args[1]]
        if t.op == "bin" and t.name == "+":
            a, b = self.literal_items(t.args[0]), self.literal_items(t.args[1])
            if a is not None and b is not None:
                return list(a) + list(b)
        return None

    def assumed(self, st, cond, truth):
        s = State()
        s.envs, s.heap, s.ver, s.dirty, s.path = st.envs, st.heap, st.ver, st.dirty, st.path
        s.facts = st.facts | self.facts_of(cond, truth, st)
        return s

    def facts_of(self, t, truth, st, depth=0):
        out = set()
        if depth > 8 or t.op == "const":
            return out
        out.add(("T" if truth else "F", skey(t)))
        if t.op == "un" and t.name == "not":
            out |= self.facts_of(t.args[0], not truth, st, depth + 1)
        elif t.op == "bool":
            if (t.name == "and") == truth:
                for a in t.args:
                    out |= self.facts_of(a, truth, st, depth + 1)
            else:
                # remaining undecided operand
                rest = [a for a in t.args if self.decide(a, st, 3) is not (not truth)]
                if len(rest) == 1:
                    out |= self.facts_of(rest[0], truth, st, depth + 1)
        elif t.op == "cmp":
            for c, pos in canon(t):
                out.add(("T" if truth == pos else "F", skey(c)))
            a, b = t.args
            for x, y in ((a, b), (b, a)):
                if y.op == "const" and y.x is None and t.name in ("is", "is not", "==", "!="):
                    isnone = (t.name in ("is", "==")) == truth
                    out.add(("none" if isnone else "notnone", skey(x)))
                elif y.op == "const" and t.name in ("is", "is not", "==", "!="):
                    if (t.name in ("is", "==")) == truth and x.op != "const":
                        out.add(("eqc", skey(x), y.x))
                        out.add(("notnone", skey(x)))
        elif t.op == "ecall" and t.name == "builtins.isinstance" and truth and t.args[1].op == "class":
            out.add(("isa", skey(t.args[0]), t.args[1].x))
        elif t.op == "ecall" and t.name in ("numpy.any", "numpy.all", "builtins.bool") and len(t.args) == 1 and not t.kw:
            out |= self.facts_of(t.args[0], truth, st, depth + 1)
        elif t.op == "phi":
            c = self.decide(t.args[0], st, 3)
            if c is not None:
                out |= self.facts_of(t.args[1 if c else 2], truth, st, depth + 1)
            else:
                # phi(c, a, const): truth determines the branch
                for i, j in ((1, 2), (2, 1)):
                    d = self.decide(t.args[i], st, 5)
                    if d is not None and d is not truth:
                        out |= self.facts_of(t.args[0], j == 1, st, depth + 1)
                        out |= self.facts_of(t.args[j], truth, st, depth + 1)
        elif t.op in ("param", "attr", "kwget", "mcall"):
            if truth:
                out.add(("notnone", skey(t)))
        return out

    # -- merging -------------------------------------------------------------------

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        i = 0
        while i < len(a.path) and i < len(b.path) and a.path[i][0] is b.path[i][0] and a.path[i][1] == b.path[i][1]:
            i += 1
        cond = None
        if i < len(a.path) and i < len(b.path) and a.path[i][0] is b.path[i][0]:
            cond = a.path[i][0]
            if not a.path[i][1]:
                a, b = b, a
        if cond is None:
            cond = Term("opaque", "join")
        s = State()
        s.path = a.path[:i]
        memo = {}

        def phi(x, y, ident=None):
            if x is y:
                return x
            if x.op == "const" and y.op == "const" and type(x.x) is type(y.x) and x.x == y.x:
                return x
            if x.ident == y.ident and ident is None:
                ident = x.ident
            k = (x.uid, y.uid, ident)
            if k not in memo:
                memo[k] = Term("phi", None, [cond, x, y], ident=ident, func=x.func, node=x.node)
            return memo[k]

        for e in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(e), b.envs.get(e)
            if ea is eb or eb is None:
                s.envs[e] = ea
            elif ea is None:
                s.envs[e] = eb
            else:
                m = {}
                for n in set(ea) | set(eb):
                    x, y = ea.get(n), eb.get(n)
                    if x is None or y is None or x.op == "maybe" or y.op == "maybe":
                        u = unbound_if(cond, x, y)
                        xx = x.args[0] if x is not None and x.op == "maybe" else x
                        yy = y.args[0] if y is not None and y.op == "maybe" else y
                        z = (xx or yy) if xx is None or yy is None else phi(xx, yy)
                        m[n] = z if u is FALSE else Term("maybe", n, [z], ident=z.ident, node=z.node, func=z.func, x=u)
                    else:
                        m[n] = phi(x, y)
                s.envs[e] = m
        for k in set(a.ver) | set(b.ver):
            x, y = a.ver.get(k), b.ver.get(k)
            if x is y:
                s.ver[k] = x
            else:
                base = None
                if x is None or y is None:
                    base = Term("orig", None, [], ident=k) if k not in self._origs else self._origs[k]
                s.ver[k] = phi(x or base, y or base, ident=k)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                s.heap[k] = x
            else:
                if x is None or y is None:
                    base = self.attrs.get(k)
                    if base is None:
                        base = Term("missing", k[1])
                    s.heap[k] = phi(x or base, y or base)
                else:
                    s.heap[k] = phi(x, y)
        s.facts = a.facts & b.facts
        # isnone knowledge carried by phi is handled by decide()
        s.dirty = dict(a.dirty)
        s.dirty.update(b.dirty)
        return s

    _origs = {}

    def merge_all(self, states):
        out = None
        for s in states:
            out = self.merge(out, s)
        return out

    def merge_exits(self, exits):
        """Merge return exits: (state, value)."""
        if not exits:
            return None, None
        # pack the values in a pseudo environment so that merge() joins them
        out = None
        for ex in exits:
            s = ex.state.clone()
            s.envs[-1] = {"r": ex.value}
            out = self.merge_ordered(out, s)
        v = out.envs.pop(-1)["r"] if out.envs[-1] is not None else NONE
        return out, v

    def merge_ordered(self, a, b):
        return b if a is None else self.merge(a, b)

    # -- running functions ---------------------------------------------------------

    def run(self, func, args=None, state=None, self_term=None, closure=()):
        """Analyse a function as an entry point.  Returns (returns, raises)."""
        self.catch.append([])
        st = state or State()
        envid = self.new_env(st)
        fr = Frame(func, envid, closure, self_term)
        for k, v in (args or {}).items():
            st.setvar(envid, k, v)
        self.frames.append(fr)
        self.stack.append((func, None))
        try:
            self.run_body(func, st, fr)
        finally:
            self.frames.pop()
            self.stack.pop()
            raises = self.catch.pop()
        return fr.returns, raises

    def new_env(self, st):
        self.nenv += 1
        st.envs[self.nenv] = {}
        return self.nenv

    def run_body(self, func, st, fr):
        self.ran.add(id(func.node))
        if func.is_generator:
            fr.yields = []
        if func.is_lambda:
            v, st = self.ev(func.node.body, st)
            if st is not None:
                fr.returns.append(Exit("return", v, st, func.node, func, tuple(self.stack)))
            return
        body = func.node.body
        end = self.block(body, st)
        if end is not None:
            fr.returns.append(Exit("return", NONE, end, func.node, func, tuple(self.stack), "fall"))
        if fr.yields is not None:
            for ex in fr.returns:
                ex.value = Term("comp", "gen", list(fr.yields), node=func.node, func=func)

    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    # -- statements ------------------------------------------------------------------

    def stmt(self, n, st):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise AnalysisBroken(f"analysis budget exceeded in {self.stack[0][0].qualname}")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported statement {type(n).__name__} at {self.frame.func.module.path}:{n.lineno}")
        return m(n, st)

    def s_Pass(self, n, st):
        return st

    def s_Expr(self, n, st):
        v, st = self.ev(n.value, st)
        if st is not None and not (isinstance(n.value, ast.Constant)):
            self.emit("discard", v, n, st)
        return st

    def s_Global(self, n, st):
        self.frame.globals |= set(n.names)
        return st

    def s_Nonlocal(self, n, st):
        self.frame.nonlocals |= set(n.names)
        return st

    def s_Import(self, n, st):
        for a in n.names:
            dotted = a.name if a.asname else a.name.split(".")[0]
            self.emit("import", None, n, st, a.name)
            if not self.absent:
                self.snapshot(st, "ImportError")
            if self.fails_to_import(a.name, n, st):
                return None
            r = self.prog.resolve_dotted(dotted)
            st = st.clone()
            self.bind_name(st, a.asname or dotted, self.resolved(r, n))
        return st

    def s_ImportFrom(self, n, st):
        base = self.frame.func.module.resolve_from(n)
        for a in n.names:
            self.emit("import", None, n, st, base + "." + a.name if base not in self.prog.modules else base)
            if base.split(".")[0] != "pygsp":
                if not self.absent:
                    self.snapshot(st, "ImportError")
                if self.fails_to_import(base, n, st):
                    return None
            r = self.prog.resolve_member(base, a.name)
            st = st.clone()
            self.bind_name(st, a.asname or a.name, self.resolved(r, n))
        return st

    absent = {}

    def fails_to_import(self, dotted, n, st):
        """Simulated absence of a library: {root: exception raised}"""
        exc = self.absent.get(dotted.split(".")[0])
        if exc is None:
            return False
        self.raise_exit(Term("ecall", "builtins." + exc, [], node=n, x=dotted), st, n, "import")
        return True

    def s_FunctionDef(self, n, st):
        f = Func(n, self.frame.func.module, None, outer=self.frame.func)
        t = self.closure(f, st, n)
        for d in reversed(n.decorator_list):
            dt, st = self.ev(d, st)
            t, st = self.call(dt, [t], {}, n, st)
            if st is None:
                return None
        st = st.clone()
        self.bind_name(st, n.name, t)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st):
        st = st.clone()
        self.bind_name(st, n.name, self.T("opaque", "class", node=n))
        return st

    def closure(self, f, st, n):
        """A function object: default values are evaluated now, free names later."""
        defaults = {}
        for k, d in f.defaults.items():
            v, st2 = self.ev(d, st)
            defaults[k] = v
        t = self.T("func", f.name, [], node=n, x=f)
        t.kw = {}
        self.closures[t.uid] = (self.frame.chain, defaults, self.frame.self_term, tuple(self.frame.loops))
        t.args = list(defaults.values())
        self.emit("closure", t, n, st)
        return t

    closures = {}

    def s_Return(self, n, st):
        v = NONE
        if n.value is not None:
            v, st = self.ev(n.value, st)
        if st is not None:
            self.frame.returns.append(Exit("return", v, st, n, self.frame.func, tuple(self.stack)))
            self.emit("return", v, n, st)
        return None

    def s_Raise(self, n, st):
        v = None
        if n.exc is not None:
            v, st = self.ev(n.exc, st)
            if st is None:
                return None
            if n.cause is not None:
                _, st = self.ev(n.cause, st)
        else:
            v = self.T("opaque", "reraise", node=n)
        self.emit("raise", v, n, st)
        self.raise_exit(v, st, n)
        return None

    def raise_exit(self, v, st, n, info="raise"):
        x = Exit("raise", v, st, n, self.frame.func, tuple(self.stack), info)
        x.live = tuple(f.envid for f in self.frames)
        self.catch[-1].append(x)

    def s_Assert(self, n, st):
        v, st = self.ev(n.test, st)
        if st is None:
            return None
        d = self.decide(v, st)
        self.emit("assert", v, n, st)
        if d is not True:
            s2 = self.branch(st, v, False)
            self.raise_exit(Term("ecall", "builtins.AssertionError", node=n), s2, n, "assert")
        if d is False:
            return None
        # with -O assertions vanish: they establish no facts
        s = st.clone()
        return s

    def branch(self, st, cond, truth):
        s = st.clone()
        s.facts = st.facts | self.facts_of(cond, truth, st)
        s.path = st.path + ((cond, truth),)
        return s

    def truth(self, v, n, st):
        """A value is tested for truth."""
        if v is not None and v.op == "boundmeth":
            self.emit("truth", v, n, st)

    def s_If(self, n, st):
        v, st = self.ev(n.test, st)
        if st is None:
            return None
        self.truth(v, n.test, st)
        d = self.decide(v, st)
        self.emit("if", v, n, st, d)
        if d is True:
            return self.block(n.body, st)
        if d is False:
            return self.block(n.orelse, st)
        a = self.block(n.body, self.branch(st, v, True))
        b = self.block(n.orelse, self.branch(st, v, False))
        return self.merge(a, b)

    def s_Match(self, n, st):
        v, st = self.ev(n.subject, st)
        if st is None:
            return None
        outs = []
        cur = st
        for case in n.cases:
            if cur is None:
                break
            cond = self.pattern_cond(case.pattern, v, cur, n)
            d = True if cond is None else self.decide(cond, cur)
            if d is False:
                continue
            s = cur if cond is None else self.branch(cur, cond, True)
            if isinstance(case.pattern, ast.MatchAs) and case.pattern.name:
                s = s.clone()
                self.bind_name(s, case.pattern.name, v)
            if case.guard is not None:
                g, s = self.ev(case.guard, s)
                dg = self.decide(g, s)
                if dg is False:
                    continue
                s2 = self.branch(s, g, True)
                outs.append(self.block(case.body, s2))
                continue
            outs.append(self.block(case.body, s))
            cur = None if d is True else self.branch(cur, cond, False)
        outs.append(cur)
        return self.merge_all([o for o in outs if o is not None])

    def pattern_cond(self, p, v, st, n):
        if isinstance(p, ast.MatchValue):
            c, _ = self.ev(p.value, st)
            return Term("cmp", "==", [v, c])
        if isinstance(p, ast.MatchSingleton):
            return Term("cmp", "is", [v, const(p.value)])
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern_cond(q, v, st, n) for q in p.patterns]
            if any(c is None for c in cs):
                return None
            if all(c.op == "cmp" and c.name == "==" and c.args[1].op == "const" for c in cs):
                return Term("cmp", "in", [v, Term("tuple", None, [c.args[1] for c in cs])])
            return Term("bool", "or", cs)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return None
            return self.pattern_cond(p.pattern, v, st, n)
        return Term("opaque", "pattern")

    def s_While(self, n, st):
        return self.loop(n, st, None)

    def s_For(self, n, st):
        it, st = self.ev(n.iter, st)
        if st is None:
            return None
        seq = self.unrollable(it, st)
        if seq is not None:
            exits = []
            for v in seq:
                lp = Loop(n, st)
                self.frame.loops.append(lp)
                st = self.assign(n.target, v, st.clone(), n)
                st = self.block(n.body, st)
                self.frame.loops.pop()
                st = self.merge_all([x for x in [st] + lp.continues if x is not None])
                exits += lp.breaks
                if st is None:
                    break
            if st is not None and n.orelse:
                st = self.block(n.orelse, st)
            return self.merge_all([x for x in [st] + exits if x is not None])
        return self.loop(n, st, it)

    s_AsyncFor = s_For

    def unrollable(self, it, st, limit=8):
        items = None
        if it.op in ("list", "tuple") and it.ident not in st.ver and not any(a.op == "starred" for a in it.args):
            items = it.args
        elif it.op == "ecall" and it.name == "builtins.range" and all(a.op == "const" and isinstance(a.x, int) for a in it.args) and it.args:
            r = range(*[a.x for a in it.args])
            if len(r) <= 4:
                items = [const(i) for i in r]
        elif it.op == "mcall" and it.name == "items" and it.args[0].op == "dict" and it.args[0].x is not None and it.args[0].ident not in st.ver:
            d = it.args[0]
            if all(k is not None for k in d.x):
                items = [Term("tuple", None, [k, v]) for k, v in zip(d.x, d.args)]
        elif it.op == "ecall" and it.name == "builtins.enumerate" and it.args and (start := enumerated_from(it)) is not None:
            sub = self.unrollable(it.args[0], st, limit)
            if sub is not None:
                items = [Term("tuple", None, [const(i), v]) for i, v in enumerate(sub, start)]
        elif it.op == "ecall" and it.name == "builtins.zip" and it.args:
            subs = [self.unrollable(a, st, limit) for a in it.args]
            if all(s is not None for s in subs):
                items = [Term("tuple", None, list(z)) for z in zip(*subs)]
        if items is not None and len(items) <= limit:
            return list(items)
        return None

    def loop(self, n, st, it):
        entry = st
        # trial pass: find what the body changes
        ev_mark = len(self.events)
        self.mute += 1
        s1 = entry.clone()
        catch0 = [len(c) for c in self.catch]
        ret0 = len(self.frame.returns)
        snap0 = [len(x[1]) for x in self.snap]
        y0 = len(self.frame.yields) if self.frame.yields is not None else 0
        lp = Loop(n, entry)
        out, _ = self.loop_body(n, s1, it, lp)
        ends = [x for x in [out] + lp.continues if x is not None]
        after = self.merge_all(ends)
        # discard the exits of the trial pass
        for c, k in zip(self.catch, catch0):
            del c[k:]
        del self.frame.returns[ret0:]
        for x, k in zip(self.snap, snap0):
            del x[1][k:]
        if self.frame.yields is not None:
            del self.frame.yields[y0:]
        self.mute -= 1
        del self.events[ev_mark:]
        head = entry.clone()
        mus = []
        if after is not None:
            for e, ea in entry.envs.items():
                eb = after.envs.get(e)
                if eb is ea or eb is None:
                    continue
                new = dict(ea)
                for name, y in eb.items():
                    x = ea.get(name)
                    if x is y:
                        continue
                    if x is None:
                        continue  # first bound inside the loop
                    if y.ident == x.ident:
                        mu = Term("mu", name, [x], ident=x.ident, node=n, func=self.frame.func)
                    else:
                        mu = Term("mu", name, [x], node=n, func=self.frame.func)
                    c = self.cls_of(x)
                    if c is not None:
                        self.clshint[mu.ident] = c
                    new[name] = mu
                    mus.append((mu, ("env", e, name)))
                head.envs[e] = new
            for k, y in after.ver.items():
                x = entry.ver.get(k)
                if x is y:
                    continue
                init = x or self._origs.get(k) or Term("orig", None, [], ident=k)
                mu = Term("mu", "ver", [init], ident=k, node=n, func=self.frame.func)
                head.ver[k] = mu
                mus.append((mu, ("ver", k)))
            for k, y in after.heap.items():
                x = entry.heap.get(k)
                if x is y:
                    continue
                init = x or self.attrs.get(k) or Term("missing", k[1])
                mu = Term("mu", k[1], [init], ident=init.ident if y.ident == init.ident else None, node=n, func=self.frame.func)
                head.heap[k] = mu
                mus.append((mu, ("heap", k)))
            head.facts = entry.facts
            head.dirty = dict(after.dirty)
        lp = Loop(n, entry)
        out, exit_state = self.loop_body(n, head.clone(), it, lp)
        ends = [x for x in [out] + lp.continues if x is not None]
        after = self.merge_all(ends)
        if after is not None:
            for mu, where in mus:
                if where[0] == "env":
                    v = after.envs.get(where[1], {}).get(where[2])
                elif where[0] == "ver":
                    v = after.ver.get(where[1])
                else:
                    v = after.heap.get(where[1])
                if v is not None and v is not mu:
                    mu.args.append(v)
        # zero iterations or after some
        if exit_state is not None and after is not None and it is not None:
            s = exit_state.clone()
            # names first bound in the body are possibly bound afterwards
            for e, eb in after.envs.items():
                ea = s.envs.get(e)
                if ea is None:
                    continue
                new = None
                for name, y in eb.items():
                    if name not in ea:
                        new = new or dict(ea)
                        z = y.args[0] if y.op == "maybe" else y
                        new[name] = Term("maybe", name, [z], ident=z.ident, x=Term("phi", None, [Term("opaque", "loop"), TRUE, y.x if y.op == "maybe" else FALSE]))
                if new is not None:
                    s.envs[e] = new
            s.facts = exit_state.facts & (after.facts | exit_state.facts)
            s.dirty.update(after.dirty)
            exit_state = s
        if exit_state is not None and n.orelse:
            exit_state = self.block(n.orelse, exit_state)
        return self.merge_all([x for x in [exit_state] + lp.breaks if x is not None])

    def loop_body(self, n, s, it, lp):
        """Run one iteration from the loop head; returns (end, exit state)."""
        self.frame.loops.append(lp)
        self.loopstack.append(n)
        try:
            if it is None:
                v, s = self.ev(n.test, s)
                if s is None:
                    return None, None
                self.emit("loop", v, n, s)
                d = self.decide(v, s)
                inner = self.branch(s, v, True) if d is not True else s
                exit_state = None if d is True else self.branch(s, v, False)
                if d is False:
                    return None, s
                return self.block(n.body, inner), exit_state
            self.emit("loop", it, n, s)
            inner = s.clone()
            inner.path = s.path + ((it, True),)
            exit_state = s.clone()
            inner = self.assign(n.target, self.elem(it, n, s), inner, n)
            return self.block(n.body, inner), exit_state
        finally:
            self.frame.loops.pop()
            self.loopstack.pop()

    def elem(self, it, n, st):
        if it.op == "ecall" and it.name == "builtins.zip" and it.args and not any(a.op == "starred" for a in it.args):
            return self.T("tuple", None, [self.elem(a, n, st) for a in it.args], node=n)
        if it.op == "ecall" and it.name == "builtins.enumerate" and it.args:
            return self.T("tuple", None, [self.T("elem", "index", [it], node=n), self.elem(it.args[0], n, st)], node=n)
        if it.op == "mcall" and it.name == "items":
            return self.T("tuple", None, [self.T("elem", "key", [it.args[0]], node=n), self.T("elem", "value", [it.args[0]], node=n)], node=n)
        if it.op == "mcall" and it.name == "keys":
            return self.T("elem", "key", [it.args[0]], node=n)
        if it.op == "mcall" and it.name == "values":
            return self.T("elem", "value", [it.args[0]], node=n)
        if it.op in ("list", "tuple") and it.args and it.ident not in st.ver:
            v = it.args[0]
            for w in it.args[1:]:
                v = self.T("phi", None, [Term("opaque", "index"), v, w], node=n)
            return v
        if it.op == "comp" and it.name in ("list", "gen") and it.args and it.x != "gens":
            return it.args[0] if len(it.args) == 1 or it.x else it.args[0]
        return self.T("elem", None, [it], node=n)

    def s_Break(self, n, st):
        if self.frame.loops:
            self.frame.loops[-1].breaks.append(st)
        return None

    def s_Continue(self, n, st):
        if self.frame.loops:
            self.frame.loops[-1].continues.append(st)
        return None

    def s_With(self, n, st):
        suppressed = None
        for item in n.items:
            v, st = self.ev(item.context_expr, st)
            if st is None:
                return None
            self.emit("with", v, n, st)
            if v.op == "ecall" and v.name == "contextlib.suppress":
                suppressed = [self.exc_name(a) for a in v.args]
            if item.optional_vars is not None:
                st = self.assign(item.optional_vars, self.T("attr", "__enter__", [v], node=n), st.clone(), n)
        if suppressed is not None:
            self.catch.append([])
            self.snap.append((tuple(suppressed), []))
            out = self.block(n.body, st)
            _, snaps = self.snap.pop()
            raised = self.catch.pop()
            outs = [out] if out is not None else []
            outs += [s for s, _ in snaps]
            for ex in raised:
                if self.matches(ex.value, suppressed) is not False:
                    outs.append(ex.state)
                else:
                    self.catch[-1].append(ex)
            return self.merge_all(outs)
        return self.block(n.body, st)

    s_AsyncWith = s_With

    # exceptions

    def exc_name(self, t):
        if t is None:
            return "Exception"
        if t.op == "ext":
            return t.name.split(".")[-1]
        if t.op in ("ecall", "ucall"):
            return (t.name or "?").split(".")[-1]
        if t.op == "mcall":
            return t.name
        if t.op == "attr":
            return t.name
        return "?"

    def matches(self, v, names):
        """Does a handler for these class names catch the exception?"""
        n = self.exc_name(v)
        if "Exception" in names or "BaseException" in names:
            return True
        if n in names:
            return True
        if any(p in names for p in EXC_PARENTS.get(n, ())):
            return True
        return False if n in EXC_PARENTS else None

    def snapshot(self, st, *excs):
        """Record a point where an unlisted failure may enter a handler."""
        for names, lst in reversed(self.snap):
            if "Exception" in names or "BaseException" in names or any(
                e in names or any(p in names for p in EXC_PARENTS.get(e, ())) for e in excs
            ):
                lst.append((st, excs))
                return

    def s_Try(self, n, st):
        start = st
        self.catch.append([])
        frame = self.frame
        ret0 = len(frame.returns)
        lp = frame.loops[-1] if frame.loops else None
        br0, co0 = (len(lp.breaks), len(lp.continues)) if lp else (0, 0)
        handler_names = []
        cur = st
        for h in n.handlers:
            if h.type is None:
                handler_names.append(["BaseException"])
            else:
                t, cur = self.ev(h.type, cur)
                ts = t.args if t.op == "tuple" else [t]
                handler_names.append([self.exc_name(x) for x in ts])
        allnames = tuple(x for ns in handler_names for x in ns)
        self.snap.append((allnames, []))
        body = self.block(n.body, st)
        _, snaps = self.snap.pop()
        if self.absent and self.imports_in(n.body):
            snaps = []
        raised = self.catch.pop()
        if n.finalbody:
            self.catch.append([])
        outs = []
        if body is not None and n.orelse:
            body = self.block(n.orelse, body)
        if body is not None:
            outs.append(body)
        leftover = list(raised)
        for h, names in zip(n.handlers, handler_names):
            entries = []
            excval = None
            rest = []
            took = []
            for ex in leftover:
                m = self.matches(ex.value, names)
                if m is not False:
                    entries.append(ex.state)
                    took.append(ex)
                    excval = ex.value
                    if m is None:
                        rest.append(ex)
                else:
                    rest.append(ex)
            leftover = rest
            for s, excs in snaps:
                if any(x in ("Exception", "BaseException") for x in names) or any(
                    e in names or any(p in names for p in EXC_PARENTS.get(e, ())) for e in excs
                ):
                    entries.append(s)
            if not entries:
                # nothing seen to raise it: keep the handler analysed
                if self.handler_plausible(n, names):
                    entries.append(start)
                else:
                    continue
            s = self.merge_all(entries).clone()
            self.emit("handler", None, h, s, names)
            v = self.T("opaque", "exception", node=h)
            if h.name:
                self.bind_name(s, h.name, v)
            self.catch.append([])
            out = self.block(h.body, s)
            hr = self.catch.pop()
            self.emit("caught", None, h, s, {"names": names, "caught": took, "resumes": out is not None, "raises": hr, "try": n})
            for ex in hr:
                if ex.value is not None and ex.value.op == "opaque" and ex.value.name == "reraise" and excval is not None:
                    ex.value = excval
                self.catch[-1].append(ex)
            if out is not None:
                outs.append(out)
        for ex in leftover:
            self.catch[-1].append(ex)
        st = self.merge_all(outs)
        if n.finalbody:
            pend = self.catch.pop()
            for ex in pend:
                s = self.block(n.finalbody, ex.state)
                if s is not None:
                    ex.state = s
                    self.catch[-1].append(ex)
            for ex in frame.returns[ret0:]:
                r0 = len(frame.returns)
                s = self.block(n.finalbody, ex.state)
                if s is not None:
                    ex.state = s
                del frame.returns[r0:]
            if lp:
                for lst, k in ((lp.breaks, br0), (lp.continues, co0)):
                    for i in range(k, len(lst)):
                        s = self.block(n.finalbody, lst[i])
                        if s is not None:
                            lst[i] = s
            if st is not None:
                st = self.block(n.finalbody, st)
        return st

    s_TryStar = s_Try

    def handler_plausible(self, n, names):
        """Could the handler be reached without an exception we have seen?

        When the absence of some libraries is simulated, imports of the others succeed.
        """
        if not self.absent:
            return True
        if names and all(x in ("ImportError", "ModuleNotFoundError") for x in names):
            return False
        return not self.imports_in(n.body)

    @staticmethod
    def imports_in(body):
        for b in body:
            if any(isinstance(z, (ast.Import, ast.ImportFrom)) for z in ast.walk(b)):
                return True
            for z in ast.walk(b):
                if isinstance(z, ast.Call):
                    f = z.func
                    if (f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")) in ("import_module", "__import__"):
                        return True
        return False

    def s_Assign(self, n, st):
        v, st = self.ev(n.value, st)
        if st is None:
            return None
        st = st.clone()
        for t in n.targets:
            st = self.assign(t, v, st, n)
            if st is None:
                return None
        return st

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return st
        v, st = self.ev(n.value, st)
        if st is None:
            return None
        return self.assign(n.target, v, st.clone(), n)

    def s_Delete(self, n, st):
        st = st.clone()
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.delvar(self.frame.envid, t.id)
            elif isinstance(t, ast.Subscript):
                b, st = self.ev(t.value, st)
                i, st = self.ev(t.slice, st)
                st = st.clone()
                self.mutate(b, "del", t, st, self.T("mutcall", "__delitem__", [b, i], node=t, ident=b.ident), i)
            elif isinstance(t, ast.Attribute):
                b, st = self.ev(t.value, st)
                st = st.clone()
                self.emit("store", b, t, st, (t.attr, None))
                self.set_dirty(b, t.attr, n, st, self.T("missing", t.attr))
                st.heap[(b.ident, t.attr)] = self.T("missing", t.attr)
        return st

    def set_dirty(self, base, field, n, st, value):
        st.dirty[(base.ident, field)] = (base, value, n, self.frame.func, tuple(self.stack), self.frame.envid)

    def bind_name(self, st, name, v):
        fr = self.frame
        if name in fr.globals:
            self.emit("gstore", v, None, st, (fr.func.module.name, name))
            st.heap[("global:" + fr.func.module.name, name)] = v
            return
        if name in fr.nonlocals:
            for e in fr.chain[1:]:
                if name in st.envs.get(e, {}):
                    st.setvar(e, name, v)
                    return
        st.setvar(fr.envid, name, v)

    def assign(self, target, v, st, n):
        if st is None:
            return None
        if isinstance(target, ast.Name):
            self.bind_name(st, target.id, v)
            return st
        if isinstance(target, (ast.Tuple, ast.List)):
            elts = target.elts
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            items = self.unpack_items(v, len(elts), st) if not star else None
            self.snapshot(st, "ValueError", "TypeError")
            if v is not None and v.op in ("tuple", "list") and v.ident not in st.ver and not any(a.op == "starred" for a in v.args):
                if len(v.args) != len(elts) and not star or len(v.args) < len(elts) - 1:
                    self.emit("bad_unpack", v, n, st, (len(v.args), len(elts)))
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    st = self.assign(e.value, self.T("unpack", "*", [v], node=n), st, n)
                    continue
                if items is not None:
                    x = items[i]
                else:
                    x = self.T("unpack", i, [v], node=n, ident=self.elem_ident(v, i))
                st = self.assign(e, x, st, n)
                if st is None:
                    return None
            return st
        if isinstance(target, ast.Attribute):
            b, st = self.ev(target.value, st)
            if st is None:
                return None
            st = st.clone()
            return self.store_attr(b, target.attr, v, st, target)
        if isinstance(target, ast.Subscript):
            b, st = self.ev(target.value, st)
            if st is None:
                return None
            i, st = self.ev(target.slice, st)
            if st is None:
                return None
            st = st.clone()
            new = self.T("store", None, [b, i, v], node=target, ident=b.ident)
            self.mutate(b, "setitem", target, st, new, i, v)
            return st
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, n)
        raise AnalysisBroken(f"unsupported assignment target {type(target).__name__}")

    def elem_ident(self, v, i):
        k = ("elem", v.ident, i)
        if v.op in ("param", "attr"):
            return self.identof(k)
        return None

    def identof(self, k):
        if k not in self.globs:
            self.globs[k] = Term("orig").uid
        return self.globs[k]

    def unpack_items(self, v, n, st):
        if v.op in ("tuple", "list") and v.ident not in st.ver and len(v.args) == n and not any(a.op == "starred" for a in v.args):
            return v.args
        if v.op == "phi":
            a = self.unpack_items(v.args[1], n, st)
            b = self.unpack_items(v.args[2], n, st)
            if a is not None and b is not None:
                return [x if x is y else self.T("phi", None, [v.args[0], x, y]) for x, y in zip(a, b)]
        if v.op == "comp" and v.name in ("gen", "list") and len(v.args) >= 1 and v.x is None:
            return [v.args[0]] * n
        return None

    def store_attr(self, b, name, v, st, n):
        for u in self.targets(b):
            c = self.cls_of(u, st)
            if c is not None:
                s = c.lookup_setter(name)
                if s is not None:
                    _, st = self.call_func(s, [u, v], {}, n, st, self_term=u)
                    if st is None:
                        return None
                    continue
            if u.op == "module" or (u.op == "ext") or u.op in ("func", "class"):
                self.emit("mstore", u, n, st, (name, v))
                continue
            self.emit("store", u, n, st, (name, v))
            self.set_dirty(u, name, n, st, v)
            if len(self.targets(b)) == 1:
                st.heap[(u.ident, name)] = v
            else:
                old = st.heap.get((u.ident, name)) or self.attr_term(u, name, n)
                st.heap[(u.ident, name)] = self.T("phi", None, [Term("opaque", "alias"), v, old], node=n)
            # attributes of external arrays (W.data = ..., a.shape = ...) change their content
            if c is None and u.op != "obj":
                self.mutate(u, "setattr:" + name, n, st, self.T("store", name, [u, const(name), v], node=n, ident=u.ident), const(name), v)
        return st

    def targets(self, b):
        if b.op in ("phi",):
            ls = leaves(b)
            ls = [u for u in ls if not (u.op == "const" and u.x is None)]
            return ls or [b]
        if b.op == "maybe":
            return self.targets(b.args[0])
        return [b]

    def s_AugAssign(self, n, st):
        op = OPS[type(n.op)]
        load = {ast.Name: lambda t: ast.Name(id=t.id, ctx=ast.Load()),
                ast.Attribute: lambda t: ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()),
                ast.Subscript: lambda t: ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())}[type(n.target)](n.target)
        ast.copy_location(load, n.target)
        old, st = self.ev(load, st)
        if st is None:
            return None
        v, st = self.ev(n.value, st)
        if st is None:
            return None
        st = st.clone()
        k = self.kind(old)
        if k in libspec.IMMUTABLE_KINDS or (k == "sparse" and op in "+-@"):
            new = self.fold_bin(op, old, v, n)
            return self.assign(n.target, new, st, n)
        new = self.T("inplace", op, [old, v], node=n, ident=old.ident)
        if isinstance(n.target, ast.Subscript):
            # a[i] op= v reads an element and writes it back
            return self.assign(n.target, self.fold_bin(op, old, v, n), st, n)
        self.mutate(old, "aug" + op + "=", n, st, new, None, v, maybe=k is None)
        if isinstance(n.target, ast.Name):
            self.bind_name(st, n.target.id, new)
            return st
        return self.store_attr_quiet(n.target, new, st, n, k)

    def store_attr_quiet(self, target, new, st, n, k):
        b, st = self.ev(target.value, st)
        st = st.clone()
        if k is None:
            self.emit("store", b, n, st, (target.attr, new))
        self.set_dirty(b, target.attr, n, st, new)
        st.heap[(b.ident, target.attr)] = new
        return st

    # -- mutation --------------------------------------------------------------------

    def mutate(self, target, how, node, st, new, index=None, value=None, maybe=False):
        """The object `target` denotes is modified in place; `new` is its new content."""
        self.emit("mutate", target, node, st, {"how": how, "index": index, "value": value, "maybe": maybe})
        self._origs.setdefault(target.ident, target if target.op not in ("store", "inplace", "mutcall", "phi") else target)
        st.ver[target.ident] = new
        # objects sharing memory with the target
        for r, definite in self.alias_roots(target):
            if r.op == "attr" and not maybe and self.cls_of(r.args[0], st) is not None:
                st.dirty.setdefault((r.args[0].ident, r.name), (r.args[0], new, node, self.frame.func, tuple(self.stack), self.frame.envid))
            if r.ident == target.ident:
                continue
            old = st.ver.get(r.ident, r)
            mv = self.T("mutview", how, [old, new], node=node, ident=r.ident)
            self._origs.setdefault(r.ident, r)
            if definite:
                st.ver[r.ident] = mv
            else:
                st.ver[r.ident] = self.T("phi", None, [Term("opaque", "alias"), mv, old], node=node, ident=r.ident)
        if new.ident != target.ident:
            st.ver[target.ident] = new

    def alias_roots(self, t, st=None, definite=True):
        """Objects whose memory a write through `t` reaches: [(term, definite)]."""
        out = []
        seen = set()
        stack = [(t, definite)]
        while stack:
            u, d = stack.pop()
            if u.uid in seen:
                continue
            seen.add(u.uid)
            out.append((u, d))
            for v, dd in self.alias_step(u, st):
                stack.append((v, d and dd))
        return out

    def copy_flag(self, t):
        c = t.kw.get("copy")
        if c is None or c.op != "const":
            return None
        return bool(c.x)

    def fmt(self, t, depth=0):
        """Sparse format of a matrix when known."""
        if depth > 6:
            return None
        if t.op == "ecall" and t.name in libspec.SPARSE_CTORS:
            return t.name.rsplit(".", 1)[1].split("_")[0]
        if t.op == "mcall" and t.name in ("tocsr", "tocsc", "tocoo", "tolil", "todok", "tobsr", "todia"):
            return t.name[2:]
        if t.op == "mcall" and t.name in ("copy", "astype", "asfptype"):
            return self.fmt(t.args[0], depth + 1)
        if t.op in ("mutview", "mutcall", "store", "inplace"):
            return self.fmt(t.args[0], depth + 1)
        if t.op == "attr" and t.name in ("W", "_adjacency") and (self.is_graph(t.args[0]) or self.cls_of(t.args[0]) is None):
            return "csr"
        if t.op in ("phi", "mu"):
            fs = {self.fmt(u, depth + 1) for u in leaves(t) if u is not t}
            return fs.pop() if len(fs) == 1 else None
        return None

    def held(self, t):
        """Objects a list or a tuple built here is known to hold."""
        out, stack, seen = [], [t], set()
        while stack and len(seen) < 60:
            u = stack.pop()
            if u.uid in seen:
                continue
            seen.add(u.uid)
            if u.op in ("list", "tuple"):
                out.extend(u.args)
            elif u.op == "comp" and u.name in ("list", "gen") and u.args:
                out.append(u.args[0])
            elif u.op == "mutcall" and u.name in ("append", "insert", "extend"):
                if u.name == "append":
                    out.extend(u.args[1:2])
                elif u.name == "insert":
                    out.extend(u.args[2:3])
                stack.append(u.args[0])
            elif u.op == "phi":
                stack.extend(u.args[1:])
            elif u.op in ("mu", "maybe", "mutview"):
                stack.extend(u.args)
            elif u.op == "store" and u.args:
                stack.append(u.args[0])
                if len(u.args) == 3 and u.args[0].op in ("list", "store", "mutcall", "dict"):
                    out.append(u.args[2])
        return [u for u in out if u.op not in ("const", "starred")]

    def alias_step(self, t, st=None):
        op = t.op
        if op == "phi":
            if st is not None:
                c = self.decide(t.args[0], st)
                if c is not None:
                    return [(t.args[1 if c else 2], True)]
            return [(a, False) for a in t.args[1:]]
        if op == "mu":
            return [(a, False) for a in t.args]
        if op in ("maybe", "store", "inplace", "mutcall", "mutview", "outval"):
            return [(t.args[0], True)]
        if op == "attr":
            if t.name in libspec.VIEW_ATTRS and not self.cls_of(t.args[0]):
                return [(t.args[0], True)]
            return []
        if op == "sub":
            if basic_index(t.args[1]) or self.kind(t.args[0]) in ("dict", "list", "tuple"):
                inside = [] if t.args[1].op == "slice" else self.held(t.args[0])
                return [(t.args[0], True)] + [(u, False) for u in inside]
            return []
        if op in ("elem", "unpack"):
            return [(t.args[0], True)] + [(u, False) for u in self.held(t.args[0])]
        if op == "tuple" or op == "list":
            return []
        if op == "ecall":
            n = t.name
            if n in libspec.VIEW_FUNCS:
                if self.copy_flag(t) is True:
                    return []
                return [(t.args[i], True) for i in libspec.VIEW_FUNCS[n] if i < len(t.args)]
            if n in ("numpy.array", "numpy.nan_to_num"):
                if self.copy_flag(t) is False and t.args:
                    return [(t.args[0], True)]
                return []
            if n in libspec.SPARSE_SHARING:
                if self.copy_flag(t) is not True and t.args:
                    a = t.args[0]
                    r = [(a, True)]
                    f = self.fmt(a)
                    if f is not None and f != self.fmt(t):
                        return []  # changing the format makes new arrays
                    if a.op == "phi":
                        return [(u, False) for u in leaves(a) if self.fmt(u) in (None, self.fmt(t))]
                    if a.op == "tuple":
                        for z in a.args:
                            r.append((z, True))
                            if z.op == "tuple":
                                r += [(zz, True) for zz in z.args]
                    return r
                return []
            if n in ("builtins.iter", "builtins.reversed", "builtins.enumerate", "builtins.zip"):
                return [(a, True) for a in t.args]
            return []
        if op == "mcall":
            n = t.name
            if n in libspec.VIEW_METHODS:
                if self.copy_flag(t) is True:
                    return []
                if n in ("tocsr", "tocsc", "tocoo", "tolil", "todok", "tobsr", "todia"):
                    f = self.fmt(t.args[0])
                    if f is not None and f != n[2:]:
                        return []
                    if t.args[0].op == "phi":
                        return [(u, False) for u in leaves(t.args[0]) if self.fmt(u) in (None, n[2:])]
                return [(t.args[0], True)]
            if n in ("values", "items", "get", "pop", "setdefault", "get_array"):
                return [(t.args[0], True)]
            if n == "astype" and self.copy_flag(t) is False:
                return [(t.args[0], True)]
        return []

    # -- expressions -------------------------------------------------------------------

    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported expression {type(n).__name__}")
        v, st = m(n, st)
        return v, st

    def e_Constant(self, n, st):
        return const(n.value, n, self.frame.func), st

    def e_Name(self, n, st):
        fr = self.frame
        name = n.id
        for e in fr.chain:
            env = st.envs.get(e)
            if env is not None and name in env:
                t = env[name]
                if t.op == "maybe":
                    d = self.decide(t.x, st) if t.x is not None else None
                    if d is not False:
                        self.emit("maybe_unbound", t, n, st, (name, d))
                        self.snapshot(st, "NameError", "UnboundLocalError")
                    t = t.args[0]
                return self.cur(st, t), st
        if name in self.local_names(fr.func) and name not in fr.globals:
            self.emit("unbound", None, n, st, name)
            return self.T("unk", "unbound:" + name, node=n), st
        return self.global_name(fr.func.module, name, n, st), st

    def local_names(self, func):
        k = id(func.node)
        if k not in self._locals:
            from .model import walk_own
            s = set()
            if not func.is_lambda:
                g = set()
                for x in walk_own(func.node):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        s.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        s.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        s |= {(a.asname or a.name).split(".")[0] for a in x.names}
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        s.add(x.name)
                    elif isinstance(x, (ast.Global, ast.Nonlocal)):
                        g |= set(x.names)
                # comprehension targets are not locals of the function
                for x in walk_own(func.node):
                    if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for c in x.generators:
                            for y in ast.walk(c.target):
                                if isinstance(y, ast.Name):
                                    s.discard(y.id)
                for x in walk_own(func.node):
                    if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With)):
                        ts = getattr(x, "targets", None) or [getattr(x, "target", None)]
                        if isinstance(x, ast.With):
                            ts = [i.optional_vars for i in x.items]
                        for t in ts:
                            if t is not None:
                                for y in ast.walk(t):
                                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                        s.add(y.id)
                s -= g
            self._locals[k] = s
        return self._locals[k]

    _locals = {}

    def global_name(self, module, name, n, st):
        r = self.prog.resolve_name(module, name)
        if r is None:
            if name in BUILTINS:
                return self.T("ext", "builtins." + name, node=n)
            if name in ("__name__", "__file__", "__doc__"):
                return const(module.name if name == "__name__" else name)
            self.emit("undefined", None, n, st, name)
            return self.T("unk", "undefined:" + name, node=n)
        return self.resolved(r, n, st)

    def resolved(self, r, n=None, st=None):
        if r is None:
            return self.T("unk", "unresolved", node=n)
        if isinstance(r, Func):
            return self.func_term(r)
        if isinstance(r, Class):
            return self.intern("class", r, r.name)
        if isinstance(r, Module):
            return self.intern("module", r, r.name)
        if r[0] == "ext":
            return self.T("ext", canon_ext(r[1]), node=n)
        if r[0] == "global":
            return self.module_global(r[1], r[2], n, st)
        return self.T("unk", "?", node=n)

    def intern(self, op, x, name):
        k = (op, id(x))
        if k not in self.globs:
            self.globs[k] = Term(op, name, x=x)
        return self.globs[k]

    def func_term(self, f):
        """A module-level function, decorators applied."""
        k = ("func", id(f.node))
        if k not in self.globs:
            t = Term("func", f.name, x=f)
            fr = Frame(Func(ast.parse("def _m(): pass").body[0], f.module), 0, ())
            self.frames.append(fr)
            try:
                s = State()
                s.envs[0] = {}
                defaults = {}
                for p, d in f.defaults.items():
                    v, _ = self.ev(d, s)
                    defaults[p] = v
                self.closures[t.uid] = ((), defaults, None, ())
                t.args = []
                self.globs[k] = t
                ndeco = 0
                for d in reversed(f.decorators):
                    nm = ast.unparse(d)
                    if nm in ("staticmethod", "classmethod", "property") or nm.endswith(".setter"):
                        continue
                    self.mute += 1
                    self.catch.append([])
                    try:
                        dt, s = self.ev(d, s)
                        t2, s = self.call(dt, [t], {}, d, s)
                    finally:
                        self.mute -= 1
                        self.catch.pop()
                    if t2 is not None and t2.op == "func":
                        # keep the decorator's environment alive
                        self.kept_envs.update({e: v for e, v in s.envs.items() if e})
                        t = t2
                        ndeco += 1
                self.globs[k] = t
            finally:
                self.frames.pop()
        return self.globs[k]

    @property
    def kept_envs(self):
        if not hasattr(self, "_kept"):
            self._kept = {}
        return self._kept

    def module_global(self, module, name, n, st):
        if st is not None:
            t = st.heap.get(("global:" + module.name, name))
            if t is not None:
                return self.cur(st, t)
        k = ("gvar", module.name, name)
        if k not in self.globs:
            node = module.globals.get(name)
            val = None
            if node is not None and not self.is_reassigned(module, name):
                if is_literal(node):
                    fr = Frame(Func(ast.parse("def _m(): pass").body[0], module), 0, ())
                    self.frames.append(fr)
                    self.catch.append([])
                    self.mute += 1
                    s = State()
                    s.envs[0] = {}
                    try:
                        val, _ = self.ev(node, s)
                    finally:
                        self.frames.pop()
                        self.catch.pop()
                        self.mute -= 1
            if val is None:
                val = Term("global", f"{module.name}.{name}")
            self.globs[k] = val
        t = self.globs[k]
        if st is not None:
            t = self.cur(st, t)
        return t

    def is_reassigned(self, module, name):
        for f in ast.walk(module.tree):
            if isinstance(f, ast.Global) and name in f.names:
                return True
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                a = f.args
                local = {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg] if x is not None}
                nodes = list(ast.walk(f))
                local |= {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if name not in local and any(changes_in_place(x, name) for x in nodes):
                    return True
        return False

    def attr_term(self, base, name, n=None):
        k = (base.ident, name)
        if k not in self.attrs:
            self.attrs[k] = self.T("attr", name, [base], node=n)
        return self.attrs[k]

    def e_Attribute(self, n, st):
        b, st = self.ev(n.value, st)
        if st is None:
            return None, None
        return self.getattr(b, n.attr, n, st)

    def getattr(self, b, name, n, st, quiet=False):
        if b.op == "maybe":
            b = b.args[0]
        if b.op == "phi":
            c = self.decide(b.args[0], st)
            if c is not None:
                return self.getattr(b.args[1 if c else 2], name, n, st, quiet)
        if b.op == "ext":
            return self.T("ext", canon_ext(b.name + "." + name), node=n), st
        if b.op == "module":
            r = self.prog.resolve_member(b.x.name, name)
            if r is None:
                self.emit("missing_attr", b, n, st, name)
                return self.T("unk", f"missing:{b.x.name}.{name}", node=n), st
            return self.resolved(r, n, st), st
        if b.op == "class":
            f = b.x.lookup(name)
            if f is not None:
                if f.is_classmethod:
                    return self.T("boundmeth", name, [b], node=n, x=f), st
                return self.T("func", name, [], node=n, x=f), st
            a = b.x.lookup_attr(name)
            if a is not None:
                return self.class_attr(a), st
            return self.attr_term(b, name, n), st
        if b.op == "super":
            cls, after, obj = b.x
            mro = cls.mro()
            i = mro.index(after) + 1 if after in mro else 0
            for c in mro[i:]:
                if name in c.methods:
                    f = c.methods[name]
                    if f.is_property:
                        return self.call_func(f, [obj], {}, n, st, self_term=obj)
                    return self.T("boundmeth", name, [obj], node=n, x=f), st
            return self.T("ext", "builtins.object." + name, node=n), st
        c = self.cls_of(b, st)
        if c is not None:
            h = st.heap.get((b.ident, name))
            if h is not None and h.op != "missing":
                if c.lookup(name) is None or not c.lookup(name).is_property:
                    return self.cur(st, h), st
            f = c.lookup(name)
            if f is not None:
                if f.is_property:
                    if f.qualname in self.opaque:
                        return self.cur(st, self.attr_term(b, name, n)), st
                    return self.call_func(f, [b], {}, n, st, self_term=b)
                if f.is_staticmethod:
                    return self.T("func", name, [], node=n, x=f), st
                return self.T("boundmeth", name, [b], node=n, x=f), st
            a = c.lookup_attr(name)
            if a is not None:
                return self.class_attr(a), st
            if name == "__class__":
                return self.intern("class", c, c.name) if b.op == "obj" else self.attr_term(b, name, n), st
            self.snapshot(st, "AttributeError")
            self.emit("getfield", b, n, st, name)
            if b.op == "obj" and h is None:
                self.emit("missing_field", b, n, st, name)
            t = self.attr_term(b, name, n)
            return self.cur(st, t), st
        h = st.heap.get((b.ident, name))
        if h is not None and h.op != "missing":
            return self.cur(st, h), st
        self.snapshot(st, "AttributeError")
        if b.op == "partial" and name == "func":
            return b.args[0], st
        if b.op in ("store", "inplace", "mutcall", "phi", "mu", "mutview"):
            # attribute of a modified object: not interned on the identity
            return self.T("attr", name, [b], node=n), st
        return self.cur(st, self.attr_term(b, name, n)), st

    def class_attr(self, a):
        cls, node = a
        k = ("cattr", cls.name, id(node))
        if k not in self.globs:
            if is_literal(node):
                fr = Frame(Func(ast.parse("def _m(): pass").body[0], cls.module), 0, ())
                self.frames.append(fr)
                s = State()
                s.envs[0] = {}
                try:
                    v, _ = self.ev(node, s)
                finally:
                    self.frames.pop()
            else:
                v = Term("global", f"{cls.qualname}")
            self.globs[k] = v
        return self.globs[k]

    def e_Subscript(self, n, st):
        b, st = self.ev(n.value, st)
        if st is None:
            return None, None
        i, st = self.ev(n.slice, st)
        if st is None:
            return None, None
        return self.subscript(b, i, n, st)

    def subscript(self, b, i, n, st):
        if b.op == "maybe":
            b = b.args[0]
        c = self.cls_of(b, st)
        if c is not None:
            f = c.lookup("__getitem__")
            if f is not None:
                return self.call_func(f, [b, i], {}, n, st, self_term=b)
        v = self.lookup_item(b, i, st)
        if v is not None:
            if v == "KeyError":
                self.emit("raise", Term("ecall", "builtins.KeyError", node=n), n, st)
                self.snapshot(st, "KeyError", "IndexError")
                self.raise_exit(Term("ecall", "builtins.KeyError", node=n), st, n)
                return None, None
            return self.cur(st, v), st
        self.snapshot(st, "KeyError", "IndexError", "TypeError")
        if b.op in ("param", "attr", "global", "elem", "unpack", "sub") and i.op == "const":
            k = (b.ident, ("item", repr(i.x)))
            if k not in self.attrs:
                self.attrs[k] = self.T("sub", None, [b, i], node=n)
            t = self.attrs[k]
            return self.cur(st, t), st
        return self.T("sub", None, [b, i], node=n), st

    def lookup_item(self, b, i, st, depth=0):
        if depth > 30:
            return None
        if b.op in ("list", "tuple") and i.op == "const" and isinstance(i.x, int) and not isinstance(i.x, bool):
            if b.ident in st.ver and st.ver[b.ident] is not b:
                return None
            if not any(a.op == "starred" for a in b.args):
                try:
                    return b.args[i.x]
                except IndexError:
                    return None
        if b.op in ("list", "tuple") and i.op == "slice" and all(a.op == "const" for a in i.args):
            if b.op == "tuple" or b.ident not in st.ver:
                if not any(a.op == "starred" for a in b.args):
                    return self.T(b.op, None, b.args[slice(*[a.x for a in i.args])])
        if b.op == "kwdict":
            if i.op == "const":
                if i.x in b.kw:
                    return b.kw[i.x]
                if b.args:
                    return self.T("kwget", i.x, list(b.args))
                return "KeyError"
            return None
        if b.op == "dict" and b.x is not None and all(k is not None for k in b.x):
            if i.op == "const" and all(k.op == "const" for k in b.x):
                for k, v in zip(b.x, b.args):
                    if k.x == i.x:
                        return v
                return "KeyError"
            for k, v in zip(b.x, b.args):
                if skey(k) == skey(i):
                    return v
            return None
        if b.op == "store" and len(b.args) == 3 and self.kind(b) in ("dict", "list"):
            j = b.args[1]
            if skey(j) == skey(i):
                return b.args[2]
            if j.op == "const" and i.op == "const":
                r = self.lookup_item(b.args[0], i, st, depth + 1)
                return r
            return None
        if b.op == "phi":
            x = self.lookup_item(b.args[1], i, st, depth + 1)
            y = self.lookup_item(b.args[2], i, st, depth + 1)
            if x is not None and y is not None and x != "KeyError" and y != "KeyError":
                return x if x is y else self.T("phi", None, [b.args[0], x, y])
        if b.op == "mutcall" and b.name == "update" and i.op == "const":
            for a in b.args[1:]:
                r = self.lookup_item(a, i, st, depth + 1)
                if r is None:
                    return None
                if r != "KeyError":
                    return r
            if i.x in b.kw:
                return b.kw[i.x]
            return self.lookup_item(b.args[0], i, st, depth + 1)
        if b.op == "mutcall" and b.name == "pop" and i.op == "const" and len(b.args) > 1 and b.args[1].op == "const" and isinstance(i.x, str) and isinstance(b.args[1].x, str):
            return "KeyError" if i.x == b.args[1].x else self.lookup_item(b.args[0], i, st, depth + 1)
        return None

    def e_Slice(self, n, st):
        out = []
        for x in (n.lower, n.upper, n.step):
            if x is None:
                out.append(NONE)
            else:
                v, st = self.ev(x, st)
                out.append(v)
        return self.T("slice", None, out, node=n), st

    def seq(self, elts, st):
        out = []
        for e in elts:
            if st is None:
                return None, None
            if isinstance(e, ast.Starred):
                v, st = self.ev(e.value, st)
                if v is not None and v.op in ("tuple", "list") and v.ident not in st.ver:
                    out += v.args
                else:
                    out.append(self.T("starred", None, [v], node=e))
            else:
                v, st = self.ev(e, st)
                out.append(v)
        if st is None:
            return None, None
        return out, st

    def e_Tuple(self, n, st):
        a, st = self.seq(n.elts, st)
        if st is None:
            return None, None
        return self.T("tuple", None, a, node=n), st

    def e_List(self, n, st):
        a, st = self.seq(n.elts, st)
        if st is None:
            return None, None
        return self.T("list", None, a, node=n), st

    def e_Set(self, n, st):
        a, st = self.seq(n.elts, st)
        if st is None:
            return None, None
        return self.T("set", None, a, node=n), st

    def e_Dict(self, n, st):
        ks, vs = [], []
        for k, v in zip(n.keys, n.values):
            if st is None:
                return None, None
            x, st = self.ev(v, st)
            if st is None:
                return None, None
            if k is None:
                items = x if x.op == "dict" and x.x is not None and x.ident not in st.ver else None
                if items is not None:
                    for kk, vv in zip(x.x, x.args):
                        ks.append(kk)
                        vs.append(vv)
                elif x.op == "kwdict" and not x.args:
                    for kk, vv in x.kw.items():
                        ks.append(const(kk))
                        vs.append(vv)
                else:
                    ks.append(None)
                    vs.append(x)
            else:
                kk, st = self.ev(k, st)
                # later keys override
                for i, old in enumerate(ks):
                    if old is not None and old.op == "const" and kk.op == "const" and old.x == kk.x:
                        del ks[i], vs[i]
                        break
                ks.append(kk)
                vs.append(x)
        return self.T("dict", None, vs, node=n, x=ks), st

    def e_Starred(self, n, st):
        v, st = self.ev(n.value, st)
        return self.T("starred", None, [v], node=n), st

    def e_JoinedStr(self, n, st):
        parts = []
        spec = None
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x, st = self.ev(v.value, st)
                if st is None:
                    return None, None
                if v.format_spec is not None:
                    _, st = self.ev(v.format_spec, st)
                    spec = "spec"
                parts.append(x)
            else:
                parts.append(const(v.value))
        if parts and all(p.op == "const" and isinstance(p.x, str) for p in parts):
            return const("".join(p.x for p in parts), n), st
        if not parts:
            return const("", n), st
        return self.T("fstr", spec, parts, node=n), st

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Lambda(self, n, st):
        f = Func(n, self.frame.func.module, None, outer=self.frame.func)
        return self.closure(f, st, n), st

    def e_NamedExpr(self, n, st):
        v, st = self.ev(n.value, st)
        if st is None:
            return None, None
        st = self.assign(n.target, v, st.clone(), n)
        return v, st

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        v = NONE
        if n.value is not None:
            v, st = self.ev(n.value, st)
        if self.frame.yields is not None and v is not None:
            self.frame.yields.append(v)
            self.emit("yield", v, n, st)
        return self.T("opaque", "sent", node=n), st

    def e_YieldFrom(self, n, st):
        v, st = self.ev(n.value, st)
        if self.frame.yields is not None and v is not None:
            self.frame.yields.append(self.elem(v, n, st))
        return NONE, st

    def e_UnaryOp(self, n, st):
        v, st = self.ev(n.operand, st)
        if st is None:
            return None, None
        op = {ast.Not: "not", ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)]
        if op == "not":
            self.truth(v, n.operand, st)
            d = self.decide(v, st)
            if d is not None:
                return (FALSE if d else TRUE), st
        if v.op == "const" and op == "-" and isinstance(v.x, (int, float)) and not isinstance(v.x, bool):
            return const(-v.x, n), st
        return self.T("un", op, [v], node=n), st

    def e_BinOp(self, n, st):
        a, st = self.ev(n.left, st)
        if st is None:
            return None, None
        b, st = self.ev(n.right, st)
        if st is None:
            return None, None
        op = OPS[type(n.op)]
        dunder = {"+": "__add__", "@": "__matmul__", "-": "__sub__", "*": "__mul__"}.get(op)
        if dunder:
            c = self.cls_of(a, st)
            if c is not None and c.lookup(dunder) is not None:
                return self.call_func(c.lookup(dunder), [a, b], {}, n, st, self_term=a)
        return self.fold_bin(op, a, b, n), st

    def fold_bin(self, op, a, b, n):
        if a.op == "const" and b.op == "const":
            try:
                if op == "+" and isinstance(a.x, (int, float, str, tuple)):
                    return const(a.x + b.x, n)
                if op == "-":
                    return const(a.x - b.x, n)
                if op == "*" and isinstance(a.x, (int, float)):
                    return const(a.x * b.x, n)
                if op == "/":
                    return const(a.x / b.x, n)
                if op == "//":
                    return const(a.x // b.x, n)
                if op == "**" and abs(b.x) < 20:
                    return const(a.x ** b.x, n)
            except Exception:
                pass
        if op == "+" and a.op == b.op and a.op in ("list", "tuple"):
            return self.T(a.op, None, a.args + b.args, node=n)
        return self.T("bin", op, [a, b], node=n)

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        vals = []
        s = st
        base_facts = None
        for i, x in enumerate(n.values):
            v, s2 = self.ev(x, s)
            if s2 is None:
                # evaluation of this operand cannot complete; the others may short-circuit
                if not vals:
                    return None, None
                break
            s = s2
            if base_facts is None:
                base_facts = s.facts
            if i < len(n.values) - 1:
                self.truth(v, x, s)
            d = self.decide(v, s)
            if d is not None and d != is_and:
                # short circuit decided
                vals.append(v)
                break
            if d is not None and d == is_and and i < len(n.values) - 1:
                continue
            vals.append(v)
            s = self.assumed_state(s, v, is_and)
        s = s.clone()
        s.facts = base_facts if base_facts is not None else s.facts
        s.path = st.path
        if not vals:
            return (TRUE if is_and else FALSE), s
        if len(vals) == 1:
            return vals[0], s
        if is_and and vals[-1].op == "const" and self.decide(vals[-1], s) is False and len(vals) > 1:
            return vals[-1] if isinstance(vals[-1].x, bool) else self.T("bool", "and", vals, node=n), s
        return self.T("bool", "and" if is_and else "or", vals, node=n), s

    def assumed_state(self, s, v, truth):
        r = s.clone()
        r.facts = s.facts | self.facts_of(v, truth, s)
        return r

    def e_Compare(self, n, st):
        a, st = self.ev(n.left, st)
        if st is None:
            return None, None
        out = []
        for op, r in zip(n.ops, n.comparators):
            b, st = self.ev(r, st)
            if st is None:
                return None, None
            t = self.T("cmp", CMPS[type(op)], [a, b], node=n)
            d = self.decide_cmp(t, st, 0)
            out.append(t if d is None else (TRUE if d else FALSE))
            a = b
        if len(out) == 1:
            return out[0], st
        if any(t is FALSE for t in out):
            return FALSE, st
        out = [t for t in out if t is not TRUE]
        if not out:
            return TRUE, st
        return (out[0] if len(out) == 1 else self.T("bool", "and", out, node=n)), st

    def e_IfExp(self, n, st):
        c, st = self.ev(n.test, st)
        if st is None:
            return None, None
        self.truth(c, n.test, st)
        d = self.decide(c, st)
        if d is True:
            return self.ev(n.body, st)
        if d is False:
            return self.ev(n.orelse, st)
        a, sa = self.ev(n.body, self.branch(st, c, True))
        b, sb = self.ev(n.orelse, self.branch(st, c, False))
        if sa is None:
            return b, sb
        if sb is None:
            return a, sa
        s = self.merge(sa, sb)
        if a.op == "const" and b.op == "const" and a.x == b.x and type(a.x) is type(b.x):
            return a, s
        return (a if a is b else self.T("phi", None, [c, a, b], node=n)), s

    # comprehensions

    def comp(self, n, kind, elts, st):
        envid = self.new_env(st := st.clone())
        fr = self.frame
        sub = Frame(fr.func, envid, fr.chain, fr.self_term)
        sub.returns = fr.returns
        sub.loops = fr.loops
        sub.globals = fr.globals
        sub.yields = fr.yields
        sub.is_comp = True
        self.frames.append(sub)
        self.loopstack.append(n)
        try:
            iters, conds = [], []
            single = None
            for g in n.generators:
                it, st = self.ev(g.iter, st)
                if st is None:
                    return None, None
                if len(n.generators) == 1 and not g.ifs and kind in ("list", "gen", "set", "dict"):
                    seq = self.unrollable(it, st)
                    if seq is not None and kind in ("list", "dict"):
                        single = seq
                        break
                st = self.assign(g.target, self.elem(it, g.target, st), st.clone(), g.target)
                iters.append(it)
                for c in g.ifs:
                    v, st = self.ev(c, st)
                    if st is None:
                        return None, None
                    conds.append(v)
                    st = self.branch(st, v, True)
            if single is not None:
                out, keys = [], []
                for x in single:
                    st = self.assign(n.generators[0].target, x, st.clone(), n.generators[0].target)
                    vs = []
                    for e in elts:
                        v, st = self.ev(e, st)
                        if st is None:
                            return None, None
                        vs.append(v)
                    out.append(vs[-1])
                    keys.append(vs[0])
                if kind == "dict":
                    return self.T("dict", None, out, node=n, x=keys), st
                return self.T("list", None, out, node=n), st
            vals = []
            for e in elts:
                v, st = self.ev(e, st)
                if st is None:
                    return None, None
                vals.append(v)
        finally:
            self.frames.pop()
            self.loopstack.pop()
        t = self.T("comp", kind, vals + iters + conds, node=n, x=("comp", len(vals), len(iters)))
        return t, st

    def strip_comp(self, st0, res):
        v, st = res
        if st is None:
            return None, None
        s = st.clone()
        s.facts = st0.facts
        s.path = st0.path
        return v, s

    def e_ListComp(self, n, st):
        return self.strip_comp(st, self.comp(n, "list", [n.elt], st))

    def e_SetComp(self, n, st):
        return self.strip_comp(st, self.comp(n, "set", [n.elt], st))

    def e_GeneratorExp(self, n, st):
        return self.strip_comp(st, self.comp(n, "gen", [n.elt], st))

    def e_DictComp(self, n, st):
        return self.strip_comp(st, self.comp(n, "dict", [n.key, n.value], st))

    # -- calls ---------------------------------------------------------------------------

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            f = self.frame.func
            while f.outer is not None and f.cls is None:
                f = f.outer
            obj = self.frame.self_term
            if n.args:
                after, st = self.ev(n.args[0], st)
                obj, st = self.ev(n.args[1], st) if len(n.args) > 1 else (obj, st)
                after = after.x
            else:
                after = f.cls
            cls = self.cls_of(obj, st) if obj is not None else None
            if obj is not None and obj.op == "class":
                cls = obj.x
            if cls is None:
                cls = after
            if cls is None:
                return self.T("opaque", "super", node=n), st
            return self.T("super", None, [obj] if obj is not None else [], node=n, x=(cls, after, obj)), st
        fn, st = self.ev(n.func, st)
        if st is None:
            return None, None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v, st = self.ev(a.value, st)
                if st is None:
                    return None, None
                if v.op in ("tuple", "list") and v.ident not in st.ver and not any(x.op == "starred" for x in v.args):
                    args += v.args
                else:
                    args.append(self.T("starred", None, [v], node=a))
            else:
                v, st = self.ev(a, st)
                if st is None:
                    return None, None
                args.append(v)
        kw = {}
        rest = []
        for k in n.keywords:
            v, st = self.ev(k.value, st)
            if st is None:
                return None, None
            if k.arg is None:
                if v.op == "maybe":
                    v = v.args[0]
                v = self.cur(st, v)
                flat = self.flatten_kw(v, st)
                for kk, vv in flat[0].items():
                    if kk in kw:
                        self.emit("dup_kw", fn, n, st, kk)
                    kw[kk] = vv
                rest += flat[1]
            else:
                if k.arg in kw:
                    self.emit("dup_kw", fn, n, st, k.arg)
                kw[k.arg] = v
        for r in rest:
            # a ** dict that has different keys on different paths: the call is
            # interpreted once per path, each with the keys it has there
            if r.op == "phi" and not any(x is not r and x.op == "phi" for x in rest) and self.decide(r.args[0], st) is None:
                sides = [self.flatten_kw(x, st) for x in r.args[1:3]]
                if any(s[1] for s in sides) or any(set(s[0]) & set(kw) for s in sides):
                    continue
                others = [x for x in rest if x is not r]
                outs = []
                for side, v in ((sides[0][0], True), (sides[1][0], False)):
                    k2 = {**kw, **side}
                    if others:
                        k2["**"] = self.T("kwdict", None, others, {}, node=n)
                    outs.append(self.call(fn, list(args), k2, n, self.branch(st, r.args[0], v)))
                (a, sa), (b, sb) = outs
                if sa is None:
                    return b, sb
                if sb is None:
                    return a, sa
                return (a if a is b else self.T("phi", None, [r.args[0], a, b], node=n)), self.merge(sa, sb)
        if rest:
            kw["**"] = self.T("kwdict", None, rest, {}, node=n)
        return self.call(fn, args, kw, n, st)

    def flatten_kw(self, v, st):
        """Known items and unknown remainders of a ** argument."""
        if v.op == "kwdict":
            return dict(v.kw), list(v.args)
        if v.op == "dict" and v.x is not None and all(k is not None and k.op == "const" for k in v.x):
            return {k.x: a for k, a in zip(v.x, v.args)}, []
        if v.op == "dict" and v.x is not None:
            known, rest = {}, []
            for k, a in zip(v.x, v.args):
                if k is None:
                    kk, rr = self.flatten_kw(a, st)
                    known.update(kk)
                    rest += rr
                elif k.op == "const":
                    known[k.x] = a
                else:
                    rest.append(a)
            return known, rest
        if v.op == "store" and v.args[1].op == "const" and isinstance(v.args[1].x, str):
            known, rest = self.flatten_kw(v.args[0], st)
            known[v.args[1].x] = v.args[2]
            return known, rest
        if v.op == "mutcall" and v.name == "update":
            known, rest = self.flatten_kw(v.args[0], st)
            for a in v.args[1:]:
                k2, r2 = self.flatten_kw(a, st)
                known.update(k2)
                rest += r2
            for k, a in v.kw.items():
                if k != "**":
                    known[k] = a
                else:
                    rest += a.args
            return known, rest
        if v.op == "mutcall" and v.name == "pop" and v.args[1:] and v.args[1].op == "const":
            known, rest = self.flatten_kw(v.args[0], st)
            known.pop(v.args[1].x, None)
            if rest:
                rest = [self.T("kwminus", v.args[1].x, rest)]
            return known, rest
        if v.op == "mutcall" and v.name == "setdefault" and v.args[1:] and v.args[1].op == "const":
            known, rest = self.flatten_kw(v.args[0], st)
            if v.args[1].x not in known:
                known[v.args[1].x] = v.args[2] if len(v.args) > 2 else NONE
            return known, rest
        if v.op == "phi":
            a, b = self.flatten_kw(v.args[1], st), self.flatten_kw(v.args[2], st)
            if set(a[0]) == set(b[0]) and not a[1] and not b[1]:
                return {k: (a[0][k] if a[0][k] is b[0][k] else self.T("phi", None, [v.args[0], a[0][k], b[0][k]])) for k in a[0]}, []
        if v.op == "ecall" and v.name == "builtins.dict" and len(v.args) <= 1:
            known, rest = self.flatten_kw(v.args[0], st) if v.args else ({}, [])
            for k, a in v.kw.items():
                if k != "**":
                    known[k] = a
                else:
                    rest += a.args
            return known, rest
        return {}, [v]

    def call(self, fn, args, kw, n, st):
        self.calls_seen += 1
        if fn.op == "maybe":
            fn = fn.args[0]
        op = fn.op
        if op == "func":
            return self.call_func(fn.x, args, kw, n, st, fn=fn)
        if op == "boundmeth":
            return self.call_func(fn.x, [fn.args[0]] + args, kw, n, st, self_term=fn.args[0])
        if op == "class":
            return self.instantiate(fn.x, args, kw, n, st)
        if op == "partial":
            pk = dict(fn.kw)
            pk.update(kw)
            return self.call(fn.args[0], fn.args[1:] + args, pk, n, st)
        if op == "ext":
            return self.ext_call(fn.name, args, kw, n, st)
        if op == "phi":
            d = self.decide(fn.args[0], st)
            if d is not None:
                return self.call(fn.args[1 if d else 2], args, kw, n, st)
            ls = [x for x in leaves(fn)]
            if any(x.op in ("func", "class", "boundmeth", "partial") for x in ls):
                a, sa = self.call(fn.args[1], args, kw, n, self.branch(st, fn.args[0], True)) if not self.is_noneish(fn.args[1]) else (None, None)
                b, sb = self.call(fn.args[2], args, kw, n, self.branch(st, fn.args[0], False)) if not self.is_noneish(fn.args[2]) else (None, None)
                if sa is None:
                    return b, sb
                if sb is None:
                    return a, sa
                s = self.merge(sa, sb)
                return (a if a is b else self.T("phi", None, [fn.args[0], a, b], node=n)), s
        if op == "attr":
            return self.method_call(fn.args[0], fn.name, args, kw, n, st)
        if op == "mu" or op == "sub" or op == "elem":
            cands = self.callable_candidates(fn)
            if cands and len(cands) <= 4:
                outs = []
                for c in cands:
                    v, s = self.call(c, args, kw, n, st.clone())
                    if s is not None:
                        outs.append((v, s))
                if not outs:
                    return None, None
                v, s = outs[0]
                for v2, s2 in outs[1:]:
                    s = self.merge(s, s2)
                    v = self.T("phi", None, [Term("opaque", "callee"), v, v2], node=n)
                return v, s
        self.snapshot(st, "TypeError", "Exception")
        c = self.cls_of(fn, st)
        if c is not None and c.lookup("__call__") is not None:
            return self.call_func(c.lookup("__call__"), [fn] + args, kw, n, st, self_term=fn)
        t = self.T("ucall", None, [fn] + args, kw, node=n)
        self.emit("ucall", t, n, st)
        return t, st

    def is_noneish(self, t):
        return t.op == "const" and t.x is None

    def callable_candidates(self, fn):
        """Function values an element of a container may be."""
        out, seen = [], set()

        def visit(t, depth):
            if depth > 10 or t.uid in seen:
                return
            seen.add(t.uid)
            if t.op in ("func", "partial", "boundmeth"):
                out.append(t)
            elif t.op in ("sub", "elem"):
                visit(t.args[0], depth + 1)
            elif t.op in ("list", "tuple", "phi", "mu", "comp", "dict"):
                a = t.args[1:] if t.op == "phi" else t.args[: t.x[1]] if t.op == "comp" and isinstance(t.x, tuple) else t.args
                for x in a:
                    visit(x, depth + 1)
            elif t.op == "mutcall" and t.name in ("append", "extend", "insert"):
                for x in t.args:
                    visit(x, depth + 1)
            elif t.op == "bin" and t.name == "+":
                for x in t.args:
                    visit(x, depth + 1)
            elif t.op == "store":
                visit(t.args[0], depth + 1)
                visit(t.args[2], depth + 1)
            elif t.op == "inplace":
                for x in t.args:
                    visit(x, depth + 1)

        visit(fn, 0)
        return out

    def instantiate(self, cls, args, kw, n, st):
        obj = self.T("obj", cls.name, [], node=n, x=cls)
        init = cls.lookup("__init__")
        st = st.clone()
        self.emit("new", obj, n, st, (cls, args, kw))
        depth = sum(1 for f, _ in self.stack if f is init)
        if init is None or cls.name in self.opaque or depth > 1:
            obj.args = list(args)
            obj.kw = dict(kw)
            self.opaque_objs.add(obj.uid)
            self.clshint[obj.ident] = cls
            return obj, st
        self.obj_args[obj.uid] = (args, kw)
        _, st = self.call_func(init, [obj] + args, kw, n, st, self_term=obj)
        if st is None:
            return None, None
        return obj, st

    obj_args = {}
    opaque_objs = set()

    def call_func(self, f, args, kw, n, st, fn=None, self_term=None):
        if f.qualname in self.opaque or len(self.stack) > MAX_DEPTH or sum(1 for g, _ in self.stack if g.node is f.node) >= 3:
            self.emit("opaque_call", None, n, st, f)
            t = self.T("ecall", "pkg:" + f.qualname, args, kw, node=n)
            return t, st
        st = st.clone()
        if self.kept_envs:
            for e, v in self.kept_envs.items():
                st.envs.setdefault(e, v)
        chain, defaults, outer_self, _ = (), None, None, ()
        if fn is not None and fn.uid in self.closures:
            chain, defaults, outer_self, _ = self.closures[fn.uid]
        if defaults is None:
            defaults = self.method_defaults(f)
        envid = self.new_env(st)
        env, err = self.bind(f, args, kw, defaults, n, st)
        if err:
            self.emit("bad_call", None, n, st, (f, err))
        st.envs[envid] = env
        if self_term is None:
            self_term = outer_self
            if f.cls is not None and f.args and not f.is_staticmethod and args:
                self_term = args[0]
        fr = Frame(f, envid, chain, self_term)
        self.emit("call", None, n, st, (f, env))
        self.frames.append(fr)
        self.stack.append((f, n))
        self.inlined.add(f.qualname)
        path0 = st.path
        try:
            self.run_body(f, st, fr)
        finally:
            self.frames.pop()
            self.stack.pop()
        if not fr.returns:
            return None, None
        out, v = self.merge_exits(fr.returns)
        out.path = path0 if len(out.path) >= len(path0) else out.path
        self.settle(f, out)
        return v, out

    def settle(self, f, st):
        """Hook: called when an inlined function has returned normally."""

    def method_defaults(self, f):
        k = ("defaults", id(f.node))
        if k not in self.globs:
            fr = Frame(Func(ast.parse("def _m(): pass").body[0], f.module), 0, ())
            self.frames.append(fr)
            s = State()
            s.envs[0] = {}
            d = {}
            try:
                for p, node in f.defaults.items():
                    d[p], _ = self.ev(node, s)
            finally:
                self.frames.pop()
            self.globs[k] = d
        return self.globs[k]

    def bind(self, f, args, kw, defaults, n, st):
        env = {}
        err = None
        pos = list(args)
        names = list(f.args)
        star = None
        i = 0
        extra = []
        while pos:
            a = pos.pop(0)
            if a.op == "starred":
                star = a
                extra.append(a)
                continue
            if star is None and i < len(names):
                env[names[i]] = a
                i += 1
            else:
                extra.append(a)
        if extra and not f.vararg and star is None:
            err = f"takes {len(names)} positional arguments but {len(args)} were given"
        kw = dict(kw)
        rest = kw.pop("**", None)
        passed = {}
        for k, v in kw.items():
            if k in names or k in f.kwonly:
                if k in env:
                    err = f"got multiple values for argument {k!r}"
                env[k] = v
            elif f.kwarg:
                passed[k] = v
            else:
                err = f"got an unexpected keyword argument {k!r}"
        if f.vararg:
            env[f.vararg] = Term("tuple", None, extra, node=n)
        for p in names + f.kwonly:
            if p in env:
                continue
            d = defaults.get(p)
            if star is not None and p in names:
                env[p] = Term("stararg", p, [star.args[0]] + ([d] if d is not None else []), {"**": x for x in rest.args[:1]} if rest is not None else None, node=n)
            elif rest is not None and not (d is not None and all(cannot_hold(x, p) for x in rest.args)):
                env[p] = Term("kwget", p, list(rest.args) + ([d] if d is not None else []), node=n, x="default" if d is not None else None)
            elif d is not None:
                env[p] = d
            else:
                err = err or f"missing a required argument: {p!r}"
                env[p] = Term("unk", "missing:" + p, node=n)
        if f.kwarg:
            r = []
            if rest is not None:
                consumed = [p for p in names + f.kwonly if p in env and env[p].op == "kwget"]
                r = list(rest.args)
                if consumed:
                    r = [Term("kwminus", tuple(consumed), [x]) for x in r]
            env[f.kwarg] = Term("kwdict", None, r, passed, node=n)
        return env, err

    def ext_call(self, name, args, kw, n, st):
        base = name.split(".")[-1]
        if name.startswith("builtins."):
            r = self.builtin_call(base, args, kw, n, st)
            if r is not None:
                return r
        if name == "functools.partial" and args:
            return self.T("partial", None, args, kw, node=n), st
        if name == "functools.wraps":
            return self.T("ext", "pgsa.identity", node=n), st
        if name == "pgsa.identity":
            return args[0], st
        if name in ("importlib.import_module", "builtins.__import__") and args and args[0].op == "const" and isinstance(args[0].x, str):
            self.emit("import", None, n, st, args[0].x)
            if not self.absent:
                self.snapshot(st, "ImportError")
            if self.fails_to_import(args[0].x, n, st):
                return self.T("unk", "absent", node=n), None
            r = self.prog.resolve_dotted(args[0].x if name.startswith("importlib") else args[0].x.split(".")[0])
            if r is not None:
                return self.resolved(r, n), st
        t = self.T("ecall", name, args, kw, node=n)
        if name not in ("builtins.isinstance", "builtins.len", "builtins.hasattr", "builtins.iter") and not name.startswith("builtins."):
            excs = ["Exception"]
            if name in libspec.MAY_FAIL:
                excs += ["ArpackNoConvergence", "LinAlgError", "RuntimeError"]
            if name.startswith("builtins") is False:
                excs += ["ValueError", "TypeError", "RuntimeError", "IndexError"]
            self.snapshot(st, *excs)
        if name in libspec.MAY_FAIL:
            self.raise_exit(Term("ecall", "scipy.sparse.linalg.ArpackNoConvergence" if "eigs" in base else "numpy.linalg.LinAlgError", node=n), st, n, "mayfail")
        self.emit("ecall", t, n, st)
        # writes into arguments
        for i in libspec.MUT_FUNCS.get(name, ()):
            if i < len(args):
                st = st.clone()
                self.mutate(args[i], name, n, st, self.T("mutcall", name, [args[i]] + args[:i] + args[i + 1:], kw, node=n, ident=args[i].ident))
        out = kw.get("out")
        if out is not None and not (out.op == "const" and out.x is None):
            st = st.clone()
            tgt = out.args[0] if out.op == "tuple" and out.args else out
            new = self.T("outval", name, [tgt, t], node=n, ident=tgt.ident)
            self.mutate(tgt, "out=", n, st, new)
            return new, st
        for k, i in libspec.OVERWRITE_KW.items():
            v = kw.get(k)
            if v is not None and not (v.op == "const" and not v.x) and i < len(args):
                st = st.clone()
                self.mutate(args[i], k, n, st, self.T("mutcall", k, [args[i]], node=n, ident=args[i].ident))
        if kw.get("copy") is not None and kw["copy"].op == "const" and kw["copy"].x is False and name == "numpy.nan_to_num" and args:
            st = st.clone()
            self.mutate(args[0], "copy=False", n, st, self.T("mutcall", name, [args[0]], node=n, ident=args[0].ident))
        # callables handed to library functions are run by them
        return t, st

    def builtin_call(self, name, args, kw, n, st):
        if name == "getattr" and len(args) == 2 and args[0].op == "phi" and args[1].op == "const" and all(u.op in ("module", "ext") for u in leaves(args[0])):
            # one of two libraries
            c, a, b = args[0].args
            d = self.decide(c, st)
            if d is not None:
                return self.builtin_call(name, [a if d else b, args[1]], kw, n, st)
            x, st = self.builtin_call(name, [a, args[1]], kw, n, st)
            y, st = self.builtin_call(name, [b, args[1]], kw, n, st)
            return self.T("phi", None, [c, x, y], node=n), st
        if name == "getattr" and len(args) >= 2 and args[1].op == "const" and isinstance(args[1].x, str):
            b, a = args[0], args[1].x
            if len(args) == 3:
                c = self.cls_of(b, st)
                if c is not None:
                    if b.op == "obj" and (b.ident, a) not in st.heap and c.lookup(a) is None and c.lookup_attr(a) is None:
                        return args[2], st
                    v, st2 = self.getattr(b, a, n, st, quiet=True)
                    if st2 is None:
                        return None, None
                    if c.lookup(a) is not None or (b.ident, a) in st.heap:
                        return v, st2
                    return self.T("phi", None, [self.T("ecall", "builtins.hasattr", [b, args[1]], node=n), v, args[2]], node=n), st2
                v, st2 = self.getattr(b, a, n, st, quiet=True)
                if st2 is None:
                    return None, None
                return self.T("phi", None, [self.T("ecall", "builtins.hasattr", [b, args[1]], node=n), v, args[2]], node=n), st2
            return self.getattr(b, a, n, st)
        if name == "getattr" and args and args[1].op == "fstr" and self.is_graph(args[0]):
            # getattr(self, f'_{name}') with an unknown name
            return self.T("attr", "?", [args[0]], node=n), st
        if name == "setattr" and len(args) == 3:
            if args[1].op == "const" and isinstance(args[1].x, str):
                return NONE, self.store_attr(args[0], args[1].x, args[2], st.clone(), n)
            self.emit("store", args[0], n, st, ("?", args[2]))
            return NONE, st
        if name == "hasattr" and len(args) == 2 and args[1].op == "const":
            c = self.cls_of(args[0], st)
            if c is not None:
                h = st.heap.get((args[0].ident, args[1].x))
                if c.lookup(args[1].x) is not None or (h is not None and h.op not in ("missing", "phi", "mu")):
                    return TRUE, st
                if args[0].op == "obj" and h is None and args[0].uid not in self.opaque_objs:
                    return FALSE, st
            return self.T("ecall", "builtins.hasattr", args, node=n), st
        if name == "callable" and args:
            if args[0].op in ("func", "class", "partial", "boundmeth"):
                return TRUE, st
        if name == "iter" and args:
            # may raise TypeError
            k = self.kind(args[0])
            if k not in ("list", "tuple", "dict", "set", "array", "iter", "str"):
                self.snapshot(st, "TypeError")
            if args[0].op in ("func",) or k == "scalar":
                self.raise_exit(Term("ecall", "builtins.TypeError", node=n), st, n)
                return None, None
            return self.T("ecall", "builtins.iter", args, node=n), st
        if name in ("dict",):
            if not args and not any(k == "**" for k in kw):
                return self.T("dict", None, list(kw.values()), node=n, x=[const(k) for k in kw]), st
            known, rest = ({}, [])
            if args:
                known, rest = self.flatten_kw(args[0], st)
            if not rest:
                for k, v in kw.items():
                    if k == "**":
                        rest += v.args
                    else:
                        known[k] = v
                if not rest:
                    return self.T("dict", None, list(known.values()), node=n, x=[const(k) for k in known]), st
        if name == "list" and not args:
            return self.T("list", None, [], node=n), st
        if name == "list" and len(args) == 1 and args[0].op in ("list", "tuple") and args[0].ident not in st.ver:
            return self.T("list", None, list(args[0].args), node=n), st
        if name == "tuple" and len(args) == 1 and args[0].op in ("list", "tuple") and args[0].ident not in st.ver:
            return self.T("tuple", None, list(args[0].args), node=n), st
        if name == "set" and not args:
            return self.T("set", None, [], node=n), st
        if name == "len" and len(args) == 1:
            a = args[0]
            c = self.cls_of(a, st)
            if c is not None and c.lookup("__len__") is not None:
                return self.call_func(c.lookup("__len__"), [a], {}, n, st, self_term=a)
            if a.op in ("list", "tuple") and a.ident not in st.ver and not any(x.op == "starred" for x in a.args):
                return const(len(a.args), n), st
            self.snapshot(st, "TypeError")
        if name == "bool" and len(args) == 1:
            d = self.decide(args[0], st)
            if d is not None:
                return (TRUE if d else FALSE), st
        if name == "type" and len(args) == 1:
            c = self.cls_of(args[0], st)
            if c is not None and args[0].op == "obj":
                return self.intern("class", c, c.name), st
        if name in ("any", "all") and len(args) == 1 and args[0].op in ("list", "tuple") and args[0].ident not in st.ver:
            ds = [self.decide(x, st) for x in args[0].args]
            if name == "any" and True in ds or name == "all" and False in ds:
                return (TRUE if name == "any" else FALSE), st
            if all(d is not None for d in ds):
                return (TRUE if (any(ds) if name == "any" else all(ds)) else FALSE), st
            if args[0].args:
                return self.T("bool", "or" if name == "any" else "and", list(args[0].args), node=n), st
        if name == "isinstance" and len(args) == 2:
            d = self.decide_isinstance(args[0], args[1], st)
            if d is not None:
                return (TRUE if d else FALSE), st
            return self.T("ecall", "builtins.isinstance", args, node=n), st
        if name == "repr" and len(args) == 1:
            c = self.cls_of(args[0], st)
            if c is not None and c.lookup("__repr__") is not None:
                return self.call_func(c.lookup("__repr__"), [args[0]], {}, n, st, self_term=args[0])
        if name == "map" and len(args) >= 2:
            v, st2 = self.call(args[0], [self.elem(a, n, st) for a in args[1:]], {}, n, st)
            if st2 is None:
                return None, None
            t = self.T("comp", "gen", [v] + args[1:], node=n, x=("map", 1, len(args) - 1))
            return t, st2
        if name == "str" and len(args) == 1 and args[0].op == "const":
            return const(str(args[0].x), n), st
        if name in ("list", "tuple", "set", "sorted") and len(args) == 1 and args[0].op == "comp":
            t = self.T("comp", {"tuple": "list", "sorted": "list"}.get(name, name), args[0].args, node=n, x=args[0].x)
            return t, st
        return None

    def method_call(self, b, name, args, kw, n, st):
        """Call of a method on a value of unknown (library) class."""
        # kwargs / dict protocol folding
        cur = self.cur(st, b)
        if cur.op == "kwdict" and name in ("pop", "get", "setdefault") and args and args[0].op == "const":
            k = args[0].x
            d = args[1] if len(args) > 1 else None
            if k in cur.kw:
                v = cur.kw[k]
            elif cur.args:
                v = self.T("kwget", k, list(cur.args) + ([d] if d is not None else []), node=n, x="default" if d is not None else None)
            elif d is not None or name == "get":
                v = d if d is not None else NONE
            elif name == "setdefault":
                v = NONE
            else:
                self.emit("raise", Term("ecall", "builtins.KeyError", node=n), n, st)
                self.raise_exit(Term("ecall", "builtins.KeyError", node=n), st, n)
                return None, None
            if name == "pop":
                st = st.clone()
                newkw = {a: c for a, c in cur.kw.items() if a != k}
                rest = [self.T("kwminus", k, [r]) for r in cur.args] if k not in cur.kw else list(cur.args)
                st.ver[cur.ident] = self.T("kwdict", None, rest, newkw, ident=cur.ident, node=n)
                self._origs.setdefault(cur.ident, cur)
            elif name == "setdefault":
                st = st.clone()
                nk = dict(cur.kw)
                nk[k] = v
                st.ver[cur.ident] = self.T("kwdict", None, list(cur.args), nk, ident=cur.ident, node=n)
                self._origs.setdefault(cur.ident, cur)
            return v, st
        if cur.op == "kwdict" and name == "update":
            st = st.clone()
            nk = dict(cur.kw)
            rest = list(cur.args)
            for a in args:
                k2, r2 = self.flatten_kw(self.cur(st, a), st)
                nk.update(k2)
                rest += r2
            for k2, v2 in kw.items():
                if k2 == "**":
                    rest += v2.args
                else:
                    nk[k2] = v2
            st.ver[cur.ident] = self.T("kwdict", None, rest, nk, ident=cur.ident, node=n)
            self._origs.setdefault(cur.ident, cur)
            return NONE, st
        if name == "get" and args and cur.op in ("dict", "store") and self.kind(cur) == "dict":
            r = self.lookup_item(cur, args[0], st)
            if r == "KeyError":
                return (args[1] if len(args) > 1 else NONE), st
            if r is not None:
                return r, st
        if cur.op == "const" and isinstance(cur.x, str) and not kw:
            r = fold_str(cur.x, name, args)
            if r is not None:
                return const(r, n, self.frame.func), st
        t = self.T("mcall", name, [b] + args, kw, node=n)
        c = self.cls_of(b, st)
        if c is not None:
            f = c.lookup(name)
            if f is not None:
                return self.call_func(f, [b] + args, kw, n, st, self_term=b)
        self.snapshot(st, "AttributeError", "ValueError", "TypeError", "Exception", "RuntimeError")
        if name == "format" and self.kind(b) == "str":
            return self.T("fstr", None, [b] + args + list(kw.values()), node=n), st
        self.emit("mcall", t, n, st)
        k = self.kind(b)
        if name in libspec.MUT_METHODS and not (name in ("partition", "resize") and k == "str") and not (
            name in ("add", "update", "remove", "pop", "clear", "insert", "extend", "append", "sort", "reverse") and b.op == "ext"
        ):
            if name == "byteswap" and not kw.get("inplace"):
                return t, st
            st = st.clone()
            new = self.T("mutcall", name, [b] + args, kw, node=n, ident=b.ident)
            # list.append on a literal list folds to a longer literal
            self.mutate(b, name + "()", n, st, new, args[0] if args else None, args[-1] if args else None)
            if name in ("pop", "setdefault", "popitem", "popleft"):
                return t, st
            return NONE, st
        out = kw.get("out")
        if out is not None and not (out.op == "const" and out.x is None):
            st = st.clone()
            new = self.T("outval", name, [out, t], node=n, ident=out.ident)
            self.mutate(out, "out=", n, st, new)
            return new, st
        if name in ("shuffle",) and args:
            st = st.clone()
            self.mutate(args[0], "shuffle", n, st, self.T("mutcall", name, [args[0], b], node=n, ident=args[0].ident))
            return NONE, st
        return t, st


def enumerated_from(t):
    """The first number of an enumeration."""
    s = t.args[1] if len(t.args) > 1 else t.kw.get("start")
    return 0 if s is None else s.x if s.op == "const" and isinstance(s.x, int) else None


def unbound_if(cond, x, y):
    """Condition under which a name is unbound after joining two branches."""
    u, v = (TRUE if z is None else z.x if z.op == "maybe" and z.x is not None else FALSE for z in (x, y))
    return u if u is v else Term("phi", None, [cond, u, v])


STR_FOLD = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "title", "capitalize", "casefold", "replace",
            "removeprefix", "removesuffix", "isdigit", "isalpha", "count", "find"}


def cannot_hold(t, p):
    """The extra keywords of a call cannot contain a name its function declares itself, or one that was taken out."""
    while t.op == "kwminus":
        if p in t.name:
            return True
        t = t.args[0]
    return t.op == "param" and t.func is not None and p in t.func.args + t.func.kwonly


def fold_str(s, name, args):
    """A method of a known string applied to known arguments."""
    if name not in STR_FOLD:
        return None
    vals = []
    for a in args:
        if a.op == "const":
            vals.append(a.x)
        elif a.op == "tuple" and all(x.op == "const" for x in a.args):
            vals.append(tuple(x.x for x in a.args))
        else:
            return None
    try:
        return getattr(s, name)(*vals)
    except Exception:  # noqa: BLE001 - not foldable
        return None


def canon_ext(dotted):
    for a, b in (
        ("scipy.sparse.linalg.eigen.", "scipy.sparse.linalg."),
        ("numpy.core.", "numpy."),
    ):
        if dotted.startswith(a):
            dotted = b + dotted[len(a):]
    return dotted


def basic_index(i):
    """Is the index surely basic (slices, integers, None, ellipsis): a view?"""
    if i.op == "slice":
        return True
    if i.op == "const":
        return isinstance(i.x, (int, str)) or i.x is None or i.x is Ellipsis
    if i.op == "tuple":
        return all(basic_index(a) for a in i.args)
    if i.op == "ext" and i.name == "numpy.newaxis":
        return True
    if i.op == "elem" and i.args and i.args[0].op == "ecall" and i.args[0].name == "builtins.range":
        return True
    if i.op == "elem" and i.name == "index":
        return True
    if i.op in ("un", "bin") and all(basic_index(a) for a in i.args):
        return True
    if i.op == "ecall" and i.name in ("builtins.int", "builtins.len"):
        return True
    return False


def canon(t):
    """Canonical forms of a comparison: [(term, positive)]."""
    a, b = t.args
    n = t.name
    if n == "!=":
        return [(Term("cmp", "==", sorted([a, b], key=skey)), False)]
    if n == "==":
        return [(Term("cmp", "==", sorted([a, b], key=skey)), True)]
    if n == "is not":
        return [(Term("cmp", "is", [a, b]), False)]
    if n == "not in":
        return [(Term("cmp", "in", [a, b]), False)]
    if n == ">":
        return [(Term("cmp", "<", [b, a]), True)]
    if n == ">=":
        return [(Term("cmp", "<", [a, b]), False)]
    if n == "<=":
        return [(Term("cmp", "<", [b, a]), False)]
    return [(Term("cmp", n, [a, b]), True)]


def is_literal(node):
    if isinstance(node, ast.Constant):
        return True
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
        return all(is_literal(e) for e in node.elts)
    if isinstance(node, ast.Dict):
        return all(k is not None and is_literal(k) and (is_literal(v) or isinstance(v, (ast.Name, ast.Attribute, ast.Lambda))) for k, v in zip(node.keys, node.values))
    if isinstance(node, ast.UnaryOp):
        return is_literal(node.operand)
    if isinstance(node, ast.BinOp):
        return is_literal(node.left) and is_literal(node.right)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("frozenset", "tuple", "list", "dict", "set") and all(is_literal(a) for a in node.args):
        return True
    return False
