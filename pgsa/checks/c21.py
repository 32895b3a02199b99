"""C21: derived graphs keep the vertex data of their parent aligned."""

import ast

from ..terms import Term, const, leaves, show, skey, walk
from .common import each

SAME_SHAPE = {"tocsr", "tocsc", "tocoo", "tolil", "todok", "todia", "tobsr", "asformat", "copy", "astype", "asfptype", "toarray", "todense", "conj", "conjugate", "maximum", "minimum", "power", "multiply"}
CONV = {"numpy.asarray", "numpy.asanyarray", "numpy.array", "numpy.ascontiguousarray", "builtins.list", "builtins.tuple", "numpy.copy", "numpy.atleast_1d", "numpy.ravel", "numpy.squeeze"}
CTORS = {"csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "csr_array", "csc_array", "coo_array", "lil_array"}
ALL = ("all",)


def strip(i):
    """An index without the conversions that keep its values."""
    for _ in range(20):
        if i.op == "ecall" and i.name in CONV and i.args and not i.kw.get("dtype"):
            i = i.args[0]
        elif i.op == "mcall" and i.name in ("copy", "tolist", "ravel", "flatten", "squeeze") and len(i.args) == 1:
            i = i.args[0]
        elif i.op == "maybe":
            i = i.args[0]
        elif i.op in ("sub", "unpack") and i.args[0].op == "ecall" and i.args[0].name in ("numpy.nonzero", "numpy.where") and len(i.args[0].args) == 1 and boolean(i.args[0].args[0]) \
                and (i.op == "unpack" and i.name == 0 or i.op == "sub" and i.args[1].op == "const" and i.args[1].x == 0):
            i = i.args[0].args[0]
        elif i.op == "ecall" and i.name == "numpy.flatnonzero" and i.args and boolean(i.args[0]):
            i = i.args[0]
        else:
            break
    return i


def boolean(t):
    return t.op == "cmp" or t.op == "un" and t.name in ("not", "~") and boolean(t.args[0]) or t.op == "bool" or t.op == "bin" and t.name in ("&", "|") and all(boolean(a) for a in t.args)


def full(i):
    return i.op == "slice" and all(a.op == "const" and a.x is None for a in i.args) or i.op == "const" and i.x is Ellipsis


class Labels:
    """Which vertices the rows and columns of a matrix, or the entries of a vector, stand for.

    A label is (source, selections): the source graph or matrix and the chain of indices applied to its vertices.
    """

    def __init__(self, it, st):
        self.it = it
        self.st = st
        self.memo = {}
        self.bad = []
        self.index = {}

    def graph(self, t):
        c = self.it.cls_of(t, self.st)
        g = self.it.graph_cls
        return c is not None and g is not None and (c is g or g in c.mro())

    def source(self, g):
        return ("g", skey(g))

    def select(self, lab, i):
        if full(i):
            return lab
        i = strip(i)
        if i.op == "const":
            return None
        k = skey(i)
        self.index[k] = i
        return None if lab is None else (lab[0], lab[1] + (k,))

    def mat(self, t, d=0):
        """(row label, column label) of a matrix."""
        if t.uid in self.memo:
            return self.memo[t.uid]
        if d > 60:
            return (None, None)
        self.memo[t.uid] = (None, None)
        r = self.memo[t.uid] = self.rule(t, d + 1)
        return r

    def join(self, ms):
        ms = list(ms)
        out = []
        for k in (0, 1):
            s = {m[k] for m in ms}
            out.append(s.pop() if len(s) == 1 else None)
        return tuple(out)

    def same(self, t, a, b, what):
        """Two matrices combined entry by entry."""
        for k in (0, 1):
            if a[k] and b[k] and a[k] != b[k]:
                self.bad.append((t, f"{what} of matrices whose {('rows', 'columns')[k]} stand for different vertices"))
        return tuple(a[k] or b[k] for k in (0, 1))

    def rule(self, t, d):
        op = t.op
        m = lambda u: self.mat(u, d)  # noqa: E731
        if op == "attr":
            b = t.args[0]
            if self.graph(b) and t.name in ("W", "L", "A", "_adjacency", "_A"):
                lab = (self.source(b), ())
                return lab, lab
            if t.name in ("T", "H"):
                r, c = m(b)
                return c, r
            return None, None
        if op == "param" and self.matrix_param(t):
            lab = (("m", skey(t)), ())
            return lab, lab
        if op == "phi":
            c = self.it.decide(t.args[0], self.st)
            if c is not None:
                return m(t.args[1 if c else 2])
            return self.join([m(a) for a in t.args[1:]])
        if op in ("maybe", "store", "mutview", "mutcall", "inplace"):
            return m(t.args[0])
        if op == "un":
            return m(t.args[0])
        if op == "bin":
            a, b = m(t.args[0]), m(t.args[1])
            if t.name in ("+", "-"):
                return self.same(t, a, b, "a sum")
            if t.name == "@" or t.name == "*" and None not in a and None not in b:
                if a[1] and b[0] and a[1] != b[0]:
                    self.bad.append((t, "a product of matrices over different vertices"))
                return a[0], b[1]
            if t.name in ("*", "/"):
                if t.args[1].op == "const":
                    return a
                if t.args[0].op == "const":
                    return b
            return None, None
        if op == "sub":
            a = m(t.args[0])
            if a == (None, None):
                return None, None
            i = t.args[1]
            if i.op == "ecall" and i.name == "numpy.ix_" and len(i.args) == 2:
                self.complement(t, i.args)
                return self.select(a[0], i.args[0]), self.select(a[1], i.args[1])
            if i.op == "tuple":
                if len(i.args) == 2:
                    x, y = i.args
                    if not full(x) and not full(y):
                        if self.column(x):
                            return self.select(a[0], x.args[0]), self.select(a[1], y)
                        return None, None
                    return self.select(a[0], x), self.select(a[1], y)
                return None, None
            return self.select(a[0], i), a[1]
        if op == "mcall":
            a = m(t.args[0])
            if t.name == "transpose" and len(t.args) == 1:
                return a[1], a[0]
            if t.name in ("dot", "__matmul__") and len(t.args) == 2:
                b = m(t.args[1])
                if a[1] and b[0] and a[1] != b[0]:
                    self.bad.append((t, "a product of matrices over different vertices"))
                return a[0], b[1]
            if t.name in ("maximum", "minimum", "multiply") and len(t.args) == 2:
                return self.same(t, a, m(t.args[1]), "a combination")
            if t.name in SAME_SHAPE:
                return a
            return None, None
        if op == "ecall":
            short = t.name.rsplit(".", 1)[-1]
            if t.name.startswith("scipy.sparse.") and short in CTORS and t.args and t.args[0].op not in ("tuple", "list"):
                return m(t.args[0])
            if t.name in ("numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.abs", "builtins.abs", "numpy.absolute", "scipy.sparse.tril", "scipy.sparse.triu", "numpy.maximum", "numpy.minimum") and t.args:
                return m(t.args[-1] if t.name in ("numpy.maximum", "numpy.minimum") else t.args[0])
            if t.name in ("scipy.sparse.linalg.spsolve", "numpy.linalg.solve", "scipy.linalg.solve") and len(t.args) > 1:
                a, b = m(t.args[0]), m(t.args[1])
                if a[0] and b[0] and a[0] != b[0]:
                    self.bad.append((t, "a linear system whose sides are over different vertices"))
                return a[1], b[1]
            if t.name in ("scipy.sparse.linalg.inv", "numpy.linalg.inv", "numpy.linalg.pinv") and t.args:
                r, c = m(t.args[0])
                return c, r
            if t.name in ("scipy.sparse.diags", "numpy.diag", "scipy.sparse.diags_array") and t.args:
                v = self.diag_of(t.args[0], d)
                return v, v
            return None, None
        return None, None

    def diag_of(self, t, d):
        if t.op == "mcall" and t.name == "diagonal":
            r, c = self.mat(t.args[0], d)
            return r if r == c else None
        return None

    def column(self, x):
        """v[:, None]"""
        return x.op == "sub" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and full(x.args[1].args[0]) and (
            x.args[1].args[1].op == "const" and x.args[1].args[1].x is None or x.args[1].args[1].op == "ext" and x.args[1].args[1].name == "numpy.newaxis")

    def matrix_param(self, t):
        return self.it.cls_of(t, self.st) is None and t.name in ("G", "M", "W", "L", "adjacency")

    def complement(self, t, idx):
        """np.ix_ with the complement of another selection."""
        a, b = [strip(i) for i in idx]
        for x, y in ((a, b), (b, a)):
            if x.op == "ecall" and x.name == "numpy.setdiff1d" and len(x.args) == 2 and not (y.op == "ecall" and y.name == "numpy.setdiff1d"):
                if skey(strip(x.args[1])) != skey(y) and strip(x.args[1]).op != "mu":
                    self.bad.append((t, "the complement of another selection than the one kept"))

    def vec(self, t):
        """Label of a per-vertex array."""
        t = self.plain(t)
        if self.signal_of(t) is not None:
            return (self.source(self.signal_of(t)), ())
        if t.op == "sub":
            b = self.vec(t.args[0])
            i = t.args[1]
            if i.op == "tuple":
                if len(i.args) == 2 and full(i.args[1]):
                    i = i.args[0]
                else:
                    return None
            return self.select(b, i)
        if t.op == "ecall" and t.name == "numpy.take" and len(t.args) > 1 and (t.kw.get("axis") or (t.args[2] if len(t.args) > 2 else None)) is not None:
            return self.select(self.vec(t.args[0]), t.args[1])
        if t.op == "mcall" and t.name == "take" and len(t.args) > 1:
            return self.select(self.vec(t.args[0]), t.args[1])
        if t.op == "attr" and t.name == "coords" and self.graph(t.args[0]):
            return (self.source(t.args[0]), ())
        return None

    def plain(self, t):
        while t.op == "ecall" and t.name in CONV and t.args or t.op == "mcall" and t.name in ("copy", "astype") or t.op == "maybe":
            t = t.args[0]
        return t

    def signal_of(self, t):
        """The graph whose signals dictionary the value comes from."""
        def holder(u):
            while u.op == "mcall" and u.name in ("items", "values", "copy") or u.op == "ecall" and u.name in ("builtins.dict", "builtins.list", "builtins.enumerate", "builtins.zip") and u.args:
                u = u.args[0]
            return u.args[0] if u.op == "attr" and u.name == "signals" and self.graph(u.args[0]) else None

        if t.op == "sub" or t.op == "mcall" and t.name in ("get", "pop"):
            g = holder(t.args[0])
            if g is not None:
                return g
        u = t
        while u.op in ("elem", "unpack") or u.op == "sub" and u.args[1].op == "const" and u.args[0].op in ("elem", "unpack"):
            u = u.args[0]
        return holder(u) if u is not t else None


def item(d, key):
    """Value of a dictionary display under a constant key."""
    for k, v in zip(d.x or [], d.args):
        if k is not None and k.op == "const" and k.x == key:
            return v
    return None


def bind(ev):
    """Arguments of a construction by parameter name."""
    cls, pos, kw = ev.info
    i = cls.lookup("__init__")
    names = i.args[1:] if i is not None else []
    out = dict(zip(names, pos))
    out.update({k: v for k, v in kw.items() if isinstance(k, str)})
    return out, names


def check(P, R):
    R.rule("Label inference: the rows and columns of every matrix expression derived from a graph's weights or Laplacian carry the chain of selections applied to the vertices. "
           "Sums, products and linear systems must agree on the labels; the rows and columns of the weights given to a new graph, its coordinates, its signals and the original indices recorded for it "
           "must carry the same selection; the Laplacian type and plotting options must be those of the parent.")
    for r in each(P, R):
        it = r.it
        e = r.entry
        graphs = [ev for ev in r.events if ev.kind == "new" and it.graph_cls is not None and (ev.info[0] is it.graph_cls)]
        if not graphs:
            continue
        touched = {}
        init = it.graph_cls.methods.get("__init__")
        for ev in r.events:
            if ev.func is init or any(f is init for f, _ in ev.stack):
                continue
            if ev.kind == "store" and ev.term is not None:
                touched.setdefault(ev.term.uid, set()).add(ev.info[0])
            elif ev.kind == "call" and ev.info and ev.info[0].name in ("compute_laplacian",):
                self_t = next(iter(ev.info[1].values()), None) if isinstance(ev.info[1], dict) else None
                if self_t is not None and hasattr(self_t, "uid"):
                    touched.setdefault(self_t.uid, set()).add("lap_type")
        for ev in graphs:
            args, names = bind(ev)
            adj = args.get("adjacency") or (ev.info[1][0] if ev.info[1] else None)
            if adj is None:
                continue
            fn = ev.func
            L = Labels(it, ev.state)
            rows, cols = L.mat(adj)
            for t, why in L.bad:
                R.finding("misaligned-matrix", f"{fn.qualname}:{why}", f"{fn.qualname} builds the weights of a graph from {why}: {show(t, 3)}", ev.site, e.name, ev.trace())
            if rows is None and cols is None:
                continue
            R.count("derived_graphs")
            R.sample(f"{fn.qualname} entry={e.name} selections={[show(L.index[k], 2) for k in (rows or cols)[1]]}")
            if rows != cols and rows and cols:
                R.finding("rows-columns", fn.qualname, f"{fn.qualname} applies different vertex selections to the rows and columns of the weights", ev.site, e.name, ev.trace())
                continue
            lab = rows or cols
            if lab[0][0] != "g" or rows is None or cols is None:
                continue
            selected = bool(lab[1])
            obj = touched.get(ev.term.uid, set())
            parent = next((t for t in walk(adj) if t.op == "attr" and L.graph(t.args[0]) and L.source(t.args[0]) == lab[0]), None)
            parent = parent.args[0] if parent is not None else None
            # coordinates
            co = args.get("coords")
            if "coords" not in obj:
                got = []
                if co is not None:
                    got = [(x, L.vec(x)) for x in leaves(co) if not (x.op == "const" and x.x is None) and x.op not in ("opaque",)]
                if (co is None or not got) and not without(ev, r, parent, "coords"):
                    R.finding("coordinates-lost", fn.qualname, f"{fn.qualname} does not hand over the coordinates of the kept vertices", ev.site, e.name, ev.trace())
                for x, v in got:
                    R.count("coordinate_selections")
                    if v is not None and v != lab:
                        R.finding("coordinates", fn.qualname, f"{fn.qualname} gives the new graph coordinates of other vertices ({show(x, 3)}) than those of its weights", ev.site, e.name, ev.trace())
            # Laplacian type
            lt = args.get("lap_type")
            if "lap_type" not in obj and "L" not in obj:
                combinatorial = parent is not None and any(f[0] == "eqc" and len(f) > 2 and f[2] == "combinatorial" for f in ev.state.facts)
                ok = lt is not None and any(u.op == "attr" and u.name == "lap_type" for x in leaves(lt) for u in [x])
                const = lt is None or all(x.op == "const" for x in leaves(lt))
                R.count("laplacian_types")
                if not ok and const and not combinatorial:
                    R.finding("laplacian-type", fn.qualname, f"{fn.qualname} does not keep the Laplacian type of the graph it reduces", ev.site, e.name, ev.trace())
            # plotting options
            pl = args.get("plotting")
            if "plotting" not in obj and "?" not in obj:
                R.count("plotting_options")
                late = any(x.kind in ("mutate",) and x.term is not None and x.term.op == "attr" and x.term.name == "plotting" and x.func is fn for x in r.events)
                if not late and (pl is None or not any(u.op == "attr" and u.name == "plotting" for u in walk(pl))):
                    R.finding("plotting", fn.qualname, f"{fn.qualname} does not keep the plotting options of the graph it reduces", ev.site, e.name, ev.trace())
            if not selected:
                continue
            # signals
            mine = [x for x in r.events if x.func is fn or any(f is fn for f, _ in x.stack)]
            for x in mine:
                vals = []
                if x.kind == "call" and x.info[0].name == "set_signal":
                    vals = [x.info[1].get("signal")] if isinstance(x.info[1], dict) else []
                elif x.kind == "mutate":
                    vals = [x.info.get("value")]
                elif x.kind == "store":
                    vals = [x.info[1]]
                for val in [v for v in vals if hasattr(v, "op")]:
                    for u in (walk(val) if val.op in ("dict", "comp") else [val]):
                        if not signal_value(L, u) or u is not val and (u.op != "sub" or L.signal_of(u) is not None):
                            continue
                        v = L.vec(u)
                        if v is not None and v[0] == lab[0]:
                            R.count("signal_selections")
                            if v != lab:
                                R.finding("signals", fn.qualname, f"{fn.qualname} gives the new graph signals of other vertices ({show(u, 3)}) than those of its weights", x.site, e.name, x.trace())
            if fn.name == "subgraph" and not any(isinstance(n, ast.Attribute) and n.attr in ("signals", "set_signal") for f in {x.func for x in mine} if f is not init for n in ast.walk(f.node)):
                R.finding("signals-lost", fn.qualname, f"{fn.qualname} drops the signals of the kept vertices", ev.site, e.name)
            # recorded indices
            for x in r.events:
                if x.kind == "store" and x.info[0] == "info" and x.term is not None and (x.term is ev.term or ev.term in leaves(x.term)):
                    d = x.info[1]
                    for u in leaves(d):
                        if u.op == "dict" and item(u, "orig_idx") is not None:
                            recorded(R, L, item(u, "orig_idx"), lab, e, x)
        records(P, R, r)
        returned(P, R, r, touched)
    R.need("derived_graphs", 4)
    R.need("coordinate_selections", 3)


def signal_value(L, t):
    t = L.plain(t)
    while t.op == "sub" and L.signal_of(t) is None:
        t = L.plain(t.args[0])
    return L.signal_of(t) is not None


def fixed_level(b):
    """records[constant]['orig_idx']"""
    b = strip(b)
    if b.op == "sub" and b.args[1].op == "const" and b.args[1].x == "orig_idx":
        k = b.args[0]
        return k.op == "sub" and k.args[1].op == "const" and isinstance(k.args[1].x, int) and k.args[1].x >= 0
    return False


def without(ev, r, parent, name):
    """Is the event only reached when the given graph has no such attribute?"""
    for g in [x for x in (parent, *r.params.values()) if x is not None]:
        if ("F", skey(Term("ecall", "builtins.hasattr", [g, const(name)]))) in ev.state.facts:
            return True
    return False


def returned(P, R, r, touched):
    """Graphs a reduction makes from its argument and returns keep coordinates and plotting options."""
    it, e = r.it, r.entry
    if e.cls is not None or not e.func.module.name.endswith("reduction") or e.func.name.startswith("tree_"):
        return
    made = {ev.term.uid: ev for ev in r.events if ev.kind == "new" and ev.info[0] is it.graph_cls}
    for x in r.returns:
        for u in leaves(x.value):
            ev = made.get(u.uid)
            if ev is None:
                continue
            R.count("returned_graphs")
            args, _ = bind(ev)
            obj = touched.get(u.uid, set())
            for p in ("coords", "plotting"):
                v = args.get(p)
                if p not in obj and not without(ev, r, None, p) and (v is None or not any(z.op == "attr" and z.name == p for z in walk(v))):
                    R.finding(f"{p}-lost", ev.func.qualname, f"{ev.func.qualname} returns a graph without the {'coordinates' if p == 'coords' else 'plotting options'} of the graph it was given",
                              ev.site, e.name)


def recorded(R, L, val, lab, e, x):
    R.count("recorded_indices")
    v = strip(val)
    if len(lab[1]) == 1 and skey(v) != lab[1][0] and v.op not in ("opaque", "unk"):
        R.finding("original-indices", f"{x.func.qualname}", f"{x.func.qualname} records other original indices ({show(val, 3)}) than the vertices it keeps", x.site, e.name)


def records(P, R, r):
    """Records {'idx': selection, 'orig_idx': previous record's original indices at the selection}."""
    it = r.it
    recs = []
    for ev in r.events:
        for t in ([ev.info["value"]] if ev.kind == "mutate" and isinstance(ev.info, dict) and ev.info.get("value") is not None else []):
            for u in walk(t) if hasattr(t, "op") else []:
                if u.op == "dict" and item(u, "idx") is not None and item(u, "orig_idx") is not None:
                    recs.append((ev, u))
    if not recs:
        return
    reduced = set()
    known = False
    for ev in r.events:
        if ev.kind == "new" and ev.info[0] is it.graph_cls:
            args, _ = bind(ev)
            adj = args.get("adjacency") or (ev.info[1][0] if ev.info[1] else None)
            if adj is None:
                continue
            rows, cols = Labels(it, ev.state).mat(adj)
            for lab in (rows, cols):
                if lab and lab[1]:
                    known = True
                    reduced.add(lab[1][-1])
    seen = set()
    for ev, u in recs:
        if u.uid in seen:
            continue
        seen.add(u.uid)
        idx, orig = strip(item(u, "idx")), strip(item(u, "orig_idx"))
        R.count("recorded_indices")
        fn = ev.func
        if known and skey(idx) not in reduced and idx.op != "mu" and not (idx.op == "ecall" and idx.name == "numpy.arange"):
            R.finding("original-indices", fn.qualname, f"{fn.qualname} records another selection ({show(idx, 3)}) than the one the graph was reduced to", ev.site, r.entry.name)
        if orig.op == "sub" and skey(strip(orig.args[1])) != skey(idx) and strip(orig.args[1]).op not in ("mu", "const"):
            R.finding("original-indices", fn.qualname, f"{fn.qualname} composes the original indices with another selection ({show(orig, 3)})", ev.site, r.entry.name)
        elif orig.op == "sub" and fixed_level(orig.args[0]) and ev.loops:
            R.finding("original-indices", fn.qualname, f"{fn.qualname} composes the selection of every level with the indices of one fixed level ({show(orig, 3)})", ev.site, r.entry.name)
        elif orig.op != "sub" and skey(orig) == skey(idx) and not (idx.op == "ecall" and idx.name == "numpy.arange"):
            R.finding("original-indices", fn.qualname, f"{fn.qualname} records the indices in the previous level as the original ones", ev.site, r.entry.name)
