"""C15: exports, imports and files agree with one another."""

import ast

from ..entries import Entries, Tolerance, Undecided, solve, swapped, var
from ..linear import short
from ..terms import Term, const, leaves, show, skey, walk
from .c09 import graph_w
from .common import each, is_gf

LIBS = ("networkx", "graph_tool")
FORMATS = ("graphml", "gml", "gexf")
BACKENDS = {"networkx": "networkx", "graph-tool": "graph_tool"}


def root(t):
    """Library of which an object is, through attributes and method calls."""
    stack, seen = [t], set()
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op in ("ecall", "ext") and (u.name or "").split(".")[0] in LIBS:
            return u.name.split(".")[0]
        if u.op in ("attr", "sub", "mutview", "mutcall", "store", "mcall", "inplace", "outval") and u.args:
            stack.append(u.args[0])
        elif u.op in ("phi",):
            stack.extend(u.args[1:])
        elif u.op == "mu":
            stack.extend(u.args)
    return None


def strip(t):
    """Through conversions of one number; (term, casts to integers on the way)."""
    ints = []
    while True:
        n = short(t)
        if t.op == "ecall" and t.name in ("builtins.int", "builtins.float", "builtins.bool", "numpy.float64", "numpy.int64") and t.args:
            if n == "int":
                ints.append(t)
            t = t.args[0]
        elif t.op == "mcall" and n in ("item", "tolist", "astype", "copy"):
            t = t.args[0]
        elif n in ("list", "asarray", "array", "tuple", "iter") and t.op == "ecall" and t.args:
            t = t.args[0]
        elif t.op == "phi" and len(t.args) == 3:
            a, i = strip(t.args[1])
            b, j = strip(t.args[2])
            if a.uid == b.uid or skey(a) == skey(b):
                return a, ints  # the conversion depends on the type
            return t, ints
        else:
            return t, ints


def part(t):
    """(matrix, 'row' | 'col' | 'data') of a component of an edge, or None."""
    t, _ = strip(t)
    if t.op == "elem" and t.args:
        t, _ = strip(t.args[0])
    if t.op == "attr" and t.name in ("row", "col", "data"):
        return t.args[0], t.name
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].name in ("row", "col", "data"):
        return t.args[0].args[0], t.args[0].name
    if t.op in ("unpack", "sub") and short(t.args[0]) in ("nonzero", "find"):
        i = t.name if t.op == "unpack" else t.args[1].x if t.args[1].op == "const" else None
        if i in (0, 1, 2):
            return t.args[0].args[0], ("row", "col", "data")[i]
    return None


class Edges:
    def __init__(self, it, me):
        self.it, self.me = it, me

    def judge(self, R, e, s, t, w, site, how):
        """The three components of an edge: source, target and weight."""
        ps, pt, pw = part(s), part(t), part(w) if w is not None else None
        if ps is None or pt is None:
            R.count("edges_undecided")
            return
        R.count("edge_lists")
        if ps[1] == "data" or pt[1] == "data" or pw is not None and pw[1] != "data":
            R.finding("edge-components", f"{e.func.qualname}:{how}", f"{e.func.name} takes the {ps[1]} and {pt[1]} of the matrix for the vertices of the edges and its {pw and pw[1]} for the weights", site, e.name)
            return
        if skey(ps[0]) != skey(pt[0]) or pw is not None and skey(pw[0]) != skey(ps[0]):
            R.count("edges_undecided")
            return
        flip = (ps[1], pt[1]) == ("col", "row")
        if ps[1] == pt[1]:
            R.finding("edge-components", f"{e.func.qualname}:{how}", f"{e.func.name} takes the {ps[1]}s of the matrix for both ends of the edges", site, e.name)
            return
        m = ps[0]
        try:
            outs = solve(lambda fl: Entries(self.it, graph_w(self.it, self.me), True, fl), lambda E: {c.key(): E.mat(m, c) for c in E.cases()})
        except (Undecided, Tolerance) as ex:
            R.count("edges_undecided")
            R.notes.append(f"undecided: {e.name}: {ex}")
            return
        for fl, E, M in outs:
            und = all(c.c == 0 for c in E.cases())
            if not fl:
                # the same whether the graph is directed or not
                und = None
            for c in E.cases():
                w_ij = c.norm(var("w"))
                a, b = M[c.key()], M[c.swap().key()]
                a, b = (swapped(b), swapped(a)) if flip else (a, swapped(b))
                a, b = c.norm(a), c.norm(b)
                if und is False or und is None and c.c:
                    bad = a != w_ij
                    why = "keep every edge of a directed graph with its direction and weight"
                elif und:
                    bad = a != w_ij if c.pos == 0 else [a, b] not in ([w_ij, {}], [{}, w_ij])
                    why = "keep each edge of an undirected graph once"
                else:
                    continue
                if bad:
                    R.finding("edges", f"{e.func.qualname}:{how}", f"{e.func.name} does not {why}: {describe(c)}", site, e.name)
                    return
        R.count("edge_lists_decided")


def describe(c):
    return "an edge from a vertex to itself" if c.pos == 0 else f"an edge {'above' if c.pos > 0 else 'below'} the diagonal" + ("" if c.c == 0 else ", other than the opposite one")


def zipped(t):
    """Components of the items of an iterable of tuples."""
    n = short(t)
    if t.op == "ecall" and n == "zip":
        if len(t.args) == 1 and t.args[0].op == "starred" and t.args[0].args and t.args[0].args[0].op == "tuple":
            return t.args[0].args[0].args
        return t.args
    if t.op == "comp" and t.name in ("gen", "list") and t.args and t.args[0].op == "tuple":
        return t.args[0].args
    if t.op == "ecall" and n in ("list", "iter", "tuple") and t.args:
        return zipped(t.args[0])
    if t.op == "sub" and t.args[0].op == "ext" and t.args[0].name == "numpy.c_" and t.args[1].op == "tuple":
        return t.args[1].args
    if t.op == "ecall" and n == "column_stack" and t.args and t.args[0].op in ("tuple", "list"):
        return t.args[0].args
    if t.op == "attr" and t.name == "T" and short(t.args[0]) in ("array", "vstack", "stack") and t.args[0].args and t.args[0].args[0].op in ("tuple", "list"):
        return t.args[0].args[0].args
    return None


def keyvalue(t):
    """[(key, value)] of a dictionary of attributes."""
    if t.op == "dict" and isinstance(t.x, list) and len(t.x) == len(t.args):
        return list(zip(t.x, t.args))
    return []


def exports(P, R, tables):
    for r in each(P, R, where=lambda e: e.func.name in ("to_networkx", "to_graphtool") and e.cls is not None):
        e = r.entry
        lib = "networkx" if e.func.name == "to_networkx" else "graph_tool"
        T = tables[lib]
        me = r.params.get("self")
        ed = Edges(r.it, me)
        T["writer"] = e
        vertices = False
        wrote = False
        for ev in r.events:
            t = ev.term
            if ev.kind == "mcall" and t is not None and t.args and root(t.args[0]) == lib:
                if t.name in ("add_edges_from", "add_edge_list", "add_weighted_edges_from", "add_edge"):
                    direction(R, r, e, lib, t.args[0], ev.site)
                if t.name in ("add_edges_from", "add_edge_list", "add_weighted_edges_from") and len(t.args) > 1:
                    c = zipped(t.args[1])
                    if c is None or len(c) < 2:
                        R.count("edges_undecided")
                        continue
                    w = None
                    if lib == "networkx" and len(c) > 2:
                        if t.name == "add_weighted_edges_from":
                            k = t.kw.get("weight") or (t.args[2] if len(t.args) > 2 else const("weight"))
                            if k.op == "const":
                                T["keys"].append((k.x, ev.site))
                            w = c[2]
                        else:
                            for k, v in keyvalue(c[2]):
                                T["keys"].append((k.x if k.op == "const" else None, ev.site))
                                w = v
                        if w is not None:
                            number(R, e, w, ev.site, "edge weights")
                    ed.judge(R, e, c[0], c[1], w, ev.site, t.name)
                if t.name == "add_edge" and len(t.args) > 2:
                    w = None
                    for k, v in t.kw.items():
                        T["keys"].append((k.x if isinstance(k, Term) else k, ev.site))
                        w = v
                    if w is not None:
                        number(R, e, w, ev.site, "edge weights")
                    ed.judge(R, e, t.args[1], t.args[2], w, ev.site, t.name)
                if t.name in ("add_nodes_from", "add_node", "add_vertex"):
                    vertices = True
                if t.name in ("add_nodes_from", "add_vertex") and len(t.args) > 1:
                    vertices_of(R, r, e, t.args[1], ev.site, t.name)
                if t.name == "add_node" and any(k != "node_for_adding" for k in t.kw):
                    wrote = True
                if t.name == "add_nodes_from" and len(t.args) > 1:
                    c = zipped(t.args[1])
                    if c is not None and len(c) > 1:
                        wrote = True
            if ev.kind == "ecall" and t is not None and (t.name or "").startswith(lib + ".") and short(t) not in ("Graph", "DiGraph", "_gt_type"):
                vertices = wrote = True  # built by the library
            if ev.kind in ("mutate",) and t is not None:
                i, v = ev.info["index"], ev.info["value"]
                own = t.op == "attr" and t.name in ("edge_properties", "ep") and root(t) == lib
                if own and i is not None and i.op == "const":
                    T["keys"].append((i.x, ev.site))
                    p = stored_property(v)
                    if p is not None:
                        number(R, e, p, ev.site, "edge weights")
                if any(u.op == "attr" and u.name in ("vertex_properties", "vp", "nodes", "_node") for u in bases(t)):
                    wrote = True
        R.count("exporters")
        tables["exporters"] += 1
        if not vertices and lib == "graph_tool" and not any(len(u.args) > 0 or set(u.kw) - {"directed"} for ev in r.events if ev.kind == "ecall" and ev.term.name == "graph_tool.Graph" for u in [ev.term]):
            R.finding("vertices", e.func.qualname, f"{e.func.name} only adds edges: vertices without edges after the last one with an edge are lost", None, e.name)
        if not vertices and lib == "networkx":
            R.finding("vertices", e.func.qualname, f"{e.func.name} only adds edges: vertices without edges are lost", None, e.name)
        if not wrote:
            R.finding("signals", e.func.qualname, f"{e.func.name} does not export the signals", None, e.name)


def bases(t):
    out, stack, seen = [], [t], set()
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        out.append(u)
        if u.op in ("attr", "sub", "mutview", "mutcall", "store", "mcall"):
            stack.extend(u.args[:1])
        elif u.op in ("phi", "mu"):
            stack.extend(u.args)
    return out


def stored_property(v):
    """Values written in a property map."""
    for u in walk(v):
        if u.op == "store" and len(u.args) == 3 and u.args[1].op == "slice":
            return u.args[2]
    return None


LOSSY = {"round", "around", "rint", "floor", "ceil", "trunc", "float32", "float16", "half", "single", "int32", "int64", "intp", "uint8"}
CHANGED = {"abs", "absolute", "fabs", "maximum", "minimum", "clip", "sign", "power", "sqrt", "square", "negative", "nan_to_num", "where", "multiply", "add", "subtract", "divide", "fmax", "fmin", "fillna"}
DTYPES = {"builtins.float", "numpy.float64", "numpy.double", "numpy.float_", "builtins.object", "builtins.complex", "numpy.complex128", "numpy.longdouble"}


def narrow(d):
    """Is it a type which does not hold every number?"""
    if d is None:
        return False
    if d.op == "const":
        return isinstance(d.x, str) and d.x not in ("float", "float64", "d", "double", "O", "object", "f8", "complex", "complex128")
    return d.op in ("ext", "class") and d.name not in DTYPES and (d.name or "").split(".")[0] in ("numpy", "builtins")


def number(R, e, v, site, of):
    """The number transferred is the one of the graph."""
    R.count("values_written")
    verb = "writes" if e.func.name.startswith("to") else "restores"
    t, ints = strip(v)
    todo, seen = [t], set()
    for u in ints:
        R.finding("rounded", f"{e.func.qualname}:{of}", f"{e.func.name} converts the {of} to integers whatever their type", site, e.name)
    for u in walk(v):
        if u.op == "mcall" and u.name == "astype" and narrow(u.args[1] if len(u.args) > 1 else u.kw.get("dtype")):
            R.finding("rounded", f"{e.func.qualname}:{of}", f"{e.func.name} converts the {of} to {show(u.args[1] if len(u.args) > 1 else u.kw.get('dtype'), 2)}", site, e.name)
    while todo:
        u = todo.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        n = short(u)
        if u.op == "phi":
            todo.extend(strip(x)[0] for x in u.args[1:])
        elif u.op in ("ecall", "mcall") and n in LOSSY:
            R.finding("rounded", f"{e.func.qualname}:{of}", f"{e.func.name} rounds the {of} ({n})", site, e.name)
        elif u.op == "fstr" and u.name == "spec" or u.op == "mcall" and n == "format" or u.op == "bin" and u.name == "%" and u.args[0].op == "const" and isinstance(u.args[0].x, str):
            R.finding("rounded", f"{e.func.qualname}:{of}", f"{e.func.name} formats the {of}", site, e.name)
        elif u.op in ("ecall", "mcall") and n in CHANGED or u.op == "bin" and u.name in ("+", "-", "*", "/", "//", "**", "%") or u.op == "un" and u.name == "-":
            R.finding("scaled", f"{e.func.qualname}:{of}", f"{e.func.name} {verb} {show(u, 3)} for the {of}", site, e.name)
        elif u.op == "const" and isinstance(u.x, (int, float)):
            R.finding("constant", f"{e.func.qualname}:{of}", f"{e.func.name} {verb} {u.x!r} for the {of}", site, e.name)
        elif u.op == "attr" and u.name in ("T", "A", "A1", "flat", "real") or u.op == "mcall" and n in ("transpose", "toarray", "ravel", "reshape", "squeeze", "flatten", "copy", "tocsr", "tocsc", "tocoo"):
            todo.append(strip(u.args[0])[0])
        elif u.op == "ecall" and n in ("stack", "column_stack", "vstack", "hstack", "asanyarray", "atleast_1d", "fromiter") and u.args:
            todo.append(strip(u.args[0])[0])
        elif u.op == "comp" and u.args:
            todo.append(strip(u.args[0])[0])
        elif u.op in ("list", "tuple"):
            todo.extend(strip(x)[0] for x in u.args)


def vertices_of(R, r, e, t, site, how):
    """Which vertices are added: all of them, from 0."""
    me = r.params.get("self")
    if how == "add_nodes_from":
        c = zipped(t)
        v = c[0] if c is not None and len(c) else t
        if v.op == "elem" and v.args and v.name in (None, "index"):
            v = v.args[0]
            if v.op == "ecall" and short(v) == "enumerate":
                st = v.args[1] if len(v.args) > 1 else v.kw.get("start")
                if st is not None and st.op == "const" and st.x != 0:
                    R.finding("vertices", e.func.qualname, f"{e.func.name} numbers the vertices from {st.x}", site, e.name)
                return
        n = short(v)
        if v.op == "ecall" and n in ("range", "arange") and v.args:
            if len(v.args) > 1 and v.args[0].op == "const" and v.args[0].x != 0:
                R.finding("vertices", e.func.qualname, f"{e.func.name} numbers the vertices from {v.args[0].x}: the first ones are left out", site, e.name)
                return
            if len(v.args) > 2:
                return
            v = v.args[-1]
        elif v.op in ("ecall", "mcall", "sub", "unpack") and any(short(u) in ("nonzero", "flatnonzero", "unique", "where", "argwhere") or u.op == "attr" and u.name in ("indices", "row", "col") for u in walk(v)):
            R.finding("vertices", e.func.qualname, f"{e.func.name} only exports some vertices: {show(v, 4)}", site, e.name)
            return
        else:
            return
    else:
        v = t
    v = strip(v)[0]
    R.count("vertex_sets")
    if v.op == "attr" and v.name in ("n_edges", "Ne", "nnz") or v.op == "bin" and any(a.op == "const" for a in v.args) and any(of_size(a, me) for a in v.args) \
            or any(short(u) in ("max", "amax", "count_nonzero", "unique", "sum") or u.op == "attr" and u.name in ("indices", "n_edges", "nnz") for u in walk(v)):
        if not (v.op == "bin" and v.name == "+" and any(short(u) == "max" for u in walk(v)) and False):
            R.finding("vertices", e.func.qualname, f"{e.func.name} exports {show(v, 4)} vertices", site, e.name)


def of_size(t, me):
    return t.op == "attr" and t.name in ("n_vertices", "N")


def direction(R, r, e, lib, g, site):
    """Directed graphs are exported as directed, others as undirected."""
    me = r.params.get("self")

    def kind(E):
        t = g
        while t.op in ("mutview", "mutcall", "store"):
            t = t.args[0]
        while t.op == "phi":
            t = t.args[1] if E.truth(t.args[0]) else t.args[2]
        if t.op == "ecall" and t.name in ("networkx.Graph", "networkx.DiGraph", "networkx.MultiGraph", "networkx.MultiDiGraph"):
            return "Di" in t.name
        if t.op == "ecall" and t.name == "graph_tool.Graph":
            d = t.kw.get("directed")
            return True if d is None and not t.args else E.truth(d) if d is not None else None
        return None
    try:
        outs = solve(lambda fl: Entries(r.it, graph_w(r.it, me), True, fl), kind)
    except (Undecided, Tolerance):
        R.count("direction_undecided")
        return
    R.count("directions")
    for fl, E, k in outs:
        if k is None:
            continue
        und = all(c.c == 0 for c in E.cases())
        if not fl or k == und:
            R.finding("direction", e.func.qualname, f"{e.func.name} exports {'an undirected' if und else 'a directed'} graph as {'a directed' if k else 'an undirected'} one" if fl else f"{e.func.name} exports every graph as {'a directed' if k else 'an undirected'} one", site, e.name)
            return


def ordering(t):
    """How a list of nodes is ordered: naturally (None), or through a function."""
    while True:
        n = short(t)
        if t.op == "mcall" and n in ("nodes", "keys", "copy") or t.op == "attr" and t.name in ("nodes", "_node", "adj"):
            t = t.args[0]
        elif t.op == "ecall" and n in ("list", "tuple", "iter") and t.args:
            t = t.args[0]
        elif t.op == "ecall" and n in ("sorted", "reversed", "set", "frozenset"):
            return n
        elif t.op == "comp" or t.op not in ("param", "ecall"):
            return "?" if t.op not in ("param",) else ""
        else:
            return ""


def imports(P, R, tables):
    for r in each(P, R, where=lambda e: e.func.name in ("from_networkx", "from_graphtool") and e.cls is not None):
        e = r.entry
        lib = "networkx" if e.func.name == "from_networkx" else "graph_tool"
        T = tables[lib]
        d = default(e, "weight")
        if isinstance(d, str) or d is None and "weight" in e.func.args:
            T["default"] = (d, e)
        R.count("importers")
        tables["importers"] += 1
        node_order = None
        signals = False
        for ev in r.events:
            t = ev.term
            if ev.kind == "new" and isinstance(ev.info, tuple) and getattr(ev.info[0], "name", "") == "Graph" and ev.info[1]:
                if not entries(R, r, e, lib, ev.info[1][0], ev.site):
                    transposition(R, e, lib, ev.info[1][0], ev.site)
                number(R, e, ev.info[1][0], ev.site, "edge weights")
            if ev.kind == "ecall" and t is not None and short(t) in ("to_scipy_sparse_array", "to_scipy_sparse_matrix", "to_numpy_array", "adjacency_matrix"):
                nl = t.kw.get("nodelist") or (t.args[1] if len(t.args) > 1 else None)
                node_order = "" if nl is None or nl.op == "const" and nl.x is None else ordering(nl)
            if ev.kind == "mutate" and t is not None and any(u.op == "attr" and u.name == "signals" and is_gf(r.it, u.args[0]) for u in bases(t)) or ev.kind == "mutate" and "signals" in show(t, 4):
                signals = True
            if ev.kind == "mutate" and lib == "networkx" and ev.info["index"] is not None and ev.info["how"] == "setitem":
                i, v = ev.info["index"], ev.info["value"]
                if i.op == "elem" and i.name == "index" and v is not None and i.args[0].op == "ecall" and short(i.args[0]) == "enumerate" and any(u.op == "attr" and u.name in ("nodes", "_node") for u in walk(v)):
                    o = ordering(i.args[0].args[0])
                    R.count("signal_alignments")
                    if node_order is not None and o != node_order and "?" not in (o, node_order):
                        R.finding("alignment", e.func.qualname, f"{e.func.name} takes the rows of the matrix in {node_order or 'the natural'} order of the nodes but their signals in {o or 'the natural'} order", ev.site, e.name)
        if not signals and not any(ev.kind == "mutate" for ev in r.events):
            R.finding("signals", e.func.qualname, f"{e.func.name} does not import the signals", None, e.name)


GETTERS = ("graph_tool.spectral.adjacency", "networkx.to_scipy_sparse_array", "networkx.to_scipy_sparse_matrix", "networkx.to_numpy_array", "networkx.adjacency_matrix")


def entries(R, r, e, lib, t, site):
    """The entries of the matrix built from the one of the library; whether they were decided."""
    try:
        outs = solve(lambda fl: Entries(r.it, lambda u: u.op == "ecall" and u.name in GETTERS, True, fl), lambda E: {c.key(): E.mat(t, c) for c in E.cases()})
    except (Undecided, Tolerance):
        return False
    R.count("orientations")
    for fl, E, M in outs:
        for c in E.cases():
            got = c.norm(M[c.key()])
            same, opposite = c.norm(var("w")), c.norm(var("x"))
            want, other = (opposite, same) if lib == "graph_tool" else (same, opposite)
            if got != want:
                if all(d.norm(M[d.key()]) == d.norm(var("w" if lib == "graph_tool" else "x")) for d in E.cases()):
                    R.finding("direction", e.func.qualname, f"{e.func.name} exchanges the source and the target of every edge: the matrix of {lib.replace('_', '-')} is {'not ' if lib == 'graph_tool' else ''}transposed", site, e.name)
                else:
                    R.finding("weights", e.func.qualname, f"{e.func.name} does not keep the weights it reads: {describe(c)}, of weight {'<=>'[(c.x if lib == 'graph_tool' else c.w) + 1]} 0", site, e.name)
                return True
    return True


def transposition(R, e, lib, t, site):
    """The adjacency of NetworkX has the sources on the rows, that of graph-tool on the columns."""
    n = 0
    seen = 0
    while seen < 50:
        seen += 1
        s = short(t)
        if t.op == "attr" and t.name in ("T", "H") or t.op in ("mcall", "ecall") and s in ("transpose", "getH"):
            n += 1
            t = t.args[0]
        elif t.op in ("mcall", "ecall") and s in ("tocsr", "tocsc", "tocoo", "tolil", "copy", "astype", "csr_matrix", "toarray", "asarray", "csr_array", "csc_matrix", "csc_array", "asanyarray", "array") and t.args:
            t = t.args[0]
        else:
            break
    if t.op == "ecall" and t.name in ("graph_tool.spectral.adjacency", "networkx.to_scipy_sparse_array", "networkx.to_scipy_sparse_matrix", "networkx.to_numpy_array", "networkx.adjacency_matrix"):
        R.count("orientations")
        if n % 2 != (1 if t.name.startswith("graph_tool") else 0):
            R.finding("direction", e.func.qualname, f"{e.func.name} exchanges the source and the target of every edge: the matrix of {lib.replace('_', '-')} is {'not ' if lib == 'graph_tool' else ''}transposed", site, e.name)


def default(e, name):
    a = e.func.node.args
    pos = list(a.posonlyargs) + list(a.args)
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == name and isinstance(d, ast.Constant):
            return d.value
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name and isinstance(d, ast.Constant):
            return d.value
    return ""


def names(P, R, tables):
    for lib in LIBS:
        T = tables[lib]
        for k, site in T["keys"]:
            R.count("weight_names")
            if T.get("default") and isinstance(k, str) and T["default"][0] != k:
                R.finding("weight-name", f"{T['writer'].func.qualname}:{k}", f"{T['writer'].func.name} stores the weights of the edges as {k!r}, {T['default'][1].func.name} looks for {T['default'][0]!r} by default", site, T["writer"].name)


def key_parts(t):
    """(name, separator, number) of the name a column is stored under."""
    if t.op == "fstr" and len(t.args) >= 2:
        pieces = []
        for a in t.args:
            pieces.append(a)
        fmt = t.x if isinstance(t.x, str) else pieces[0].x if pieces[0].op == "const" and isinstance(pieces[0].x, str) else None
        if fmt is not None and fmt.count("{}") == 2:
            ps = fmt.split("{}")
            vals = pieces if isinstance(t.x, str) else pieces[1:]
            if ps[0] == "" and ps[2] == "" and len(vals) == 2:
                return vals[0], ps[1], vals[1]
        return None
    if t.op == "mcall" and t.name == "format" and t.args[0].op == "const" and len(t.args) == 3:
        ps = t.args[0].x.split("{}")
        if len(ps) == 3 and ps[0] == ps[2] == "":
            return t.args[1], ps[1], t.args[2]
        return None
    if t.op == "bin" and t.name == "+":
        flat = []

        def go(u):
            if u.op == "bin" and u.name == "+":
                go(u.args[0])
                go(u.args[1])
            else:
                flat.append(u)
        go(t)
        if len(flat) == 3 and flat[1].op == "const" and isinstance(flat[1].x, str):
            n = flat[2]
            if n.op == "ecall" and short(n) == "str" and n.args:
                n = n.args[0]
            return flat[0], flat[1].x, n
    if t.op == "mcall" and t.name == "join" and t.args[0].op == "const" and len(t.args) == 2 and t.args[1].op in ("list", "tuple") and len(t.args[1].args) == 2:
        a, b = t.args[1].args
        if b.op == "ecall" and short(b) == "str":
            b = b.args[0]
        return a, t.args[0].x, b
    return None


def glued(t):
    """The name of a column is a name followed by a number, with nothing in between."""
    if t.op == "bin" and t.name == "+" and len(t.args) == 2:
        a, b = t.args
        return a.op == "elem" and (b.op == "ecall" and short(b) in ("str", "repr") or b.op == "fstr" and len(b.args) == 1)
    if t.op == "fstr":
        return len(t.args) == 2 and t.x == "{}{}"
    return False


def signals_value(t):
    return t.op == "elem" and t.name == "value" and any(u.op == "attr" and u.name == "signals" for u in walk(t.args[0]))


def columns(P, R, tables):
    seps, readers = {}, []
    done = set()
    for r in each(P, R, where=lambda e: e.func.name in ("to_networkx", "to_graphtool", "from_networkx", "from_graphtool") and e.cls is not None):
        e = r.entry
        for ev in r.events:
            if ev.kind == "mutate" and ev.info["how"] == "setitem" and ev.info["index"] is not None and ev.info["value"] is not None:
                k = key_parts(ev.info["index"])
                v = ev.info["value"]
                if k is None and ev.site not in done and e.func.name.startswith("to") and any(signals_value(u) for u in walk(v)) and glued(ev.info["index"]):
                    done.add(ev.site)
                    R.finding("separator", f"{ev.func.qualname}:none", f"{ev.func.name} names the columns of a signal without anything between the name and the number: it is not restored", ev.site, e.name)
                if k is None or ev.site in done or not any(signals_value(u) for u in walk(v)):
                    stacked(R, e, ev, done)
                    continue
                done.add(ev.site)
                base, sep, i = k
                R.count("columns_named")
                seps[sep] = (ev, e)
                axis = start = None
                if i.op == "elem" and i.name == "index" and short(i.args[0]) == "enumerate":
                    en = i.args[0]
                    st = en.args[1] if len(en.args) > 1 else en.kw.get("start")
                    start = 0 if st is None else st.x if st.op == "const" else None
                    if v.op == "elem" and v.args and signals_value(base_of(v.args[0])):
                        axis = 1 if transposed(v.args[0]) else 0
                elif v.op == "sub" and signals_value(v.args[0]):
                    ix = v.args[1]
                    axis = 0
                    if ix.op == "tuple" and len(ix.args) == 2:
                        axis = 1 if ix.args[0].op == "slice" or ix.args[0].op == "const" else 0
                if axis == 0:
                    R.finding("columns", ev.func.qualname, f"{ev.func.name} breaks a signal in rows, one per vertex, instead of columns", ev.site, e.name)
                if start not in (None, 0):
                    R.finding("columns", ev.func.qualname, f"{ev.func.name} numbers the columns of a signal from {start}, the importers from 0", ev.site, e.name)
            elif ev.kind == "mcall" and ev.term is not None and ev.term.name in ("rpartition", "rsplit", "partition", "split") and len(ev.term.args) > 1 and ev.term.args[1].op == "const" and e.func.name.startswith("from") and ev.site not in done:
                done.add(ev.site)
                if any(u.op == "elem" for u in walk(ev.term.args[0])):
                    readers.append((ev.term.args[1].x, ev.term.name, ev, e))
            elif ev.kind == "mutate":
                stacked(R, e, ev, done)
    for sep, name, ev, e in readers:
        R.count("names_parsed")
        if name in ("partition", "split") and len(ev.term.args) < 3:
            R.finding("separator", f"{ev.func.qualname}:{name}", f"{ev.func.name} splits names at the first {sep!r} ({name}): a signal whose name contains it is not restored", ev.site, e.name)
        if seps and sep not in seps:
            R.finding("separator", f"{ev.func.qualname}:{sep}", f"{ev.func.name} splits names at {sep!r}, columns are named with {'/'.join(map(repr, seps))}", ev.site, e.name)


ABOUT_TYPE = {"isinstance", "issubclass", "len", "hasattr", "isnan", "callable", "type", "ndim", "shape", "dtype", "isreal", "size", "isna", "isnull"}


def tests_value(cond, is_value):
    """Does a condition depend on a value, rather than on its type, its shape or its being missing? (What a loop iterates over is a condition on it too.)"""
    if cond.op == "attr" or short(cond) in ("enumerate", "zip", "range", "list", "reversed", "sorted", "tuple", "iter", "map", "items", "keys", "values", "transpose", "tolist", "copy", "asarray", "array"):
        return False
    stack, seen = [cond], set()
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if is_value(u):
            return True
        if u.op == "attr" and u.name in ABOUT_TYPE or u.op in ("ecall", "mcall") and short(u) in ABOUT_TYPE:
            continue
        if u.op == "cmp" and u.name in ("is", "is not", "in", "not in") or u.op in ("mu", "elem") or u.op == "mcall" and u.name in ("items", "keys", "values"):
            continue
        stack.extend(u.args)
    return False


def partial(t):
    """A slice which leaves something out, by constants."""
    for i in t.args if t.op == "tuple" else [t]:
        if i.op == "slice":
            lo, hi, step = (list(i.args) + [None] * 3)[:3]
            for b, neutral in ((lo, (None, 0)), (hi, (None,)), (step, (None, 1, -1))):
                if b is not None and b.op == "const" and b.x not in neutral:
                    return True
                if b is not None and b.op == "un" and b.name == "-" and b.args[0].op == "const" and not (b is step and b.args[0].x == 1):
                    return True
    return False


def zero_test(c):
    return c.op == "cmp" and c.name in ("!=", "==") and any(a.op == "const" and a.x == 0 for a in c.args) or c.op in ("elem", "sub")


def is_joined(v):
    s = base_of(v)
    return any(short(u) in ("stack", "column_stack", "vstack", "hstack") and u.op == "ecall" for u in walk(v))


def join_condition(R, e, ev):
    """Columns numbered from 0, two or more of them, are joined."""
    todo = [(c, t) for c, t in ev.state.path]
    while todo:
        c, t = todo.pop()
        if c.op == "un" and c.name == "not":
            todo.append((c.args[0], not t))
        elif c.op == "bool" and (c.name == "and") == t:
            todo.extend((a, t) for a in c.args)
        elif c.op == "cmp" and len(c.args) == 2:
            a, b, o = c.args[0], c.args[1], c.name
            if a.op == "const":
                a, b, o = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            if short(a) == "len" and b.op == "const" and isinstance(b.x, int) and not isinstance(b.x, bool):
                ok = {"<": 2 < b.x, ">": 2 > b.x, "<=": 2 <= b.x, ">=": 2 >= b.x, "==": 2 == b.x, "!=": 2 != b.x}.get(o)
                if ok is not None and ok != t or o in ("<", "<=") and t or o in (">", ">=") and not t:
                    R.finding("columns", f"{ev.func.qualname}:number", f"{e.func.name} does not join the columns of every signal: only when {'' if t else 'not '}{show(c, 3)}", ev.site, e.name)
            for u in walk(c):
                if u.op == "ecall" and short(u) in ("range", "arange") and len(u.args) > 1 and u.args[0].op == "const" and u.args[0].x != 0 and o in ("==", "!=") and (o == "==") == t:
                    R.finding("columns", f"{ev.func.qualname}:start", f"{e.func.name} joins columns numbered from {u.args[0].x}, the exporters number them from 0", ev.site, e.name)


def complete(P, R):
    """No signal, column or value is left out on the way, because of its value or of its position."""
    done = set()
    for r in each(P, R, where=lambda e: e.func.name in ("to_networkx", "to_graphtool", "from_networkx", "from_graphtool") and e.cls is not None):
        e = r.entry
        me = r.params.get("self")
        out = e.func.name.startswith("to")
        R.count("transfers")

        def of_signals(u):
            if out:
                return u.op == "attr" and u.name == "signals" and me is not None and u.args[0].uid == me.uid
            return u.op == "attr" and u.name in ("nodes", "_node", "vertex_properties", "vp")

        def value(u):
            """A signal or an element of one; an attribute of a vertex."""
            if u.op == "elem" and u.name == "value":
                return any(of_signals(z) for z in walk(u.args[0])) if out else u.args[0].op == "sub" and of_signals(u.args[0].args[0])
            if u.op == "elem" and u.args and out:
                b = u.args[0]
                b = base_of(b.args[0] if short(b) in ("enumerate", "iter", "list") and b.args else b)
                return b.uid != u.uid and b.op in ("elem", "sub") and value(b)
            if u.op == "sub":
                return of_signals(u.args[0]) if out else u.args[0].op == "sub" and of_signals(u.args[0].args[0])
            return False

        def edge_part(u):
            p = part(u) if out and u.op in ("elem", "sub") else None
            return p is not None and p[1] == "data"

        terms = {}
        joined = removed = False
        for ev in r.events:
            if ev.term is not None:
                terms.setdefault(ev.term.uid, (ev.term, ev))
            if ev.kind == "yield":
                for c, truth in ev.state.path:
                    if tests_value(c, edge_part) and not zero_test(c) or tests_value(c, value):
                        what = "edges" if tests_value(c, edge_part) else "vertices"
                        R.finding("values", f"{ev.func.qualname}:{what}", f"{e.func.name} leaves out {what} because of their {'weight' if what == 'edges' else 'signals'}", ev.site, e.name)
            if ev.kind == "mutate" and ev.info.get("how") in ("del", "pop", "popitem", "clear") or ev.kind == "mcall" and ev.term.name in ("pop", "clear", "popitem"):
                removed |= any(u.op == "attr" and u.name == "signals" or u.op in ("dict", "mu") for u in bases(ev.term))
            if ev.kind == "store" and ev.info[0] == "signals" and joined:
                removed = True
            if ev.kind != "mutate" or ev.info.get("value") is None or ev.info.get("how") != "setitem":
                continue
            terms.setdefault(ev.info["value"].uid, (ev.info["value"], ev))
            v = ev.info["value"]
            if not out and is_joined(v):
                joined = ev
                join_condition(R, e, ev)
            if not out:
                base = ev.term
                for u in bases(base):
                    for z in leaves(u):
                        if z.op == "ecall" and short(z) in ("full", "zeros", "empty", "ones", "full_like") and any(value(q) for q in walk(v)):
                            d = z.kw.get("dtype") or (z.args[2] if short(z) == "full" and len(z.args) > 2 else z.args[1] if short(z) in ("zeros", "empty", "ones") and len(z.args) > 1 else None)
                            fill = z.args[1] if short(z) == "full" and len(z.args) > 1 else z.kw.get("fill_value")
                            if narrow(d) or d is None and fill is not None and fill.op == "const" and isinstance(fill.x, int):
                                R.finding("rounded", f"{ev.func.qualname}:signals", f"{e.func.name} stores the signals in an array of {show(d, 2) if d is not None else 'integers'}", ev.site, e.name)
            if not any(value(u) for u in walk(v)):
                if not out and (is_joined(v) or any(u.op == "mcall" and u.name == "get_array" for u in walk(v))):
                    number(R, e, v, ev.site, "signals")
                continue
            if v.op not in ("dict",):
                number(R, e, v, ev.site, "signals")
            for c, truth in ev.state.path:
                if tests_value(c, value) and ("cond", ev.site) not in done:
                    done.add(("cond", ev.site))
                    R.finding("values", f"{ev.func.qualname}:dropped", f"{e.func.name} leaves out values of signals because of what they are", ev.site, e.name)
        if joined and not removed:
            R.finding("columns", f"{joined.func.qualname}:kept", f"{e.func.name} keeps the columns of the signals it joins", joined.site, e.name)
        seen = set()
        for t, ev in list(terms.values()):
            for u in walk(t):
                if u.uid in seen:
                    continue
                seen.add(u.uid)
                if u.op == "comp" and isinstance(u.x, tuple):
                    for c in u.args[u.x[1] + u.x[2]:]:
                        if tests_value(c, edge_part) and not zero_test(c) and ("cond", skey(c)) not in done:
                            done.add(("cond", skey(c)))
                            R.finding("values", f"{e.func.qualname}:edges", f"{e.func.name} leaves out edges because of their weight", ev.site, e.name)
                        if tests_value(c, value) and ("cond", skey(c)) not in done:
                            done.add(("cond", skey(c)))
                            R.finding("values", f"{e.func.qualname}:dropped", f"{e.func.name} leaves out values of signals because of what they are", ev.site, e.name)
                if u.op == "sub" and partial(u.args[1]) and any(of_signals(z) for z in walk(u.args[0])) and not any(z.op == "attr" and z.name == "shape" or z.op == "const" and isinstance(z.x, str) and False for z in [u.args[0]]) and ("part", skey(u)) not in done:
                    done.add(("part", skey(u)))
                    R.finding("values", f"{e.func.qualname}:part", f"{e.func.name} takes only a part, of fixed size, of the signals", ev.site, e.name)


def base_of(t):
    while t.op == "attr" and t.name in ("T",) or t.op in ("mcall", "ecall") and short(t) in ("transpose", "asarray", "copy", "swapaxes"):
        t = t.args[0]
    return t


def transposed(t):
    n = 0
    while t.op == "attr" and t.name == "T" or t.op in ("mcall", "ecall") and short(t) in ("transpose", "asarray", "copy", "swapaxes"):
        n += t.op == "attr" or short(t) in ("transpose", "swapaxes")
        t = t.args[0]
    return n % 2


def about(t):
    """What a condition computes from the values of a loop."""
    stack = [t]
    while stack:
        u = stack.pop()
        yield u
        if u.op not in ("mu", "elem", "attr", "mcall"):
            stack.extend(u.args)


def stacked(R, e, ev, done):
    """The value of a joined signal."""
    v = ev.info["value"]
    if ev.info["how"] != "setitem" or v is None or v.op not in ("ecall", "attr", "mcall") or ev.site in done or not e.func.name.startswith("from"):
        return
    tr = transposed(v)
    s = base_of(v)
    n = short(s)
    if n not in ("stack", "column_stack", "vstack", "row_stack", "hstack", "concatenate", "array") or s.op != "ecall":
        return
    if not any(u.op == "comp" for u in walk(s)) and not any(u.op == "mu" for u in walk(s)):
        return
    done.add(ev.site)
    R.count("columns_joined")
    ax = s.kw.get("axis") or (s.args[1] if len(s.args) > 1 else None)
    if n == "stack":
        a = 0 if ax is None else ax.x if ax.op == "const" else None
        col = None if a is None else a in (1, -1)
    elif n == "array":
        col = False if ax is None else None
    else:
        col = {"column_stack": True, "vstack": False, "row_stack": False}.get(n)
    if col is not None and bool(col) == bool(tr):
        R.finding("columns", ev.func.qualname, f"{ev.func.name} joins the columns of a signal as rows", ev.site, e.name)
    if not any(u.op == "ecall" and short(u) in ("range", "arange", "enumerate", "max", "min", "all") for c, _ in ev.state.path for u in about(c)):
        R.finding("column-order", f"{ev.func.qualname}:incomplete", f"{ev.func.name} joins signals whose names end with numbers without checking that these are those of all the columns, from the first to the last", ev.site, e.name)
    for u in walk(s):
        if u.op == "ecall" and u.name == "builtins.sorted" and u.args and "key" in u.kw and any(short(x) in ("str", "repr", "len") or x.op in ("global", "builtin", "func", "ext") and str(x.name).rpartition(".")[2] in ("str", "repr", "len") for x in walk(u.kw["key"])):
            R.finding("column-order", ev.func.qualname, f"{ev.func.name} sorts the columns of a signal by name, in which the tenth comes before the third", ev.site, e.name)
            break
        if u.op == "ecall" and u.name == "builtins.sorted" and u.args and "key" not in u.kw and not any(short(x) in ("int", "float") for x in walk(u.args[0])):
            R.finding("column-order", ev.func.qualname, f"{ev.func.name} sorts the columns of a signal by name, in which the tenth comes before the third", ev.site, e.name)
            break


def files(P, R, tables):
    known = {}
    for e in P.entries:
        if e.func.name not in ("load", "save") or e.cls is None or not {"fmt", "backend"} <= set(e.func.args):
            continue
        for b, lib in BACKENDS.items():
            other = LIBS[1 - LIBS.index(lib)]
            for f in FORMATS:
                try:
                    r = P.run(e, overrides={"fmt": const(f), "backend": const(b)})
                except Exception as ex:  # noqa: BLE001
                    R.notes.append(f"not analysed: {e.name} {f} {b} ({type(ex).__name__})")
                    continue
                R.count("file_operations")
                known[(e.func.name, b, f)] = bool(r.returns)
                calls = [ev for ev in r.events if ev.kind in ("ecall", "mcall") and ev.term is not None]
                used = {}
                for ev in calls:
                    t = ev.term
                    if t.op == "ecall" and (t.name or "").startswith(("networkx.read_", "networkx.write_")):
                        used.setdefault("networkx", []).append((t, ev))
                    elif t.op == "ecall" and t.name == "graph_tool.load_graph" or t.op == "mcall" and t.name == "save" and root(t.args[0]) == "graph_tool":
                        used.setdefault("graph_tool", []).append((t, ev))
                if other in used and lib not in used:
                    ev = used[other][0][1]
                    R.finding("backend", f"{e.func.qualname}:{b}", f"{e.func.name} with the backend {b!r} uses {other.replace('_', '-')}", ev.site, e.name)
                    continue
                for t, ev in used.get(lib, []):
                    R.count("file_calls")
                    if lib == "networkx":
                        want = ("read_" if e.func.name == "load" else "write_") + f
                        got = t.name.split(".")[-1]
                        if got != want:
                            R.finding("format", f"{e.func.qualname}:{b}:{f}", f"{e.func.name} in format {f!r} calls networkx.{got}", ev.site, e.name)
                    else:
                        k = t.kw.get("fmt") or (t.args[2] if t.op == "mcall" and len(t.args) > 2 else t.args[1] if t.op == "ecall" and len(t.args) > 1 else None)
                        if k is None or k.op == "const" and k.x != f:
                            R.finding("format", f"{e.func.qualname}:{b}:{f}", f"{e.func.name} in format {f!r} asks graph-tool for {'that of the extension' if k is None or k.x == 'auto' else repr(k.x)}", ev.site, e.name)
                if e.func.name == "load" and used.get(lib):
                    conv = [ev for ev in calls if short(ev.term) in ("to_scipy_sparse_array", "adjacency") and root(ev.term) in LIBS]
                    for ev in conv:
                        w = ev.term.kw.get("weight")
                        want = (tables[lib].get("default") or (None,))[0]
                        if lib == "networkx" and short(ev.term) == "to_scipy_sparse_array" and isinstance(want, str) and w is not None and w.op == "const" and w.x != want:
                            R.finding("weight-name", f"{e.func.qualname}:{b}", f"{e.func.name} reads the weights of the edges from {w.x!r}, {want!r} is where they are written", ev.site, e.name)
                    if conv and all(root(ev.term) == other for ev in conv):
                        R.finding("backend", f"{e.func.qualname}:{b}", f"what {e.func.name} reads with {lib.replace('_', '-')} is imported as a graph of {other.replace('_', '-')}", conv[0].site, e.name)
    for b in BACKENDS:
        for f in FORMATS:
            x, y = known.get(("load", b, f)), known.get(("save", b, f))
            if x is not None and y is not None:
                R.count("format_pairs")
                if x != y:
                    R.finding("format-pair", f"{b}:{f}", f"the format {f!r} with {b!r} is {'loaded but not saved' if x else 'saved but not loaded'}", None, "load/save")


def edge_list(P, R):
    for r in each(P, R, where=lambda e: e.func.name == "get_edge_list" and e.cls is not None):
        e = r.entry
        ed = Edges(r.it, r.params.get("self"))
        for x in r.returns:
            if x.value.op == "tuple" and len(x.value.args) == 3:
                ed.judge(R, e, *x.value.args, None, "edge list")


def check(P, R):
    R.rule("What an exporter writes (vertices, edges, the name of the weights, the names of the columns of signals) and what the importer of the same library reads are extracted from the source and compared. "
           "The edges written are the (row, column, value) of a matrix whose entries, by case analysis, are all those of a directed graph and one of each pair of opposite entries of an undirected one; the exported graph is directed exactly when the graph is. "
           "The matrix imported has sources on rows whatever the convention of the library, and signals in the order of its rows. The separator, first number, axis and order of broken signals are those with which they are joined; no value, column or signal is left out because of its value or its position. "
           "Each format and backend accepted by load and save leads to the functions of that format and library.")
    tables = {lib: {"keys": []} for lib in LIBS}
    tables["exporters"] = tables["importers"] = 0
    exports(P, R, tables)
    imports(P, R, tables)
    names(P, R, tables)
    columns(P, R, tables)
    complete(P, R)
    files(P, R, tables)
    edge_list(P, R)
    R.need("exporters", 2)
    R.need("importers", 2)
    R.need("file_operations", 6)
