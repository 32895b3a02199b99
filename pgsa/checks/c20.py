"""C20: the scalable path stays sparse and never needs the eigendecomposition."""

import ast

from ..terms import Term, const, walk

GRAPH_OPS = ("compute_laplacian", "compute_differential_operator", "estimate_lmax", "lmax", "D", "grad", "div", "dirichlet_energy", "dw", "d", "A", "is_connected", "is_directed",
             "is_weighted", "has_loops", "get_edge_list", "extract_components", "subgraph", "set_signal", "n_edges", "n_vertices", "N", "Ne")
FILTER_OPS = ("filter", "analyze", "synthesize", "localize")
APPROX = ("compute_cheby_coeff", "cheby_op", "cheby_rect", "compute_jackson_cheby_coeff")
# designs that are documented to need the Fourier basis
SPECTRAL = ("Gabor", "Modulation")
# a complete graph has no sparse representation
DENSE_MODELS = ("FullConnected",)
SPARSE_OK = {"T", "H"}
KEEP = {"copy", "astype", "tocsr", "tocsc", "tocoo", "todia", "tolil", "todok", "tobsr", "asformat", "transpose", "conj", "conjugate", "multiply", "power", "maximum", "minimum",
        "dot", "sqrt", "sign", "asfptype", "getH", "asformat", "sum_duplicates", "sorted_indices", "ceil", "floor", "expm1", "log1p", "getH", "reshape", "resize"}
CTORS = {"csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dok_matrix", "dia_matrix", "bsr_matrix", "csr_array", "csc_array", "coo_array", "lil_array", "dok_array", "dia_array",
         "bsr_array", "identity", "eye", "eye_array", "diags", "diags_array", "spdiags", "tril", "triu", "kron", "block_diag", "bmat", "vstack", "hstack"}
ALLOC = {"zeros", "ones", "empty", "full"}
EIG = {"eig", "eigh", "eigvals", "eigvalsh", "svd", "svdvals", "pinv", "inv", "expm", "sqrtm", "logm", "funm", "schur", "qr", "det", "cholesky", "lu", "null_space", "matrix_power", "cond", "matrix_rank"}


def callable_attr(tree, a):
    return any(isinstance(c, ast.Call) and c.func is a for c in ast.walk(tree))


class Kinds:
    """'SP' sparse vertex-by-vertex (or vertex-by-edge) matrix, 'N' number of vertices or edges, 'V' vector on the vertices, None unknown."""

    def __init__(self, it):
        self.it = it
        self.memo = {}
        # the public matrices and the fields their properties hand out
        self.matrices = {"W", "L", "A", "D"}
        self.vectors = {"dw", "d"}
        for names in (self.matrices, self.vectors):
            for p in list(names):
                for c in (it.graph_cls.mro() if it.graph_cls is not None else []):
                    f = c.methods.get(p)
                    if f is not None and f.is_property:
                        names |= {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr.startswith("_") and any(
                            isinstance(x, ast.Return) and any(y is n for y in ast.walk(x)) for x in ast.walk(f.node)) and not callable_attr(f.node, n)}

    def graph(self, t):
        c = self.it.cls_of(t)
        g = self.it.graph_cls
        return c is not None and g is not None and (c.is_subclass(g) or c in g.mro())

    def get(self, t, depth=0):
        if t.uid in self.memo:
            return self.memo[t.uid]
        if depth > 40:
            return None
        self.memo[t.uid] = None
        k = self.memo[t.uid] = self.rule(t, depth + 1)
        return k

    def rule(self, t, d):
        op = t.op
        if op == "param":
            return "SP" if t.name in ("adjacency",) else "N" if t.name in ("N", "n_vertices") and t.func is not None and t.func.name == "__init__" else None
        if op == "attr":
            b = t.args[0]
            if self.graph(b):
                if t.name in self.matrices:
                    return "SP"
                if t.name in ("N", "n_vertices", "Ne", "n_edges"):
                    return "N"
                if t.name in self.vectors:
                    return "V"
                return None
            if t.name in SPARSE_OK and self.get(b, d) == "SP":
                return "SP"
            if t.name == "shape" and self.get(b, d) == "SP":
                return "SHAPE"
            return None
        if op in ("sub", "unpack"):
            b = t.args[0]
            k = self.get(b, d)
            if k == "SHAPE":
                return "N"
            if op == "sub" and k == "SP":
                i = t.args[1]
                parts = i.args if i.op == "tuple" else [i]
                return "SP" if parts and all(p.op in ("slice", "param") or p.op == "attr" for p in parts) else None
            if op == "sub" and k == "V":
                parts = t.args[1].args if t.args[1].op == "tuple" else [t.args[1]]
                new = [n for n, p in enumerate(parts) if p.op == "const" and p.x is None or p.op == "ext" and p.name == "numpy.newaxis"]
                if len(parts) == 2 and len(new) == 1:
                    return "ROW" if new[0] == 0 else "COL"
            return None
        if op == "phi":
            ks = {self.get(a, d) for a in t.args[1:]}
            return ks.pop() if len(ks) == 1 else "SP" if ks == {"SP", None} and all(self.get(a, d) == "SP" or a.op == "const" for a in t.args[1:]) else None
        if op in ("maybe", "store", "mutview", "inplace", "mutcall", "outval"):
            return self.get(t.args[0], d)
        if op == "mu":
            ks = {self.get(a, d) for a in t.args} - {None}
            return "SP" if ks == {"SP"} else None
        if op == "un":
            return self.get(t.args[0], d)
        if op == "bin" and t.name in ("+", "-", "*", "/", "**") and "V" in [self.get(a, d) for a in t.args] and all(self.get(a, d) == "V" or a.op == "const" for a in t.args):
            return "V"
        if op == "bin":
            a, b = self.get(t.args[0], d), self.get(t.args[1], d)
            if t.name in ("+", "-", "@"):
                return "SP" if a == b == "SP" else None
            if t.name == "*":
                return "SP" if a == b == "SP" or "SP" in (a, b) and any(x.op == "const" and isinstance(x.x, (int, float)) for x in t.args) else None
            if t.name == "/":
                return "SP" if a == "SP" and t.args[1].op == "const" else None
            if t.name == "**":
                return "SP" if a == "SP" else None
            return None
        if op == "cmp":
            ks = [self.get(a, d) for a in t.args]
            return "SP" if ks and "SP" in ks and t.name in ("==", "!=", "<", ">", "<=", ">=") else None
        if op == "mcall":
            if self.get(t.args[0], d) == "SP" and t.name in KEEP:
                if t.name == "dot":
                    return "SP" if len(t.args) > 1 and self.get(t.args[1], d) == "SP" else None
                return "SP"
            return None
        if op == "ecall":
            short = t.name.rsplit(".", 1)[-1]
            if t.name.startswith("scipy.sparse.") and short in CTORS and "linalg" not in t.name:
                return "SP"
            if t.name.startswith("numpy.") and short in ALLOC and t.args and self.get(t.args[0], d) == "N":
                return "V"
            if t.name in ("numpy.power", "numpy.reciprocal", "numpy.asarray", "numpy.ravel", "numpy.squeeze") and t.args and self.get(t.args[0], d) == "V":
                return "V"
            if t.name in ("numpy.abs", "builtins.abs", "numpy.sqrt", "numpy.absolute", "numpy.transpose") and t.args:
                return self.get(t.args[0], d)
            if t.name == "builtins.len" and t.args and self.get(t.args[0], d) == "V":
                return "N"
        return None


def dense(K, t):
    """Why a term is a dense vertex-by-vertex array, or a decomposition of one; None otherwise."""
    short = str(t.name or "").rsplit(".", 1)[-1]
    if t.op == "mcall" and short in ("toarray", "todense"):
        if K.get(t.args[0]) == "SP":
            return f"{short}() of a sparse matrix of the graph"
        return None
    if t.op == "attr" and t.name == "A" and not K.graph(t.args[0]) and K.get(t.args[0]) == "SP":
        return "the dense form (.A) of a sparse matrix of the graph"
    if t.op == "bin" and {K.get(t.args[0]), K.get(t.args[1])} in ({"ROW", "COL"}, {"COL", "V"}):
        return "an outer combination of two vectors on the vertices"
    if t.op != "ecall":
        return None
    if t.name.startswith("numpy."):
        if short in ALLOC and t.args and t.args[0].op in ("tuple", "list") and len(t.args[0].args) == 2 and all(K.get(a) == "N" for a in t.args[0].args):
            return f"numpy.{short} of vertices by vertices"
        if short in ALLOC and t.args and K.get(t.args[0]) == "SHAPE":
            return f"numpy.{short} with the shape of a matrix of the graph"
        if short in ("identity", "eye") and t.args and K.get(t.args[0]) == "N":
            return f"numpy.{short} of vertices by vertices"
        if short in ("diag", "diagflat") and t.args and K.get(t.args[0]) == "V":
            return "numpy.diag of a vector on the vertices"
        if short in ("outer",) and len(t.args) > 1 and K.get(t.args[0]) == K.get(t.args[1]) == "V":
            return "an outer product of two vectors on the vertices"
    if t.name.startswith(("numpy.linalg.", "scipy.linalg.")) and short in EIG and t.args and any(densified(K, u) for u in walk(t.args[0])):
        return f"{t.name} of a matrix of the graph"
    if t.name.startswith("scipy.sparse.linalg."):
        if short in ("inv", "expm", "funm") and t.args and K.get(t.args[0]) == "SP":
            return f"{t.name} of a matrix of the graph (its result is dense)"
        if short in ("eigsh", "eigs", "svds", "lobpcg") and t.args and K.get(t.args[0]) == "SP":
            k = t.kw.get("k") or (t.args[1] if len(t.args) > 1 else None)
            if k is not None and any(K.get(u) == "N" for u in walk(k)):
                return f"{t.name} for a number of eigenvalues that grows with the graph"
    return None


def densified(K, t):
    return K.get(t) == "SP" or t.op == "mcall" and t.name in ("toarray", "todense") and K.get(t.args[0]) == "SP"


def scenarios(P):
    g, f = P.prog.find_class("Graph"), P.prog.find_class("Filter")
    for e in P.entries:
        c = e.cls
        if c is not None and g is not None and (c is g or g in c.mro()):
            if e.kind == "init":
                if c.name not in DENSE_MODELS:
                    yield e, {}
            elif e.func.name in GRAPH_OPS and e.kind != "setter":
                yield e, {}
        elif c is not None and f is not None and (c is f or f in c.mro()):
            if c.name in SPECTRAL:
                continue
            if e.kind == "init":
                yield e, {"normalize": const(False)} if "normalize" in e.func.args else {}
            elif e.func.name in FILTER_OPS:
                d = e.func.defaults.get("method")
                o = {"method": const(d.value)} if isinstance(d, ast.Constant) else {"method": const("chebyshev")} if "method" in e.func.args else {}
                if e.func.kwarg:
                    o[e.func.kwarg] = Term("kwdict", None, [])
                yield e, o
        elif c is None and e.func.module.name.endswith("approximations") and e.func.name in APPROX:
            yield e, {}


def check(P, R):
    R.rule("Every construction of a graph or filter bank (other than those documented to need the Fourier basis), its Laplacian, differential operator, largest eigenvalue and the default filtering "
           "operations are executed abstractly with all the library functions they reach. On no path may a sparse vertex-by-vertex matrix be made dense, a dense vertex-by-vertex array be allocated, "
           "a dense decomposition be called, or the Fourier basis be computed.")
    R.assumptions.append("FullConnected is exempt (a complete graph is dense); Gabor, Modulation and normalised Heat kernels are documented to use the Fourier basis")
    seen = set()
    for e, o in scenarios(P):
        try:
            r = P.run(e, overrides=o or None)
        except Exception as ex:  # noqa: BLE001
            R.notes.append(f"not analysed: {e.name} ({type(ex).__name__}: {ex})")
            R.count("entry_points_not_analysed")
            continue
        R.count("scalable_entry_points")
        R.count("events", len(r.events))
        K = Kinds(r.it)
        for ev in r.events:
            fns = [fn for fn, _ in ev.stack]
            basis = next((fn for fn in fns if fn.name == "compute_fourier_basis"), None)
            if basis is not None and e.func.name != "compute_fourier_basis":
                caller = next((fns[i - 1] for i, fn in enumerate(fns) if fn is basis and i), None)
                key = ("basis", caller.qualname if caller else e.name)
                if key not in seen:
                    seen.add(key)
                    R.finding("fourier-basis", e.name, f"{e.name} computes the eigenvectors of the graph on the scalable path", ev.site, e.name, ev.trace())
                continue
            if ev.kind not in ("ecall", "mcall") and not (ev.term is not None and ev.kind in ("return", "store", "if", "discard", "mstore")):
                continue
            for u in walk(ev.term) if ev.kind not in ("ecall", "mcall") else [ev.term] + [a for a in ev.term.children() if a.op in ("bin", "attr")]:
                if u.uid in seen:
                    continue
                why = dense(K, u)
                if u.op in ("ecall", "mcall"):
                    R.count("library_calls")
                if why:
                    seen.add(u.uid)
                    fn = ev.func
                    R.finding("dense", f"{fn.qualname}:{why}", f"{fn.qualname} uses {why} on the scalable path", ev.site, e.name, ev.trace())
    R.need("scalable_entry_points", 50)
    R.need("library_calls", 500)
