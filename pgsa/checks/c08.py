"""C08: results do not depend on the unit of the edge weights."""

import math
import re
from fractions import Fraction

from ..analysis import digest_cls, doc_kind
from ..linear import short
from ..terms import Term, const, show, walk
from .c19 import picker
from .common import each, is_gf

ANY = "any"
Z = Fraction(0)
ONE = Fraction(1)
SAME = {
    "abs", "absolute", "fabs", "asarray", "array", "asanyarray", "copy", "astype", "ravel", "flatten", "reshape", "squeeze", "transpose", "sum", "mean", "median", "min", "max", "amin", "amax", "nanmin", "nanmax",
    "sort", "sorted", "diag", "diagonal", "real", "conj", "conjugate", "negative", "positive", "tocsr", "tocsc", "tocoo", "todense", "toarray", "todia", "tolil", "csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix",
    "dia_matrix", "csr_array", "csc_array", "diags", "spdiags", "tril", "triu", "std", "cumsum", "diff", "ptp", "trace", "float", "atleast_1d", "atleast_2d", "broadcast_to", "repeat", "tile", "expand_dims", "swapaxes",
    "float64", "unique", "flip", "roll", "take", "compress", "norm", "eigvalsh", "eigvals", "getH", "tolist", "item", "list", "tuple", "nan_to_num", "full_like", "ascontiguousarray", "percentile", "quantile", "logspace_",
    "svdvals", "sum_duplicates", "percentile", "average", "getrow", "getcol", "fsum", "asfptype", "to_dense", "compressed", "abs_",
}
FREE = {"exp", "expm1", "cos", "sin", "tan", "cosh", "sinh", "tanh", "arccos", "arcsin", "arctan", "sinc", "log1p", "acos", "asin", "atan", "erf", "exp2"}
AGREE = {"minimum", "maximum", "fmin", "fmax", "add", "subtract", "hypot", "clip", "linspace", "copysign"}
COMPARES = {"greater", "greater_equal", "less", "less_equal", "equal", "not_equal"}
STACKS = {"concatenate", "hstack", "vstack", "stack", "column_stack", "append", "r_", "block"}
PURE = {"sign", "getnnz", "bincount", "argsort", "argmin", "argmax", "count_nonzero", "nonzero", "flatnonzero", "isnan", "isfinite", "len", "isinf", "shape", "ndim", "size", "any", "all", "bool", "ones", "ones_like", "eye", "identity", "arange", "range",
        "searchsorted", "where_", "argwhere", "finfo", "digitize", "indices", "randn", "rand", "uniform", "normal", "integers", "permutation", "choice", "standard_normal"}
ZEROS = {"zeros", "zeros_like", "empty", "empty_like"}
GRAPH = {"W": ONE, "_adjacency": ONE, "dw": ONE, "_dw": ONE, "d": Z, "_d": Z, "N": Z, "n_vertices": Z, "Ne": Z, "n_edges": Z, "A": Z, "coords": None}
SPECTRUM = {"L": ONE, "e": ONE, "_e": ONE, "lmax": ONE, "_lmax": ONE, "U": Z, "_U": Z, "D": Fraction(1, 2), "_D": Fraction(1, 2), "_coherence": Z, "coherence": Z, "mu": Z}


def fmt(d):
    return "no unit" if d == 0 else "the unit of the weights" if d == 1 else f"the power {d} of the unit of the weights"


class Units:
    """Degree of homogeneity of values in the edge weights: a number, ANY (zero, infinity) or None (unknown)."""

    def __init__(self, it, lap, frequencies=(), free=()):
        self.it = it
        self.lap = lap
        lap_pick = picker(lap, None)

        def pick(c):
            # matrices are graphs, too: the branch of graphs tells the units
            if c.op == "ecall" and c.name == "builtins.isinstance" and len(c.args) == 2 and c.args[1].op == "class" and c.args[0].op == "param":
                return True
            return lap_pick(c)
        self.pick = pick
        self.freq = {f.uid for f in frequencies}
        self.free = {f.uid for f in free}
        self.memo = {}
        self.bad = []
        self.n = 0

    def of(self, t, depth=0):
        if t is None or depth > 300:
            return None
        if t.uid in self.memo:
            return self.memo[t.uid]
        self.memo[t.uid] = None
        d = self.memo[t.uid] = self.compute(t, depth + 1)
        if isinstance(d, Fraction):
            self.n += 1
        return d

    def agree(self, t, what, xs, ds):
        """Values that are added, compared or put side by side."""
        known = [(x, d) for x, d in zip(xs, ds) if isinstance(d, Fraction)]
        for x, d in known[1:]:
            if d != known[0][1]:
                self.bad.append((t, f"{what} {self.name(known[0][0])} ({fmt(known[0][1])}) and {self.name(x)} ({fmt(d)})", what))
                return None
        if known and all(isinstance(d, Fraction) or d == ANY for d in ds):
            return known[0][1]
        if ds and all(d == ANY for d in ds):
            return ANY
        if ds and isinstance(ds[0], tuple) and all(d == ds[0] for d in ds):
            return ds[0]
        return None

    def name(self, t):
        if t.op == "const":
            return repr(t.x)
        s = show(t, 3)
        return s if len(s) < 60 else s[:57] + "..."

    def mul(self, a, b, k=1):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return None
        if a == ANY or b == ANY:
            return ANY if a == ANY and b is not None else None
        return a + k * b if a is not None and b is not None else None

    def number(self, t):
        if t.op == "const" and isinstance(t.x, (int, float)) and not isinstance(t.x, bool):
            try:
                return Fraction(t.x).limit_denominator(1000)
            except (ValueError, OverflowError):
                return None
        if t.op == "un" and t.name == "-":
            n = self.number(t.args[0])
            return None if n is None else -n
        if t.op == "bin" and t.name == "/":
            a, b = self.number(t.args[0]), self.number(t.args[1])
            return a / b if a is not None and b else None
        return None

    def power(self, t, b, e):
        d = self.of(b)
        if b.op == "const" and d == 0:
            k = self.of(e)
            return Z if k in (Z, ANY) else None
        n = self.number(e)
        if d in (None, ANY) or isinstance(d, tuple):
            return None if isinstance(d, tuple) else d if n is not None and n > 0 else None
        if d == 0:
            k = self.of(e)
            return Z if k == 0 else None
        return d * n if n is not None else None

    def compute(self, t, depth):
        if t.uid in self.freq:
            return ONE if self.lap == "combinatorial" else Z
        if t.uid in self.free:
            return Z
        op, a = t.op, t.args
        if op == "const":
            if isinstance(t.x, bool):
                return Z
            if isinstance(t.x, (int, float, complex)):
                return ANY if t.x == 0 or t.x != t.x or isinstance(t.x, float) and math.isinf(t.x) else Z
            return None
        if op == "param" or op == "opaque":
            return None
        if op == "attr":
            return self.attribute(t)
        if op == "ext":
            return ANY if t.name in ("numpy.inf", "numpy.nan", "numpy.Inf", "math.inf") else Z if t.name in ("numpy.pi", "math.pi", "numpy.e", "numpy.newaxis") else None
        if op in ("bin", "inplace"):
            o = (t.name or "").rstrip("=")
            if o == "+" and any(x.op == "list" for x in a):
                return self.common(self.items(t))
            if o in ("+", "-"):
                return self.agree(t, "adds" if o == "+" else "subtracts", a, [self.of(x, depth) for x in a])
            if o == "*" and any(x.op in ("ecall",) and short(x) in ("eye", "identity") for x in a) and any(x.op == "const" and x.x != 1 for x in a):
                return None  # a regularization the user chooses
            if o == "*" or o == "@":
                return self.mul(self.of(a[0], depth), self.of(a[1], depth))
            if o == "/":
                return self.mul(self.of(a[0], depth), self.of(a[1], depth), -1)
            if o == "**":
                return self.power(t, a[0], a[1])
            if o in ("//", "%"):
                self.agree(t, "divides with a remainder", a, [self.of(x, depth) for x in a])
                return None
            return None
        if op == "un":
            return self.of(a[0], depth) if t.name in ("-", "+") else Z
        if op == "cmp":
            if t.name in ("==", "!=") and any(x.op == "const" and x.x == 1 and not isinstance(x.x, bool) for x in a) and any(self.weights(x) for x in a):
                pass  # whether the graph is weighted at all
            elif t.name in ("<", "<=", ">", ">=", "==", "!="):
                self.agree(t, "compares", a, [self.of(x, depth) for x in a])
            else:
                for x in a:
                    self.of(x, depth)
            return Z
        if op == "bool":
            for x in a:
                self.of(x, depth)
            return None
        if op == "phi":
            c = self.pick(a[0])
            self.of(a[0], depth)
            if c is not None:
                return self.of(a[1 if c else 2], depth)
            x, y = self.of(a[1], depth), self.of(a[2], depth)
            if x == y:
                return x
            if x == ANY or y == ANY:
                return y if x == ANY else x
            # what a user passes for a quantity computed by default
            if a[1].op == "param" or a[2].op == "param":
                return y if a[1].op == "param" else x
            return None
        if op == "sub":
            self.of(a[1], depth) if len(a) > 1 and a[1].op in ("cmp", "bin", "bool", "ecall", "phi") else None
            if a[0].op in ("tuple", "list") or a[0].op == "unpack":
                return self.of(a[0], depth) if a[0].op != "tuple" else None
            return self.of(a[0], depth)
        if op in ("elem", "ver", "maybe", "starred"):
            return self.of(a[0], depth) if a else None
        if op == "store" and len(a) == 3:
            x, y = self.of(a[0], depth), self.of(a[2], depth)
            return x if x == y else y if x == ANY else x if y == ANY else None
        if op == "list" and a:
            ds = [self.of(x, depth) for x in a]
            return ds[0] if all(d == ds[0] for d in ds) else None
        if op == "unpack":
            return self.unpack(t, depth)
        if op in ("ecall", "mcall"):
            return self.call(t, depth)
        if op == "outval" and len(a) > 1:
            return self.of(a[1], depth)
        if op == "mutcall":
            return None
        if op == "ucall":
            return None
        if op == "comp":
            return self.of(a[0], depth) if a and t.name in ("list", "gen", "comp:list") else None
        if op == "mu" and t.name in ("_e", "_lmax", "_dw", "_D", "_U", "_adjacency"):
            return GRAPH[t.name] if t.name in GRAPH else SPECTRUM[t.name] if self.lap == "combinatorial" else Z
        if op == "missing":
            return None if t.name not in SPECTRUM else SPECTRUM[t.name] if self.lap == "combinatorial" else Z
        return None

    def items(self, t, depth=0):
        """Values in a list, whatever the conditions under which they are there; None when unknown."""
        if depth > 40:
            return None
        if t.op == "list":
            return [x for x in t.args if x.op != "starred"]
        if t.op in ("bin", "inplace") and (t.name or "").rstrip("=") == "+":
            a, b = self.items(t.args[0], depth + 1), self.items(t.args[1], depth + 1)
            return None if a is None or b is None else a + b
        if t.op == "phi":
            c = self.pick(t.args[0])
            if c is not None:
                return self.items(t.args[1 if c else 2], depth + 1)
            a, b = self.items(t.args[1], depth + 1), self.items(t.args[2], depth + 1)
            return None if a is None or b is None else a + [x for x in b if not any(x is y for y in a)]
        if t.op == "mutcall" and t.name in ("append", "insert") and len(t.args) > 1:
            a = self.items(t.args[0], depth + 1)
            return None if a is None else a + [t.args[-1]]
        if t.op == "mutcall" and t.name == "extend" and len(t.args) > 1:
            a, b = self.items(t.args[0], depth + 1), self.items(t.args[1], depth + 1)
            return None if a is None or b is None else a + b
        if t.op == "comp" and t.args and t.name in ("list", "comp:list"):
            return [t.args[0]]
        return None

    def common(self, xs):
        ds = [self.of(x) for x in xs or []]
        return ds[0] if ds and all(d == ds[0] for d in ds) else None

    def weights(self, t):
        """The weights themselves."""
        while t.op == "attr" and t.name in ("data", "T", "A") or t.op in ("mcall", "ecall") and short(t) in ("toarray", "asarray", "ravel", "tocsr", "tocsc", "tocoo", "todense", "nonzero", "unique") and t.args:
            t = t.args[0]
        return t.op == "attr" and t.name in ("W", "_adjacency")

    def attribute(self, t):
        n = t.name
        if n in GRAPH or n in SPECTRUM:
            if n in ("_adjacency", "_dw", "_lmax", "dw", "lmax") or is_gf(self.it, t.args[0]) and self.it.is_graph(t.args[0]):
                if n in GRAPH:
                    return GRAPH[n]
                return SPECTRUM[n] if self.lap == "combinatorial" else Z
        if n in ("T", "H", "A", "real", "data", "flat", "imag", "A1"):
            return self.of(t.args[0])
        if n in ("shape", "size", "ndim", "nnz"):
            return Z
        if n in ("eps", "tiny", "resolution"):
            return Z
        return None

    def unpack(self, t, depth):
        u = t.args[0]
        n = short(u)
        if u.op == "elem" and u.args[0].op == "ecall" and short(u.args[0]) in ("zip", "enumerate") and isinstance(t.name, int):
            k = t.name - (1 if short(u.args[0]) == "enumerate" else 0)
            return self.of(u.args[0].args[k], depth) if 0 <= k < len(u.args[0].args) else Z
        if u.op == "ecall" and n in ("eigh", "eigsh", "eig", "eigs") and u.args:
            d = self.of(u.args[0], depth)
            return d if t.name == 0 else Z if t.name == 1 else None
        if u.op == "ecall" and n in ("svd", "svds") and u.args:
            d = self.of(u.args[0], depth)
            return d if t.name == 1 else Z
        if u.op == "mcall" and n == "nonzero":
            return Z
        return None

    def call(self, t, depth):
        n = short(t)
        a = t.args
        if t.op == "ecall" and t.name.startswith("builtins.") and n in ("isinstance", "hasattr", "getattr", "type", "str", "repr"):
            return None
        ds = [self.of(x, depth) for x in a]
        for v in t.kw.values():
            self.of(v, depth)
        if n in ZEROS:
            return ANY
        if n in PURE:
            return Z
        if not a:
            return None
        if n in FREE:
            if isinstance(ds[0], Fraction) and ds[0] != 0:
                self.bad.append((t, f"takes the {n} of {self.name(a[0])}, which has {fmt(ds[0])},", n))
            if n == "exp" and isinstance(ds[0], tuple):
                return ds[0][1]
            return Z if ds[0] == 0 else None
        if n in ("log", "log2", "log10"):
            return Z if ds[0] == 0 else ("log", ds[0]) if n == "log" and isinstance(ds[0], Fraction) else None
        if n == "sqrt":
            return ds[0] / 2 if isinstance(ds[0], Fraction) else ds[0]
        if n == "square":
            return ds[0] * 2 if isinstance(ds[0], Fraction) else ds[0]
        if n in ("reciprocal", "inv", "pinv", "pinvh"):
            return -ds[0] if isinstance(ds[0], Fraction) else None
        if n == "power" and len(a) > 1:
            return self.power(t, a[0], a[1])
        if n in ("multiply", "dot", "matmul", "outer", "kron", "inner", "vdot") and len(a) > 1:
            return self.mul(ds[0], ds[1])
        if n in ("divide", "true_divide") and len(a) > 1:
            return self.mul(ds[0], ds[1], -1)
        if n in ("solve", "spsolve", "lstsq") and len(a) > 1:
            return self.mul(ds[1], ds[0], -1)
        if n in AGREE and len(a) > 1:
            k = 3 if n == "clip" else 2
            return self.agree(t, f"applies {n} to", a[:k], ds[:k])
        if n in ("minimum", "maximum") and t.op == "mcall" and len(a) > 1:
            return self.agree(t, f"applies {n} to", a, ds)
        if n in COMPARES and len(a) > 1:
            self.agree(t, "compares", a[:2], ds[:2])
            return Z
        if n in ("min", "max", "amin", "amax", "sum", "array", "asarray", "nanmin", "nanmax", "sorted") and t.op == "ecall" and len(a) == 1:
            xs = self.items(a[0])
            if xs is not None and len(xs) > 1:
                es = [self.of(x, depth) for x in xs]
                return self.agree(t, f"applies {n} to", xs, es) if n not in ("array", "asarray") else self.common(xs)
        if n in ("min", "max") and t.op == "ecall" and t.name.startswith("builtins.") and len(a) > 1:
            return self.agree(t, f"applies {n} to", a, ds)
        if n == "where" and len(a) == 3:
            return self.agree2(ds[1], ds[2])
        if n in ("full", "full_like") and len(a) > 1:
            return ds[1]
        if n in STACKS:
            xs = a[0].args if a[0].op in ("list", "tuple") else a[:2]
            return self.agree(t, "joins", xs, [self.of(x, depth) for x in xs])
        if n in ("allclose", "isclose", "assert_allclose") and len(a) > 1:
            atol = t.kw.get("atol") or (a[3] if len(a) > 3 else None)
            d = self.agree(t, "compares", a[:2], ds[:2])
            k = next((x for x in ds[:2] if isinstance(x, Fraction)), d)
            z = self.of(atol, depth) if atol is not None else Z
            if isinstance(k, Fraction) and k != 0 and isinstance(z, Fraction) and z != k and d is not None:
                self.bad.append((t, f"compares {self.name(a[0])}, which has {fmt(k)}, with an absolute tolerance", n))
            return Z
        if n in ("round", "around", "rint", "floor", "ceil", "trunc", "fix"):
            if isinstance(ds[0], Fraction) and ds[0] != 0:
                self.bad.append((t, f"rounds {self.name(a[0])}, which has {fmt(ds[0])},", n))
            return ds[0]
        if n == "int" and t.op == "ecall" or n == "astype" and len(a) > 1 and self.integer(a[1]):
            if isinstance(ds[0], Fraction) and ds[0] != 0:
                self.bad.append((t, f"truncates {self.name(a[0])}, which has {fmt(ds[0])}, to an integer", n))
            return ds[0] if ds[0] == 0 else None
        if n == "astype" and len(a) > 1 and (a[1].op == "ext" and short(a[1]) in ("bool", "bool_") or a[1].op == "ext" and a[1].name.endswith(".bool")):
            return Z
        if n in ("spacing",):
            return ds[0]
        if n in ("coo_matrix", "csr_matrix", "csc_matrix", "csr_array", "coo_array") and a[0].op == "tuple" and len(a[0].args) == 2 and a[0].args[1].op == "tuple":
            return self.of(a[0].args[0], depth)
        if n in ("eigsh", "eigs") and (t.kw.get("return_eigenvectors") is not None and t.kw["return_eigenvectors"].op == "const" and t.kw["return_eigenvectors"].x is False):
            return ds[0]
        if n in ("interp",) and len(a) > 2:
            self.agree(t, "compares", a[:2], ds[:2])
            return ds[2]
        if n in SAME:
            return ds[0]
        return None

    def agree2(self, x, y):
        return x if x == y else y if x == ANY else x if y == ANY else None

    def integer(self, t):
        return t.op == "ext" and short(t) in ("int", "int64", "int32", "int8", "int16", "intp", "uint8", "uint64") or t.op == "const" and t.x in ("int", "int64", "int32", "i8", "i4")


def numeric_params(P, r):
    """Numbers without unit: parameters of filters with a number as default."""
    import ast
    e = r.entry
    out = []
    f = e.func
    args = list(f.node.args.posonlyargs) + list(f.node.args.args)
    for x, d in list(zip(args[len(args) - len(f.node.args.defaults):], f.node.args.defaults)) + [(x, d) for x, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if d is not None]:
        try:
            v = eval(compile(ast.Expression(d), "default", "eval"), {"__builtins__": {}})  # noqa: S307 - literals and arithmetic only
        except Exception:  # noqa: BLE001
            continue
        if isinstance(v, (int, float)) and not isinstance(v, bool) and x.arg in r.params:
            out.append(r.params[x.arg])
    for p, t in r.params.items():
        if isinstance(t, Term) and t.op == "param" and not any(t is o for o in out) and (doc_kind(P.prog, f, p) == "scalar" or number_doc(P.prog, f, p)):
            out.append(t)
    return out


def number_doc(prog, f, p):
    d = prog.inherited_doc(f).get(p) or digest_cls(prog, f.cls, p) if f.cls is not None else prog.inherited_doc(f).get(p)
    return bool(d and d[0] and re.search(r"\b(float|int|number|scalar)\b", d[0]))


def is_filter(c):
    return c is not None and any(x.name == "Filter" for x in c.mro())


def kernel_nodes(P, r):
    """Functions that become kernels of a filter bank."""
    out = set()

    def add(t):
        if t is None:
            return
        for u in walk(t):
            if u.op in ("func", "closure") and u.x is not None:
                out.add(id(u.x.node))
            if u.op == "obj":
                pass
    for ev in r.events:
        if ev.kind == "new" and isinstance(ev.info, tuple) and is_filter(ev.info[0] if hasattr(ev.info[0], "mro") else None):
            for x in list(ev.info[1]) + list((ev.info[2] or {}).values() if len(ev.info) > 2 else []):
                add(x)
        if ev.kind in ("store",) and isinstance(ev.info, tuple) and ev.info[0] == "_kernels":
            add(ev.info[1])
    return out


def lap_facts(it, r, lap, st, me):
    """Whether a state supposes another type of Laplacian."""
    if me is None or st is None:
        return False
    other = "normalized" if lap == "combinatorial" else "combinatorial"
    for f in ("lap_type",):
        for t in (Term("attr", f, [me]),):
            if it.decide(Term("cmp", "==", [t, const(other)]), st) is True or it.decide(Term("cmp", "==", [t, const(lap)]), st) is False:
                return True
    return False


RESULT = {"estimate_lmax": ("_lmax", ONE), "compute_fourier_basis": ("_e", ONE), "compute_differential_operator": ("_D", Fraction(1, 2)), "compute_laplacian": ("L", ONE)}


def check(P, R):
    R.rule("Every value computed from a graph is given its degree of homogeneity in the edge weights: 1 for weights, weighted degrees, Laplacian, eigenvalues, lmax and the frequencies kernels receive, 1/2 for the differential operator, "
           "0 for numbers, counts, eigenvectors and, for the normalized Laplacian, the spectrum; products add degrees, roots halve them. "
           "Values of different known degrees are never added, compared, joined, or compared with an absolute tolerance, those of degree other than 0 never rounded, truncated or given to exp, cos, ...; "
           "kernels return values of degree 0 and the Laplacian, eigenvalues, lmax and differential operator have theirs.")
    seen = set()
    for r in each(P, R):
        e = r.entry
        me = r.params.get("self")
        pos = numeric_params(P, r) if e.cls is not None and is_filter(e.cls) and e.kind == "init" else []
        runs = P.escaped(r)
        kn = kernel_nodes(P, r) if runs else set()
        freq = []
        kernels = []
        for ev, ps, v, s2, raises in runs:
            if ps and id(ev.term.x.node) in kn and is_filter_code(ev):
                freq.append(ps[0])
                kernels.append((ev, v))
        if e.func.name in ("evaluate", "__call__") and is_filter(e.cls) and "x" in r.params:
            freq.append(r.params["x"])
        for lap in ("combinatorial", "normalized"):
            U = Units(r.it, lap, freq, pos)
            for ev in list(r.events) + list(getattr(r, "escaped_events", [])):
                if ev.func.module.name.rpartition(".")[2] == "_io":  # integers are converted to those of the formats
                    continue
                if ev.kind not in ("ecall", "mcall", "if", "assert", "return", "store", "mutate", "new", "call", "getfield") or ev.term is None:
                    continue
                if lap_facts(r.it, r, lap, ev.state, me):
                    continue
                mark = len(U.bad)
                U.of(ev.term)
                if ev.kind in ("store", "mutate"):
                    for x in ([ev.info[1]] if ev.kind == "store" else [ev.info.get("value"), ev.info.get("index")]):
                        if isinstance(x, Term):
                            U.of(x)
                for t, why, key in U.bad[mark:]:
                    report(R, P, seen, ev, t, why, key, e, lap)
            for ev, v in kernels:
                mark = len(U.bad)
                d = U.of(v)
                R.count("kernels" if lap == "combinatorial" else "kernels_normalized")
                if isinstance(d, Fraction):
                    R.count("kernels_decided")
                    if d != 0:
                        f = ev.term.x
                        R.finding("response", f"{e.name}:{f.name}", f"the response of {e.cls.name if e.cls else e.name} has {fmt(d)}: it changes with the unit of the weights", f"{f.module.path}:{f.node.lineno}", e.name)
                for t, why, key in U.bad[mark:]:
                    report(R, P, seen, ev, t, why, key, e, lap)
            for name in ("dw",):
                if e.func.name == name and e.cls is not None and not is_filter(e.cls):
                    for x in r.returns:
                        verdict(R, U, e, "the weighted degrees", x.value, ONE)
            if e.func.name in RESULT and me is not None:
                field, want = RESULT[e.func.name]
                if lap == "normalized":
                    want = Z
                for x in r.returns:
                    v = x.state.heap.get((me.ident, field))
                    if v is not None and not lap_facts(r.it, r, lap, x.state, me):
                        if field == "L":
                            continue
                        verdict(R, U, e, field.lstrip("_"), x.state.ver.get(v.ident, v), want)
            R.count("values_with_a_degree", U.n)
    R.need("kernels", 20)
    R.need("values_with_a_degree", 5000)


def verdict(R, U, e, what, v, want):
    R.count("results")
    d = U.of(v)
    if isinstance(d, Fraction):
        R.count("results_decided")
        if d != want:
            R.finding("result", f"{e.func.qualname}:{what}:{U.lap}", f"{what} computed by {e.func.name} with the {U.lap} Laplacian has {fmt(d)} rather than {fmt(want)}", None, e.name)


def is_filter_code(ev):
    return "filters" in ev.func.module.name or "filters" in ev.term.x.module.name


def report(R, P, seen, ev, t, why, key, e, lap):
    line = getattr(t.node, "lineno", None)
    site = f"{ev.func.module.path}:{line}" if line else ev.site
    k = (ev.func.qualname, why)
    if k in seen and len(seen) > 500:
        return
    seen.add(k)
    R.finding("units", f"{ev.func.qualname}:{key}:{why[:80]}", f"{ev.func.name} {why} which changes with the unit of the weights ({lap} Laplacian)", site, e.name)
