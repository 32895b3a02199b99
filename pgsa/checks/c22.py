"""C22: integer and boolean data are not truncated."""

import re

from ..linear import short
from ..terms import skey, walk
from .c05 import own_docs
from .common import each, is_gf, leaves_decided, tname

# the type of the caller, the same widened by a sum, an integer type, a real type, a Python integer
INH, WIDE, INT, FLT, WEAK, MIX = "INH", "WIDE", "INT", "FLT", "WEAK", "MIX"

ARRAY_DOC = re.compile(r"\b(array|ndarray|array_like|arrays|ndarrays|sparse matrix|matrix)\b")
NOT_DATA = re.compile(r"boolean|\bint\b|integer|index|indices|[Gg]raph|Filter|\bRing\b")
NOT_DATA_NAMES = {"keep_inds", "ind", "indices", "vertices", "M", "scales", "bounds", "filter_bounds", "delta_lambda", "sources", "targets", "mask", "labels"}
# data attached to a graph in the type the caller gave it
FIELDS = {"W", "_adjacency", "coords", "signals", "A"}

REAL_FN = {"sqrt", "exp", "expm1", "exp2", "log", "log1p", "log2", "log10", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2", "sinh", "cosh", "tanh", "mean", "nanmean", "average", "std", "var",
           "nanstd", "nanvar", "norm", "cbrt", "hypot", "linspace", "logspace", "geomspace", "true_divide", "divide", "reciprocal_", "solve", "inv", "pinv", "eigh", "eigvalsh", "spsolve", "cg", "lstsq",
           "uniform", "normal", "standard_normal", "random", "rand", "randn", "random_sample", "exponential", "beta", "gamma", "fft", "ifft", "expit", "softmax", "median", "percentile", "quantile", "corrcoef",
           "cov", "interp", "trapz", "distanz", "pdist", "cdist", "angle", "sinc", "degrees", "radians", "deg2rad", "rad2deg"}
SAME_FN = {"asarray", "asanyarray", "array", "ascontiguousarray", "asfortranarray", "copy", "reshape", "ravel", "flatten", "squeeze", "expand_dims", "transpose", "swapaxes", "moveaxis", "flip", "roll", "repeat", "tile",
           "take", "sort", "unique", "diag", "diagonal", "diagflat", "tril", "triu", "tocsr", "tocsc", "tocoo", "tolil", "todok", "todia", "tobsr", "toarray", "todense", "atleast_1d", "atleast_2d", "atleast_3d", "conj", "conjugate",
           "real", "broadcast_to", "csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dok_matrix", "dia_matrix", "bsr_matrix", "csr_array", "csc_array", "coo_array", "lil_array", "getrow", "getcol", "view", "deepcopy",
           "abs", "absolute", "fabs_", "max", "min", "amax", "amin", "nanmax", "nanmin", "ptp", "clip", "negative", "positive", "sum", "cumsum", "prod", "cumprod", "asmatrix", "getH", "sorted_indices", "square", "item", "tolist", "list", "tuple", "round", "around"}
JOIN_FN = {"concatenate", "stack", "hstack", "vstack", "dstack", "column_stack", "append", "where", "maximum", "minimum", "fmax", "fmin", "block_diag", "bmat", "add", "subtract"}
MUL_FN = {"multiply", "dot", "matmul", "tensordot", "einsum", "inner", "outer", "kron", "vdot"}
ALLOC = {"zeros": 1, "ones": 1, "empty": 1, "full": 2, "eye": 3, "identity": 1}
LIKE = {"zeros_like": 1, "ones_like": 1, "empty_like": 1, "full_like": 2}
DTYPE_POS = {"array": 1, "asarray": 1, "asanyarray": 1, "ascontiguousarray": 1, "astype": 1, "csr_matrix": 2, "csc_matrix": 2, "coo_matrix": 2, "lil_matrix": 2, "dia_matrix": 2, "bsr_matrix": 2, "dok_matrix": 2}
INT_NAMES = re.compile(r"^(builtins\.(int|bool)|numpy\.(bool_?|u?int(8|16|32|64|p|c)?_?|integer|intp|byte|ubyte|short|long(long)?))$")
FLT_NAMES = re.compile(r"^(builtins\.(float|complex)|numpy\.(float(16|32|64|128)?_?|double|complex(64|128)?_?|longdouble|single))$")
ROUNDED = {"floor", "ceil", "rint", "round", "around", "round_", "trunc", "fix", "sign", "argmax", "argmin", "argsort", "count_nonzero", "nonzero", "searchsorted", "digitize"}


SOLVERS = {"cg", "cgs", "bicg", "bicgstab", "gmres", "lgmres", "minres", "qmr", "lsqr", "lsmr", "lstsq", "eigh", "eigsh"}
EIGEN = {"eigh", "eigsh", "eig", "eigs", "svd", "svds", "qr"}
# real whatever the type of the weights
REAL_FIELDS = {"U", "_U", "e", "_e", "lmax", "_lmax", "D", "_D"}
# functions whose result for an 8-bit integer is a 16-bit real
HALF = {"sqrt", "exp", "expm1", "exp2", "log", "log1p", "log2", "log10", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "cbrt", "hypot"}


class Types:
    """(kind, fractional) of a value: the numeric type of an array, and whether it surely holds computed real numbers."""

    def __init__(self, it, data):
        self.it = it
        self.data = data  # idents and uids of the data parameters
        self.memo = {}

    def get(self, t, d=0):
        if t is None or d > 60:
            return None
        r = self.memo.get(t.uid, 0)
        if r != 0:
            return r
        self.memo[t.uid] = None
        r = self.memo[t.uid] = self.rule(t, d + 1)
        return r

    def field(self, t):
        return t.op == "attr" and t.name in FIELDS and is_gf(self.it, t.args[0])

    def kernel(self, t):
        """A call of a kernel of a filter bank."""
        f = t.args[0] if t.args else None
        while f is not None and f.op in ("sub", "elem", "unpack"):
            f = f.args[0]
        return f is not None and f.op == "attr" and "kernel" in f.name

    def promote(self, *ks):
        ks = [k for k in ks]
        fr = any(k is not None and k[1] for k in ks)
        if any(k is not None and k[0] == FLT for k in ks):
            return (FLT, fr)
        if any(k is None for k in ks):
            return None
        if any(k[0] == MIX for k in ks):
            return (MIX, False)
        if any(k[0] == WIDE for k in ks):
            return (WIDE, False)
        if any(k[0] == INH for k in ks):
            return (INH, False)
        if any(k[0] == INT for k in ks):
            return (INT, False)
        return (WEAK, False)

    def dtype(self, t, d):
        """Kind a dtype argument stands for."""
        if t is None:
            return None
        if t.op == "attr" and t.name == "dtype":
            k = self.get(t.args[0], d)
            return k[0] if k else None
        if t.op == "attr" and t.name == "type" and t.args[0].op == "attr":
            return self.dtype(t.args[0], d)
        n = t.name if t.op in ("ext", "class", "ecall") else None
        if t.op == "const" and isinstance(t.x, str):
            return INT if re.match(r"^[<>=|]?(u?int|bool|[iub]\d)", t.x) else FLT if re.match(r"^[<>=|]?(float|complex|[fcd]\d?)", t.x) else None
        if t.op == "ecall" and short(t) == "dtype" and t.args:
            return self.dtype(t.args[0], d)
        if isinstance(n, str):
            if INT_NAMES.match(n):
                return INT
            if FLT_NAMES.match(n):
                return FLT
        return None

    def rule(self, t, d):
        op = t.op
        if op == "const":
            if isinstance(t.x, bool):
                return (WEAK, False)
            if isinstance(t.x, int):
                return (WEAK, False)
            if isinstance(t.x, (float, complex)):
                return (FLT, isinstance(t.x, complex) or t.x != t.x or t.x in (float("inf"), -float("inf")) or t.x != int(t.x))
            return None
        if op == "param":
            return (INH, False) if t.uid in self.data or t.ident in self.data else None
        if op == "attr":
            if self.field(t):
                return (INH, False)
            if t.name in REAL_FIELDS and is_gf(self.it, t.args[0]):
                return (FLT, True)
            if t.name in ("T", "data", "real", "flat", "H", "A"):
                return self.get(t.args[0], d)
            return None
        if op in ("sub", "elem"):
            b = t.args[0]
            if b.op == "attr" and b.name == "signals" and self.field(b):
                return (INH, False)
            k = self.get(b, d)
            return k
        if op == "unpack":
            b = t.args[0]
            if b.op == "ecall" and (short(b) in SOLVERS and t.name == 0 or short(b) in EIGEN):
                return (FLT, True)
            if b.op in ("param", "attr", "store"):
                return self.get(b, d)
            return None
        if op == "ucall":
            return (FLT, True) if self.kernel(t) else None
        if op in ("store", "mutview", "mutcall", "inplace", "maybe"):
            return self.get(t.args[0], d)
        if op == "cmp":
            return (INT, False)
        if op == "un":
            return (INT, False) if t.name == "not" else self.get(t.args[0], d)
        if op == "bin":
            a, b = self.get(t.args[0], d), self.get(t.args[1], d)
            if t.name == "/":
                if (a and a[0] in (INH, WIDE, INT, FLT)) or (b and b[0] in (INH, WIDE, INT, FLT)) or (a and b):
                    return (FLT, True)
                return None
            if t.name in ("+", "-", "*", "%"):
                return self.promote(a, b)
            if t.name == "@":
                return self.promote(a, b)
            if t.name == "//":
                return self.promote(a, b)
            if t.name == "**":
                if a and b and b[0] == FLT and b[1]:
                    return (FLT, True)
                if b and b[0] == WEAK and t.args[1].x is not None and t.args[1].x >= 0:
                    return a
                return None
            return None
        if op == "mu":
            k = self.get(t.args[0], d) if t.args else None
            ks = [self.get(x, d) for x in t.args[1:]]
            if k is None or any(x is not None and x[0] != k[0] for x in ks):
                return None
            return (k[0], k[1] or any(x is not None and x[1] for x in ks))
        if op == "phi":
            c = t.args[0]
            if c.op == "cmp" and c.name == "is" and c.args[1].op == "const" and c.args[1].x is None and c.args[0].op == "attr":
                # a lazily computed field: the stored value is what was computed
                own = [x for x in t.args[1:] if x.op == "attr" and x.name == c.args[0].name]
                other = [x for x in t.args[1:] if not (x.op == "attr" and x.name == c.args[0].name)]
                if len(own) == 1 and len(other) == 1:
                    a, b = self.get(other[0], d), self.get(own[0], d)
                    return (a[0], a[1] or b[1]) if a and b and a[0] == b[0] else a or b
            xs = [x for x in t.args[1:] if not (x.op == "const" and x.x is None)]
            ks = [self.get(x, d) for x in xs]
            known = [k for k in ks if k is not None]
            if not known or mentions_type(c):
                return known[0] if known and len(known) == len(ks) and len({k[0] for k in known}) == 1 and not mentions_type(c) else None
            kinds = {k[0] for k in known}
            frac = any(k[1] for k in known)
            if len(known) < len(ks):
                return (FLT, True) if frac and kinds == {FLT} else None
            if len(kinds) == 1:
                return (kinds.pop(), frac)
            if kinds == {INH, WIDE}:
                return (WIDE, False)
            if kinds <= {INH, WIDE, INT, FLT, MIX}:
                return (MIX, frac)
            return None
        if op in ("list", "tuple", "set"):
            if not t.args or any(x.op == "starred" for x in t.args):
                return None
            return self.promote(*[self.get(x, d) for x in t.args])
        if op in ("ecall", "mcall"):
            return self.call(t, d)
        return None

    def call(self, t, d):
        n = short(t)
        if t.op == "ecall" and not (t.name or "").startswith(("numpy", "scipy", "builtins", "math", "copy")):
            return None
        dt = t.kw.get("dtype")
        if dt is None and n in DTYPE_POS and len(t.args) > DTYPE_POS[n]:
            dt = t.args[DTYPE_POS[n]]
        if n == "astype" and dt is None:
            return None
        if n in ALLOC:
            if dt is None and len(t.args) > ALLOC[n]:
                dt = t.args[ALLOC[n]]
            if dt is not None and not (dt.op == "const" and dt.x is None):
                k = self.dtype(dt, d)
                return (k, False) if k else None
            if n == "full":
                return self.get(t.args[1], d) if len(t.args) > 1 else None
            return (FLT, False)
        if n in LIKE:
            if dt is None and len(t.args) > LIKE[n]:
                dt = t.args[LIKE[n]]
            if dt is not None and not (dt.op == "const" and dt.x is None):
                k = self.dtype(dt, d)
                return (k, False) if k else None
            k = self.get(t.args[0], d) if t.args else None
            return (k[0], False) if k and k[0] != WEAK else None
        if dt is not None and not (dt.op == "const" and dt.x is None):
            k = self.dtype(dt, d)
            if k is None:
                return None
            v = self.get(t.args[0], d) if t.args else None
            return (k, k == FLT and (n in REAL_FN or bool(v and v[1])))
        if n in REAL_FN:
            return (FLT, True)
        if n in SAME_FN and t.args:
            a = t.args[0]
            if n in ("csr_matrix", "csc_matrix", "coo_matrix", "bsr_matrix", "csr_array", "csc_array", "coo_array", "dia_matrix") and a.op == "tuple":
                return self.get(a.args[0], d) if len(a.args) in (2, 3) and a.args[1].op in ("tuple",) or len(a.args) == 3 else (FLT, False)
            k = self.get(a, d)
            if n in ("sum", "prod", "cumsum", "cumprod", "item", "tolist") and k and k[0] == INH:
                return (WIDE, k[1])
            return k
        if n in JOIN_FN:
            args = t.args
            if n == "where":
                args = t.args[1:]
                if not args:
                    return None
            if n in ("concatenate", "stack", "hstack", "vstack", "dstack", "column_stack"):
                args = args[:1]
            if t.op == "mcall":
                args = t.args
            ks = [self.get(x, d) for x in args]
            return self.promote(*ks) if ks else None
        if n in MUL_FN:
            args = [x for x in t.args if not (x.op == "const" and isinstance(x.x, str))]
            ks = [self.get(x, d) for x in args[:2]]
            return self.promote(*ks) if len(ks) == 2 else None
        if t.op == "ecall" and t.name in ("builtins.float", "numpy.float64", "builtins.complex"):
            k = self.get(t.args[0], d) if t.args else None
            return (FLT, bool(k and k[1]))
        if t.op == "ecall" and INT_NAMES.match(t.name or ""):
            return (INT, False)
        if n == "result_type":
            return None
        return None

    def derived(self, t):
        """Does a value depend on the data of the caller (not only on its shape)?"""
        stack, seen = [t], set()
        while stack:
            u = stack.pop()
            if u.uid in seen:
                continue
            seen.add(u.uid)
            if u.op == "attr" and u.name in ("shape", "size", "ndim", "dtype", "nnz"):
                continue
            if u.op == "ecall" and short(u) in ("len", "shape", "size", "zeros_like", "ones_like", "empty_like", "isinstance", "issparse"):
                continue
            if u.op == "param" and (u.uid in self.data or u.ident in self.data):
                return u
            if self.field(u):
                return u
            if u.op in ("sub",):
                stack.append(u.args[0])
                continue
            stack.extend(u.children())
        return None


def data_params(P, r):
    e = r.entry
    docs = own_docs(P.prog, e)
    out = {}
    for p, t in r.params.items():
        if p == "self" or p in NOT_DATA_NAMES or not hasattr(t, "op") or t.op != "param":
            continue
        txt = docs.get(p, ("",))[0]
        if ARRAY_DOC.search(txt) and not NOT_DATA.search(txt):
            out[t.uid] = p
            out[t.ident] = p
    return out


def mentions_type(c):
    return any(u.op == "attr" and u.name in ("dtype", "kind") or u.op in ("ecall", "mcall") and short(u) in ("issubdtype", "iscomplexobj", "can_cast", "isrealobj", "is_numeric_dtype", "result_type")
               or u.op == "opaque" and u.name not in ("join",) for u in walk(c))


def type_tested(st, T):
    """Did the path look at the type of the data?"""
    return any(mentions_type(c) for c, _ in getattr(st, "path", ()))


def conditions(t):
    return {skey(u.args[0]) for u in walk(t) if u.op == "phi" and not (u.args[0].op == "opaque") and not (u.args[0].op == "cmp" and u.args[0].name == "is")}


def correlated(base, value):
    """Is the type of the target decided by a condition which also decides the value?"""
    u = base
    while u.op in ("store", "mutview", "mutcall", "inplace", "maybe"):
        u = u.args[0]
    if u.op != "phi":
        return False
    return bool({skey(x.args[0]) for x in [u] + [y for y in u.args[1:] if y.op == "phi"] if x.args[0].op != "opaque"} & conditions(value))


def base_kind(T, t, st):
    """Kind of a store's target: a possible inherited type counts."""
    b = T.get(t)
    if b is not None and b[0] == MIX:
        u = t
        while u.op in ("store", "mutview", "mutcall", "inplace", "maybe"):
            u = u.args[0]
        ks = [T.get(x) for x in leaves_decided(T.it, u, st)]
        for k in ks:
            if k is not None and k[0] in (INH, WIDE, INT):
                return k
        return None
    return b


def check(P, R):
    R.rule("For every entry point, the array parameters which carry data (weights, coordinates, points, labels, signals) and the data attached to a graph (W, A, coords, signals) have a type the caller chose. "
           "Every array derived from them, allocated with their type (zeros_like, dtype=x.dtype, copies, reshapes, conversions of the sparse format) inherits it. "
           "A value computed by a division, a square root, a mean, a norm, a solver or a non-integral factor is never stored into such an array, or into an array of integers, nor cast to such a type; "
           "such an array is never updated in place with one; no result is cast to an integer type or computed by a floor division of the data; "
           "and a sum of two values of the data, which can overflow in the type of the data, is not halved afterwards.")
    flagged = set()
    for r in each(P, R):
        P.escaped(r)
        it, e = r.it, r.entry
        data = data_params(P, r)
        R.count("data_parameters", len(set(data.values())))
        freq = set()
        if e.kind == "init" and P.prog.find_class("Filter") in e.cls.mro():
            # the frequencies a kernel is evaluated at
            for _, pos, _, _, _ in r.escaped_runs:
                for t in pos[:1]:
                    if t.name in ("x", "val", "value", "lam", "e", "freq", "frequencies"):
                        data[t.uid] = data[t.ident] = t.name
                        freq |= {t.uid, t.ident}
        T = Types(it, data)
        T.freq = freq
        for ev in r.events + getattr(r, "escaped_events", []):
            if ev.kind == "mutate":
                stores(T, R, e, ev)
            elif ev.kind in ("ecall", "mcall") and ev.term is not None:
                casts(T, R, e, ev)
        results(T, R, e, r)
    R.need("stores_examined", 100)
    R.need("data_parameters", 25)
    R.need("results_examined", 100)


def what(T, k, t):
    u = T.derived(t) if k in (INH, WIDE) else None
    return f"an array with the type of {tname(T.it, u)}" if u is not None else "an array with the type of the data" if k in (INH, WIDE) else "an array of integers"


def stores(T, R, e, ev):
    how, v = ev.info["how"], ev.info["value"]
    R.count("stores_examined")
    if v is None or ev.term is None:
        return
    b = base_kind(T, ev.term, ev.state)
    if b is None or b[0] not in (INH, WIDE, INT):
        return
    R.count("stores_into_inherited_types")
    k = T.get(v)
    if type_tested(ev.state, T) or correlated(ev.term, v):
        return
    if how == "setitem":
        if k is not None and k[1]:
            R.finding("truncated-store", f"{ev.func.qualname}:{tname(T.it, ev.term)}"[:120],
                      f"{ev.func.qualname} stores computed real numbers into {what(T, b[0], ev.term)}: integers and booleans are truncated", ev.site, e.name, ev.trace())
    elif how.startswith("aug") and how.endswith("="):
        op = how[3:-1]
        real = op == "/" or (k is not None and k[1] and op in ("+", "-", "*", "**"))
        if real and not (ev.info.get("maybe") and b[0] not in (INH, WIDE)):
            R.finding("in-place-real", f"{ev.func.qualname}:{tname(T.it, ev.term)}"[:120],
                      f"{ev.func.qualname} updates {what(T, b[0], ev.term)} in place with real numbers ({op}=): it fails or truncates for integers and booleans", ev.site, e.name, ev.trace())
    elif how in ("fill()", "put()", "itemset()", "copyto", "out=", "numpy.copyto", "fill_diagonal", "numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.putmask", "setdiag()"):
        if k is not None and k[1]:
            R.finding("truncated-store", f"{ev.func.qualname}:{tname(T.it, ev.term)}"[:120],
                      f"{ev.func.qualname} stores computed real numbers into {what(T, b[0], ev.term)} ({how}): integers and booleans are truncated", ev.site, e.name, ev.trace())


def casts(T, R, e, ev):
    t = ev.term
    n = short(t)
    dt = t.kw.get("dtype")
    if dt is None and n in HALF and t.op == "ecall" and (t.name or "").startswith("numpy.") and t.args and "out" not in t.kw:
        k = T.get(t.args[0])
        u = T.derived(t.args[0])
        if k is not None and k[0] == INH and not (u is not None and u.uid in T.freq):
            R.finding("reduced-precision", f"{ev.func.qualname}:{n}",
                      f"{ev.func.qualname} takes the {n} of the data in their own type: the result for booleans and small integers has half precision", ev.site, e.name, ev.trace())
    if dt is None and n in DTYPE_POS and len(t.args) > DTYPE_POS[n]:
        dt = t.args[DTYPE_POS[n]]
    if n in ("full", "full_like"):
        v = t.args[1] if len(t.args) > 1 else t.kw.get("fill_value")
        r = T.get(t)
        k = T.get(v) if v is not None else None
        if r and r[0] in (INH, WIDE) and k and k[1] and not type_tested(ev.state, T):
            R.finding("truncated-store", f"{ev.func.qualname}:{n}", f"{ev.func.qualname} fills {what(T, INH, t)} with real numbers ({n})", ev.site, e.name, ev.trace())
        return
    if dt is None or not t.args:
        return
    if n not in DTYPE_POS and n not in ("view_",):
        return
    R.count("casts_examined")
    k = T.dtype(dt, 0)
    v = T.get(t.args[0])
    if k in (INH, WIDE) and v is not None and v[1] and not type_tested(ev.state, T):
        R.finding("cast-to-data-type", f"{ev.func.qualname}:{n}", f"{ev.func.qualname} casts computed real numbers to the type of the data: integers and booleans are truncated", ev.site, e.name, ev.trace())


def untransposed(t):
    while t.op == "attr" and t.name == "T" or t.op == "mcall" and t.name == "transpose":
        t = t.args[0]
    return t


def square(T, R, e, u, f, site):
    """Products of the data with themselves in their own type."""
    n = short(u)
    if u.op == "bin" and u.name == "*" or u.op == "bin" and u.name == "@" or u.op in ("ecall", "mcall") and n in ("dot", "multiply", "matmul", "vdot", "inner") and len(u.args) == 2:
        a, b = u.args[:2]
        if skey(untransposed(a)) != skey(untransposed(b)):
            return
    elif u.op == "bin" and u.name == "**" and u.args[1].op == "const" and isinstance(u.args[1].x, int) and u.args[1].x > 1 or u.op == "ecall" and u.name == "numpy.square":
        a = u.args[0]
    else:
        return
    k, d = T.get(a), T.derived(a)
    if k is not None and k[0] == INH and d is not None and d.op == "param" and d.uid not in T.freq:
        R.finding("product-overflows", f.qualname, f"{f.qualname} multiplies the data with themselves in their own type: small integers overflow", site, e.name)


def results(T, R, e, r):
    """Casts to integers and floor divisions of the data which reach a result."""
    vals = [(x.value, f"{x.func.module.path}:{getattr(x.node, 'lineno', '?')}", x.func) for x in r.returns if hasattr(x.value, "op")]
    for ev in r.events:
        if ev.kind == "store" and hasattr(ev.info[1], "op"):
            vals.append((ev.info[1], ev.site, ev.func))
        elif ev.kind == "mutate" and hasattr(ev.info["value"], "op"):
            vals.append((ev.info["value"], ev.site, ev.func))
    seen = set()
    for v, site, f in vals:
        R.count("results_examined")
        stack = [v]
        while stack:
            u = stack.pop()
            if u.uid in seen:
                continue
            seen.add(u.uid)
            n = short(u)
            if u.op in ("phi", "mu"):
                stack.extend(u.args[1:] if u.op == "phi" else u.args)
                continue
            if u.op == "bin":
                if u.name == "//":
                    a = T.get(u.args[0])
                    if a and (a[0] in (INH, WIDE) or a[0] == FLT and a[1] and T.derived(u.args[0]) is not None):
                        R.finding("floor-division", f"{(u.func or f).qualname if hasattr(u.func or f, 'qualname') else f.qualname}", f"{f.qualname} divides the data with rounding (//)", site, e.name)
                for s, c in ((u.args[0], u.args[1]), (u.args[1], u.args[0])):
                    if s.op != "bin" or s.name != "+" or c.op != "const" or isinstance(c.x, bool) or not isinstance(c.x, (int, float)):
                        continue
                    if not (u.name == "/" and s is u.args[0] or u.name == "*" and c.x != int(c.x)):
                        continue
                    a, b = T.get(s.args[0]), T.get(s.args[1])
                    if a and b and a[0] == b[0] == INH:
                        R.finding("sum-overflows", f.qualname, f"{f.qualname} adds two values of the data in their own type before scaling by {c.x!r}: booleans and small integers overflow", site, e.name)
                square(T, R, e, u, f, site)
                stack.extend(u.args)
                continue
            if u.op == "un":
                stack.extend(u.args)
                continue
            if u.op in ("ecall", "mcall"):
                k = T.get(u)
                dt = u.kw.get("dtype")
                if dt is None and n in DTYPE_POS and len(u.args) > DTYPE_POS[n]:
                    dt = u.args[DTYPE_POS[n]]
                cast = (n == "astype" or n in ("array", "asarray", "asanyarray") and dt is not None) and T.dtype(dt, 0) == INT and dt is not None
                if cast and u.args:
                    a = u.args[0]
                    if short(a) in ROUNDED:
                        continue
                    ka = T.get(a)
                    if ka and (ka[0] in (INH, WIDE) or ka[1] and T.derived(a) is not None):
                        R.finding("cast-to-integer", f"{f.qualname}:{n}", f"{f.qualname} casts {'the data' if ka[0] in (INH, WIDE) else 'real numbers computed from the data'} to integers in a result", site, e.name)
                    continue
                square(T, R, e, u, f, site)
                if n in SAME_FN or n in JOIN_FN or n in MUL_FN or n in REAL_FN:
                    stack.extend(u.args)
                continue
            if u.op in ("store", "mutview", "mutcall", "inplace", "maybe"):
                stack.append(u.args[0])
                if u.op == "store" and len(u.args) > 2:
                    stack.append(u.args[2])
                if u.op == "inplace":
                    stack.append(u.args[1])
                    if u.name == "//":
                        a = T.get(u.args[0])
                        if a and a[0] in (INH, WIDE):
                            R.finding("floor-division", f.qualname, f"{f.qualname} divides the data with rounding (//=)", site, e.name)
                continue
            if u.op in ("list", "tuple", "elem", "sub", "unpack", "attr"):
                stack.extend(u.args[:1] if u.op in ("sub", "attr", "elem", "unpack") else u.args)
