"""Degree of a value in one argument: a data-flow analysis over the value graph.

Classes (a lattice with BOT below and UNK above everything that is not a definite defect):

ZERO  identically zero            IND   does not depend on the values of the argument
LIN   linear in it                QUAD  quadratic in it
AFF   linear plus something that does not depend on it
NON   not linear: magnitude, rounding, clipping, division, comparison...
UNK   not decided
"""

from .terms import leaves, skey, walk

BOT, ZERO, IND, LIN, QUAD, AFF, NON, UNK = "BOT ZERO IND LIN QUAD AFF NON UNK".split()

SHAPE_ATTR = {"shape", "ndim", "size", "dtype", "nnz", "itemsize", "nbytes", "flags", "__class__", "name", "kind", "format"}
SHAPE_FN = {"len", "isinstance", "type", "hasattr", "callable", "issubclass", "id", "shape", "ndim", "size", "iscomplexobj", "isrealobj", "isscalar",
            "issparse", "isspmatrix", "result_type", "can_cast", "common_type", "iterable", "zeros_like", "empty_like", "ones_like", "full_like", "isfinite", "isnan", "isinf"}
# the result has the degree of the first operand
KEEP = {"asanyarray", "asarray", "array", "ascontiguousarray", "asfortranarray", "asarray_chkfinite", "atleast_1d", "atleast_2d", "atleast_3d", "copy", "reshape", "ravel",
        "flatten", "squeeze", "expand_dims", "transpose", "swapaxes", "moveaxis", "rollaxis", "roll", "flip", "fliplr", "flipud", "rot90", "repeat", "tile", "take", "compress", "extract",
        "sum", "mean", "cumsum", "diff", "trace", "diag", "diagonal", "diagflat", "real", "imag", "negative", "positive", "tocsr", "tocsc", "tocoo", "tolil", "todok", "tobsr", "todia",
        "toarray", "todense", "asfptype", "view", "conj", "conjugate", "nansum", "average", "broadcast_to", "list", "tuple", "reversed", "iter", "float", "complex", "float64", "complex128", "item",
        "csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dok_matrix", "dia_matrix", "bsr_matrix", "csr_array", "csc_array", "coo_array", "squeeze", "tril", "triu", "astype", "asmatrix",
        "fft", "ifft", "rfft", "irfft", "fft2", "ifft2", "dct", "idct", "tolist", "getrow", "getcol", "nan_to_num", "split", "array_split", "hsplit", "vsplit", "enumerate", "fill_diagonal_",
        "ndarray", "matrix", "real_if_close", "next", "values", "A", "A1", "T", "H", "flat", "getH", "getA", "getA1"}
JOIN = {"concatenate", "stack", "hstack", "vstack", "dstack", "column_stack", "row_stack", "append", "insert", "block", "zip", "where", "select", "choose", "delete", "block_diag", "bmat", "r_", "c_", "add_"}
MUL = {"dot", "matmul", "multiply", "tensordot", "einsum", "inner", "outer", "vdot", "kron", "convolve", "correlate", "cross", "matvec", "rmatvec", "matmat"}
SOLVE = {"solve", "spsolve", "cg", "cgs", "bicg", "bicgstab", "gmres", "lgmres", "minres", "lsqr", "lsmr", "lstsq", "cho_solve", "lu_solve", "solve_triangular", "spsolve_triangular"}
ZERO_FN = {"zeros", "empty"}
# not linear whatever the arguments
NONLIN = {"abs", "absolute", "fabs", "clip", "maximum", "minimum", "fmax", "fmin", "sign", "round", "around", "rint", "round_", "floor", "ceil", "trunc", "fix", "sqrt", "square", "exp", "exp2", "expm1",
          "log", "log2", "log10", "log1p", "norm", "std", "var", "max", "min", "amax", "amin", "nanmax", "nanmin", "ptp", "argmax", "argmin", "argsort", "sort", "sorted", "median", "percentile", "quantile", "heaviside",
          "tanh", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "sinh", "cosh", "cbrt", "reciprocal", "floor_divide", "mod", "remainder", "fmod", "sigmoid", "expit", "int", "prod", "cumprod", "unique",
          "count_nonzero", "nonzero", "flatnonzero", "any", "all", "logical_and", "logical_or", "logical_not", "isclose", "allclose", "array_equal", "greater", "less", "equal", "not_equal", "greater_equal", "less_equal",
          "int32", "int64", "int_", "bool_", "bool", "soft_threshold", "threshold", "hypot", "angle", "digitize", "searchsorted", "histogram", "normalize", "in1d", "isin", "float_power", "interp"}

# operators of the library itself, checked where they are defined
OPERATORS = {"gft", "igft", "grad", "div", "filter", "analyze", "synthesize"}


def short(t):
    n = t.name or ""
    return n.split(".")[-1] if isinstance(n, str) else ""


def zero_test(t):
    """Does the condition only ask whether the signal is identically zero?"""
    if t.op == "un" and t.name == "not":
        return zero_test(t.args[0])
    if t.op == "bool":
        return all(zero_test(a) for a in t.args)
    if t.op == "cmp":
        b = [a for a in t.args if not (a.op == "const" and a.x == 0)]
        return t.name in ("==", "!=", ">", "<=", "<", ">=") and len(b) == 1 and short(b[0]) in ("norm", "count_nonzero", "max", "amax", "any", "all", "sum") and not (
            short(b[0]) in ("max", "amax", "sum") and not any(short(c) in ("abs", "absolute", "fabs", "square") for c in b[0].args))
    if short(t) == "any":
        a = t.args[0]
        return a.op != "cmp" or (a.name == "!=" and any(c.op == "const" and c.x == 0 for c in a.args))
    if short(t) == "all":
        a = t.args[0]
        return a.op == "cmp" and a.name == "==" and any(c.op == "const" and c.x == 0 for c in a.args)
    return short(t) == "count_nonzero"


class Degree:
    """deg(t) for every term t, with respect to the values of the source terms."""

    def __init__(self, sources, it=None, zero=()):
        self.src = {s.ident for s in sources} | {s.uid for s in sources}
        self.val = {}
        self.why = {}
        self.deps = {}
        self.it = it
        self.zero = set(zero)  # subterms known to be zero
        self._mu = set()

    # -- lattice ------------------------------------------------------------------

    @staticmethod
    def join(a, b):
        if a == b or b == BOT:
            return a
        if a == BOT:
            return b
        if a == ZERO:
            return b
        if b == ZERO:
            return a
        if NON in (a, b):
            return NON
        if AFF in (a, b) and UNK not in (a, b):
            return AFF
        return UNK

    @staticmethod
    def plus(a, b):
        if BOT in (a, b):
            return BOT if a == b else (a if b == BOT else b)
        if a == ZERO:
            return b
        if b == ZERO:
            return a
        if NON in (a, b):
            return NON
        if UNK in (a, b):
            return UNK
        if a == b:
            return a
        if AFF in (a, b) and QUAD not in (a, b):
            return AFF
        if {a, b} == {IND, LIN}:
            return AFF
        if QUAD in (a, b):
            return NON
        return UNK

    @staticmethod
    def times(a, b):
        if ZERO in (a, b):
            return ZERO
        if BOT in (a, b):
            return BOT
        if NON in (a, b):
            return NON
        if UNK in (a, b):
            return UNK
        if a == IND:
            return b
        if b == IND:
            return a
        if a == b == LIN:
            return QUAD
        return NON

    # -- evaluation ------------------------------------------------------------

    def of(self, t):
        """Degree of t: optimistic fixpoint over the loops of the value graph."""
        for _ in range(40):
            before = {m: self.val.get(m) for m in self._mu}
            self.memo = {}
            self.onstack = set()
            d = self.ev(t)
            now = {m: self.val.get(m) for m in self._mu}
            if now == before:
                return d
        return UNK

    def ev(self, t):
        if t.op == "mu":
            if t.uid in self.onstack or t.uid in self.memo:
                return self.val.get(t.uid, BOT)
            self._mu.add(t.uid)
            self.onstack.add(t.uid)
            d = self.val.get(t.uid, BOT)
            for a in t.args:
                d = self.join(d, self.ev(a))
                self.reason(t, d, t.args)
            self.val[t.uid] = d
            self.onstack.discard(t.uid)
            self.memo[t.uid] = d
            return d
        if t.uid in self.memo:
            return self.memo[t.uid]
        if t.uid in self.onstack:
            return BOT
        self.onstack.add(t.uid)
        d = self.ev1(t)
        self.onstack.discard(t.uid)
        self.memo[t.uid] = d
        if d in (NON, AFF) and t.uid not in self.why:
            self.reason(t, d, t.children())
        return d

    def reason(self, t, d, kids):
        if d in (NON, AFF) and t.uid not in self.why:
            for c in kids:
                if c.uid in self.why and self.memo.get(c.uid, self.val.get(c.uid)) in (NON, AFF):
                    self.why[t.uid] = self.why[c.uid]
                    return

    def bad(self, t, text, d=NON):
        self.why.setdefault(t.uid, (t, text))
        return d

    def many(self, ts):
        d = BOT
        for x in ts:
            d = self.join(d, self.ev(x))
        return IND if d == BOT else d

    def dependent(self, d):
        return d in (LIN, QUAD, AFF, NON)

    def ev1(self, t):
        op = t.op
        if t.uid in self.src or (op == "param" and t.ident in self.src):
            return LIN
        if skey(t) in self.zero:
            return ZERO
        if op == "const":
            return ZERO if t.x == 0 and t.x is not None and not isinstance(t.x, str) else IND
        if op in ("param", "ext", "class", "module", "func", "global", "unk", "missing", "boundmeth", "kwget", "kwminus", "orig", "kwdict", "closure"):
            return IND if op != "orig" or not t.args else self.ev(t.args[0])
        if op == "attr":
            if t.name in SHAPE_ATTR:
                return IND
            d = self.ev(t.args[0])
            if d == IND or t.name in ("T", "real", "imag", "A", "H", "flat"):
                return d
            return UNK if d in (LIN, QUAD, UNK) else d
        if op == "un":
            d = self.ev(t.args[0])
            if t.name in ("-", "+"):
                return d
            return self.value_test(t, d)
        if op in ("cmp", "bool"):
            if op == "cmp" and t.name in ("is", "is not", "in", "not in"):
                return IND
            d = self.many(t.args)
            return self.value_test(t, d)
        if op == "bin" or op == "inplace":
            return self.arith(t, t.name.rstrip("=") if len(t.name) > 1 else t.name, t.args[0], t.args[1])
        if op == "phi":
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            c = self.ev(t.args[0])
            d = self.join(a, b)
            if self.dependent(c) and not (a == b == ZERO) and skey(t.args[1]) != skey(t.args[2]):
                if UNK in (a, b) or BOT in (a, b) or zero_test(t.args[0]):
                    return UNK if d != NON else d
                if a == b == IND:
                    return self.bad(t, "is chosen by a condition on the values of the signal")
                return self.bad(t, "depends on a condition on the values of the signal")
            return d
        if op in ("tuple", "list", "comp", "set", "maybe", "starred"):
            return self.many(t.args) if t.args else BOT
        if op == "dict":
            return self.many(t.args) if t.args else BOT
        if op in ("elem", "unpack", "stararg"):
            d = self.ev(t.args[0])
            return d
        if op == "sub":
            base = t.args[0]
            d = self.ev(base)
            if len(t.args) > 1:
                i = self.ev(t.args[1])
                if self.dependent(i) and d != ZERO:
                    return self.bad(t, "is selected by the values of the signal")
            return d
        if op == "slice":
            return self.many(t.args) if t.args else IND
        if op == "store":
            b, v = self.ev(t.args[0]), self.ev(t.args[-1])
            if len(t.args) == 3:
                i = self.ev(t.args[1])
                if self.dependent(i):
                    return self.bad(t, "is stored at places selected by the values of the signal")
            if b == IND:
                if self.dependent(v):
                    return v if v in (NON, AFF) else UNK
                return IND
            if b == LIN and v == IND:
                return self.bad(t, "mixes in values that do not depend on the signal", AFF) if self.nonzero(t.args[-1]) else UNK
            return self.join(b, v)
        if op == "mutview":
            return self.ev(t.args[0])
        if op == "mutcall":
            b = self.ev(t.args[0])
            d = self.many(t.args[1:]) if len(t.args) > 1 else b
            if t.name in ("append", "extend", "insert", "add", "update", "setdefault"):
                if t.name == "insert" and len(t.args) > 2:
                    d = self.ev(t.args[2])
                return self.join(b, d)
            if t.name in ("clip", "round", "sort", "partition") and b in (LIN, QUAD):
                return self.bad(t, f"applies {t.name}")
            if t.name in ("resize", "sort_indices", "eliminate_zeros", "sum_duplicates", "reverse", "shuffle", "setflags"):
                return b
            if t.name == "fill":
                return d
            return UNK if self.dependent(b) or self.dependent(d) or UNK in (b, d) else IND
        if op in ("ecall", "mcall"):
            return self.call(t)
        kids = list(t.children())
        d = self.many(kids) if kids else IND
        return IND if d in (IND, ZERO, BOT) else (d if d == NON else UNK)

    def nonzero(self, t):
        return t.op == "const" and t.x not in (0, False, None)

    def value_test(self, t, d):
        if d == BOT:
            return BOT
        if d in (IND, ZERO):
            return IND
        if d == UNK:
            return UNK
        return self.bad(t, "tests the values of the signal")

    def arith(self, t, o, x, y):
        a, b = self.ev(x), self.ev(y)
        if o in ("+", "-", "|"):
            d = self.plus(a, b)
            if d == AFF and AFF not in (a, b):
                return self.bad(t, "adds something that does not depend on the signal", AFF)
            if d == NON and NON not in (a, b):
                return self.bad(t, "adds terms of different degrees")
            return d
        if o in ("*", "@", "&"):
            d = self.times(a, b)
            if d == NON and NON not in (a, b):
                return self.bad(t, "multiplies values of the signal with each other")
            return d
        if o == "/":
            if b in (IND, ZERO, BOT):
                return a
            if a in (ZERO, BOT):
                return a
            if NON in (a, b):
                return NON
            if UNK in (a, b):
                return UNK
            return self.bad(t, "divides by a quantity computed from the signal")
        if o == "**":
            if BOT in (a, b):
                return BOT
            if a in (IND, ZERO) and b in (IND, ZERO):
                return IND
            if a == LIN and y.op == "const" and y.x == 1:
                return LIN
            if a == LIN and y.op == "const" and y.x == 2:
                return QUAD
            if UNK in (a, b):
                return UNK
            return self.bad(t, "raises values of the signal to a power")
        if BOT in (a, b):
            return BOT
        if a in (IND, ZERO) and b in (IND, ZERO):
            return IND
        if UNK in (a, b):
            return UNK
        return self.bad(t, f"applies {o} to values of the signal")

    def call(self, t):
        n = short(t)
        args = list(t.args)
        if t.op == "mcall" and n in OPERATORS and len(args) > 1:
            d = self.ev(args[0])
            rest = self.many(args[2:] + list(t.kw.values())) if args[2:] or t.kw else IND
            if d in (IND, ZERO, BOT) and rest in (IND, ZERO, BOT):
                return self.ev(args[1])
        if n in SHAPE_FN:
            if n in ("zeros_like", "empty_like"):
                return ZERO
            return IND
        if t.op == "ecall" and n in ZERO_FN:
            return ZERO
        if t.op == "ecall" and n in ("full",) and len(args) > 1:
            return self.ev(args[1])
        if n.endswith("_matrix") or n.endswith("_array"):
            a0 = args[0] if args else None
            if a0 is not None and a0.op == "tuple" and len(a0.args) == 2:
                if a0.args[1].op != "tuple":
                    ds = [self.ev(x) for x in a0.args]
                    if all(x in (IND, ZERO) for x in ds):
                        return ZERO if all(x.op in ("const", "attr", "sub", "ecall") for x in a0.args) and "shape" not in t.kw else IND
                else:
                    return self.ev(a0.args[0])
        vals = args + [v for k, v in t.kw.items() if k not in ("axis", "dtype", "shape", "out", "order", "axes", "copy", "ndmin", "keepdims", "indexing")]
        if n == "where" and t.op == "ecall" and len(args) == 3:
            c, a, b = [self.ev(x) for x in args]
            if self.dependent(c):
                return UNK if ZERO in (a, b) and a == b else self.bad(t, "depends on a condition on the values of the signal")
            return self.join(a, b) if c != UNK else (NON if NON in (a, b) else UNK)
        ds = [self.ev(x) for x in vals]
        if BOT in ds and any(x.op != "list" or x.args for x, d in zip(vals, ds) if d == BOT):
            return BOT
        if all(d in (IND, ZERO, BOT) for d in ds):
            if n in KEEP and ds and ds[0] == ZERO:
                return ZERO
            if n in MUL and ZERO in ds:
                return ZERO
            if n in JOIN and all(d == ZERO for d in ds):
                return ZERO
            return IND
        if NON in ds:
            return NON
        if n == "astype" and args:
            ty = args[1] if len(args) > 1 else t.kw.get("dtype")
            if ty is not None and self.inty(ty) and ds[0] in (LIN, QUAD):
                return self.bad(t, "rounds the values of the signal to integers")
            return ds[0]
        if n in ("asarray", "array", "asanyarray") and self.inty(t.kw.get("dtype") or (args[1] if len(args) > 1 else None)) and ds[0] in (LIN, QUAD):
            return self.bad(t, "rounds the values of the signal to integers")
        if n in KEEP:
            return ds[0]
        if n in JOIN:
            if n == "delete":
                return ds[0]
            if n == "append" and len(ds) > 1:
                return self.join(ds[0], ds[1])
            if n == "insert" and len(ds) > 2:
                return self.join(ds[0], ds[2])
            return self.many(vals)
        if n in ("add", "subtract") and len(args) >= 2:
            return self.arith(t, "+", args[0], args[1])
        if n in ("divide", "true_divide") and len(args) >= 2:
            return self.arith(t, "/", args[0], args[1])
        if n == "power" and len(args) >= 2:
            return self.arith(t, "**", args[0], args[1])
        if n in MUL:
            xs = vals[1:] if n == "einsum" and vals and vals[0].op == "const" else vals[:3] if n != "tensordot" else vals[:2]
            d = IND
            for x in xs:
                d = self.times(d, self.ev(x))
            if d == NON:
                return self.bad(t, "multiplies values of the signal with each other")
            return d
        if n in SOLVE:
            if len(ds) > 1 and ds[0] in (IND, ZERO):
                return ds[1]
            return UNK
        if n in ("maximum", "minimum", "fmax", "fmin") and len(ds) > 1 and ds[0] == ds[1] == ZERO:
            return ZERO
        if n in NONLIN and (t.op == "ecall" or ds[0] in (LIN, QUAD, AFF)):
            if UNK in ds and not any(d in (LIN, QUAD, AFF) for d in ds):
                return UNK
            return self.bad(t, f"applies {n} to values of the signal")
        return UNK

    @staticmethod
    def inty(ty):
        if ty is None:
            return False
        if ty.op == "const":
            return str(ty.x).startswith(("int", "uint", "bool"))
        if ty.op in ("ext", "class", "ecall"):
            return (ty.name or "").split(".")[-1] in ("int", "int8", "int16", "int32", "int64", "intp", "int_", "bool", "bool_", "uint8", "uint16", "uint32", "uint64")
        return False
