"""Matrices by the entry: a matrix expression as a function of a pair of opposite entries of one matrix W.

The entry (i, j) of an expression built from W by transposition, entrywise operations, triangular parts and
scaling by diagonal matrices depends on w = W[i, j], x = W[j, i], on whether i <, =, > j, and on sums over rows
and columns. For each order type of (0, w, x) and each position, it is a polynomial; two expressions are equal
for every W if and only if the polynomials agree in each of these finitely many cases.
"""

from fractions import Fraction

from .linear import short
from .terms import skey

ONE = {(): Fraction(1)}
# j - i: at most -2, -1, 0, 1, at least 2
POS = (-2, -1, 0, 1, 2)


class Undecided(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items() if c * k}


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        if a in d:
            d[a] = d[a] + e
            if not d[a] and not a[0] == "S":
                del d[a]
        else:
            d[a] = e
    return tuple(sorted(d.items(), key=repr))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * e
            if not r[k]:
                del r[k]
    return r


def var(v):
    return {(((v,), 1),): Fraction(1)}


def rename(a, f):
    r = {}
    for m, c in a.items():
        k = ()
        for at, e in m:
            k = mmul(k, ((f(at), e),))
        r[k] = r.get(k, 0) + c
        if not r[k]:
            del r[k]
    return r


SW = {("w",): ("x",), ("x",): ("w",)}


def swapped(a):
    return rename(a, lambda at: SW.get(at) or (("S", at[1], {"i": "j", "j": "i"}[at[2]]) if at[0] == "S" else at))


def index(a, i):
    return rename(a, lambda at: ("S", at[1], i) if at[0] == "S" else at)


def pconst(a):
    return a.get((), Fraction(0)) if not a or list(a) == [()] else None


class Case:
    """Signs of w, x, w - x and |w| - |x|, and the position."""

    __slots__ = ("w", "x", "c", "a", "pos")

    def __init__(self, w, x, c, a, pos):
        self.w, self.x, self.c, self.a, self.pos = w, x, c, a, pos

    def key(self):
        return self.w, self.x, self.c, self.a, self.pos

    def swap(self):
        return Case(self.x, self.w, -self.c, -self.a, -self.pos)

    def norm(self, a):
        r = {}
        for m, c in a.items():
            k = ()
            zero = False
            for at, e in m:
                if at == ("w",) and self.w == 0 or at == ("x",) and self.x == 0:
                    zero = True
                elif at == ("x",) and self.c == 0:
                    k = mmul(k, ((("w",), e),))
                elif at == ("x",) and self.a == 0:
                    k = mmul(k, ((("w",), e),))
                    c = -c if e % 2 else c
                elif at[0] == "S" and self.pos == 0:
                    k = mmul(k, ((("S", at[1], "i"), e),))
                else:
                    k = mmul(k, ((at, e),))
            if not zero:
                r[k] = r.get(k, 0) + c
                if not r[k]:
                    del r[k]
        return r

    def sign(self, a):
        """Sign of a polynomial, in this case."""
        a = self.norm(a)
        if not a:
            return 0
        k = pconst(a)
        if k is not None:
            return (k > 0) - (k < 0)
        w, x = a.get(((("w",), 1),), 0), a.get(((("x",), 1),), 0)
        rest = {m for m in a if m not in ((), ((("w",), 1),), ((("x",), 1),))}
        if rest or () in a:
            raise Undecided("sign")
        if w == -x:
            return self.c * ((w > 0) - (w < 0))
        if w == x and self.w * self.x < 0:
            # the one with the larger magnitude
            return self.a * self.w * ((w > 0) - (w < 0))
        sw, sx = self.w * ((w > 0) - (w < 0)), self.x * ((x > 0) - (x < 0))
        if not w or not sw:
            return sx if x else 0
        if not x or not sx or sw == sx:
            return sw
        raise Undecided("sign of a sum")


def orders(nonneg=False):
    out = []
    for w in (-1, 0, 1):
        for x in (-1, 0, 1):
            if nonneg and (w < 0 or x < 0):
                continue
            for c in (-1, 0, 1):
                if w != x and c != (w > x) - (w < x):
                    continue
                if w == x == 0 and c:
                    continue
                if w * x < 0:
                    out.extend((w, x, c, a) for a in (-1, 0, 1))
                else:
                    out.append((w, x, c, c if w + x > 0 else -c))
    return out


CASES = [Case(w, x, c, a, p) for w, x, c, a in orders() for p in POS if not (p == 0 and c)]

THROUGH = {"asanyarray", "asarray", "array", "ascontiguousarray", "copy", "tocsr", "tocsc", "tocoo", "tolil", "todok", "toarray", "todense", "csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dia_matrix",
           "csr_array", "csc_array", "coo_array", "eliminate_zeros", "sum_duplicates", "sort_indices", "asmatrix", "deepcopy", "asfptype", "prune", "sorted_indices"}
FLAT = {"ravel", "flatten", "squeeze", "asarray", "array", "asanyarray", "copy", "reshape", "ascontiguousarray", "A1"}
TOSPARSE = {"tocsr", "tocsc", "tocoo", "tolil", "todok", "csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dia_matrix", "csr_array", "csc_array", "coo_array"}


class Entries:
    def __init__(self, it, is_w, sparse=True, flags=None):
        self.it = it
        self.is_w = is_w
        self.sparse = sparse  # is W sparse?
        self.flags = flags or {}  # truth assumed for conditions on whole matrices, by signature
        self.conds = {}
        self.sigs = {}
        self.signames = {}
        self.memo = {}
        self.cmemo = {}
        self.only_existing = False

    # -- conditions --------------------------------------------------------------------

    def cases(self):
        """Cases which can occur, given the conditions assumed."""
        out = []
        for c in CASES:
            ok = True
            for sig, v in self.flags.items():
                if not v and sig[0] != "sign":
                    M = self.conds_of(sig)
                    for cc in (c, c.swap()):
                        d = dict(M).get(cc.key())
                        if d is not None and d != "tol" and d:
                            ok = False
            if ok:
                out.append(c)
        return out

    def conds_of(self, sig):
        return sig

    def signature(self, f):
        """What a function of a case is in each case."""
        return tuple((c.key(), tuple(sorted(f(c).items(), key=repr))) for c in CASES)

    def lazy(self, t):
        """A phi which computes an attribute the first time it is read: what is computed."""
        while t.op == "phi" and t.args[0].op == "cmp" and t.args[0].name in ("is", "is not") and len(t.args[0].args) == 2 and t.args[0].args[1].op == "const" and t.args[0].args[1].x is None \
                and t.args[0].args[0].op in ("attr", "phi"):
            t = t.args[1] if t.args[0].name == "is" else t.args[2]
        return t

    def truth(self, c):
        """Truth of a condition; an existence of entries is looked up, and recorded when unknown."""
        c = self.lazy(c)
        if c.op == "const":
            return bool(c.x)
        if c.op == "un" and c.name == "not":
            return not self.truth(c.args[0])
        n = short(c)
        if c.op == "ecall" and n == "bool" and c.args:
            return self.truth(c.args[0])
        if n in ("issparse", "isspmatrix") and c.args:
            return self.is_sparse(c.args[0])
        if n == "isinstance" and c.args:
            raise Undecided("isinstance")
        m, neg = self.existence(c)
        sig = self.exist_sig(m)
        if sig not in self.flags:
            self.conds[sig] = c
            raise Pending(sig)
        return self.flags[sig] ^ neg

    def exist_sig(self, m):
        def f(c):
            try:
                a = m(c)
            except Tolerance:
                return "tol"
            return a
        out = []
        for c in CASES:
            a = f(c)
            if a == "tol":
                out.append((c.key(), "tol"))
                continue
            s = c.norm(a)
            if s and pconst(s) is None:
                c.sign(s)  # decided, and not zero
            out.append((c.key(), bool(s) and (pconst(s) is not None or c.sign(s) != 0)))
        return tuple(out)

    def existence(self, c):
        """(entry function, negated): the condition is that some entry of a matrix is not zero."""
        if c.op == "cmp":
            a, b, o = c.args[0], c.args[1], c.name
            if a.op == "const" and b.op != "const":
                a, b, o = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            if b.op == "const" and isinstance(b.x, (int, float)):
                tol = b.x != 0
                if tol and not (o == ">=" and b.x == 1 and self.counts(a)) and not (o == "<" and b.x == 1 and self.counts(a)):
                    m = self.reduced(a)
                    if o in (">", ">=", "<", "<=") and b.x > 0 and not self.counts(a):
                        return self.tolerant(m), o in ("<", "<=")
                    raise Undecided("condition")
                m = self.reduced(a)
                if o in ("!=", ">", ">="):
                    return m, False
                if o in ("==", "<=", "<"):
                    return m, True
            raise Undecided("condition")
        n = short(c)
        if n in ("allclose", "array_equal", "array_equiv") and len(c.args) >= 2:
            a, b = c.args[:2]

            def diff(case):
                return padd(self.mat(a, case), self.mat(b, case), -1)
            return (self.tolerant(diff) if n == "allclose" else diff), True
        return self.reduced(c), False

    def counts(self, t):
        return t.op == "attr" and t.name == "nnz" or short(t) in ("getnnz", "count_nonzero", "len")

    def tolerant(self, m):
        def f(case):
            a = case.norm(m(case))
            if a and pconst(a) is None:
                raise Tolerance()
            return a
        return f

    def reduced(self, t):
        """Entry function of which the value is the number, sum or maximum of the entries."""
        t = self.lazy(t)
        n = short(t)
        if t.op == "attr" and t.name == "nnz":
            return lambda c: self.mat(t.args[0], c)
        if n in ("getnnz", "count_nonzero", "any") and len(t.args) == 1 and not t.kw:
            return lambda c: self.mat(t.args[0], c)
        if n in ("sum", "max", "amax", "norm") and len(t.args) == 1 and not t.kw:
            def f(case):
                a = case.norm(self.mat(t.args[0], case))
                if n != "norm" and a and case.sign(a) < 0:
                    raise Undecided("sum of entries of both signs")
                return a
            if n != "norm":
                for c in CASES:
                    try:
                        f(c)
                    except Tolerance:
                        pass
            return f
        if n in ("float", "int", "bool", "abs") and t.args:
            return self.reduced(t.args[0])
        raise Undecided("condition")

    # -- is a matrix sparse? ---------------------------------------------------------------

    def is_sparse(self, t):
        t = self.lazy(t)
        if self.is_w(t):
            return self.sparse
        n = short(t)
        if t.op == "phi":
            return self.is_sparse(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if n in ("toarray", "todense"):
            return False
        if t.op == "ecall" and (t.name or "").startswith("scipy.sparse"):
            return True
        if n in TOSPARSE or n == "multiply" and t.op == "mcall":
            return True
        if t.op == "ecall" and (t.name or "").startswith("numpy"):
            return False
        if t.op == "attr" and t.name == "T" or t.op in ("store", "mutcall", "mutview", "inplace", "un"):
            return self.is_sparse(t.args[0])
        if t.op in ("bin", "cmp"):
            xs = []
            for a in t.args:
                try:
                    xs.append(self.is_sparse(a))
                except Undecided:
                    xs.append(None)
            if t.name in ("*", "@"):
                return True if True in xs else False if xs == [False, False] or False in xs else self.fail("sparse")
            if True in xs and False not in xs:
                return True
            if xs == [False, False] or False in xs and True not in xs:
                return False
            raise Undecided("sparse")
        if t.op == "ucall":
            f = self.function(t.args[0])
            return f.startswith("scipy.sparse") if f.startswith(("scipy.sparse", "numpy")) else self.fail("sparse")
        if t.op == "mcall" and t.args:
            return self.is_sparse(t.args[0])
        raise Undecided("sparse")

    def fail(self, why):
        raise Undecided(why)

    def function(self, f):
        f = self.lazy(f)
        if f.op == "phi":
            return self.function(f.args[1] if self.truth(f.args[0]) else f.args[2])
        if f.op == "ext":
            return f.name
        raise Undecided("function")

    # -- entries -----------------------------------------------------------------------------

    def mat(self, t, case):
        k = (t.uid, case.key())
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = case.norm(self.entry(t, case))
        return r

    def isbool(self, t):
        t = self.lazy(t)
        if t.op == "cmp":
            return True
        n = short(t)
        if n in ("logical_or", "logical_and", "logical_xor", "logical_not", "greater", "less", "greater_equal", "less_equal", "not_equal", "equal"):
            return True
        if n == "astype":
            a = t.args[1] if len(t.args) > 1 else t.kw.get("dtype")
            return a is not None and a.op in ("ext", "class", "ecall") and a.name in ("builtins.bool", "numpy.bool_", "numpy.bool")
        if t.op == "bin":
            return t.name in ("+", "-", "*", "|", "&", "^") and self.isbool(t.args[0]) and self.isbool(t.args[1])
        if t.op == "attr" and t.name == "T" or n in THROUGH or n in ("transpose", "multiply") or t.op == "un" and t.name == "~":
            return bool(t.args) and all(self.isbool(a) for a in t.args if a.op != "const")
        if t.op == "phi":
            return self.isbool(t.args[1]) and self.isbool(t.args[2])
        if t.op == "ucall":
            return self.isbool(t.args[1])
        return False

    def bconst(self, a, case):
        s = case.norm(a)
        k = pconst(s)
        if k is None:
            return case.sign(s) != 0
        return k != 0

    def compare(self, o, a, b, case):
        s = case.sign(padd(a, b, -1))
        r = {">": s > 0, "<": s < 0, ">=": s >= 0, "<=": s <= 0, "==": s == 0, "!=": s != 0}.get(o)
        if r is None:
            raise Undecided("comparison")
        return dict(ONE) if r else {}

    def logic(self, o, a, b, case):
        a, b = self.bconst(a, case), self.bconst(b, case)
        r = {"or": a or b, "and": a and b, "xor": a != b}[o]
        return dict(ONE) if r else {}

    def entry(self, t, case):
        t = self.lazy(t)
        if self.is_w(t):
            return var("w")
        op, n = t.op, short(t)
        if op == "const" and isinstance(t.x, (bool, int, float)) and t.x == t.x and abs(t.x) != float("inf"):
            return pscale(ONE, Fraction(t.x))
        if op == "phi":
            if t.args[0].op == "opaque":
                raise Undecided("alias")
            try:
                return self.mat(t.args[1] if self.truth(t.args[0]) else t.args[2], case)
            except Undecided:
                a, b = self.mat(t.args[1], case), self.mat(t.args[2], case)
                if a == b:
                    return a
                raise
        if op == "attr" and t.name in ("T", "H") or n in ("transpose", "getH", "swapaxes") and op in ("mcall", "ecall"):
            return swapped(self.mat(t.args[0], case.swap()))
        if op == "un":
            if t.name == "-":
                return pscale(self.mat(t.args[0], case), -1)
            if t.name == "~" and self.isbool(t.args[0]):
                return {} if self.bconst(self.mat(t.args[0], case), case) else dict(ONE)
            raise Undecided("operator")
        if op == "cmp":
            return self.compare(t.name, self.mat(t.args[0], case), self.mat(t.args[1], case), case)
        if op in ("bin", "inplace"):
            return self.binary(t.name, t.args[0], t.args[1], case)
        if op == "sub":
            return self.broadcast(t, case)
        if op == "store":
            return self.stored(t, case)
        if op == "mutcall":
            if t.name == "setdiag":
                if case.pos == 0:
                    return self.vec(t.args[1]) if len(t.args) == 2 else self.fail("setdiag")
                return self.mat(t.args[0], case)
            if t.name in THROUGH:
                return self.mat(t.args[0], case)
            raise Undecided("mutation")
        if op == "ucall":
            return self.call(self.function(t.args[0]), t.args[1:], t.kw, case, t)
        if op == "ecall":
            return self.call(t.name or "", t.args, t.kw, case, t)
        if op == "mcall":
            return self.call("." + t.name, t.args, t.kw, case, t)
        raise Undecided(op)

    def binary(self, o, a, b, case):
        if o in ("+", "-") and self.isbool(a) and self.isbool(b):
            return self.logic({"+": "or", "-": "xor"}[o], self.mat(a, case), self.mat(b, case), case)
        if o in ("|", "&", "^") and self.isbool(a) and self.isbool(b):
            return self.logic({"|": "or", "&": "and", "^": "xor"}[o], self.mat(a, case), self.mat(b, case), case)
        if o in ("+", "-"):
            return padd(self.operand(a, case), self.operand(b, case), 1 if o == "+" else -1)
        if o == "/":
            k = pconst(self.scalar(b))
            if k:
                return pscale(self.mat(a, case), 1 / k)
            raise Undecided("division")
        if o in ("*", "@"):
            for s, m in ((a, b), (b, a)):
                try:
                    k = pconst(self.scalar(s))
                except Undecided:
                    continue
                if k is not None and o == "*":
                    return pscale(self.mat(m, case), k)
            if o == "@" or self.is_sparse(a) or self.is_sparse(b):
                return self.product(a, b, case)
            return pmul(self.mat(a, case), self.mat(b, case))
        raise Undecided("operator " + o)

    def operand(self, t, case):
        return self.mat(t, case)

    def scalar(self, t):
        t = self.lazy(t)
        if t.op == "const" and isinstance(t.x, (int, float)) and not isinstance(t.x, bool):
            return pscale(ONE, Fraction(t.x))
        if t.op == "un" and t.name == "-":
            return pscale(self.scalar(t.args[0]), -1)
        if t.op == "bin" and t.name in ("*", "/", "+", "-"):
            a, b = pconst(self.scalar(t.args[0])), pconst(self.scalar(t.args[1]))
            if t.name == "/" and not b:
                raise Undecided("scalar")
            return pscale(ONE, a * b if t.name == "*" else a / b if t.name == "/" else a + b if t.name == "+" else a - b)
        raise Undecided("scalar")

    def diagonal(self, t):
        """Entries of a diagonal matrix, or None."""
        t = self.lazy(t)
        n = short(t)
        if t.op == "phi":
            return self.diagonal(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if t.op == "ecall" and n in ("identity", "eye", "eye_array") and not set(t.kw) - {"format", "dtype", "n", "m"}:
            return dict(ONE)
        if t.op == "ecall" and n in ("diags", "diags_array", "diagflat", "diag", "spdiags"):
            if not t.args:
                return None
            off = t.args[1] if len(t.args) > 1 else t.kw.get("offsets") or t.kw.get("k")
            v = t.args[0]
            if off is not None and off.op in ("list", "tuple") and len(off.args) == 1:
                off = off.args[0]
            if off is not None and not (off.op == "const" and off.x == 0 and not isinstance(off.x, bool)):
                return None
            if v.op in ("list", "tuple") and len(v.args) == 1:
                v = v.args[0]
            return self.vec(v)
        if n in THROUGH and t.args:
            return self.diagonal(t.args[0])
        if t.op == "attr" and t.name == "T" or n == "transpose":
            return self.diagonal(t.args[0])
        if t.op == "bin" and t.name in ("*", "@", "+", "-", "/"):
            if t.name in ("*", "@"):
                for s, m in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                    try:
                        k = pconst(self.scalar(s))
                    except Undecided:
                        continue
                    d = self.diagonal(m)
                    return None if d is None else pscale(d, k)
            if t.name == "/":
                d, k = self.diagonal(t.args[0]), pconst(self.scalar(t.args[1]))
                return None if d is None or not k else pscale(d, 1 / k)
            a, b = self.diagonal(t.args[0]), self.diagonal(t.args[1])
            if a is None or b is None:
                return None
            return pmul(a, b) if t.name in ("*", "@") else padd(a, b, 1 if t.name == "+" else -1)
        if t.op == "un" and t.name == "-":
            d = self.diagonal(t.args[0])
            return None if d is None else pscale(d, -1)
        if n in ("dot", "matmul") and len(t.args) == 2:
            a, b = self.diagonal(t.args[0]), self.diagonal(t.args[1])
            return None if a is None or b is None else pmul(a, b)
        return None

    def product(self, a, b, case):
        d = self.diagonal(a)
        if d is not None:
            return pmul(index(d, "i"), self.mat(b, case))
        d = self.diagonal(b)
        if d is not None:
            return pmul(self.mat(a, case), index(d, "j"))
        raise Undecided("product of matrices")

    def broadcast(self, t, case):
        """v[:, None] or v[None, :]"""
        i = t.args[1]
        if i.op == "tuple" and len(i.args) == 2:
            none = [x.op == "const" and x.x is None or x.op == "ext" and x.name == "numpy.newaxis" for x in i.args]
            full = [x.op == "slice" and all(y.op == "const" and y.x is None for y in x.args) or x.op == "const" and isinstance(x.x, slice) and x.x == slice(None) for x in i.args]
            if none == [False, True] and full[0]:
                return index(self.vec(t.args[0]), "i")
            if none == [True, False] and full[1]:
                return index(self.vec(t.args[0]), "j")
        raise Undecided("subscript")

    def stored(self, t, case):
        b, i, v = t.args[:3]
        k = pconst(self.scalar(v))
        if k is None:
            raise Undecided("store")
        if i.op == "tuple" and len(i.args) == 2:
            if skey(i.args[0]) == skey(i.args[1]):
                m = index(self.vec(i.args[0], mask=True), "i")
                old = self.mat(b, case)
                if case.pos != 0:
                    return old
                return padd(pmul(old, padd(ONE, m, -1)), pscale(m, k))
            raise Undecided("store")
        # a mask of the shape of the matrix
        if self.isbool(i):
            return pscale(ONE, k) if self.bconst(self.mat(i, case), case) else self.mat(b, case)
        raise Undecided("store")

    def call(self, name, args, kw, case, t):
        n = name.rsplit(".", 1)[-1]
        if n in THROUGH and args and not (name.startswith("scipy") and args[0].op in ("tuple", "list")):
            if n in ("array", "asarray", "csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "asanyarray") and (len(args) > 1 or "dtype" in kw):
                raise Undecided("dtype")
            return self.mat(args[0], case)
        if n == "astype" and len(args) + len(kw) == 2:
            d = args[1] if len(args) > 1 else kw.get("dtype")
            if d is not None and d.op in ("ext", "class", "ecall") and d.name in ("builtins.float", "numpy.float64"):
                return self.mat(args[0], case)
            if self.isbool(t):
                return dict(ONE) if self.bconst(self.mat(args[0], case), case) else {}
            if self.isbool(args[0]):
                return self.mat(args[0], case)
            raise Undecided("dtype")
        if n in ("identity", "eye", "diags", "diagflat", "diag", "spdiags", "diags_array", "eye_array"):
            d = self.diagonal(t)
            if d is None:
                raise Undecided("diagonal")
            return index(d, "i") if case.pos == 0 else {}
        if n in ("tril", "triu") and args:
            k = args[1] if len(args) > 1 else kw.get("k")
            k = 0 if k is None else pconst(self.scalar(k))
            if k not in (0, 1, -1):
                raise Undecided("triangle")
            keep = case.pos <= k if n == "tril" else case.pos >= k
            return self.mat(args[0], case) if keep else {}
        if n in ("multiply", "logical_and") and len(args) == 2:
            if n == "logical_and":
                return self.logic("and", self.mat(args[0], case), self.mat(args[1], case), case)
            return pmul(self.mat(args[0], case), self.mat(args[1], case))
        if n in ("logical_or", "logical_xor") and len(args) == 2:
            return self.logic(n[8:], self.mat(args[0], case), self.mat(args[1], case), case)
        if n == "logical_not":
            return {} if self.bconst(self.mat(args[0], case), case) else dict(ONE)
        if n in ("maximum", "fmax", "minimum", "fmin") and len(args) == 2:
            a, b = self.mat(args[0], case), self.mat(args[1], case)
            s = case.sign(padd(a, b, -1))
            return a if (s >= 0) == (n in ("maximum", "fmax")) else b
        if n in ("abs", "absolute", "fabs", "__abs__") and args:
            a = self.mat(args[0], case)
            return pscale(a, -1) if case.sign(a) < 0 else a
        if n in ("add", "subtract") and len(args) == 2 and not kw:
            return self.binary("+" if n == "add" else "-", args[0], args[1], case)
        if n in ("true_divide", "divide") and len(args) == 2 and not kw:
            return self.binary("/", args[0], args[1], case)
        if n == "negative":
            return pscale(self.mat(args[0], case), -1)
        if n in ("greater", "less", "greater_equal", "less_equal", "not_equal", "equal") and len(args) == 2:
            return self.compare({"greater": ">", "less": "<", "greater_equal": ">=", "less_equal": "<=", "not_equal": "!=", "equal": "=="}[n], self.mat(args[0], case), self.mat(args[1], case), case)
        if n == "where" and len(args) == 3:
            return self.mat(args[1] if self.bconst(self.mat(args[0], case), case) else args[2], case)
        if n in ("dot", "matmul") and len(args) == 2:
            return self.product(args[0], args[1], case)
        if n == "isclose" and len(args) >= 2:
            raise Tolerance()
        raise Undecided("call " + n)

    # -- vectors --------------------------------------------------------------------------------

    def atom(self, f):
        sig = self.signature(lambda c: c.norm(f(c)))
        i = self.signames.setdefault(sig, len(self.signames))
        self.sigs[i] = dict((k, dict(v)) for k, v in sig)
        return {((("S", i, "i"), 1),): Fraction(1)}

    def reduce(self, t, axis, f):
        """Sums of the columns (axis 0) or rows (axis 1) of a matrix."""
        sig_cases = {c.key() for c in self.cases()}

        def g(c):
            if c.key() not in sig_cases:
                return {}
            m = f(c.swap()) if axis == 0 else f(c)
            return swapped(m) if axis == 0 else m
        return self.atom(g)

    def axis(self, t):
        ax = t.args[1] if len(t.args) > 1 else t.kw.get("axis")
        if ax is None:
            raise Undecided("axis")
        k = pconst(self.scalar(ax))
        if k not in (0, 1, -1, -2):
            raise Undecided("axis")
        return {0: 0, 1: 1, -1: 1, -2: 0}[k]

    def vec(self, t, mask=False, depth=0):
        k = ("v", t.uid)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.vector(t, depth)
        return r

    def power(self, v, e):
        if not v:
            raise Undecided("power")
        if len(v) == 1:
            (m, c), = v.items()
            if c == 1 and m and all(a[0] == "S" for a, _ in m):
                return {tuple(sorted(((a, x * e) for a, x in m), key=repr)): Fraction(1)}
            if not m and c == 1:
                return dict(ONE)
        # sums have their own atom
        f = self.summand(v)
        if f is None:
            raise Undecided("power")
        a = self.atom(f)
        (m, c), = a.items()
        return {tuple((x, y * e) for x, y in m): Fraction(1)}

    def summand(self, v):
        """A sum of sums over the entries of rows as one."""
        if any(len(m) != 1 or m[0][1] != 1 or m[0][0][0] != "S" for m in v):
            return None

        def f(c):
            r = {}
            for m, k in v.items():
                r = padd(r, self.sigs[m[0][0][1]][c.key()], k)
            return c.norm(r)
        return f

    def single(self, v):
        if len(v) == 1 and list(v.values()) == [1]:
            return v
        f = self.summand(v)
        if f is None:
            raise Undecided("vector")
        return self.atom(f)

    def positive(self, v):
        """Are the sums of rows positive? Recorded as a condition when they may be either."""
        f = self.summand(v)
        if f is None:
            raise Undecided("sign of a vector")
        try:
            s = {c.sign(f(c)) for c in CASES}
            if -1 not in s:
                return True
            if 1 not in s:
                return False
        except Undecided:
            pass
        sig = ("sign", self.signature(lambda c: c.norm(f(c))))
        if sig not in self.flags:
            raise Pending(sig)
        return self.flags[sig]

    def support(self, v):
        """Indicator of the entries which are not zero."""
        return self.power(self.single(v), 0)

    def vector(self, t, depth):
        t = self.lazy(t)
        op, n = t.op, short(t)
        if op == "phi":
            return self.vec(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if op == "const" and isinstance(t.x, (int, float)):
            return self.scalar(t) if not isinstance(t.x, bool) else pscale(ONE, int(t.x))
        if n == "sum" and op in ("mcall", "ecall"):
            return self.reduce(t, self.axis(t), lambda c: self.mat(t.args[0], c))
        if n in ("getnnz", "count_nonzero") and op in ("mcall", "ecall"):
            def f(c):
                return dict(ONE) if self.bconst(self.mat(t.args[0], c), c) else {}
            return self.reduce(t, self.axis(t), f)
        if n == "dot" and len(t.args) == 2 or op == "bin" and t.name in ("@", "*") and self.ones(t.args[1]):
            if self.ones(t.args[1]):
                return self.reduce(t, 1, lambda c: self.mat(t.args[0], c))
        if n == "diagonal" or op == "attr" and t.name == "diagonal":
            raise Undecided("diagonal")
        if op == "attr" and t.name in ("A1", "A", "T") or n in FLAT and t.args:
            return self.vec(t.args[0])
        if n == "astype" and t.args:
            d = t.args[1] if len(t.args) > 1 else t.kw.get("dtype")
            if d is not None and d.op in ("ext", "class", "ecall") and d.name in ("builtins.float", "numpy.float64", "builtins.bool"):
                return self.vec(t.args[0]) if d.name != "builtins.bool" else self.support(self.vec(t.args[0]))
            raise Undecided("dtype")
        if op == "un":
            if t.name == "-":
                return pscale(self.vec(t.args[0]), -1)
            if t.name == "~":
                return padd(ONE, self.vec(t.args[0]), -1)
            raise Undecided("operator")
        if n == "logical_not":
            return padd(ONE, self.vec(t.args[0]), -1)
        if op == "cmp":
            a, b, o = t.args[0], t.args[1], t.name
            if a.op == "const":
                a, b, o = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            if b.op == "const" and b.x == 0:
                s = self.support(self.vec(a))
                if o in ("!=", ">"):
                    return s
                if o in ("==", "<="):
                    return padd(ONE, s, -1)
            raise Undecided("comparison")
        if n in ("isinf",):
            v = self.vec(t.args[0])
            (m, c), = v.items()
            if len(m) == 1 and m[0][1] < 0:
                return padd(ONE, {((m[0][0], 0),): Fraction(1)}, -1)
            raise Undecided("isinf")
        if n == "isfinite":
            v = self.vec(t.args[0])
            (m, c), = v.items()
            if len(m) == 1 and m[0][1] < 0:
                return {((m[0][0], 0),): Fraction(1)}
            raise Undecided("isfinite")
        if op in ("bin", "inplace"):
            a, b, o = t.args[0], t.args[1], t.name
            if o in ("+", "-"):
                return padd(self.vec(a), self.vec(b), 1 if o == "+" else -1)
            if o == "*":
                return pmul(self.vec(a), self.vec(b))
            if o == "/":
                d = self.vec(b)
                k = pconst(d)
                return pscale(self.vec(a), 1 / k) if k else pmul(self.vec(a), self.power(self.single(d), -1))
            if o == "**":
                k = pconst(self.scalar(b))
                return self.power(self.single(self.vec(a)), k)
            raise Undecided("operator")
        if op == "outval":
            return self.vec(t.args[1])
        if op == "ecall" and n in ("power", "float_power", "sqrt", "reciprocal", "divide", "true_divide"):
            if n in ("power", "float_power"):
                r = self.power(self.single(self.vec(t.args[0])), pconst(self.scalar(t.args[1])))
            elif n == "sqrt":
                r = self.power(self.single(self.vec(t.args[0])), Fraction(1, 2))
            elif n == "reciprocal":
                r = self.power(self.single(self.vec(t.args[0])), -1)
            else:
                d = self.vec(t.args[1])
                k = pconst(d)
                r = pscale(self.vec(t.args[0]), 1 / k) if k else pmul(self.vec(t.args[0]), self.power(self.single(d), -1))
            w, o = t.kw.get("where"), t.kw.get("out")
            if w is not None:
                if o is None or short(o) not in ("zeros", "zeros_like"):
                    raise Undecided("out")
                r = pmul(r, self.vec(w))
            return r
        if n == "where" and len(t.args) == 3:
            m = self.vec(t.args[0])
            return padd(pmul(m, self.vec(t.args[1])), pmul(padd(ONE, m, -1), self.vec(t.args[2])))
        if n in ("nan_to_num",):
            return self.vec(t.args[0])
        if n in ("maximum", "fmax", "minimum", "fmin") and len(t.args) == 2 and not t.kw:
            v = padd(self.vec(t.args[0]), self.vec(t.args[1]), -1)
            return self.vec(t.args[0 if not v or self.positive(v) == (n in ("maximum", "fmax")) else 1])
        if n in ("abs", "absolute", "fabs", "__abs__") and t.args and not t.kw:
            v = self.vec(t.args[0])
            return pscale(v, -1) if v and not self.positive(v) else v
        if n == "clip" and t.args:
            lo = t.args[1] if len(t.args) > 1 else t.kw.get("a_min", t.kw.get("min"))
            hi = t.args[2] if len(t.args) > 2 else t.kw.get("a_max", t.kw.get("max"))
            ends = [x for x in (lo, hi) if x is not None and not (x.op == "const" and x.x is None)]
            if len(ends) != 1 or ends[0].op != "const" or ends[0].x != 0:
                raise Undecided("clip")
            v = self.vec(t.args[0])
            return v if not v or self.positive(v) == (ends[0] is lo) else {}
        if n in ("zeros", "zeros_like"):
            return {}
        if n in ("ones", "ones_like"):
            return dict(ONE)
        if op == "store" and len(t.args) == 3:
            m, v = self.vec(t.args[1]), t.args[2]
            b = self.vec(t.args[0])
            if v.op == "sub" and skey(v.args[1]) == skey(t.args[1]):
                v = v.args[0]
            return padd(pmul(b, padd(ONE, m, -1)), pmul(self.masked(v, t.args[1]), m))
        raise Undecided("vector " + str(n or op))

    def masked(self, v, m):
        """The value stored under a mask: reads under the same mask are those of the whole vector."""
        if v.op == "sub" and skey(v.args[1]) == skey(m):
            return self.vec(v.args[0])
        if v.op in ("bin",) and v.name in ("/", "*", "+", "-", "**"):
            a, b = v.args
            if v.name == "**":
                return self.power(self.single(self.masked(a, m)), pconst(self.scalar(b)))
            x = self.masked(a, m)
            y = self.masked(b, m)
            if v.name == "*":
                return pmul(x, y)
            if v.name == "/":
                k = pconst(y)
                return pscale(x, 1 / k) if k else pmul(x, self.power(self.single(y), -1))
            return padd(x, y, 1 if v.name == "+" else -1)
        if v.op == "ecall" and short(v) == "sqrt" and not v.kw:
            return self.power(self.single(self.masked(v.args[0], m)), Fraction(1, 2))
        if v.op == "ecall" and short(v) in ("power", "float_power") and not v.kw:
            return self.power(self.single(self.masked(v.args[0], m)), pconst(self.scalar(v.args[1])))
        return self.scalar(v)

    def ones(self, t):
        return t.op == "ecall" and short(t) == "ones"

    def unguarded(self, t):
        return False


class Tolerance(Exception):
    pass


class Pending(Exception):
    def __init__(self, sig):
        self.sig = sig


def solve(make, f, limit=6):
    """Evaluate f(entries) under every assignment of the conditions it meets: [(flags, entries, result)].

    make(flags) builds the evaluator. Raises Undecided."""
    out = []
    stack = [{}]
    while stack:
        fl = stack.pop()
        E = make(fl)
        try:
            out.append((fl, E, f(E)))
        except Pending as p:
            if len(fl) >= limit:
                raise Undecided("too many conditions")
            for v in (True, False):
                stack.append({**fl, p.sig: v})
        except Tolerance:
            raise Undecided("tolerance")
    return out
