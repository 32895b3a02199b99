"""Operator words: a value as a sequence of matrix applications and pointwise products applied to a signal.

word(t) is a list, outermost first, of
    ("op", base, axis, conj)   contraction of `axis` of the matrix `base` with the first axis of the operand
    ("mul", text)              pointwise product with something that does not depend on the signal
or None when the value is not recognised as such a sequence.
"""

from .linear import IND, ZERO, Degree, short
from .terms import leaves, show, walk

TAGS = {"_U": "U", "U": "U", "_D": "D", "D": "D", "L": "L", "_L": "L", "W": "W", "_adjacency": "W", "_dw": "dw", "dw": "dw", "_d": "d", "d": "d", "_e": "e", "e": "e", "A": "A"}
THROUGH = {"asanyarray", "asarray", "array", "ascontiguousarray", "asfortranarray", "copy", "squeeze", "expand_dims", "reshape", "ravel", "flatten", "atleast_1d", "tocsr", "tocsc", "tocoo", "toarray", "todense", "astype", "asfptype"}


def tag(t):
    """Which attribute of the graph a matrix is (lazily computed ones keep their name), or None."""
    found = set()
    for u in leaves(t):
        if u.op == "attr" and u.name in TAGS:
            found.add(TAGS[u.name])
    return found.pop() if len(found) == 1 else None


def matrix(t, depth=0):
    """(tag, transposed, conjugated, factors) of a matrix expression, or None."""
    if depth > 20:
        return None
    g = tag(t)
    if g is not None:
        return g, False, False, []
    n = short(t)
    if t.op == "attr" and t.name in ("T", "H"):
        m = matrix(t.args[0], depth + 1)
        return m and (m[0], not m[1], m[2] ^ (t.name == "H"), m[3])
    if t.op in ("ecall", "mcall") and t.args:
        if n in ("conj", "conjugate"):
            m = matrix(t.args[0], depth + 1)
            return m and (m[0], m[1], not m[2], m[3])
        if n == "transpose" and len(t.args) == 1 and not t.kw:
            m = matrix(t.args[0], depth + 1)
            return m and (m[0], not m[1], m[2], m[3])
        if n == "swapaxes":
            m = matrix(t.args[0], depth + 1)
            return m and (m[0], not m[1], m[2], m[3])
        if n == "getH":
            m = matrix(t.args[0], depth + 1)
            return m and (m[0], not m[1], not m[2], m[3])
        if n in THROUGH:
            return matrix(t.args[0], depth + 1)
    if t.op == "un" and t.name == "-":
        m = matrix(t.args[0], depth + 1)
        return m and (m[0], m[1], m[2], m[3] + ["-1"])
    if t.op == "bin" and t.name in ("*", "/"):
        for i in (0, 1):
            m = matrix(t.args[i], depth + 1)
            if m is not None and (t.name == "*" or i == 0):
                return m[0], m[1], m[2], m[3] + [("1/" if t.name == "/" else "") + show(t.args[1 - i], 8)]
    return None


class Words:
    def __init__(self, src, it=None):
        self.src = src
        self.deg = Degree([src], it)

    def indep(self, t):
        return self.deg.of(t) in (IND, ZERO)

    def word(self, t, depth=0):
        if depth > 60:
            return None
        if t.uid == self.src.uid or (t.op == "param" and t.ident == self.src.ident):
            return []
        n = short(t)
        if t.op == "phi":
            a, b = self.word(t.args[1], depth + 1), self.word(t.args[2], depth + 1)
            return a if a == b else None
        if t.op in ("ecall", "mcall") and n in THROUGH and t.args:
            return self.word(t.args[0], depth + 1)
        if t.op == "un" and t.name in ("-", "+"):
            w = self.word(t.args[0], depth + 1)
            return w if w is None or t.name == "+" else [("mul", "-1")] + w
        if (t.op in ("bin", "inplace") and t.name.rstrip("=") in ("*", "/")) or (t.op == "ecall" and n in ("multiply", "divide", "true_divide") and len(t.args) == 2):
            div = n.endswith("divide") or t.name.rstrip("=") == "/"
            a, b = t.args[:2]
            if self.indep(b):
                return self.scale(a, b, div, depth)
            if not div and self.indep(a):
                return self.scale(b, a, False, depth)
            return None
        if t.op in ("ecall", "mcall") and n == "tensordot" and len(t.args) >= 2:
            return self.tensordot(t, depth)
        if (t.op == "bin" and t.name == "@") or (n in ("dot", "matmul") and t.op in ("ecall", "mcall") and len(t.args) == 2):
            a, b = t.args[:2]
            if self.indep(a):
                return self.apply(a, b, 1, depth)
            if self.indep(b):
                m = matrix(b)
                if m is None:
                    w = self.word(a, depth + 1)
                    return None if w is None else [("mul", show(b, 8), b)] + w
                # signals as rows: (x.T @ M).T
                return None
            return None
        if t.op == "attr" and t.name == "T":
            u = t.args[0]
            if ((u.op == "bin" and u.name == "@") or short(u) in ("dot", "matmul")) and len(u.args) == 2 and self.indep(u.args[1]):
                x = u.args[0]
                if x.op == "attr" and x.name == "T":
                    return self.apply(u.args[1], x.args[0], 0, depth)
            return None
        if t.op == "ecall" and n == "einsum" and len(t.args) == 3 and t.args[0].op == "const":
            return self.einsum(t, depth)
        return None

    def scale(self, t, k, div, depth):
        w = self.word(t, depth + 1)
        return None if w is None else [("mul", ("1/" if div else "") + show(k, 8), k)] + w

    def apply(self, a, x, axis, depth):
        m = matrix(a)
        w = self.word(x, depth + 1)
        if m is None or w is None:
            return None
        g, tr, cj, fs = m
        return [("mul", f) for f in fs] + [("op", g, (1 - axis) if tr else axis, cj)] + w

    def tensordot(self, t, depth):
        a, b = t.args[:2]
        ax = t.args[2] if len(t.args) > 2 else t.kw.get("axes")
        if ax is None:
            return None
        if ax.op == "const" and ax.x == 1:
            return self.apply(a, b, 1, depth) if self.indep(a) else None
        if ax.op not in ("tuple", "list") or len(ax.args) != 2:
            return None
        idx = []
        for q in ax.args:
            if q.op in ("list", "tuple") and len(q.args) == 1:
                q = q.args[0]
            if q.op != "const" or not isinstance(q.x, int):
                return None
            idx.append(q.x)
        if self.indep(a):
            if idx[1] != 0:
                return None
            return self.apply(a, b, idx[0] % 2, depth)
        return None

    def einsum(self, t, depth):
        spec = str(t.args[0].x).replace(" ", "")
        a, b = t.args[1], t.args[2]
        if "->" not in spec or "," not in spec.split("->")[0]:
            return None
        ins, out = spec.split("->")
        p, q = ins.split(",")
        if not self.indep(a):
            a, b, p, q = b, a, q, p
        if not self.indep(a) or len(p) != 2 or not q or not out:
            return None
        if matrix(a) is None:
            return None
        c = q[0]
        if c not in p or c in out or out[0] != p[1 - p.index(c)] or out[1:] != q[1:]:
            return None
        return self.apply(a, b, p.index(c), depth)


def clean(w):
    return [x[:2] if x[0] == "mul" else x for x in w]


def adjoint(w):
    return [("op", x[1], 1 - x[2], not x[3]) if x[0] == "op" else x[:2] for x in reversed(w)]


def text(w):
    out = []
    for x in w:
        if x[0] == "mul":
            out.append(f"({x[1][:40]})·")
        else:
            out.append(x[1] + {(0, True): "ᴴ", (0, False): "ᵀ", (1, True): "*", (1, False): ""}[(x[2], x[3])] + "·")
    return "".join(out) + "x"
