"""C19: transforms come in adjoint pairs and the spectral path uses them consistently."""

from fractions import Fraction

from ..linear import short
from ..terms import NONE, const, leaves, show, skey, walk
from ..words import Words, clean, tag, text
from .c18 import site
from .common import each, leaves_decided

WANT = {
    "gft": ("s", [("op", "U", 0, True)], "contract the vertex axis of the conjugated Fourier basis"),
    "igft": ("s_hat", [("op", "U", 1, False)], "contract the frequency axis of the Fourier basis"),
    "grad": ("x", [("op", "D", 0, None)], "contract the vertex axis of the differential operator"),
    "div": ("y", [("op", "D", 1, None)], "contract the edge axis of the differential operator"),
}


def same(w, want):
    if len(w) != len(want):
        return False
    for a, b in zip(w, want):
        if a[:3] != b[:3] or (len(b) > 3 and b[3] is not None and a[3] != b[3]):
            return False
    return True


def transforms(P, R):
    for r in each(P, R, where=lambda e: e.func.name in WANT and e.cls is not None and any(b.name == "Graph" for b in e.cls.mro())):
        e = r.entry
        p, want, what = WANT[e.func.name]
        src = r.params.get(p) or next((v for k, v in r.params.items() if k != "self"), None)
        if src is None:
            continue
        for x in r.returns:
            for v in leaves_decided(r.it, x.value, x.state):
                R.count("transform_results")
                W = Words(src, r.it)
                w = W.word(v)
                if w is None:
                    R.count("transform_results_undecided")
                    continue
                R.sample(f"{e.name}: {text(w)}")
                if not same(clean(w), want):
                    R.finding("transform", e.func.qualname, f"{e.func.name} computes {text(w)}; it must {what} and nothing else", site(x.value, e), e.name)
                    

def product(t):
    """Operands of an inner product of two signals, or None."""
    n = short(t)
    if t.op == "ecall" and n in ("sum", "trace", "nansum") and t.args:
        u = t.args[0]
        if u.op == "bin" and u.name == "*":
            return u.args
        return product(u) if n == "trace" else None
    if t.op == "mcall" and n in ("sum", "trace") and t.args:
        u = t.args[0]
        if u.op == "bin" and u.name == "*":
            return u.args
        return product(u) if n == "trace" else None
    if (t.op == "bin" and t.name == "@") or (n in ("dot", "matmul", "vdot", "inner") and len(t.args) == 2):
        return t.args[:2]
    if n == "tensordot" and len(t.args) >= 2:
        return t.args[:2]
    return None


def strip_t(t):
    while (t.op == "attr" and t.name in ("T", "H")) or (t.op in ("mcall", "ecall") and short(t) in ("conj", "conjugate", "transpose") and len(t.args) == 1):
        t = t.args[0]
    return t


def energy(P, R):
    for r in each(P, R, where=lambda e: e.func.name == "dirichlet_energy" and e.cls is not None):
        e = r.entry
        src = r.params.get("x") or next((v for k, v in r.params.items() if k != "self"), None)
        for x in r.returns:
            R.count("energy_results")
            t = x.value
            scale = []
            while t.op == "bin" and t.name in ("*", "/"):
                W = Words(src, r.it)
                if W.indep(t.args[1]):
                    scale.append(show(t.args[1], 4))
                    t = t.args[0]
                elif t.name == "*" and W.indep(t.args[0]):
                    scale.append(show(t.args[0], 4))
                    t = t.args[1]
                else:
                    break
            ops = product(t)
            W = Words(src, r.it)
            if ops is None:
                R.count("energy_results_undecided")
                continue
            ws = []
            for o in ops:
                w = W.word(o)
                ws.append(w if w is not None else W.word(strip_t(o)))
            if any(w is None for w in ws):
                # x.T @ L @ x groups to the left
                a, b = ops
                w2 = W.word(b)
                inner = product(a)
                if w2 == [] and inner is not None and W.word(strip_t(inner[0])) == [] and tag(strip_t(inner[1])):
                    ws = [[("op", tag(strip_t(inner[1])), 1, False)], []]
                else:
                    R.count("energy_results_undecided")
                    continue
            ws = sorted((clean(w) for w in ws), key=len)
            R.sample(f"{e.name}: <{text(ws[0])}, {text(ws[1])}>")
            muls = [m[1] for w in ws for m in w if m[0] == "mul"] + scale
            ops_ = [m for w in ws for m in w if m[0] == "op"]
            good = ([m[1] for m in ops_] == ["L"]) or ([(m[1], m[2]) for m in ops_] == [("D", 0), ("D", 0)])
            if not good or muls:
                R.finding("energy", e.func.qualname, f"the Dirichlet energy is computed as <{text(ws[0])}, {text(ws[1])}>" + (f" scaled by {', '.join(scale)}" if scale else "") + ", not as the quadratic form of the Laplacian", site(x.value, e), e.name)


def exact(P, R):
    for e in P.entries:
        if e.func.name != "filter" or e.cls is None or not any(b.name == "Filter" for b in e.cls.mro()):
            continue
        if "method" not in e.func.args:
            continue
        try:
            r = P.run(e, overrides={"method": const("exact")})
        except Exception as ex:  # noqa: BLE001
            R.notes.append(f"not analysed: {e.name} exact ({type(ex).__name__})")
            continue
        names = [a for a in e.func.args if a != "self"]
        src = r.params.get("s") or r.params.get(names[0])
        for x in r.returns:
            R.count("exact_filter_results")
            w = Words(src, r.it).word(x.value)
            if w is None:
                R.count("exact_filter_results_undecided")
                continue
            R.sample(f"{e.name}: {text(w)[:120]}")
            ops = [m for m in w if m[0] == "op"]
            shape = [("op", "U", 1, False), "mul", ("op", "U", 0, True)]
            kinds = [m if m[0] == "op" else "mul" for m in w]
            if kinds != shape:
                R.finding("exact", e.func.qualname, f"exact filtering computes {text(w)[:200]}, not inverse transform · response · transform", site(x.value, e), e.name)
                continue
            resp = w[1][2] if len(w[1]) > 2 else None
            if resp is not None:
                for u, text_ in altered(resp):
                    R.finding("response-altered", f"{e.func.qualname}:{text_}", f"exact filtering multiplies with {text_} ({u!r}), not with the response at the eigenvalues of the graph", site(x.value, e), e.name)
            if resp is not None and not any(u.op == "attr" and u.name in ("e", "_e") for u in walk(resp)):
                if any(short(u) in ("linspace", "arange", "lmax", "_lmax") for u in walk(resp)):
                    R.finding("response", e.func.qualname, "exact filtering multiplies with the response at frequencies that are not the eigenvalues of the graph", site(x.value, e), e.name)
            del ops


RESHAPE = {"expand_dims", "reshape", "swapaxes", "transpose", "moveaxis", "rollaxis", "squeeze", "asarray", "asanyarray", "array", "ascontiguousarray", "broadcast_to", "atleast_1d", "atleast_2d",
           "atleast_3d", "copy", "astype", "stack", "vstack", "hstack", "concatenate", "column_stack", "ravel", "flatten", "list", "tuple", "float64", "asfarray", "newaxis", "iter",
           "row_stack", "dstack"}
ALTER = {"sqrt", "abs", "absolute", "square", "power", "exp", "log", "clip", "maximum", "minimum", "round", "around", "sort", "flip", "flipud", "fliplr", "roll", "cumsum", "diff", "real", "conj", "conjugate", "sign",
         "reversed", "sorted", "unique", "linspace", "arange", "where", "nan_to_num", "rint", "floor", "ceil", "normalize", "partition", "max", "min", "mean", "sum"}


def altered(resp):
    """What is done to the response between the kernels and the product, or to the eigenvalues before the kernels."""
    out, seen = [], set()
    stack = [(resp, "the response")]
    while stack:
        u, of = stack.pop()
        if (u.uid, of) in seen:
            continue
        seen.add((u.uid, of))
        n = short(u)
        if u.op in ("phi", "mu", "maybe", "list", "tuple", "starred", "comp"):
            stack += [(a, of) for a in (u.args[1:] if u.op == "phi" else u.args)]
        elif u.op == "store":
            stack += [(u.args[0], of)] + [(a, of) for a in u.args[2:3]]
        elif u.op == "attr" and u.name in ("T", "real"):
            if u.name == "real":
                out.append((u, f"the real part of {of}"))
            stack.append((u.args[0], of))
        elif u.op == "sub":
            i = u.args[1]
            for p in (i.args if i.op == "tuple" else [i]):
                if p.op == "slice" and any(a.op == "un" or a.op == "const" and isinstance(a.x, int) and a.x not in (0, 1) for a in p.args):
                    out.append((u, f"a part or another order of {of}"))
            stack.append((u.args[0], of))
        elif u.op == "ucall":
            stack += [(a, "the eigenvalues") for a in u.args[1:2]]
        elif u.op in ("bin", "inplace") and u.name.rstrip("=") in ("+", "-", "*", "/", "**"):
            if any(holds(a) for a in u.args[:2]):
                out.append((u, f"{of} after an arithmetic operation"))
        elif u.op == "un" and u.name == "-" and holds(u):
            out.append((u, f"{of} with the opposite sign"))
        elif u.op in ("ecall", "mcall") and u.args:
            if n in ALTER and holds(u.args[0]):
                out.append((u, f"{n}() of {of}"))
            elif n in RESHAPE:
                stack += [(a, of) for a in u.args[:1]]
    return out


def holds(t):
    """Does a value come from the kernels or from the eigenvalues?"""
    return any(u.op == "ucall" or u.op == "attr" and u.name in ("e", "_e") for u in walk(t))


# -- differential operator ------------------------------------------------------------


class Mono:
    """sign · product of atoms to rational powers."""

    def __init__(self, coef=Fraction(1), sign=1, atoms=None):
        self.coef2 = coef  # square of the absolute coefficient
        self.sign = sign
        self.atoms = atoms or {}

    def mul(self, o, k=1):
        at = dict(self.atoms)
        for a, n in o.atoms.items():
            at[a] = at.get(a, 0) + k * n
            if at[a] == 0:
                del at[a]
        return Mono(self.coef2 * o.coef2 ** k, self.sign * o.sign, at)

    def power(self, n):
        if n == Fraction(1, 2):
            import math
            c = self.coef2
            p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if p * p != c.numerator or q * q != c.denominator or self.sign < 0:
                return None
            return Mono(Fraction(p, q), 1, {a: k / 2 for a, k in self.atoms.items()})
        if n.denominator == 1:
            return Mono(self.coef2 ** int(n), self.sign if int(n) % 2 else 1, {a: k * n for a, k in self.atoms.items()})
        return None


def resolve(t, pick):
    """Follow the branches of a phi chosen by pick(cond) -> True/False/None."""
    k = 0
    while t.op == "phi" and k < 30:
        k += 1
        c = pick(t.args[0])
        if c is None:
            return t
        t = t.args[1 if c else 2]
    return t


def half(t, h, pick, depth=0):
    """The first (0) or second (1) half of an array of length 2n, or None."""
    if depth > 30:
        return None
    t = resolve(t, pick)
    n = short(t)
    if n in ("concatenate", "hstack", "append", "r_") and t.args:
        xs = t.args[0].args if t.args[0].op in ("list", "tuple") else t.args
        return (xs[h], Mono()) if len(xs) == 2 else None
    if n == "tile" and len(t.args) == 2 and t.args[1].op == "const" and t.args[1].x == 2:
        return t.args[0], Mono()
    if t.op == "store" and len(t.args) == 3:
        i = t.args[1]
        if i.op == "slice":
            lo, hi = i.args[0], i.args[1]
            which = 0 if (lo.op == "const" and lo.x in (None, 0)) and not (hi.op == "const" and hi.x is None) else 1 if (hi.op == "const" and hi.x is None) and not (lo.op == "const" and lo.x is None) else None
            if which is None:
                return None
            if which == h:
                return t.args[2], Mono()
            return half(t.args[0], h, pick, depth + 1)
        return None
    if t.op in ("bin", "inplace") and t.name.rstrip("=") in ("*", "/"):
        k = mono(t.args[1], pick)
        x = half(t.args[0], h, pick, depth + 1)
        if x is None or k is None:
            k = mono(t.args[0], pick) if t.op == "bin" and t.name == "*" else None
            x = half(t.args[1], h, pick, depth + 1)
            if x is None or k is None:
                return None
        return x[0], x[1].mul(k, -1 if t.name.rstrip("=") == "/" else 1)
    if t.op == "un" and t.name in ("-", "+"):
        x = half(t.args[0], h, pick, depth + 1)
        return x and (x[0], Mono(x[1].coef2, x[1].sign * (-1 if t.name == "-" else 1), x[1].atoms))
    if n in ("asarray", "array", "asanyarray", "copy", "astype") and t.args:
        return half(t.args[0], h, pick, depth + 1)
    return None


def atom(t, pick):
    """Canonical text of an atom: weights, degree at an endpoint..."""
    t = resolve(t, pick)
    if t.op == "attr" and t.name in ("data", "row", "col"):
        return t.name
    if t.op == "unpack" and t.args[0].op in ("ucall", "mcall", "ecall"):
        return {0: "row", 1: "col", 2: "data"}.get(t.name if isinstance(t.name, int) else t.x)
    if t.op == "sub" and len(t.args) == 2:
        g = tag(t.args[0])
        if g is None and t.args[0].op == "attr":
            g = t.args[0].name
        i = atom(t.args[1], pick)
        if g and i:
            return f"{g}[{i}]"
    return None


def mono(t, pick, depth=0):
    if depth > 40:
        return None
    t = resolve(t, pick)
    if t.op == "const":
        if isinstance(t.x, (int, float)) and not isinstance(t.x, bool) and t.x != 0:
            f = Fraction(t.x).limit_denominator(10 ** 6)
            return Mono(f * f, 1 if f > 0 else -1)
        return None
    a = atom(t, pick)
    if a:
        return Mono(atoms={a: Fraction(1)})
    n = short(t)
    if t.op == "un" and t.name in ("-", "+"):
        m = mono(t.args[0], pick, depth + 1)
        return m and Mono(m.coef2, m.sign * (-1 if t.name == "-" else 1), m.atoms)
    if t.op in ("bin", "inplace") and t.name.rstrip("=") in ("*", "/"):
        x, y = mono(t.args[0], pick, depth + 1), mono(t.args[1], pick, depth + 1)
        return x.mul(y, -1 if t.name.rstrip("=") == "/" else 1) if x and y else None
    if t.op == "ecall" and n in ("multiply", "divide", "true_divide") and len(t.args) == 2:
        x, y = mono(t.args[0], pick, depth + 1), mono(t.args[1], pick, depth + 1)
        return x.mul(y, 1 if n == "multiply" else -1) if x and y else None
    if n == "negative" and t.args:
        m = mono(t.args[0], pick, depth + 1)
        return m and Mono(m.coef2, -m.sign, m.atoms)
    if n == "sqrt" and t.args:
        m = mono(t.args[0], pick, depth + 1)
        if m is None:
            return None
        if not m.atoms and m.sign > 0:
            # square root of a plain number: its square is the number
            import math
            c = m.coef2
            p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            return Mono(Fraction(p, q), 1) if p * p == c.numerator and q * q == c.denominator else None
        return m.power(Fraction(1, 2))
    if (t.op == "bin" and t.name == "**") or n == "power":
        m, k = mono(t.args[0], pick, depth + 1), t.args[1]
        if m is None or k.op not in ("const", "un"):
            return None
        kx = k.x if k.op == "const" else (-k.args[0].x if k.name == "-" and k.args[0].op == "const" else None)
        if kx is None:
            return None
        f = Fraction(kx).limit_denominator(100)
        if f == Fraction(-1, 2):
            m = m.power(Fraction(1, 2))
            return m and Mono().mul(m, -1)
        return m.power(f)
    if t.op == "sub" and len(t.args) == 2 and t.args[1].op == "slice":
        i = t.args[1]
        lo, hi = i.args[0], i.args[1]
        h = 0 if lo.op == "const" and lo.x in (None, 0) and not (hi.op == "const" and hi.x is None) else 1 if hi.op == "const" and hi.x is None and not (lo.op == "const" and lo.x is None) else None
        if h is None:
            return None
        x = half(t.args[0], h, pick)
        if x is None:
            return None
        m = mono(x[0], pick, depth + 1)
        return m and m.mul(x[1])
    if n in ("asarray", "array", "asanyarray", "copy", "astype", "ravel") and t.args:
        return mono(t.args[0], pick, depth + 1)
    return None


def picker(lap, directed):
    def pick(c):
        if c.op == "un" and c.name == "not":
            v = pick(c.args[0])
            return None if v is None else not v
        if c.op == "cmp" and c.name in ("==", "!="):
            names = [a.name for a in c.args if a.op == "attr"]
            lits = [a.x for a in c.args if a.op == "const"]
            if "lap_type" in names and lits:
                return (lits[0] == lap) == (c.name == "==")
        if c.op == "cmp":
            return None
        ls = leaves(c)
        if any(u.op == "attr" and u.name == "_directed" for u in ls) or (c.op in ("ucall", "mcall") and c.name and str(c.name).endswith("is_directed")):
            return directed
        return None
    return pick


def operator(P, R):
    for e in P.entries:
        if e.func.name != "compute_differential_operator" or e.cls is None:
            continue
        r = P.run(e)
        stores = [ev for ev in r.events if ev.kind == "store" and ev.info[0] == "_D"]
        for ev in stores:
            for lap in ("combinatorial", "normalized"):
                for directed in (False, True):
                    R.count("differential_operator_cases")
                    pick = picker(lap, directed)
                    v = resolve(ev.info[1], pick)
                    while v.op in ("mcall", "mutcall", "mutview") and v.args and short(v) in ("tocsc", "tocsr", "tocoo", "copy", "eliminate_zeros", "sum_duplicates", ""):
                        v = resolve(v.args[0], pick)
                    where = f"{lap}, {'directed' if directed else 'undirected'}"
                    res = one(v, pick, lap, directed)
                    if res is None:
                        R.count("differential_operator_cases_undecided")
                    elif res:
                        R.finding("operator", f"{e.func.qualname} ({where})", f"the differential operator does not factor the Laplacian: {res}", ev.site, e.name)
                    else:
                        R.sample(f"{e.func.qualname} ({where}): columns are ∓√(weight{'/degree' if lap == 'normalized' else ''}){'/√2' if directed else ''}")


def one(v, pick, lap, directed):
    if not short(v).endswith(("_matrix", "_array")) or not v.args or v.args[0].op != "tuple" or len(v.args[0].args) != 2:
        return None
    vals, ij = v.args[0].args
    if ij.op != "tuple" or len(ij.args) != 2:
        return None
    rows = [half(ij.args[0], h, pick) for h in (0, 1)]
    cols = [half(ij.args[1], h, pick) for h in (0, 1)]
    if None in rows or None in cols:
        return None
    ends = [atom(x[0], pick) for x in rows]
    if None in ends:
        return None
    if sorted(ends) != ["col", "row"]:
        return f"both ends of an edge are its {ends[0]}"
    if skey(cols[0][0]) != skey(cols[1][0]):
        return None
    ms = []
    for h in (0, 1):
        x = half(vals, h, pick)
        m = x and mono(x[0], pick)
        if not m:
            return None
        ms.append(m.mul(x[1]))
    if ms[0].sign == ms[1].sign:
        return "the two ends of an edge have the same sign"
    want2 = Fraction(1, 2) if directed else Fraction(1)
    for end, m in zip(ends, ms):
        want = {"data": Fraction(1, 2)}
        if lap == "normalized":
            want[f"dw[{end}]"] = Fraction(-1, 2)
        if m.atoms != want:
            return f"the entry at the {end} end is " + " ".join(f"{a}^{k}" for a, k in m.atoms.items()) + ", expected " + " ".join(f"{a}^{k}" for a, k in want.items())
        if abs(float(m.coef2) - float(want2)) > 1e-6:
            return f"the square of the entry at the {end} end is {m.coef2} of the weight, expected {want2}"
    return ""


def check(P, R):
    R.rule("The value each transform returns is normalised to an operator word (matrix of the graph, contracted axis, conjugation, extra factors) over dot, @, matmul, tensordot, einsum and transposition; "
           "transform and inverse must be U^H and U, gradient and divergence D^T and D, the Dirichlet energy <x, L x>, exact filtering U·response(e)·U^H, and the entries of the differential operator, as monomials in weights and "
           "degrees for each Laplacian type and directedness, must be opposite in sign with squares summing to the Laplacian. Expressions outside this language are counted as undecided.")
    R.assumptions.append("The differential operator is real; the stored matrices are what the attributes U, D, L and e hold.")
    transforms(P, R)
    energy(P, R)
    exact(P, R)
    operator(P, R)
    R.need("transform_results", 4)
    R.need("differential_operator_cases", 1)
