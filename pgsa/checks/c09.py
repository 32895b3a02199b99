"""C09: Laplacians are symmetric and annihilate what they must, for any adjacency."""

from fractions import Fraction

from ..entries import CASES, ONE, Entries, Tolerance, Undecided, index, padd, pmul, pscale, solve, swapped, var
from ..terms import const
from .common import is_gf

HALF = Fraction(1, 2)
AVG = padd(pscale(var("w"), HALF), pscale(var("x"), HALF))
W_FIELDS = {"_adjacency", "W"}


def text(p):
    def mono(m):
        s = []
        for a, e in m:
            n = {"w": "W[i,j]", "x": "W[j,i]"}.get(a[0]) or f"sum{a[1]}[{a[2]}]"
            s.append(n if e == 1 else f"{n}^{e}")
        return "*".join(s)
    if not p:
        return "0"
    return " + ".join((str(c) if not m else mono(m) if c == 1 else f"{c}*{mono(m)}") for m, c in sorted(p.items(), key=repr))


def where(c):
    o = {(-1): "<", 0: "=", 1: ">"}
    s = "on the diagonal" if not c.pos else ("above" if c.pos > 0 else "below") + " the diagonal"
    return f"{s}, where W[i,j] {o[c.w]} 0" + ("" if c.pos == 0 else f", W[j,i] {o[c.x]} 0 and W[i,j] {o[c.c]} W[j,i]")


def combined(E, p):
    """Sums over rows with the same factor gathered in one."""
    out, by = {}, {}
    for m, c in p.items():
        lin = [(a, e) for a, e in m if a[0] == "S" and e > 0]
        if not lin:
            out[m] = out.get(m, 0) + c
            continue
        if len(lin) > 1 or lin[0][1] != 1:
            raise Undecided("product of sums")
        rest = tuple((a, e) for a, e in m if (a, e) not in lin)
        by.setdefault((rest, lin[0][0][2]), {})[((("S", lin[0][0][1], "i"), 1),)] = c
    for (rest, i), v in by.items():
        f = E.summand(v)
        out = padd(out, pmul(index(E.atom(f), i), {rest: Fraction(1)}))
    return out


def same(E, a, b, case):
    return case.norm(combined(E, case.norm(a))) == case.norm(combined(E, case.norm(b)))


def degree(E):
    return E.reduce(None, 1, lambda c: c.norm(AVG))


def laplacian(E, kind, c):
    S = degree(E)
    if kind == "combinatorial":
        return padd(index(S, "i") if c.pos == 0 else {}, AVG, -1)
    h = E.power(S, -HALF)
    return padd(index(E.power(S, 0), "i") if c.pos == 0 else {}, pmul(AVG, pmul(index(h, "i"), index(h, "j"))), -1)


def rowsum(E, L):
    """Summand of the sums of the rows of a matrix, as a function of the case; None when it is not of that form."""
    out = {}
    S = None
    for c in E.cases():
        p = L[c.key()]
        s = {m: k for m, k in p.items() if any(a[0] == "S" for a, _ in m)}
        if c.pos != 0:
            if s:
                return None
        else:
            if any(len(m) != 1 or m[0][1] != 1 for m in s):
                return None
            if S is None:
                S = s
            elif S != s:
                return None
        out[c.key()] = {m: k for m, k in p.items() if m not in s}
    f = E.summand(S) if S else (lambda c: {})
    if f is None:
        return None
    return {c.key(): c.norm(padd(out[c.key()], f(c))) for c in E.cases()}


def graph_w(it, me):
    def is_w(t):
        return t.op == "attr" and t.name in W_FIELDS and is_gf(it, t.args[0])
    return is_w


def check_laplacian(P, R, e, kind):
    r = P.run(e, overrides={"lap_type": const(kind)})
    me = r.params.get("self")
    vals = []
    for x in r.returns:
        v = x.state.heap.get((me.ident, "L")) if me is not None else None
        if v is None or not hasattr(v, "op"):
            continue
        v = x.state.ver.get(v.ident, v)
        if v.uid not in {y.uid for y, _ in vals}:
            ev = [ev for ev in r.events if ev.kind == "store" and ev.info[0] == "L"]
            vals.append((v, ev[-1].site if ev else None))
    for v, site in vals:
        R.count("laplacians")
        try:
            outs = solve(lambda fl: Entries(r.it, graph_w(r.it, me), True, fl), lambda E: (E, {c.key(): E.mat(v, c) for c in E.cases()}))
            for fl, E, (_, L) in outs:
                R.count("laplacian_cases", len(L))
                verdict(R, e, kind, E, L, site)
        except (Undecided, Tolerance) as ex:
            R.count("laplacians_undecided")
            R.notes.append(f"undecided: {e.name} {kind}: {ex}")


def verdict(R, e, kind, E, L, site):
    flag = " for a graph taken as undirected" if any(v is False for k, v in E.flags.items() if k[0] != "sign") else ""
    if any(v is False for k, v in E.flags.items() if k[0] == "sign"):
        if kind == "normalized":
            return  # the square root of a negative degree is not defined
        flag += " with negative degrees"
    for c in E.cases():
        a, b = L[c.key()], swapped(L[c.swap().key()])
        if not same(E, a, b, c):
            R.finding("asymmetric", f"{e.func.qualname}:{kind}", f"the {kind} Laplacian is not symmetric{flag}: {where(c)}, its entry (i, j) is {text(c.norm(a))} and its entry (j, i) is {text(c.norm(b))}", site, e.name)
            return
    R.count("symmetric_laplacians")
    if kind == "combinatorial":
        s = rowsum(E, L)
        if s is not None:
            for c in E.cases():
                if s[c.key()]:
                    R.finding("row-sums", f"{e.func.qualname}:{kind}", f"the rows of the combinatorial Laplacian do not sum to zero{flag}: the neighbour j adds {text(s[c.key()])} {where(c)}", site, e.name)
                    return
            R.count("zero_row_sums")
    for c in E.cases():
        want = laplacian(E, kind, c)
        if not same(E, L[c.key()], want, c):
            R.finding("entries", f"{e.func.qualname}:{kind}", f"the {kind} Laplacian is not what its definition says{flag}: its entry is {text(c.norm(combined(E, L[c.key()])))} instead of {text(c.norm(combined(E, want)))} {where(c)}", site, e.name)
            return
    R.count("laplacians_as_defined")


def check_degrees(P, R, e):
    r = P.run(e)
    me = r.params.get("self")
    for x in r.returns:
        R.count("degrees")
        try:
            outs = solve(lambda fl: Entries(r.it, graph_w(r.it, me), True, fl), lambda E: E.vec(x.value))
            for fl, E, v in outs:
                f = E.summand(v)
                if f is None:
                    raise Undecided("degree")
                for c in E.cases():
                    if e.func.name == "dw":
                        want = c.norm(AVG)
                    else:
                        want = pscale(ONE, HALF * (bool(c.w) + bool(c.x)))
                    if f(c) != want:
                        R.finding("degree", e.func.qualname, f"{e.func.name} is not the average of the in and out degrees: the vertex j adds {text(f(c))} instead of {text(want)} to the degree of i {where(c)}", None, e.name)
                        break
                else:
                    R.count("degrees_as_defined")
        except (Undecided, Tolerance) as ex:
            R.count("degrees_undecided")
            R.notes.append(f"undecided: {e.name}: {ex}")


def check_directed(P, R, e):
    r = P.run(e)
    me = r.params.get("self")
    for x in r.returns:
        R.count("directedness")
        E = Entries(r.it, graph_w(r.it, me), True, {})
        try:
            t = E.lazy(x.value)
            neg = False
            while t.op == "un" and t.name == "not" or t.op == "ecall" and t.name == "builtins.bool" and t.args:
                neg ^= t.op == "un"
                t = E.lazy(t.args[0])
            if t.op == "const":
                raise Undecided("constant")
            m, n = E.existence(t)
            sig = dict(E.exist_sig(m))
        except (Undecided, Tolerance) as ex:
            R.count("directedness_undecided")
            R.notes.append(f"undecided: {e.name}: {ex}")
            continue
        if neg ^ n:
            R.finding("directedness", e.func.qualname, "is_directed answers the opposite of whether the weight matrix is symmetric", None, e.name)
            continue
        for c in CASES:
            g = sig[c.key()]
            if g == "tol":
                R.finding("directedness", e.func.qualname, f"is_directed ignores small differences between W[i,j] and W[j,i] ({where(c)}): the Laplacian, built from W alone then, is not symmetric", None, e.name)
                break
            if c.c and not g and not sig[c.swap().key()] or not c.c and g:
                R.finding("directedness", e.func.qualname, f"is_directed does not tell whether the weight matrix is symmetric {where(c)}", None, e.name)
                break
        else:
            R.count("directedness_as_defined")


def wanted(method, c):
    """Entry of the symmetrized matrix, or None when the documentation leaves it open."""
    w, x = c.norm(var("w")), c.norm(var("x"))
    if method == "average":
        return c.norm(AVG)
    if method == "maximum":
        return w if c.c >= 0 else x
    if method == "fill":
        return x if not c.w else w if not c.x else c.norm(AVG)
    if method == "tril":
        return x if c.pos > 0 else w
    if method == "triu":
        return x if c.pos < 0 else w
    return None


def check_symmetrize(P, R, e, method):
    r = P.run(e, overrides={"method": const(method)})
    src = r.params.get("W") or next(iter(r.params.values()))
    for x in r.returns:
        for sp in (True, False):
            pc = x.state.path
            try:
                outs = solve(lambda fl: Entries(r.it, lambda t: t is src or t.op == "param" and t.uid == src.uid, sp, fl), lambda E: under(E, pc) and {c.key(): E.mat(x.value, c) for c in E.cases()})
            except (Undecided, Tolerance) as ex:
                R.count("symmetrizations_undecided")
                R.notes.append(f"undecided: {e.name} {method} {'sparse' if sp else 'dense'}: {ex}")
                continue
            for fl, E, M in outs:
                if not M:
                    continue
                R.count("symmetrizations")
                kind = f"{'sparse' if sp else 'dense'} matrix with method '{method}'"
                for c in E.cases():
                    a, b = M[c.key()], swapped(M[c.swap().key()])
                    if not same(E, a, b, c):
                        R.finding("asymmetric", f"{e.func.qualname}:{method}", f"symmetrizing a {kind} gives an asymmetric one: {where(c)}, its entry (i, j) is {text(c.norm(a))} and its entry (j, i) is {text(c.norm(b))}", None, e.name)
                        break
                else:
                    R.count("symmetric_results")
                    for c in E.cases():
                        want = wanted(method, c)
                        if want is not None and not same(E, M[c.key()], want, c):
                            R.finding("symmetrization", f"{e.func.qualname}:{method}", f"symmetrizing a {kind} gives {text(c.norm(M[c.key()]))} instead of {text(want)} {where(c)}", None, e.name)
                            break


def under(E, pc):
    """Can the path be taken?"""
    for c, v in pc:
        try:
            if E.truth(c) != v:
                return False
        except Undecided:
            continue
    return True


def check(P, R):
    R.rule("The Laplacian each operation stores, the degrees and the symmetrized matrix are read as expressions of the weights, from the source, and their entry (i, j) is written as a polynomial in W[i,j], W[j,i] "
           "and sums of rows, in each of the finitely many orders of 0, W[i,j] and W[j,i] and each position relative to the diagonal; under the truth of each test of the whole matrix (a graph is directed). "
           "The polynomials of opposite entries agree; those of a row of the combinatorial Laplacian sum to zero; and both Laplacians, the degrees and each symmetrization are those of their definition.")
    for e in P.entries:
        if e.func.name == "compute_laplacian" and e.cls is not None and "lap_type" in e.func.args:
            for kind in ("combinatorial", "normalized"):
                check_laplacian(P, R, e, kind)
        elif e.func.name in ("dw", "d") and e.cls is not None and e.cls.name == "Graph":
            check_degrees(P, R, e)
        elif e.func.name == "is_directed" and e.cls is not None:
            check_directed(P, R, e)
        elif e.func.name == "symmetrize" and e.cls is None and "method" in e.func.args:
            for m in ("average", "maximum", "fill", "tril", "triu"):
                check_symmetrize(P, R, e, m)
    R.need("laplacians", 1)
    R.need("symmetrizations", 1)
