"""C11: each filter of a bank has its own parameters and a pointwise response."""

import ast

from ..terms import leaves, skey, walk
from .common import each

# -- (a) captured variables ------------------------------------------------------------------

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)


def free_names(fn):
    """Names a function reads when it is called (not those its defaults read)."""
    bound, read = set(), set()
    a = fn.args
    bound |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    nonlocal_ = set()

    def visit(n):
        if isinstance(n, FUNCS):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                visit(d)
            if not isinstance(n, ast.Lambda):
                bound.add(n.name)
            read.update(free_names(n))
            return
        if isinstance(n, COMPS):
            inner = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            sub = set()
            for x in ast.walk(n):
                if isinstance(x, FUNCS):
                    sub |= free_names(x)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    sub.add(x.id)
            read.update(sub - inner)
            return
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            nonlocal_.update(n.names)
        if isinstance(n, ast.Name):
            (read if isinstance(n.ctx, ast.Load) else bound).add(n.id)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for b in body:
        visit(b)
    return (read - bound) | (read & nonlocal_)


def targets(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def stores_in(stmts):
    """Names bound by the statements, in their own scope."""
    out = set()

    def visit(n):
        if isinstance(n, FUNCS):
            if not isinstance(n, ast.Lambda):
                out.add(n.name)
            return
        if isinstance(n, COMPS):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in stmts:
        visit(s)
    return out


def consumed(parents, fn):
    """Is the function only used immediately (argument of a call that does not keep it, or called at once)?"""
    p = parents.get(fn)
    if isinstance(p, ast.keyword):
        p2 = parents.get(p)
        if isinstance(p2, ast.Call):
            return callee(p2) in IMMEDIATE
    if isinstance(p, ast.Call):
        if p.func is fn:
            return True
        return callee(p) in IMMEDIATE
    return False


IMMEDIATE = {"sorted", "sort", "min", "max", "minimize", "minimize_scalar", "apply_along_axis", "reduce", "any", "all", "sum", "argmin", "quad", "root", "brentq", "fmin", "sub",
             "vectorize_now", "debug", "info", "fromfunction", "list_map", "allclose", "norm"}


def callee(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")


def name_uses(body, name):
    """Loads of a name within statements, and the kinds of uses."""
    return [n for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]


def captures(P, R):
    for m in P.prog.modules.values():
        parents = {c: n for n in ast.walk(m.tree) for c in ast.iter_child_nodes(n)}
        for fn in ast.walk(m.tree):
            if not isinstance(fn, FUNCS):
                continue
            # innermost enclosing function and the loops / comprehensions in between
            chain, x, comp_first = [], parents.get(fn), None
            child = fn
            while x is not None and not isinstance(x, FUNCS) and not isinstance(x, ast.ClassDef):
                if isinstance(x, (ast.For, ast.While, ast.AsyncFor)) and child not in getattr(x, "orelse", []) and child is not getattr(x, "iter", None):
                    chain.append(x)
                elif isinstance(x, COMPS):
                    chain.append(x)
                child, x = x, parents.get(x)
            scope = x
            if scope is None or isinstance(scope, ast.ClassDef):
                continue
            R.count("closures")
            free = free_names(fn)
            who = f"{m.name}:{getattr(scope, 'name', 'lambda')}"
            for lp in chain:
                R.count("closures_in_loops")
                if isinstance(lp, COMPS):
                    changing = {n for g in lp.generators for n in targets(g.target)}
                    in_element = True
                else:
                    changing = stores_in(lp.body) | (targets(lp.target) if isinstance(lp, (ast.For, ast.AsyncFor)) else set())
                    in_element = False
                late = (free & changing) - ({fn.name} if not isinstance(fn, ast.Lambda) else set())
                # other local functions of the loop are late bound only if they capture something that changes
                late = {v for v in late if not only_stable_def(lp, v, changing)} if not in_element else late
                if not late or consumed(parents, fn) or not accumulated(parents, fn, lp):
                    continue
                R.finding("late-binding", f"{who}:{','.join(sorted(late))}",
                          f"a function created in a loop of {who} reads {', '.join(sorted(late))}, which the following iterations change: every filter or callback built there uses the last value",
                          f"{m.path}:{fn.lineno}")
                break
            # rebound after creation
            if not chain and isinstance(scope, (ast.FunctionDef, ast.AsyncFunctionDef)):
                rebound(R, m, parents, scope, fn, free, who)


def only_stable_def(lp, v, changing):
    """`v` is a function defined once in the loop body that itself captures nothing that changes."""
    defs = [n for n in ast.walk(lp) if isinstance(n, ast.FunctionDef) and n.name == v]
    if not defs:
        return False
    return all(not (free_names(d) & (changing - {v})) for d in defs)


def accumulated(parents, fn, lp):
    """Is the function kept beyond its iteration: added to a container, stored under an index, yielded, an element of a comprehension?"""
    names = set()
    p = parents.get(fn)
    starts = [fn]
    if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        names.add(fn.name)
        starts = []
    elif isinstance(p, ast.Assign):
        names |= {t.id for t in p.targets if isinstance(t, ast.Name)}
    if names:
        starts += [n for n in ast.walk(lp) if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load)]
    return any(kept(parents, n, lp) for n in starts)


def kept(parents, n, lp):
    p = parents.get(n)
    while isinstance(p, (ast.List, ast.Tuple, ast.Dict, ast.Starred, ast.IfExp)) or isinstance(p, ast.Call) and n is not p.func and callee(p) in ("partial", "list", "tuple", "cast", "wraps"):
        n, p = p, parents.get(p)
    if isinstance(p, ast.Call) and n in p.args and isinstance(p.func, ast.Attribute) and p.func.attr in ("append", "insert", "add", "appendleft", "extend", "setdefault"):
        return True
    if isinstance(p, ast.AugAssign) and p.value is n:
        return True
    if isinstance(p, ast.Assign) and p.value is n and any(isinstance(t, ast.Subscript) for t in p.targets):
        return True
    if isinstance(p, ast.BinOp) and isinstance(n, ast.List):
        return True
    if isinstance(p, ast.Yield):
        return True
    if isinstance(p, COMPS) and p is lp and n is (p.value if isinstance(p, ast.DictComp) else p.elt):
        return True
    return False


def rebound(R, m, parents, scope, fn, free, who):
    stmt = fn
    while parents.get(stmt) is not scope:
        stmt = parents.get(stmt)
        if stmt is None:
            return
        if isinstance(stmt, (ast.If, ast.Try, ast.With)):
            return  # branch-local creation: order not evident
    if consumed(parents, fn) or replaced(parents, scope, fn):
        return
    i = scope.body.index(stmt) if stmt in scope.body else None
    if i is None:
        return
    before = stores_in(scope.body[: i + 1]) | {x.arg for x in scope.args.args + scope.args.kwonlyargs}
    own = {t.id for t in getattr(parents.get(fn), "targets", []) if isinstance(t, ast.Name)}
    if isinstance(fn, ast.FunctionDef):
        own.add(fn.name)
    for v in free:
        if v not in before or v in own:
            continue
        for s in scope.body[i + 1:]:
            if v in stores_in([s]) and not self_update_only(s, v):
                # is the function still used afterwards?  its value must not be recreated as well
                R.finding("rebound", f"{who}:{v}", f"a function created in {who} reads {v}, which is changed after it was created", f"{m.path}:{fn.lineno}")
                return


def self_update_only(s, v):
    """The function itself (same name) is redefined: closures calling the name are meant to see it."""
    return isinstance(s, ast.FunctionDef) and s.name == v


def replaced(parents, scope, fn):
    """The function sits in a list literal at a position that is assigned again later."""
    p = parents.get(fn)
    if not isinstance(p, ast.List):
        return False
    j = p.elts.index(fn)
    a = parents.get(p)
    if not (isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name)):
        return False
    name = a.targets[0].id
    for n in ast.walk(scope):
        if isinstance(n, ast.Assign) and n.lineno > a.lineno:
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name and isinstance(t.slice, ast.Constant) and t.slice.value == j:
                    return True
    return False


# -- (b) pointwise responses -----------------------------------------------------------------

ELEM = set("""abs absolute add subtract multiply divide true_divide floor_divide power float_power mod remainder fmod negative positive reciprocal square sqrt cbrt exp exp2 expm1 log log2
log10 log1p sin cos tan arcsin arccos arctan arctan2 sinh cosh tanh arcsinh arccosh arctanh hypot maximum minimum fmax fmin sign heaviside floor ceil rint trunc fix clip where
logical_and logical_or logical_not logical_xor equal not_equal less less_equal greater greater_equal isnan isinf isfinite real imag conj conjugate nan_to_num sinc i0 round around
asarray asanyarray array ascontiguousarray copy float64 float32 deg2rad rad2deg radians degrees bitwise_and bitwise_or invert select piecewise angle interp polyval real_if_close
atleast_1d signbit copysign isclose""".split())
REDUCE = set("""sum mean max min amax amin std var median ptp prod average nansum nanmax nanmin nanmean argmax argmin norm trapz trapezoid percentile quantile any all count_nonzero
cumsum cumprod sort argsort unique diff gradient convolve correlate fft ifft roll flip histogram searchsorted_x median nanmedian linalg_norm ediff1d flipud fliplr partition dot vdot inner""".split())
AXIS_OK = set("sum mean max min amax amin std var median ptp prod average nansum nanmax nanmin nanmean norm any all argmax argmin cumsum cumprod sort nanmedian".split())
ALLOC = {"zeros", "ones", "empty", "full"}
ALLOC_LIKE = {"zeros_like", "ones_like", "empty_like", "full_like"}


class Pointwise:
    """Class of each value with respect to the vector of frequencies `x`.

    C constant, H computed from the shape of x, P one value per frequency, S values of selected frequencies, F filters x frequencies,
    FT frequencies x filters, G mixes frequencies or depends on their position or number, U unknown.
    """

    def __init__(self, x):
        self.x = x
        self.memo = {}
        self.why = {}

    def join(self, ts):
        ts = set(ts) - {None}
        if "G" in ts:
            return "G"
        ts.discard("C") if len(ts) > 1 else None
        if len(ts) == 1:
            return ts.pop()
        if not ts:
            return "C"
        return "U"

    def ty(self, t):
        # iterative post-order; cycles through mu nodes start optimistic
        stack = [(t, False)]
        while stack:
            u, done = stack.pop()
            if not done:
                if u.uid in self.memo:
                    continue
                self.memo[u.uid] = None
                stack.append((u, True))
                for c in u.children():
                    if c.uid not in self.memo:
                        stack.append((c, False))
            else:
                self.memo[u.uid] = self.rule(u)
        for _ in range(3):
            ch = False
            for u in list(self._mus(t)):
                n = self.rule(u)
                if n != self.memo[u.uid]:
                    self.memo[u.uid] = n
                    ch = True
            if not ch:
                break
            self._again(t)
        return self.memo[t.uid] or "C"

    def _mus(self, t):
        return [u for u in walk(t) if u.op == "mu"]

    def _again(self, t):
        order = []
        seen = set()
        stack = [(t, False)]
        while stack:
            u, d = stack.pop()
            if d:
                order.append(u)
                continue
            if u.uid in seen:
                continue
            seen.add(u.uid)
            stack.append((u, True))
            stack.extend((c, False) for c in u.children())
        for u in order:
            self.memo[u.uid] = self.rule(u)

    def g(self, t):
        return self.memo.get(t.uid)

    def bad(self, u, text):
        self.why.setdefault(u.uid, (u, text))
        return "G"

    def shape_kind(self, t):
        """Shape tuples: 'P' for the shape of x, 'F' with leading axes, None otherwise."""
        if t.op == "attr" and t.name == "shape" or t.op == "ecall" and t.name == "numpy.shape":
            return {"P": "P", "F": "F", "FT": "FT"}.get(self.g(t.args[0]))
        if t.op == "ecall" and t.name in ("builtins.list", "builtins.tuple") and t.args:
            return self.shape_kind(t.args[0])
        if t.op == "bin" and t.name == "+":
            a, b = t.args
            if self.shape_kind(b) == "P" and a.op in ("list", "tuple") and len(a.args) == 1:
                return "F"
            if self.shape_kind(a) == "P" and b.op in ("list", "tuple") and len(b.args) == 1:
                return "FT"
        if t.op in ("tuple", "list") and t.args:
            if any(a.op == "starred" for a in t.args):
                s = [a for a in t.args if a.op == "starred"]
                if self.shape_kind(s[0].args[0]) == "P":
                    return "F" if t.args[-1].op == "starred" and len(t.args) == 2 else "P" if len(t.args) == 1 else None
            if len(t.args) == 1 and self.sizelike(t.args[0]):
                return "P"
            if len(t.args) == 2 and self.sizelike(t.args[1]) and not self.sizelike(t.args[0]):
                return "F"
            if len(t.args) == 2 and self.sizelike(t.args[0]) and not self.sizelike(t.args[1]):
                return "FT"
        if self.sizelike(t):
            return "P"
        return None

    def sizelike(self, t):
        if t.op == "ecall" and t.name in ("builtins.len", "numpy.size") and t.args:
            return self.g(t.args[0]) == "P"
        if t.op == "attr" and t.name == "size":
            return self.g(t.args[0]) == "P"
        if t.op == "sub" and self.shape_kind(t.args[0]) == "P":
            return True
        return False

    def elem(self, u, ts):
        ts = [x or "C" for x in ts]
        s = set(ts)
        if "G" in s:
            return "G"
        if "U" in s:
            return "U"
        big = s & {"P", "S", "F", "FT"}
        if "H" in s and big:
            return self.bad(u, "uses the number of frequencies")
        if not big:
            return "H" if "H" in s else "C"
        if len(big) == 1:
            return big.pop()
        if big == {"P", "F"}:
            return "F"
        return "U"

    def reduce(self, u, short, a, axis):
        t = self.g(a)
        if t in (None, "C"):
            return "C"
        if t in ("G", "U", "H"):
            return t
        if short in AXIS_OK and axis is not None and axis.op == "const" and isinstance(axis.x, int):
            if t == "F":
                if axis.x == 0:
                    return "F" if short in ("cumsum", "cumprod", "sort") else "P"
                return self.bad(u, f"{short} over the frequencies")
            if t == "FT":
                if axis.x in (1, -1):
                    return "FT" if short in ("cumsum", "cumprod", "sort") else "P"
                return self.bad(u, f"{short} over the frequencies")
            return self.bad(u, f"{short} over the frequencies")
        if axis is not None and not (axis.op == "const" and axis.x is None):
            return "U"
        return self.bad(u, f"{short} over the frequencies")

    def rule(self, u):
        if u is self.x or u.op == "param" and u.ident == self.x.ident:
            return "P"
        op = u.op
        g = self.g
        if op in ("param", "const", "func", "class", "ext", "module", "obj", "opaque", "boundmeth", "unk"):
            return "C"
        if op == "phi":
            c = g(u.args[0])
            a, b = g(u.args[1]), g(u.args[2])
            if c == "G" and skey(u.args[1]) != skey(u.args[2]) and not {a, b} <= {None}:
                if a in ("P", "S", "F", "FT") or b in ("P", "S", "F", "FT"):
                    return self.bad(u, "a choice that depends on the other frequencies")
            if skey(u.args[1]) != skey(u.args[2]) and {a, b} <= {"P", "S", "F", "FT"} and self.counts(u.args[0]):
                return self.bad(u, "a choice that depends on the number of frequencies")
            return self.join([a, b])
        if op == "mu":
            return self.join([g(a) for a in u.args])
        if op == "maybe":
            return g(u.args[0])
        if op in ("bin", "inplace"):
            if u.name == "@":
                ts = {g(a) for a in u.args}
                return "C" if ts <= {None, "C"} else "G" if "G" in ts else "U"
            if op == "bin" and u.name == "+" and self.shape_kind(u):
                return "H"
            return self.elem(u, [g(a) for a in u.args[:2]])
        if op == "un":
            return g(u.args[0])
        if op in ("cmp", "bool"):
            ts = [g(a) for a in u.args]
            if set(ts) & {"H"} and not set(ts) & {"P", "S", "F", "FT", "G"}:
                return "C"  # tests on the shape select the form, not the value
            if op == "cmp" and u.name in ("is", "is not", "in", "not in"):
                return "C"
            return self.elem(u, ts)
        if op == "outval":
            return self.join([g(a) for a in u.args[1:]]) if len(u.args) > 1 else self.join([g(a) for a in u.args])
        if op == "attr":
            b = g(u.args[0])
            if u.name in ("shape", "size", "ndim", "dtype", "nbytes"):
                return "H" if b in ("P", "S", "F", "FT") else "C"
            if u.name == "T":
                return {"F": "FT", "FT": "F"}.get(b, b)
            if u.name in ("real", "imag"):
                return b
            return "C" if b in (None, "C", "H") else "U"
        if op == "slice":
            return self.join([g(a) for a in u.args])
        if op in ("tuple", "list"):
            return self.join([g(a) for a in u.args])
        if op == "sub":
            return self.sub(u)
        if op == "store":
            return self.store(u)
        if op == "elem":
            return "C" if g(u.args[0]) in (None, "C", "H") else "U"
        if op in ("ecall", "mcall"):
            return self.call(u)
        if op == "ucall":
            ts = [g(a) for a in u.args[1:]]
            s = set(ts) - {None, "C", "H"}
            if not s:
                return "C"
            if s == {"P"}:
                return "P"  # a kernel given by the user
            return "G" if "G" in s else "U"
        ts = {g(c) for c in u.children()} - {None, "C", "H"}
        return "C" if not ts else "G" if ts == {"G"} else "U"

    def counts(self, c):
        """A condition on the number of frequencies (but for there being none)."""
        while c.op == "un" and c.name == "not":
            c = c.args[0]
        if c.op == "bool":
            return any(self.counts(a) for a in c.args)
        if c.op != "cmp" or len(c.args) != 2:
            return False
        for a, b in (c.args, c.args[::-1]):
            if self.sizelike(a) and b.op == "const" and isinstance(b.x, (int, float)) and b.x != 0 and not (b.x == 1 and c.name in ("<", ">=")):
                return True
        return False

    def index(self, i):
        parts = i.args if i.op == "tuple" else [i]
        return list(parts)

    def plain(self, p):
        return p.op == "slice" and all(a.op == "const" and a.x is None for a in p.args) or p.op == "const" and (p.x is Ellipsis or p.x is None) or p.op == "ext" and p.name == "numpy.newaxis"

    def sub(self, u):
        b = self.g(u.args[0])
        if b in (None, "C", "H", "G", "U"):
            if b in (None, "C") and self.g(u.args[1]) in ("P", "S"):
                return "P"  # table lookup
            return b or "C"
        parts = self.index(u.args[1])
        if b in ("P", "S"):
            if all(self.plain(p) for p in parts):
                return "P" if len(parts) == 1 else "U"
            if len(parts) == 1:
                t = self.g(parts[0])
                if t == "P":
                    return "S"
                if parts[0].op == "const" and isinstance(parts[0].x, int) or parts[0].op == "un" and parts[0].args[0].op == "const":
                    return self.bad(u, "reads the value at a fixed position")
                if parts[0].op == "slice" and all(a.op == "const" or a.op == "un" for a in parts[0].args):
                    return self.bad(u, "shifts, reverses or truncates the frequencies")
                if t == "G":
                    return self.bad(u, "reorders the frequencies")
            return "U"
        if b == "F":
            if len(parts) == 1 and not self.plain(parts[0]) and self.g(parts[0]) in (None, "C") and parts[0].op != "slice":
                return "P"
            if all(self.plain(p) for p in parts):
                return "F" if len(parts) == 1 else "U"
        if b == "FT" and len(parts) == 2 and self.plain(parts[0]) and parts[1].op != "slice" and self.g(parts[1]) in (None, "C"):
            return "P"
        return "U"

    def store(self, u):
        b, i, v = u.args[0], u.args[1], u.args[2] if len(u.args) > 2 else None
        tb, tv = self.g(b), self.g(v) if v is not None else "C"
        if "G" in (tb, tv):
            return "G"
        if tb is None:
            return None  # the value carried around a loop is not known yet
        parts = self.index(i)
        if tb == "P":
            if len(parts) == 1:
                p = parts[0]
                if self.g(p) == "G":
                    return self.bad(u, "chooses positions from the other frequencies")
                if self.g(p) == "P":
                    return "P" if tv in (None, "C", "P", "S") else self.bad(u, "uses the number of frequencies") if tv == "H" else "U"
                if self.plain(p):
                    return tv if tv in ("P", "U") else "P"
                if p.op == "const" and isinstance(p.x, int) or p.op == "un" and p.args[0].op == "const":
                    return self.bad(u, "sets the value at a fixed position")
            return "U"
        if tb == "F":
            if len(parts) == 1 and tv in (None, "C", "P"):
                return "F"
            return "U"
        if tb in (None, "C"):
            return "C" if tv in (None, "C") and self.g(i) in (None, "C") else "U"
        return "U"

    def call(self, u):
        g = self.g
        short = u.name.split(".")[-1]
        if u.op == "mcall":
            b = g(u.args[0])
            args = u.args
            axis = u.kw.get("axis") or (args[1] if len(args) > 1 else None)
            if b in (None, "C", "H"):
                ts = {g(c) for c in u.children()} - {None, "C", "H"}
                return "C" if not ts else "G" if ts == {"G"} else "U"
            if short in ("copy", "astype", "conj", "conjugate", "clip", "round", "view"):
                return b
            if short == "squeeze" and b in ("FT1", "F1T"):
                return "FT" if axis is not None and axis.op == "const" and axis.x in ((2, -1) if b == "FT1" else (1, -2)) else "U"
            if short in ("squeeze", "flatten", "ravel", "reshape"):
                return b if b in ("P", "S", "G") else "U"
            if short in ("transpose",) and len(args) == 1:
                return {"F": "FT", "FT": "F"}.get(b, b)
            if short in REDUCE:
                return self.reduce(u, short, args[0], axis)
            return "G" if b == "G" else "U"
        if u.name.startswith("numpy."):
            if short == "expand_dims" and u.args and g(u.args[0]) == "FT":
                ax = u.kw.get("axis") or (u.args[1] if len(u.args) > 1 else None)
                return "FT1" if ax is not None and ax.op == "const" and ax.x in (-1, 2) else "F1T" if ax is not None and ax.op == "const" and ax.x in (-2, 1) else "U"
            if u.name == "numpy.linalg.pinv" and u.args:
                return {"FT1": "F1T", "F1T": "FT1"}.get(g(u.args[0]), self.reduce(u, "pinv", u.args[0], None) if g(u.args[0]) not in ("FT1", "F1T") else "U")
            if short == "squeeze" and u.args and g(u.args[0]) in ("FT1", "F1T"):
                ax = u.kw.get("axis") or (u.args[1] if len(u.args) > 1 else None)
                return "FT" if ax is not None and ax.op == "const" and ax.x in ((2, -1) if g(u.args[0]) == "FT1" else (1, -2)) else "U"
            if u.name == "numpy.where" and len(u.args) == 1 or short in ("nonzero", "flatnonzero"):
                return "P" if g(u.args[0]) == "P" else g(u.args[0])
            if short == "interp":
                if {g(a) for a in u.args[1:]} & {"P", "S", "F", "FT", "G"}:
                    return self.bad(u, "interpolates between the frequencies that are evaluated together")
                return g(u.args[0])
            if short in ALLOC:
                k = self.shape_kind(u.args[0]) if u.args else None
                fill = g(u.args[1]) if short == "full" and len(u.args) > 1 else None
                if fill == "G":
                    return "G"
                if fill == "H":
                    return self.bad(u, "uses the number of frequencies")
                if k:
                    return k
                return "C" if not u.args or g(u.args[0]) in (None, "C") else "U"
            if short in ALLOC_LIKE:
                if len(u.args) > 1 and g(u.args[1]) in ("G",):
                    return "G"
                return g(u.args[0])
            if u.name in ("numpy.shape", "numpy.size", "numpy.ndim"):
                return "H" if g(u.args[0]) in ("P", "S", "F", "FT") else "C"
            if short in REDUCE and u.args:
                ax = u.kw.get("axis")
                if ax is None and len(u.args) > 1 and short not in ("dot", "vdot", "inner", "roll", "percentile", "quantile", "searchsorted_x", "convolve", "correlate", "norm", "histogram"):
                    ax = u.args[1]
                if short == "norm" and ax is None and len(u.args) > 2:
                    ax = u.args[2]
                if short in ("dot", "vdot", "inner", "convolve", "correlate"):
                    ts = {g(a) for a in u.args} - {None, "C", "H"}
                    return "C" if not ts else "G" if "G" in ts else self.bad(u, f"{short} over the frequencies") if ts == {"P"} and len(u.args) == 2 and g(u.args[0]) == g(u.args[1]) else "U"
                return self.reduce(u, short, u.args[0], ax)
            if short in ELEM:
                ts = [g(a) for a in u.args] + [g(v) for k, v in u.kw.items() if k not in ("out", "dtype", "where", "axis", "copy", "decimals")]
                return self.elem(u, ts)
        if u.name.startswith(("scipy.special.", "math.")):
            return self.elem(u, [g(a) for a in u.args])
        if u.name in ("builtins.len",):
            return "H" if g(u.args[0]) in ("P", "S", "F", "FT") else "C"
        if u.name in ("builtins.max", "builtins.min", "builtins.sum", "builtins.sorted") and len(u.args) == 1 and g(u.args[0]) in ("P", "S"):
            return self.bad(u, f"{short} over the frequencies")
        if u.name in ("builtins.isinstance", "builtins.hasattr", "builtins.range", "builtins.enumerate"):
            return "C"
        if u.name in ("builtins.abs", "builtins.float", "builtins.round", "builtins.pow"):
            return self.elem(u, [g(a) for a in u.args])
        ts = {g(c) for c in u.children()} - {None, "C", "H"}
        return "C" if not ts else "G" if ts == {"G"} else "U"


def tainted(v, pw):
    """Is there a mixing term in the value that reaches the result?"""
    return pw.ty(v) == "G"


def uncovered(t, pw):
    """Buffers of np.empty whose masked stores provably leave frequencies undefined."""
    out = []
    for u in walk(t):
        if u.op == "ecall" and u.name in ("numpy.empty", "numpy.empty_like") and pw.memo.get(u.uid) == "P":
            out.append(u)
    res = []
    for e in out:
        stores = [u for u in walk(t) if u.op == "store" and reaches(u, e)]
        if any(pw.memo.get(s.uid) is None for s in stores):
            continue
        masks = [s.args[1] for s in stores]
        iv = [interval(m, pw) for m in masks]
        if not iv or None in iv:
            continue
        if not covers(iv):
            res.append(e)
    return res


def reaches(s, e):
    b = s.args[0]
    k = 0
    while b.op == "store" and k < 50:
        b = b.args[0]
        k += 1
    return b is e


def interval(m, pw):
    """(lower bound key or None, upper bound key or None) of a mask, or None when it is not an interval."""
    lo = hi = None
    parts, stack = [], [m]
    while stack:
        u = stack.pop()
        if u.op == "bin" and u.name in ("*", "&") or u.op == "ecall" and u.name in ("numpy.logical_and", "numpy.multiply", "numpy.bitwise_and"):
            stack.extend(u.args)
        else:
            parts.append(u)
    for p in parts:
        if p.op != "cmp" or p.name not in ("<", "<=", ">", ">="):
            return None
        a, b = p.args
        name = p.name
        if pw.memo.get(a.uid) != "P":
            a, b = b, a
            name = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[name]
        if pw.memo.get(a.uid) != "P" or pw.memo.get(b.uid) not in (None, "C"):
            return None
        if name in ("<", "<="):
            if hi is not None:
                return None
            hi = (skey(b), name == "<=")
        else:
            if lo is not None:
                return None
            lo = (skey(b), name == ">=")
    return lo, hi


def covers(iv):
    cur = [i for i in iv if i[0] is None]
    if not cur:
        return False
    todo, seen = list(cur), set()
    while todo:
        lo, hi = todo.pop()
        if hi is None:
            return True
        if (lo, hi) in seen:
            continue
        seen.add((lo, hi))
        for o in iv:
            if o[0] is not None and o[0][0] == hi[0] and (o[0][1] or hi[1]):
                todo.append(o)
    return False


def responses(P, R):
    done = set()
    for r in each(P, R):
        e = r.entry
        items = []
        for ev, pos, v, s2, raises in P.escaped(r):
            if v is None or not pos:
                continue
            x = pos[0] if len(pos) == 1 else next((p for p in pos if p.name == "x"), None)
            if x is None or "filters" not in ev.term.x.module.name and not makes_filter(r):
                continue
            items.append((x, v, ev.term.x, f"{e.name.rsplit('.', 1)[0]}" if e.kind == "init" else e.name, r.escaped_events))
        if e.func.name in ("evaluate", "__call__") and e.cls is not None and any(c.name == "Filter" for c in e.cls.mro()) and "x" in r.params:
            for xt in r.returns:
                items.append((r.params["x"], xt.value, e.func, e.name, r.events))
        for x, v, f, who, evs in items:
            R.count("kernels")
            pw = Pointwise(x)
            t = pw.ty(v)
            R.count({"P": "kernels_pointwise", "F": "kernels_pointwise", "C": "kernels_constant", "G": "kernels_mixing"}.get(t, "kernels_unknown"))
            R.sample(f"{who}:{f.name} {t}")
            name = outer(f, e)
            if t == "G":
                for u, text in list(pw.why.values()):
                    R.finding("not-pointwise", f"{name}:{text}", f"the response of {name} at a frequency depends on the others: {text} ({u!r})",
                              f"{f.module.path}:{getattr(u.node, 'lineno', f.node.lineno)}", who)
            for b in uncovered(v, pw):
                R.finding("undefined", f"{name}:empty", f"{name} leaves the response undefined (uninitialised memory) at some frequencies",
                          f"{f.module.path}:{getattr(b.node, 'lineno', f.node.lineno)}", who)
    # kernels with a memory: writes to anything but their own locals
        for ev in list(r.escaped_events):
            key = (ev.kind, ev.site)
            if key in done:
                continue
            if ev.kind == "mutate" and ev.term is not None:
                for rt, _d in r.it.alias_roots(ev.term, ev.state):
                    if rt.op == "param" and any(rt is p for run in r.escaped_runs for p in run[1]) and "filters" in ev.func.module.name:
                        done.add(key)
                        R.finding("changes-frequencies", outer(ev.func, e), f"a kernel of {ev.func.module.name} changes the frequencies it is given: the following filters see other values", ev.site, e.name)


def makes_filter(r):
    return any(ev.kind == "new" and any(c.name == "Filter" for c in getattr(ev.info[0], "mro", lambda: [])()) for ev in r.events)


def outer(f, e=None):
    """The function or method a nested function belongs to; the entry point for those of private helpers."""
    while f.outer is not None:
        f = f.outer
    if e is not None and f.name.startswith("_") and not f.name.startswith("__"):
        f = e.func
    return f"{f.module.name}:{f.cls.name + '.' if f.cls is not None else ''}{f.name}"


# -- memory of kernels and order of banks ------------------------------------------------------


def kernel_memory(P, R):
    """Functions nested in filter methods must not keep state: nonlocal or global names, changes of captured containers."""
    for m in P.prog.modules.values():
        if ".filters." not in m.name + ".":
            continue
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            inner = [n for n in ast.walk(fn) if isinstance(n, FUNCS) and n is not fn]
            for k in inner:
                R.count("nested_functions")
                free = free_names(k)
                body = k.body if isinstance(k.body, list) else [k.body]
                mutable_defaults = {a.arg for a, d in zip(reversed(k.args.args), reversed(k.args.defaults)) if isinstance(d, (ast.List, ast.Dict, ast.Set))}
                for b in body:
                    for n in ast.walk(b):
                        bad = None
                        if isinstance(n, (ast.Nonlocal, ast.Global)):
                            bad = ", ".join(n.names)
                        elif isinstance(n, (ast.Assign, ast.AugAssign)):
                            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                                root = t
                                while isinstance(root, (ast.Subscript, ast.Attribute)):
                                    root = root.value
                                if root is not t and isinstance(root, ast.Name) and (root.id in free or root.id in mutable_defaults):
                                    bad = ast.unparse(t)
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "update", "setdefault", "extend", "insert", "add", "pop", "fill"):
                            root = n.func.value
                            while isinstance(root, (ast.Subscript, ast.Attribute)):
                                root = root.value
                            if isinstance(root, ast.Name) and (root.id in free or root.id in mutable_defaults):
                                bad = ast.unparse(n.func)
                        if bad:
                            R.finding("memory", f"{m.name}:{fn.name}:{bad}", f"a kernel of {m.name} keeps {bad} from one evaluation to the next", f"{m.path}:{n.lineno}")


def mentions_fields(t, name):
    return [u for u in walk(t) if u.op == "attr" and u.name == name]


def banks(P, R):
    """Indexing, combining, evaluating keep the filters and their order."""
    flt = P.prog.find_class("Filter")
    if flt is None:
        return
    for e in P.entries:
        if e.cls is not flt or e.func.name not in ("__getitem__", "__add__", "evaluate", "__call__"):
            continue
        try:
            r = P.run(e)
        except Exception:  # noqa: BLE001
            continue
        R.count("bank_operations")
        if e.func.name == "evaluate":
            for x in r.returns:
                for u in walk(x.value):
                    if u.op != "store" or len(u.args) < 3 or u.args[2].op != "ucall":
                        continue
                    R.count("evaluated_stores")
                    where, which = position(u.args[1]), position_of_kernel(u.args[2].args[0])
                    if where and which and where != which:
                        R.finding("order", f"{e.name}:evaluate", f"{e.name} stores the responses in {where} order while the filters are taken in {which} order", f"{e.func.module.path}:{getattr(u.node, 'lineno', e.func.node.lineno)}", e.name)
            continue
        for ev in r.events:
            if ev.kind == "new" and ev.info[0] is flt and len(ev.info[1]) > 1:
                k = ev.info[1][1]
                if e.func.name == "__getitem__":
                    ok = k.op == "sub" and k.args[0].op == "attr" and k.args[0].name == "_kernels" and k.args[1].op == "param"
                    if not ok and k.op == "sub" and (any(u.op in ("bin", "un", "const") or u.op == "ecall" and short(u) in MOVED for u in leaves(k.args[1])) or k.args[0].op == "sub"):
                        R.finding("order", f"{e.name}:index", f"{e.name} does not select the filters the index names ({k!r})", ev.site, e.name)
                elif e.func.name == "__add__" and k.op == "bin" and k.name == "+":
                    roots = [u.args[0] for u in k.args if u.op == "attr"]
                    if len(roots) == 2 and roots[0].op == roots[1].op == "param" and (roots[0].name != "self" or roots[1].name == "self"):
                        R.finding("order", f"{e.name}:concatenation", f"{e.name} does not put the filters of the first bank before those of the second", ev.site, e.name)


MOVED = {"abs", "min", "max", "round", "absolute", "minimum", "maximum", "clip", "mod", "remainder", "sorted", "sort", "unique", "flip", "reversed"}


def short(t):
    return (t.name or "").split(".")[-1]


def position(i):
    """Order in which an index runs over the bank: 'forward', 'backward', 'shifted', or None when unknown."""
    if i.op == "bin" and i.name in ("+", "-"):
        a, b = i.args
        if b.op == "const" and position(a) in ("forward", "backward"):
            return position(a) if b.x == 0 else "shifted"
        if i.name == "-" and position(b) == "forward" and a.op == "bin" and a.name == "-" and a.args[1].op == "const" and a.args[1].x == 1:
            return "backward"
    if i.op == "un" and i.name in ("-", "~") and position(i.args[0]) == "forward":
        return "backward" if i.name == "~" else "shifted"
    if i.op == "elem":
        src = i.args[0]
        if i.name == "index":
            return "forward" if not (len(src.args) > 1 or src.kw) else None
        return order_of(src)
    return None


def order_of(src):
    """Order of a sequence built from the bank or its indices."""
    if src.op == "attr":
        return "forward" if src.name == "_kernels" else None
    if src.op == "sub" and src.args[1].op == "slice":
        parts = [a.x if a.op == "const" else "?" for a in src.args[1].args]
        base = order_of(src.args[0])
        if parts == [None, None, -1] and base in ("forward", "backward"):
            return "backward" if base == "forward" else "forward"
        return base if parts in ([None, None, None], [None, None, 1]) else None
    if src.op == "ecall":
        n = src.name
        if n in ("builtins.range", "numpy.arange"):
            return "forward" if len(src.args) == 1 and not src.kw else None
        if n in ("builtins.reversed", "numpy.flip"):
            return {"forward": "backward", "backward": "forward"}.get(order_of(src.args[0]))
        if n in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate", "numpy.asarray", "numpy.array") and src.args:
            return order_of(src.args[0])
        if n in ("builtins.zip",):
            got = {order_of(a) for a in src.args}
            return got.pop() if len(got) == 1 else None
    return None


def position_of_kernel(k):
    if k.op == "sub" and k.args[0].op == "attr" and k.args[0].name == "_kernels":
        return position(k.args[1])
    if k.op == "elem":
        return order_of(k.args[0])
    return None


def check(P, R):
    R.rule("(a) No function created in a loop or comprehension and kept reads a variable that a later iteration, or the rest of the enclosing function, rebinds. "
           "(b) Type system over every kernel (nested functions of the filter constructors, executed symbolically) and over evaluate: constants, shape-derived values, one-per-frequency values, "
           "selections, filters-by-frequencies. Reductions over the frequencies, fixed positions, shifts, sorting, choices depending on the other frequencies, the number of frequencies, "
           "and uninitialised buffers that the masks do not cover must not reach the response. (c) Kernels keep nothing from one evaluation to the next. (d) Indexing, combining and evaluating keep the order.")
    captures(P, R)
    responses(P, R)
    kernel_memory(P, R)
    banks(P, R)
    R.need("closures", 60)
    R.need("closures_in_loops", 8)
    R.need("kernels", 30)
    R.need("nested_functions", 20)
