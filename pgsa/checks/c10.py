"""C10: signals of the wrong length are always rejected."""

from ..terms import Term, leaves, skey, walk
from .common import each

# operation -> (signal parameter: position after the object, or name; what it lives on)
OPS = {
    "set_signal": (0, "N"), "gft": (0, "N"), "igft": (0, "N"), "grad": (0, "N"), "div": (0, "Ne"), "dirichlet_energy": (0, "N"),
    "filter": (0, "N"), "analyze": (0, "N"), "synthesize": (0, "N"), "cheby_op": (2, "N"), "cheby_rect": (2, "N"), "lanczos_op": (1, "N"),
    "pyramid_analysis": (1, "N"),
}
PLOTS = {"vertex_color": "N", "vertex_size": "N", "edge_color": "Ne", "edge_width": "Ne"}
KEEP = {"numpy.asarray", "numpy.asanyarray", "numpy.array", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.copy", "numpy.atleast_1d", "numpy.require",
        "numpy.asarray_chkfinite", "numpy.abs", "numpy.conj", "numpy.conjugate", "numpy.real", "numpy.float64", "numpy.nan_to_num", "numpy.column_stack_1"}
KEEP_M = {"astype", "copy", "conj", "conjugate", "toarray", "todense", "view"}
BAD = {"broadcast_to", "broadcast_arrays", "resize", "tile", "repeat", "reshape", "ravel", "flatten", "transpose", "swapaxes", "moveaxis", "rollaxis", "atleast_2d",
       "atleast_3d", "concatenate", "hstack", "vstack", "stack", "pad", "squeeze", "append", "zeros", "ones", "full", "empty", "zeros_like", "interp", "roll_axis", "trim_zeros"}


def base(t, root, squeeze=False, depth=0):
    """Is the first dimension of `t` the first dimension of `root`?  True, False or None (cannot tell)."""
    if depth > 40:
        return None
    if t is root or t.op == "param" and t.ident == root.ident:
        return True
    if t.op in ("phi", "mu"):
        rs = {base(u, root, squeeze, depth + 1) for u in leaves(t) if u is not t}
        if False in rs:
            return False
        return True if rs == {True} else None
    if t.op == "ecall":
        short = t.name.split(".")[-1]
        if t.name in KEEP and t.args:
            nd = t.kw.get("ndmin")
            if nd is not None and not (nd.op == "const" and nd.x in (0, 1)):
                return False
            return base(t.args[0], root, squeeze, depth + 1)
        if short == "expand_dims" and len(t.args) + len(t.kw) == 2:
            ax = t.args[1] if len(t.args) > 1 else t.kw.get("axis")
            if ax is not None and ax.op == "const":
                return base(t.args[0], root, squeeze, depth + 1) if ax.x in (1, 2, 3, -1) else False
            return None
        if short == "squeeze":
            return base(t.args[0], root, squeeze, depth + 1) if squeeze and t.args else False
        return False if short in BAD else None
    if t.op == "mcall":
        if t.name in KEEP_M:
            return base(t.args[0], root, squeeze, depth + 1)
        if t.name == "squeeze" and squeeze:
            return base(t.args[0], root, squeeze, depth + 1)
        return False if t.name in BAD else None
    if t.op == "attr":
        return False if t.name in ("T", "mT", "flat") else base(t.args[0], root, squeeze, depth + 1) if t.name in ("real", "A") else None
    if t.op == "sub":
        i = t.args[1]
        parts = i.args if i.op == "tuple" else [i]
        if parts and parts[0].op == "slice" and all(z.op == "const" and z.x is None for z in parts[0].args):
            return base(t.args[0], root, squeeze, depth + 1)
        if parts and parts[0].op == "const" and parts[0].x is Ellipsis:
            return base(t.args[0], root, squeeze, depth + 1)
        return False
    if t.op == "un":
        return base(t.args[0], root, squeeze, depth + 1)
    return None


def mentions(t, root):
    return any(u.op == "param" and u.ident == root.ident for u in walk(t))


def dim(t, root, squeeze):
    """'0' first dimension of the signal, 'weak' another property of its shape, '?' unknown but depends on it, None unrelated."""
    if not mentions(t, root):
        return None
    if t.op == "sub":
        b, i = t.args
        sh = shape_of(b)
        if sh is not None:
            ok = base(sh, root, squeeze)
            if ok is False:
                return "weak"
            if i.op == "const":
                return ("0" if ok else "?") if i.x == 0 else "weak"
            return "?"
    if t.op == "unpack":
        sh = shape_of(t.args[0])
        if sh is not None:
            ok = base(sh, root, squeeze)
            return "weak" if ok is False or t.x not in (0, None) and t.name not in (0, "0", None) else ("0" if ok else "?")
    if t.op == "ecall" and t.name == "builtins.len" and t.args:
        ok = base(t.args[0], root, squeeze)
        return "weak" if ok is False else "0" if ok else "?"
    if t.op == "ecall" and t.name == "numpy.size" or t.op == "attr" and t.name in ("size", "ndim", "nbytes"):
        return "weak"
    if t.op == "bin" and t.name in ("%", "//"):
        return "weak"
    if t.op == "ecall" and t.name in ("builtins.max", "builtins.min", "builtins.sum", "numpy.max", "numpy.min", "numpy.prod"):
        return "weak"
    if t.op == "phi":
        ds = {dim(u, root, squeeze) for u in leaves(t)}
        return ds.pop() if len(ds) == 1 else "weak" if "weak" in ds or None in ds else "?"
    return "?"


def shape_of(t):
    if t.op == "attr" and t.name == "shape":
        return t.args[0]
    if t.op == "ecall" and t.name == "numpy.shape" and t.args:
        return t.args[0]
    return None


def size_of(t):
    """'N', 'Ne' or None."""
    if t.op == "attr":
        if t.name in ("N", "n_vertices"):
            return "N"
        if t.name in ("Ne", "n_edges"):
            return "Ne"
    if t.op == "sub" and t.args[1].op == "const":
        sh = shape_of(t.args[0])
        if sh is not None and sh.op == "attr":
            if sh.name in ("W", "L", "U", "A", "_adjacency", "_U", "e", "dw", "d") and t.args[1].x in (0, 1, -1):
                return "N"
            if sh.name in ("D", "_D"):
                return "N" if t.args[1].x == 0 else "Ne"
    if t.op == "ecall" and t.name == "builtins.int" and t.args:
        return size_of(t.args[0])
    if t.op == "phi":
        s = {size_of(u) for u in leaves(t)}
        return s.pop() if len(s) == 1 else None
    return None


def atoms(t):
    stack = [t]
    while stack:
        u = stack.pop()
        if u.op == "bool" or u.op == "un" and u.name == "not":
            stack.extend(u.args)
            if u.op == "bool":
                yield u
        elif u.op == "ecall" and u.name in ("numpy.any", "numpy.all", "builtins.bool") and len(u.args) == 1:
            stack.extend(u.args)
            yield u
        elif u.op == "phi":
            stack.extend(u.args)
            yield u
        else:
            yield u


def has_size(t, want):
    return any(size_of(u) == want for u in walk(t))


def verdict(c, truth, root, want, squeeze):
    """What the atom, known to be `truth`, says: 'eq', 'ge', 'le', 'maybe' or None."""
    if c.op == "cmp":
        for a, b, flip in ((c.args[0], c.args[1], False), (c.args[1], c.args[0], True)):
            d = dim(a, root, squeeze)
            if d is None or dim(b, root, squeeze) is not None and size_of(b) is None:
                continue
            sz = size_of(b)
            if c.name in ("==", "!="):
                if (c.name == "==") != truth:
                    return None
                sa = shape_of(a)
                if sa is not None:
                    if b.op in ("tuple", "list") and b.args:
                        ok = base(sa, root, squeeze)
                        return None if ok is False or size_of(b.args[0]) not in (want, None) else "eq"
                    return "maybe" if has_size(b, want) else None
                if d == "0":
                    return "eq" if sz == want else None if sz is not None else "maybe" if has_size(b, want) or opaque(b) else None
                if d == "?":
                    return "maybe" if has_size(b, want) else None
                return None
            if c.name in ("<", ">", "<=", ">=") and d == "0" and sz == want:
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[c.name] if flip else c.name
                return {("<", False): "ge", (">", False): "le", ("<=", True): "le", (">=", True): "ge"}.get((op, truth))
            if c.name in ("in", "not in") and b.op in ("tuple", "list", "set") and (c.name == "in") == truth and d == "0" and not flip:
                return "eq" if len(b.args) == 1 and size_of(b.args[0]) == want else None
            if c.name in ("in", "not in", "<", ">", "<=", ">="):
                return None
        return None
    if c.op in ("bool", "phi") or c.op == "ecall" and c.name in ("numpy.any", "numpy.all", "builtins.bool"):
        return None  # its parts are looked at
    if c.op in ("ecall", "ucall", "mcall") and mentions(c, root) and has_size(c, want):
        return "maybe"
    return None


def opaque(t):
    return t.op in ("opaque", "unk", "ucall", "elem", "maybe")


def contracted(v, root, memo=None):
    """Is the value computed by a matrix product that contracts the first axis of the signal on every alternative?"""
    memo = {} if memo is None else memo
    order, seen, stack = [], set(), [v]
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        order.append(u)
        stack.extend(u.children())
    for _ in range(3):  # mu nodes close cycles
        for u in reversed(order):
            if memo.get(u.uid):
                continue
            if u.op == "phi":
                r = all(memo.get(a.uid) for a in u.args[1:])
            elif u.op == "mu":
                r = any(memo.get(a.uid) for a in u.args)
            else:
                r = product(u, root) or any(memo.get(a.uid) for a in u.children())
            memo[u.uid] = r
    return bool(memo.get(v.uid))


def product(u, root):
    if u.op == "mcall" and u.name == "dot" and len(u.args) == 2:
        a, b = u.args
    elif u.op == "bin" and u.name == "@":
        a, b = u.args
    elif u.op == "bin" and u.name == "*" and any(z.op == "attr" and z.name in ("L", "W", "D") for z in [u.args[0]]):
        a, b = u.args
    elif u.op == "ecall" and u.name in ("numpy.dot", "numpy.matmul") and len(u.args) == 2:
        a, b = u.args
    elif u.op == "ecall" and u.name == "numpy.tensordot" and len(u.args) == 3:
        ax = u.args[2]
        last = ax.args[1] if ax.op in ("tuple", "list") and len(ax.args) == 2 else None
        if last is not None and last.op in ("tuple", "list") and len(last.args) == 1:
            last = last.args[0]
        if last is None or last.op != "const" or last.x != 0:
            return False
        a, b = u.args[:2]
    else:
        return False
    if base(b, root) is not True:
        return False
    return any(z.op == "attr" and z.name in ("L", "W", "D", "U", "A", "_U", "_D", "_adjacency") or z.op == "ecall" and z.name.startswith("scipy.sparse") for z in walk(a))


def checked(r, x, conds, root, want, squeeze=False):
    """Which checks hold at the exit: 'yes', 'maybe' or None."""
    got = set()
    for c in conds:
        k = skey(c)
        for truth, tag in ((True, "T"), (False, "F")):
            if (tag, k) in x.state.facts:
                v = verdict(c, truth, root, want, squeeze)
                if v:
                    got.add(v)
    if "eq" in got or {"le", "ge"} <= got:
        return "yes"
    return "maybe" if "maybe" in got else None


def conditions(r, root):
    out, seen = [], set()
    evs = [ev.term for ev in r.events if ev.kind == "if"]
    for x in r.raises:
        evs += [c for c, _ in x.state.path]
    for t in evs:
        for a in atoms(t):
            k = skey(a)
            if k not in seen and mentions(a, root):
                seen.add(k)
                out.append(a)
    return out


def signal_param(P, e, pos):
    names = e.func.args[1:] if e.cls is not None and not e.func.is_staticmethod else e.func.args
    return names[pos] if pos < len(names) else None


def check_plot(P, R, r):
    for p, want in PLOTS.items():
        root = r.params.get(p)
        if root is None:
            R.notes.append(f"{r.entry.name} has no parameter {p}")
            continue
        R.count("signal_parameters")
        facts = frozenset.intersection(*[frozenset(x.state.facts) for x in r.returns]) if r.returns else frozenset()
        ok, near = False, None
        for x in r.raises:
            conds = [a for a in conditions(r, root)]
            if not x.state.path:
                continue
            last, truth = x.state.path[-1]
            if not mentions(last, root) or x.info != "raise":
                continue
            # the raise is taken when the length differs
            hit = False
            for a in atoms(last):
                if verdict(a, True, root, want, True) or verdict(a, False, root, want, True):
                    v = verdict(a, False, root, want, True) if differs(last, a, truth) else None
                    hit = hit or v in ("eq", "maybe")
            if not hit:
                continue
            R.count("checks_examined")
            extra = []
            for c, t in x.state.path[:-1]:
                if ("T" if t else "F", skey(c)) in facts:
                    continue
                for part, pt in parts(c, t):
                    if not mentions(part, root):
                        extra.append(part)
            if not extra:
                ok = True
            else:
                near = (x, extra[0])
        if not ok:
            why = f" unless {near[1]!r} (another option)" if near else ""
            R.finding("unchecked", f"{r.entry.name}:{p}", f"{r.entry.name} never rejects a {p} whose length is not {want}{why}", f"{r.entry.func.module.path}:{r.entry.func.node.lineno}", r.entry.name)


def parts(c, t):
    if c.op == "un" and c.name == "not":
        yield from parts(c.args[0], not t)
    elif c.op == "bool" and (c.name == "and") == t:
        for a in c.args:
            yield from parts(a, t)
    else:
        yield c, t


def differs(cond, atom, truth):
    """Does `cond` being `truth` follow from the atom saying that the length differs (atom negated where needed)?"""
    if cond is atom or skey(cond) == skey(atom):
        return True if atom.op != "cmp" else (atom.name in ("!=", "not in")) == truth or atom.name not in ("==", "!=", "in", "not in")
    if cond.op == "un" and cond.name == "not":
        return differs(cond.args[0], atom, not truth)
    if cond.op == "bool":
        if (cond.name == "or") == truth:
            return any(differs(a, atom, truth) for a in cond.args)
        return all(differs(a, atom, truth) for a in cond.args)
    if cond.op == "phi":
        return True
    if cond.op == "ecall" and cond.args:
        return differs(cond.args[0], atom, truth)
    return False


def check(P, R):
    R.rule("For each operation taking a signal, every returning path of its abstract execution must carry the established fact that the first dimension of the signal "
           "(through shape-preserving conversions only) equals the number of vertices, respectively edges, of the graph, or contract that dimension in a matrix product with "
           "a graph operator, which cannot broadcast. Inequalities, total sizes, other dimensions, memberships, checks under another option and checks after a reshape or broadcast do not count.")
    seen = set()
    for r in each(P, R, lambda e: e.func.name in OPS or e.func.name == "plot" and "vertex_color" in e.func.args):
        e = r.entry
        if e.func.name == "plot":
            check_plot(P, R, r)
            continue
        if e.kind == "init":
            continue
        pos, want = OPS[e.func.name]
        p = signal_param(P, e, pos)
        root = r.params.get(p)
        if root is None:
            R.notes.append(f"{e.name}: no signal parameter")
            continue
        seen.add(e.func.name)
        R.count("signal_parameters")
        conds = conditions(r, root)
        for x in r.returns:
            R.count("returning_paths")
            got = checked(r, x, conds, root, want)
            if got is None and x.value is not None and contracted(x.value, root):
                got = "product"
                R.count("rejected_by_product")
            if got is None:
                R.finding("unchecked", f"{e.name}:{p}", f"{e.name} can return without having checked that the first dimension of {p} is {want}",
                          f"{e.func.module.path}:{getattr(x.node, 'lineno', e.func.node.lineno)}", e.name)
            else:
                R.count("paths_" + got)
                R.sample(f"{e.name}({p}): {got}")
    R.need("signal_parameters", 14)
    R.need("returning_paths", 12)
