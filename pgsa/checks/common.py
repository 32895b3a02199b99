"""Helpers shared by the checks."""

import ast

from ..terms import NONE, Term, leaves, skey, walk

BACKENDS = ("_qtg", "_plt")


def each(P, R, where=None, **kw):
    """Abstract executions of the entry points; an entry the interpreter cannot handle is recorded, not hidden."""
    bad = 0
    for e in P.entries:
        if where is not None and not where(e):
            continue
        try:
            r = P.run(e, **kw)
        except RecursionError:
            bad += 1
            R.notes.append(f"not analysed: {e.name} (recursion)")
            continue
        except Exception as ex:  # noqa: BLE001 - reported below
            bad += 1
            R.notes.append(f"not analysed: {e.name} ({type(ex).__name__}: {ex})")
            continue
        R.count("entry_points")
        R.count("events", len(r.events))
        yield r
    R.count("entry_points_not_analysed", bad)
    if bad > 12:
        R.broken.append(f"{bad} entry points could not be analysed")


def is_gf(it, t, st=None):
    c = it.cls_of(t, st)
    if c is None:
        return False
    if any(b.name in ("Graph", "Filter") for b in c.mro()):
        return True
    return it.graph_cls is not None and c in it.graph_cls.mro()


def external_base(it, t, st=None):
    """Does the graph/filter term denote an object that existed before the call?

    True/False/None (unknown).
    """
    seen = set()
    stack = [t]
    res = False
    later = False  # reached through a computed index such as Gs[i + 1]: not one of the first items
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op == "obj":
            continue
        if u.op == "param":
            res = True
            continue
        if u.op == "sub" and u.args[1].op == "bin":
            later = True
        if u.op in ("list", "tuple") and later:
            continue
        if u.op in ("attr", "sub", "elem", "unpack", "maybe", "store", "mutview", "mutcall", "inplace"):
            stack.append(u.args[0])
            continue
        if u.op in ("phi", "mu"):
            if st is not None and u.op == "phi":
                c = it.decide(u.args[0], st)
                if c is not None:
                    stack.append(u.args[1 if c else 2])
                    continue
            stack.extend(u.args[1:] if u.op == "phi" else u.args)
            continue
        if u.op in ("tuple", "list"):
            stack.extend(u.args)
            continue
        if u.op in ("const", "dict", "comp"):
            continue
        if res is False:
            res = None
    return res


def param_root(t):
    """The parameter an access path starts from, or None."""
    seen = 0
    while seen < 50:
        seen += 1
        if t.op == "param":
            return t
        if t.op in ("attr", "sub", "elem", "unpack", "maybe", "store", "mutview", "mutcall", "inplace"):
            t = t.args[0]
            continue
        if t.op == "mcall" and t.name in ("values", "items", "get"):
            t = t.args[0]
            continue
        return None
    return None


def has_fact(st, kind, t):
    return (kind, skey(t)) in st.facts


def memo_fields(prog):
    """{class name: {field}}: fields that start as None and are filled in later (lazily computed)."""
    out = {}
    for m in prog.modules.values():
        for c in m.classes.values():
            init = c.methods.get("__init__")
            if init is None or not init.args:
                continue
            none, other = set(), set()
            me = init.args[0]
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign):
                    for tg in n.targets:
                        for t in (tg.elts if isinstance(tg, ast.Tuple) else [tg]):
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                if isinstance(n.value, ast.Constant) and n.value.value is None:
                                    none.add(t.attr)
                                elif isinstance(n.value, ast.Tuple) and all(isinstance(z, ast.Constant) and z.value is None for z in n.value.elts):
                                    none.add(t.attr)
                                else:
                                    other.add(t.attr)
            none -= other
            filled = set()
            for k in m.classes.values():
                pass
            for mm in prog.modules.values():
                for n in ast.walk(mm.tree):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        tgs = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for tg in tgs:
                            for t in (tg.elts if isinstance(tg, (ast.Tuple, ast.List)) else [tg]):
                                if isinstance(t, ast.Attribute) and t.attr in none and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                                    filled.add(t.attr)
            if none & filled:
                out[c.name] = none & filled
    return out


def all_memo(prog):
    s = set()
    for v in memo_fields(prog).values():
        s |= v
    return s


def tname(it, t, st=None):
    """Readable access path of a term."""
    if t.op == "param":
        return t.name
    if t.op == "attr":
        return f"{tname(it, t.args[0])}.{t.name}"
    if t.op in ("sub", "elem", "unpack"):
        return f"{tname(it, t.args[0])}[…]"
    if t.op in ("store", "mutview", "mutcall", "inplace", "maybe"):
        return tname(it, t.args[0])
    return repr(t)


def local_ext(prog, m, name, chain):
    """What a name used inside nested functions stands for: a package object, ("ext", dotted), "local" or None."""
    for f in chain:
        for n in ast.walk(f):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        return ("ext", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        return prog.resolve_member(m.resolve_from(n), a.name)
        args = f.args
        if name in [x.arg for x in args.posonlyargs + args.args + args.kwonlyargs + [y for y in (args.vararg, args.kwarg) if y]]:
            return "local"
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                return "local"
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f and n.name == name:
                return "local"
            if isinstance(n, ast.ExceptHandler) and n.name == name:
                return "local"
    return prog.resolve_name(m, name)


def dotted_refs(prog):
    """Every reference to something of a library in the sources: (module, node, dotted name, enclosing functions, is the whole expression)."""
    for m in prog.modules.values():
        out = []

        def visit(n, chain, inner):
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
                parts = []
                x = n
                while isinstance(x, ast.Attribute):
                    parts.append(x.attr)
                    x = x.value
                if isinstance(x, ast.Name):
                    out.append((n, x.id, list(reversed(parts)), chain))
                    return
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for d in getattr(n, "decorator_list", []):
                    visit(d, chain, False)
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                    visit(d, chain, False)
                for b in (n.body if isinstance(n.body, list) else [n.body]):
                    visit(b, (n,) + chain, False)
                return
            for c in ast.iter_child_nodes(n):
                visit(c, chain, False)

        visit(m.tree, (), False)
        for n, base, parts, chain in out:
            r = local_ext(prog, m, base, chain)
            if r is None or r == "local":
                continue
            if isinstance(r, tuple) and r[0] == "ext":
                yield m, n, ".".join([r[1]] + parts), chain
            elif parts and hasattr(r, "tree"):
                cur, k = r, 0
                while hasattr(cur, "tree") and k < len(parts):
                    cur = prog.resolve_member(cur.name, parts[k])
                    k += 1
                if isinstance(cur, tuple) and cur[0] == "ext":
                    yield m, n, ".".join([cur[1]] + parts[k:]), chain


def leaves_decided(it, v, st):
    """Leaves of a phi tree, following the branches the state decides."""
    out, stack, seen = [], [v], set()
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op == "phi":
            c = it.decide(u.args[0], st)
            if c is None:
                stack.extend(u.args[1:])
            else:
                stack.append(u.args[1 if c else 2])
        elif u.op in ("mu", "maybe"):
            stack.extend(u.args)
        else:
            out.append(u)
    return out
