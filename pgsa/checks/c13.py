"""C13: no operation can stop on a dangling name, attribute or call signature."""

import ast
import builtins
import json
import os
import string
import symtable

from ..terms import leaves, Term, walk
from .common import each, tname

API = None


def api():
    global API
    if API is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "libapi.json")
        with open(p) as fh:
            API = json.load(fh)
    return API


MODULE_NAMES = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__", "__debug__",
                                     "__class__", "__all__", "__version__"}


# -- A: scoping ---------------------------------------------------------------------------------


def scopes(R, m):
    """Names no scope binds."""
    top = symtable.symtable(m.src, m.path, "exec")
    bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            return
        if isinstance(n, ast.Global):
            bound |= set(n.names) if any(True for _ in n.names) else set()
    stack = [(top, m.name)]
    lines = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, []).append(n.lineno)
    while stack:
        t, q = stack.pop()
        for c in t.get_children():
            stack.append((c, f"{q}.{c.get_name()}"))
        R.count("scopes")
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            R.count("names_resolved")
            glob = s.is_global() or (t is top)
            if not glob or s.get_name() in bound or s.get_name() in MODULE_NAMES:
                continue
            lo = t.get_lineno()
            at = [k for k in lines.get(s.get_name(), []) if k >= lo]
            R.finding("undefined-name", f"{q}:{s.get_name()}", f"the name {s.get_name()} used in {q} is bound in no scope",
                      f"{m.path}:{min(at) if at else lo}")


# -- B: names bound on some ways only ------------------------------------------------------------


def handled_nodes(func):
    """Nodes inside a try body whose handlers catch NameError (AttributeError): {node id: names}."""
    out = {}
    for n in ast.walk(func.node):
        if isinstance(n, ast.Try):
            caught = set()
            for h in n.handlers:
                if h.type is None:
                    caught.add("Exception")
                else:
                    for x in ast.walk(h.type):
                        if isinstance(x, ast.Name):
                            caught.add(x.id)
                        elif isinstance(x, ast.Attribute):
                            caught.add(x.attr)
            for b in n.body:
                for x in ast.walk(b):
                    out.setdefault(id(x), set()).update(caught)
    return out


def flag_test(t, depth=0):
    """A test on an option of the call: its truth is the caller's choice."""
    if depth > 6:
        return False
    if t.op == "un" and t.name == "not":
        return flag_test(t.args[0], depth + 1)
    if t.op == "bool":
        return all(flag_test(a, depth + 1) for a in t.args)
    if t.op == "cmp" and t.name in ("is", "is not", "==", "!=", "in", "not in"):
        return option(t.args[0]) and constant(t.args[1]) or option(t.args[1]) and constant(t.args[0])
    if t.op == "ecall" and t.name == "builtins.isinstance":
        return option(t.args[0])
    return option(t)


def option(t):
    if t.op == "param":
        return t.name != "self"
    if t.op in ("kwget", "stararg"):
        return True
    return False


def constant(t):
    return t.op == "const" or (t.op in ("list", "tuple", "set") and all(a.op == "const" for a in t.args))


def unbound_ways(it, u, st, conds=(), depth=0):
    """Branch combinations under which a name is unbound: [[(condition, truth)]]"""
    d = it.decide(u, st)
    if d is False:
        return
    if u.op == "const":
        if u.x is True:
            yield conds
        return
    if u.op != "phi" or depth > 8:
        yield conds + ((u, True),)
        return
    c = u.args[0]
    dc = it.decide(c, st)
    for truth, sub in ((True, u.args[1]), (False, u.args[2])):
        if dc is not None and dc is not truth:
            continue
        s2 = it.assumed(st, c, truth) if dc is None else st
        yield from unbound_ways(it, sub, s2, conds if dc is not None else conds + ((c, truth),), depth + 1)


# -- D: libraries -----------------------------------------------------------------------------------


def lib_name(dotted):
    """None when the dotted name exists or nothing is known about it; otherwise (module, missing name)."""
    mods = api()["modules"]
    parts = dotted.split(".")
    if parts[0] in ("graph_tool", "pyflann", "sklearn") or any(p.startswith("_") for p in parts):
        return None
    for i in range(len(parts) - 1, 0, -1):
        m = ".".join(parts[:i])
        if m in mods:
            if parts[i] in mods[m] or f"{m}.{parts[i]}" in mods:
                return None
            return m, parts[i]
    return None


def lib_call(name, nargs, kws, star):
    """Why a call does not fit the signature of a library function, or None."""
    s = api()["sigs"].get(name)
    if s is None:
        return None
    pos, kwonly, var, kw, req = s
    if not star and not var and nargs > len(pos):
        return f"takes at most {len(pos)} positional arguments ({nargs} given)"
    names = {p for p in pos if not p.startswith("/")} | set(kwonly)
    if not kw:
        for k in kws:
            if k not in names:
                return f"has no parameter {k!r}"
    for k in kws:
        if k in pos and pos.index(k) < nargs and not star:
            return f"gets two values for {k!r}"
    if not star and nargs + len([k for k in kws if k in pos]) < req and "**" not in kws:
        return "misses a required argument"
    return None


def local_ext(prog, m, func_node, name, chain):
    """Dotted library name a local name stands for, through imports of the enclosing functions."""
    for f in chain:
        for n in ast.walk(f):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        return ("ext", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        return prog.resolve_member(m.resolve_from(n), a.name)
        args = f.args
        if name in [x.arg for x in args.posonlyargs + args.args + args.kwonlyargs + [y for y in (args.vararg, args.kwarg) if y]]:
            return "local"
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                return "local"
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f and n.name == name:
                return "local"
            if isinstance(n, ast.ExceptHandler) and n.name == name:
                return "local"
    r = prog.resolve_name(m, name)
    return r


def ext_refs(P, R):
    """Every dotted reference to a library in the sources."""
    from ..model import Module
    for m in P.prog.modules.values():
        chain_of = {}

        def visit(n, chain):
            for c in ast.iter_child_nodes(n):
                ch = chain
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    ch = (c,) + chain
                chain_of[id(c)] = chain
                visit(c, ch)

        visit(m.tree, ())
        seen = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level:
                base = n.module or ""
                if base.split(".")[0] in ("pygsp",):
                    continue
                for a in n.names:
                    if a.name == "*":
                        continue
                    R.count("library_references")
                    bad = lib_name(f"{base}.{a.name}") if base in api()["modules"] else None
                    if bad:
                        R.finding("library-name", f"{m.name}:{base}.{a.name}", f"{bad[0]} has no {bad[1]}", f"{m.path}:{n.lineno}")
                continue
            if not isinstance(n, ast.Attribute) or id(n) in seen:
                continue
            parts = []
            x = n
            while isinstance(x, ast.Attribute):
                parts.append(x.attr)
                x = x.value
                seen.add(id(x))
            if not isinstance(x, ast.Name):
                continue
            parts.reverse()
            r = local_ext(P.prog, m, None, x.id, chain_of.get(id(n), ()))
            if r is None or r == "local":
                continue
            dotted = None
            if isinstance(r, tuple) and r[0] == "ext":
                dotted = r[1] + "." + ".".join(parts)
            elif isinstance(r, Module):
                cur = r
                k = 0
                while isinstance(cur, Module) and k < len(parts):
                    nx = P.prog.resolve_member(cur.name, parts[k])
                    R.count("package_references")
                    if nx is None and not dynamic_module(cur, parts[k]):
                        R.finding("missing-member", f"{m.name}:{cur.name}.{parts[k]}", f"{cur.name} defines no {parts[k]}", f"{m.path}:{n.lineno}")
                        break
                    cur = nx
                    k += 1
                if isinstance(cur, tuple) and cur[0] == "ext":
                    dotted = cur[1] + "".join("." + p for p in parts[k:])
            if dotted:
                R.count("library_references")
                bad = lib_name(dotted)
                if bad:
                    R.finding("library-name", f"{m.name}:{bad[0]}.{bad[1]}", f"{bad[0]} has no {bad[1]}", f"{m.path}:{n.lineno}")


def dynamic_module(m, name):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and n.name == "__getattr__":
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "globals", "vars", "exec"):
            return True
        if isinstance(n, ast.Global) and name in n.names:
            return True
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            return True
    return name.startswith("__")


def format_calls(P, R):
    """Format strings whose fields and arguments do not match."""
    for m in P.prog.modules.values():
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant)
                    and isinstance(n.func.value.value, str)):
                continue
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            R.count("format_strings")
            try:
                fields = list(string.Formatter().parse(n.func.value.value))
            except ValueError as e:
                R.finding("format", f"{m.name}:{n.func.value.value[:40]}", f"invalid format string: {e}", f"{m.path}:{n.lineno}")
                continue
            auto = 0
            kw = {k.arg for k in n.keywords}
            for _, f, spec, _ in fields:
                if f is None:
                    continue
                head = f.split(".")[0].split("[")[0]
                if head == "":
                    i = auto
                    auto += 1
                elif head.isdigit():
                    i = int(head)
                else:
                    if head not in kw:
                        R.finding("format", f"{m.name}:{n.func.value.value[:40]}", f"no argument for the field {{{head}}}", f"{m.path}:{n.lineno}")
                    continue
                if i >= len(n.args):
                    R.finding("format", f"{m.name}:{n.func.value.value[:40]}", f"no argument for field number {i}", f"{m.path}:{n.lineno}")


# -- C: attributes of the library's own objects --------------------------------------------------------


def stored_fields(P):
    """{field: {class}}: who assigns which attribute, syntactically, plus attributes given to objects of unknown class."""
    out = {}
    for m in P.prog.modules.values():
        for c in m.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                me = f.args[0] if f.args else None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        if isinstance(n.value, ast.Name) and n.value.id == me:
                            out.setdefault(n.attr, set()).add(c)
                        else:
                            out.setdefault(n.attr, set()).add(None)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                        if len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                            out.setdefault(n.args[1].value, set()).add(None)
                        else:
                            out.setdefault("*", set()).add(c)
            for a in list(c.attrs) + list(c.methods) + list(c.setters):
                out.setdefault(a, set()).add(c)
        for f in m.functions.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.setdefault(n.attr, set()).add(None)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                    out.setdefault(n.args[1].value, set()).add(None)
    return out


def constructed(P, R):
    """{class: {field: condition under which a constructor leaves it unset (TRUE: never set)}}"""
    out = {}
    for e in P.entries:
        if e.kind != "init":
            continue
        try:
            r = P.run(e)
        except Exception:  # noqa: BLE001
            continue
        if r.obj is None or not r.returns:
            continue
        fields = {}
        st = r.it.merge_all([x.state for x in r.returns])
        for (ident, f), v in st.heap.items():
            if ident == r.obj.ident:
                fields[f] = (v, st, r)
        out[e.cls] = fields
    return out


def missing_ways(it, v, st, conds=(), depth=0):
    """Branch combinations under which a constructor leaves a field unset."""
    if v.op == "missing":
        yield conds
        return
    if v.op != "phi" or depth > 8:
        return
    c = v.args[0]
    dc = it.decide(c, st)
    for truth, sub in ((True, v.args[1]), (False, v.args[2])):
        if dc is not None and dc is not truth:
            continue
        yield from missing_ways(it, sub, it.assumed(st, c, truth) if dc is None else st, conds + ((c, truth),) if dc is None else conds, depth + 1)


def attribute_reads(P, R, results):
    stores = stored_fields(P)
    dyn = stores.get("*", set())
    cons = constructed(P, R)
    handled = {}
    for r, evs in results:
        it = r.it
        for e in evs:
            if e.kind != "getfield":
                continue
            R.count("attribute_reads")
            name = e.info
            if isinstance(e.node, ast.Call) and isinstance(e.node.func, ast.Name) and e.node.func.id == "getattr" and len(e.node.args) == 3:
                continue  # with a default
            if name.startswith("__"):
                continue
            b = e.term
            cls = it.cls_of(b, e.state)
            if cls is None or cls.ext_bases and any(x not in ("object",) for x in cls.ext_bases):
                continue
            if e.func not in handled:
                handled[e.func] = handled_nodes(e.func)
            if handled[e.func].get(id(e.node), set()) & {"AttributeError", "Exception", "BaseException"}:
                continue
            if guarded(it, e, b, name):
                continue
            owners = stores.get(name, set())
            if None in owners or any(o in cls.mro() for o in dyn):
                related = True
            else:
                related = any(o in cls.mro() or cls in o.mro() or shares(P, o, cls) for o in owners)
            if not related:
                R.finding("missing-attribute", f"{e.func.qualname}:{cls.name}.{name}", f"{e.func.qualname} reads {tname(it, b)}.{name}, which nothing in the package sets on a {cls.name}",
                          e.site, r.entry.name, e.trace())
                continue
            # set by the constructor on some ways only
            if b.op != "param" or b.name != "self" or cls not in cons:
                continue
            if None in owners or any(not sets_in_init_only(P, o, name) for o in owners if o in cls.mro()):
                continue
            fv = cons[cls].get(name)
            if fv is None:
                continue
            v, st, r0 = fv
            for ways in missing_ways(r0.it, v, st):
                if ways and all(flag_test(c) for c, _ in ways) and not correlated(it, e, ways, cons[cls]):
                    R.finding("attribute-not-always-set", f"{e.func.qualname}:{cls.name}.{name}",
                              f"{e.func.qualname} reads self.{name}, which {cls.name} does not set when " + " and ".join(f"{c!r} is {t}" for c, t in ways),
                              e.site, r.entry.name, e.trace())
                    break


def correlated(it, e, ways, fields):
    """The reader tests a stored option that may tell the cases apart."""
    opts = set()
    for c, _ in ways:
        for u in walk(c):
            if u.op in ("param", "kwget"):
                opts.add(u.uid)
    dep = set()
    for f, (v, st, r0) in fields.items():
        if any(u.uid in opts for u in walk(v)) or any(u.op == "phi" and any(z.uid in opts for z in walk(u.args[0])) for u in walk(v)):
            dep.add(f)
    for c, t in e.state.path:
        for u in walk(c):
            if u.op == "attr" and u.name in dep:
                return True
    return False


def sets_in_init_only(P, c, name):
    for f in list(c.methods.values()) + list(c.setters.values()):
        if f.name == "__init__":
            continue
        me = f.args[0] if f.args else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == me:
                return False
    return True


def shares(P, o, cls):
    """Mixins: some class of the package inherits from both."""
    return any(o in c.mro() and cls in c.mro() for c in P.prog.all_classes())


def guarded(it, e, b, name):
    for c, t in e.state.path:
        for u in walk(c):
            if u.op == "ecall" and u.name == "builtins.hasattr" and len(u.args) == 2 and u.args[1].op == "const" and u.args[1].x == name:
                return True
    for n in ast.walk(e.func.node):  # operands after `hasattr(...) and`, early exits
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hasattr" and len(n.args) == 2 \
                and isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
            return True
    return False


def documented_kwargs(P):
    """Entries taking **kwargs with the optional names they document or read."""
    from ..model import digest_doc
    for e in P.entries:
        f = e.func
        if not f.kwarg:
            continue
        names = set()
        doc = digest_doc(f.doc)
        if e.kind == "init":
            doc = digest_doc(e.cls.doc)
        for k in doc:
            if k not in f.args and k not in f.kwonly and k not in (f.kwarg, f.vararg) and k.isidentifier():
                names.add(k)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == f.kwarg and n.args and isinstance(n.args[0], ast.Constant):
                names.add(n.args[0].value)
        if names:
            yield e, sorted(names)


def private(e):
    n = e.func.name
    return n.startswith("_") and not (n.startswith("__") and n.endswith("__")) or e.cls is not None and e.cls.name.startswith("_")


def check(P, R):
    R.rule("Every function, method, property and closure of the package is analysed, public or not. Names are resolved in their scopes; names bound on some "
           "ways only are compared with the branch conditions under which they are used; each call of a function or class of the package is matched with its "
           "signature; each attribute read on a graph or filter must be set by the package on that class; each reference to NumPy, SciPy, the standard library "
           "and the optional libraries is looked up in a table of the names and signatures of the installed versions.")
    for m in P.prog.modules.values():
        scopes(R, m)
    ext_refs(P, R)
    format_calls(P, R)
    results = []
    for r in each(P, R):
        P.escaped(r)
        results.append((r, list(r.events) + list(r.escaped_events)))
    for e in P.extra_entries():
        try:
            r = P.run(e)
            P.escaped(r)
        except Exception as ex:  # noqa: BLE001
            R.notes.append(f"not analysed: {e.name} ({type(ex).__name__}: {ex})")
            R.count("entry_points_not_analysed")
            continue
        R.count("private_functions")
        results.append((r, list(r.events) + list(r.escaped_events)))
    for e, names in documented_kwargs(P):
        def make(it, func, skip, overrides=None, orig=P.make_params, e=e, names=names):
            args = orig(it, func, skip, None)
            if func is e.func:
                args[func.kwarg] = Term("kwdict", None, [], {n: it.param(n, func=func) for n in names})
            return args
        keep = P.make_params
        P.make_params = make
        try:
            r = P.run(e, overrides={})
        except Exception as ex:  # noqa: BLE001
            R.notes.append(f"not analysed: {e.name} with {names} ({type(ex).__name__}: {ex})")
            continue
        finally:
            P.make_params = keep
        R.count("keyword_variants")
        results.append((r, list(r.events)))
    public = set()
    for r, _ in results:
        if not private(r.entry):
            public |= r.it.inlined
    handled = {}
    for r, evs in results:
        it = r.it
        for e in evs:
            if e.func not in handled:
                handled[e.func] = handled_nodes(e.func)
            caught = handled[e.func].get(id(e.node), set())
            if e.kind in ("undefined", "unbound"):
                if caught & {"NameError", "UnboundLocalError", "Exception"}:
                    continue
                R.finding("undefined-name", f"{e.func.qualname}:{e.info}", f"{e.info} is used in {e.func.qualname} without having been bound", e.site, r.entry.name, e.trace())
            elif e.kind == "maybe_unbound":
                R.count("names_bound_on_some_ways")
                if caught & {"NameError", "UnboundLocalError", "Exception"} or e.term.x is None:
                    continue
                name, d = e.info
                if private(r.entry) and r.entry.func.qualname in public:
                    continue  # judged with the arguments its callers pass
                for ways in unbound_ways(it, e.term.x, e.state):
                    if not ways and d is True or ways and all(flag_test(c) for c, _ in ways):
                        R.finding("maybe-unbound", f"{e.func.qualname}:{name}",
                                  f"{name} is used in {e.func.qualname} but is not bound when " + (" and ".join(f"{c!r} is {t}" for c, t in ways) or "it is reached"),
                                  e.site, r.entry.name, e.trace())
                        break
            elif e.kind == "missing_attr":
                if caught & {"AttributeError", "Exception"}:
                    continue
                R.finding("missing-member", f"{e.func.qualname}:{e.term.x.name if e.term.op == 'module' else e.term!r}.{e.info}", f"{e.info} does not exist", e.site, r.entry.name, e.trace())
            elif e.kind == "missing_field":
                if caught & {"AttributeError", "Exception"} or guarded(it, e, e.term, e.info):
                    continue
                cls = it.cls_of(e.term, e.state)
                R.finding("missing-attribute", f"{e.func.qualname}:{cls.name if cls else '?'}.{e.info}", f"{e.func.qualname} reads .{e.info} of a new {cls.name if cls else 'object'} before anything sets it",
                          e.site, r.entry.name, e.trace())
            elif e.kind == "call":
                R.count("package_calls")
            elif e.kind == "bad_call":
                if caught & {"TypeError", "Exception"}:
                    continue
                R.finding("call-signature", f"{e.func.qualname}:{e.info[0].qualname}", f"the call of {e.info[0].qualname} in {e.func.qualname} {e.info[1]}", e.site, r.entry.name, e.trace())
            elif e.kind == "bad_unpack":
                if caught & {"ValueError", "Exception"}:
                    continue
                R.finding("unpacking", f"{e.func.qualname}:{e.info[0]}:{e.info[1]}", f"{e.func.qualname} unpacks {e.info[0]} values into {e.info[1]} names", e.site, r.entry.name, e.trace())
            elif e.kind == "dup_kw":
                R.finding("call-signature", f"{e.func.qualname}:{e.info}", f"a call in {e.func.qualname} gets two values for the keyword {e.info!r}", e.site, r.entry.name, e.trace())
            elif e.kind == "ecall":
                t = e.term
                R.count("library_calls")
                star = any(a.op == "starred" for a in t.args)
                why = lib_call(t.name, len(t.args), list(t.kw), star)
                if why and not caught & {"TypeError", "Exception"}:
                    R.finding("library-call", f"{e.func.qualname}:{t.name}", f"{t.name} {why}", e.site, r.entry.name, e.trace())
                bad = lib_name(t.name) if not t.name.startswith("builtins.object") else None
                if bad and not caught & {"AttributeError", "Exception"}:
                    R.finding("library-name", f"{e.func.module.name}:{bad[0]}.{bad[1]}", f"{bad[0]} has no {bad[1]}", e.site, r.entry.name, e.trace())
            elif e.kind == "mcall":
                t = e.term
                k = it.kind(t.args[0]) or arrayish(t.args[0])
                if k in KINDS and not any(t.name in api()["types"][z] for z in KINDS[k]) and not caught & {"AttributeError", "Exception"}:
                    R.count("typed_method_calls")
                    R.finding("method-name", f"{e.func.qualname}:{t.name}", f"no {k} has a method {t.name}", e.site, r.entry.name, e.trace())
    attribute_reads(P, R, results)
    R.need("scopes", 200)
    R.need("entry_points", 120)
    R.need("library_references", 400)
    R.need("attribute_reads", 500)


ARRAY_ONLY = {"squeeze", "swapaxes", "reshape", "ravel", "astype", "flatten", "toarray", "todense", "argsort", "cumsum", "nonzero", "conj", "conjugate", "clip"}


def arrayish(t):
    """The result of a method only arrays and sparse matrices have."""
    us = list(leaves(t))
    return "array" if us and all(u.op == "mcall" and u.name in ARRAY_ONLY and u.name != "nonzero" or u.op == "attr" and u.name in ("T", "mT") and u.args[0].op == "mcall" and u.args[0].name in ARRAY_ONLY for u in us) else None


SPARSE = [f"{k}_{f}" for k in ("csr", "csc", "coo", "dia", "bsr", "lil", "dok") for f in ("matrix", "array")]
KINDS = {"array": ["ndarray", "matrix", "float64"] + SPARSE, "sparse": SPARSE, "str": ["str"], "dict": ["dict"], "list": ["list"]}
