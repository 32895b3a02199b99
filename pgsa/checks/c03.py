"""C03: remembered quantities never outlive the Laplacian or the request they belong to."""

import ast

from ..interp import Interp, State
from ..terms import NONE, Term, const, leaves, skey, walk
from .c02 import documented_mutator
from .common import all_memo, each, external_base, is_gf, memo_fields, param_root, tname

L_FIELDS = {"L", "lap_type"}
LOSSY_CALLS = {"builtins.len", "builtins.id", "builtins.type", "numpy.shape", "numpy.ndim", "numpy.size", "builtins.hash", "numpy.sum", "builtins.sum"}
LOSSY_ATTRS = {"shape", "size", "ndim", "dtype", "__class__", "__name__"}


def alternatives(v, path=(), depth=0):
    """[(leaf, conditions)] of a phi tree."""
    if v.op == "phi" and depth < 14:
        c, a, b = v.args
        if a.uid == b.uid:
            return alternatives(a, path, depth + 1)
        return alternatives(a, path + ((c, True),), depth + 1) + alternatives(b, path + ((c, False),), depth + 1)
    if v.op == "mu":
        return [(u, path) for u in leaves(v)]
    return [(v, path)]


def deps(t, lossy=False):
    """Names of the parameters a value depends on; with lossy=False, those seen only through a lossy function do not count."""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op == "param":
            out.add(u.name)
            continue
        if not lossy:
            if u.op == "ecall" and u.name in LOSSY_CALLS:
                continue
            if u.op == "attr" and u.name in LOSSY_ATTRS:
                continue
        stack.extend(u.children())
    return out


def mentions_field(t, fields):
    """A value computed from fields; what the previous contents of another lazily computed field were does not count."""
    def versions(u):
        if u.op != "phi":
            return None
        names = {x.name for x in leaves(u) if x.op in ("attr", "mu") and x.name and x.name.startswith("_")}
        return names - fields if len(names) == 1 else None
    return any(u.op == "attr" and u.name in fields for u in walk(t, lambda u, c: not (c is u.args[0] and versions(u)) if u.op == "phi" else True))


def is_orig(leaf, base, field):
    if leaf.op == "missing" and leaf.name == field:
        return True  # never read before the join: the previous value
    return leaf.op == "attr" and leaf.name == field and leaf.args[0].ident == base.ident


def atoms(cond, truth):
    if cond.op == "un" and cond.name == "not":
        return atoms(cond.args[0], not truth)
    if cond.op == "bool" and (cond.name == "and") == truth:
        r = []
        for a in cond.args:
            r += atoms(a, truth)
        return r
    return [(cond, truth)]


def cases(conds):
    """The ways in which the conditions can hold: lists of atoms, one list per choice of the alternatives of disjunctions."""
    ways = [[]]
    for c, t in conds:
        out = []
        for w in ways:
            for d in dnf(c, t):
                out.append(w + d)
        if len(out) > 64:
            return [[a for c, t in conds for a in atoms(c, t)]]
        ways = out
    return ways


def dnf(c, t):
    if c.op == "un" and c.name == "not":
        return dnf(c.args[0], not t)
    if c.op == "bool":
        if (c.name == "and") == t:
            ways = [[]]
            for a in c.args:
                ways = [w + d for w in ways for d in dnf(a, t)]
            return ways
        return [d for a in c.args for d in dnf(a, t)]
    return [[(c, t)]]


def under(v, conds):
    """Value of a phi tree when conditions are fixed."""
    fixed = {c.uid: t for c, t in conds}
    n = 0
    while v.op == "phi" and n < 40:
        n += 1
        t = fixed.get(v.args[0].uid)
        if t is None:
            return v
        v = v.args[1 if t else 2]
    return v


def cached_fields(P, R):
    """Fields of existing objects assigned by operations: {(kind, field): [(entry result, base, exits)]}."""


def private_state(field, memo):
    return field in memo or field.startswith("_")


def spine(t):
    while True:
        yield t
        if t.op not in ("attr", "sub", "maybe", "store", "mutview", "mutcall", "inplace"):
            return
        t = t.args[0]


def l_dependent(P, R, memo):
    """Fields whose value is computed from the Laplacian (directly or through another such field)."""
    vals = {}
    for r in each(P, R, lambda e: e.kind in ("method", "property", "function")):
        it = r.it
        for ev in r.events:
            if ev.kind == "store" and is_gf(it, ev.term, ev.state) and external_base(it, ev.term, ev.state) is True:
                if any(u.op in ("mu", "sub") for u in spine(ev.term)):
                    continue  # one of several graphs, some of which may be derived from the matrices of others
                f, v = ev.info
                if not private_state(f, memo) or (v.op == "const" and v.x is None):
                    continue
                c = it.cls_of(ev.term, ev.state)
                who = "Filter" if any(b.name == "Filter" for b in c.mro()) else "Graph"
                conds = [c for c, _ in ev.state.path if not mentions_field(c, {"_U"})]
                vals.setdefault((who, f), []).append((v, ev))
            elif ev.kind == "mutate" and ev.info["how"] == "setitem" and ev.info["value"] is not None:
                for rt, d in it.alias_roots(ev.term, ev.state):
                    if rt.op == "attr" and rt.name.startswith("_") and is_gf(it, rt.args[0], ev.state) and external_base(it, rt.args[0], ev.state) is True and rt.name not in ("_adjacency",):
                        c = it.cls_of(rt.args[0], ev.state)
                        who = "Filter" if any(b.name == "Filter" for b in c.mro()) else "Graph"
                        if rt.ident == ev.term.ident or ev.term.op in ("store", "mutcall", "attr"):
                            vals.setdefault((who, rt.name), []).append((ev.info["value"], ev))
    dep = set(L_FIELDS)
    changed = True
    while changed:
        changed = False
        for (who, f), vs in vals.items():
            if f in dep:
                continue
            if any(mentions_field(v, dep) for v, _ in vs):
                dep.add(f)
                changed = True
    # what is remembered about how an L-dependent quantity was obtained: filled by the same call
    groups = {}
    for (who, f), vs in vals.items():
        for v, ev in vs:
            groups.setdefault((who, ev.func.qualname), set()).add(f)
    for fs in list(groups.values()):
        if fs & dep:
            dep |= {f for f in fs if f in memo}
    return dep - L_FIELDS, vals


def check(P, R):
    R.rule("(a) Fields computed from the Laplacian are inferred from the value graph; on every normal exit of every operation that replaces the Laplacian by one of another "
           "type, none of them may still hold its previous value. (b) On every path on which an operation keeps a remembered value instead of computing it, the deciding condition must "
           "compare every parameter the value depends on with what is remembered, in the right direction. (c) Keys of private caches cover what the cached value depends on. "
           "(d) No memoizing decorator is applied to something that reads the Laplacian.")
    memo = all_memo(P.prog)
    R.count("lazily_computed_fields", len(memo))
    ldep, vals = l_dependent(P, R, memo)
    R.count("laplacian_dependent_fields", len(ldep))
    R.sample("fields computed from the Laplacian: " + ", ".join(sorted(ldep)))
    R.need("laplacian_dependent_fields", 5)
    switching(P, R, ldep)
    requests(P, R, memo, ldep)
    partial_extremes(P, R)
    caches(P, R, memo, ldep)
    decorators(P, R, ldep)
    R.need("laplacian_switches_examined", 2)
    R.need("cache_hits_examined", 3)


def graph_only(vals, ldep):
    return {f for (who, f) in vals if who == "Graph" and f in ldep}


def lap_options(P, func, p):
    from ..model import doc_options
    d = P.prog.inherited_doc(func).get(p)
    o = doc_options(d[0]) if d else None
    return o or ["combinatorial", "normalized"]


def switching(P, R, ldep):
    prog = P.prog
    for e in P.entries:
        if e.kind not in ("method", "setter", "property") or e.cls is None or e.cls.name != "Graph" and not any(b.name == "Graph" for b in e.cls.mro()) and e.cls not in prog.find_class("Graph").mro():
            continue
        try:
            r = P.run(e)
        except Exception:
            continue
        s = r.params.get("self")
        if s is None or not any((s.ident, f) in x.state.heap for x in r.returns for f in L_FIELDS):
            continue
        lp = [p for p in e.func.args[1:] + e.func.kwonly if "lap" in p or set(lap_options(P, e.func, p)) & {"normalized"} and P.prog.inherited_doc(e.func).get(p)]
        lp = lp[:1]
        opts = lap_options(P, e.func, lp[0]) if lp else ["combinatorial", "normalized"]
        for old in opts:
            for new in opts if lp else [None]:
                if new == old:
                    continue
                it = P.interp()
                over = {lp[0]: const(new)} if lp else None
                params = P.make_params(it, e.func, True, over)
                args = P.entry_env(e.func, params)
                me = it.param("self", e.cls, func=e.func)
                args[e.func.args[0]] = me
                st = State()
                st.heap[(me.ident, "lap_type")] = const(old)
                returns, raises = it.run(e.func, args, st, self_term=me)
                for x in returns:
                    lv = x.state.heap.get((me.ident, "L"))
                    tv = x.state.heap.get((me.ident, "lap_type"))
                    lchg = lv is not None and not all(is_orig(u, me, "L") for u in leaves(lv))
                    tchg = tv is not None and not (tv.op == "const" and tv.x == old)
                    if not (lchg or tchg):
                        continue
                    R.count("laplacian_switches_examined")
                    for f in sorted(ldep):
                        if ("Graph", f) not in graphfields(P):
                            continue
                        v = x.state.heap.get((me.ident, f))
                        a = it.attrs.get((me.ident, f))
                        if v is None and a is not None and a.ident in x.state.ver and x.state.ver[a.ident].op == "mutcall":
                            continue
                        stale = v is None or any(is_orig(u, me, f) for u in leaves_decided(it, v, x.state))
                        R.count("invalidations_examined")
                        if stale:
                            R.finding("stale-after-switch", f"{e.name}:{f}",
                                      f"{e.name} replaces the {old} Laplacian but can return with {f}, computed from the previous one, still in place",
                                      f"{e.func.module.path}:{getattr(x.node, 'lineno', '?')}", e.name)


def leaves_decided(it, v, st):
    out, stack, seen = [], [v], set()
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op == "phi":
            c = it.decide(u.args[0], st)
            if c is None:
                stack.extend(u.args[1:])
            else:
                stack.append(u.args[1 if c else 2])
        elif u.op == "mu":
            stack.extend(u.args)
        else:
            out.append(u)
    return out


_gf = {}


def graphfields(P):
    """(kind, field) of the fields stored on graphs and filters outside constructors."""
    k = id(P)
    if k not in _gf:
        out = set()
        memo = all_memo(P.prog)
        for e in P.entries:
            if e.kind == "init":
                continue
            try:
                r = P.run(e)
            except Exception:
                continue
            for ev in r.events:
                if ev.kind == "store" and is_gf(r.it, ev.term, ev.state):
                    c = r.it.cls_of(ev.term, ev.state)
                    who = "Filter" if any(b.name == "Filter" for b in c.mro()) else "Graph"
                    out.add((who, ev.info[0]))
                elif ev.kind == "mutate":
                    for rt, d in r.it.alias_roots(ev.term, ev.state):
                        if rt.op == "attr" and rt.name.startswith("_") and is_gf(r.it, rt.args[0], ev.state):
                            c = r.it.cls_of(rt.args[0], ev.state)
                            who = "Filter" if any(b.name == "Filter" for b in c.mro()) else "Graph"
                            out.add((who, rt.name))
        _gf[k] = out
    return _gf[k]


def requests(P, R, memo, ldep):
    publics = {e.func.qualname for e in P.entries}
    pairs = {}
    for e in P.entries:
        if e.kind == "init":
            continue
        try:
            r = P.run(e)
        except Exception:
            continue
        it = r.it
        bases = {}
        for x in r.returns:
            for (ident, f), (base, _v, _n, _fn, stack, _env) in x.state.dirty.items():
                # a public operation called on the way is analysed on its own
                if any(g.qualname in publics and g is not e.func for g, _ in stack[1:]):
                    continue
                if isinstance(f, str) and private_state(f, memo) and is_gf(it, base, x.state) and external_base(it, base, x.state) is True:
                    bases.setdefault(ident, (base, set()))[1].add(f)
        for ident, (base, fields) in bases.items():
            # only what this operation stores itself or through its helpers
            stored = {}
            hits = []
            for x in r.returns:
                vals = {}
                for f in fields:
                    v = x.state.heap.get((ident, f))
                    if v is None:
                        a = it.attrs.get((ident, f))
                        v = a if a is not None else Term("attr", f, [base])
                    vals[f] = v
                    for leaf, conds in alternatives(v, x.state.path):
                        if not is_orig(leaf, base, f) and not (leaf.op == "const" and leaf.x is None) and leaf.op not in ("missing",):
                            stored.setdefault(f, []).append((leaf, conds, v))
                for f in fields:
                    for leaf, conds in alternatives(vals[f], x.state.path):
                        if is_orig(leaf, base, f):
                            if all(all_orig(under(vals[g], conds), base, g) for g in fields):
                                hits.append((f, conds, x))
            if not hits or not stored:
                continue
            own = {p for p in e.func.args + e.func.kwonly}
            for f, conds, x in hits:
                if f not in stored:
                    continue
                R.count("cache_hits_examined")
                need = set()
                for leaf, sc, whole in stored[f]:
                    need |= deps(leaf, lossy=True)
                    for c, t in sc:
                        pass
                    need |= cond_deps(whole)
                need &= own
                need.discard("self")
                if param_root(base) is not None:
                    need.discard(param_root(base).name)
                need = {p for p in need if not is_gf(it, r.params[p])} if need else need
                for p in sorted(need):
                    bad = None
                    ok = True
                    for way in cases(conds):
                        good = False
                        for a, at in way:
                            if p not in deps(a) and p not in deps(a, lossy=True):
                                continue
                            if not mentions_state(a, fields, memo):
                                continue
                            if p not in deps(a):
                                bad = f"only a lossy summary of '{p}' is compared with what is remembered"
                                continue
                            d = direction(a, at, p)
                            if d and same_size(a, p, stored):
                                d = False
                            for u in walk(a):
                                if u.op == "attr" and u.name in memo:
                                    pairs.setdefault(u.name, set()).update(costored(r, base, u.name, stored))
                            if d is False:
                                bad = f"the remembered value is kept when '{p}' differs from or exceeds what is remembered"
                                continue
                            good = True
                        # a way decided by other inputs altogether returns nothing from memory
                        if not good and any(mentions_state(a, fields, memo) for a, at in way):
                            ok = False
                    # an exit decided by other inputs altogether (nothing is returned from memory)
                    if not ok:
                        if not any(mentions_state(c, fields, memo) for c, t in conds):
                            continue
                        R.finding("request-ignored", f"{e.name}:{f}:{p}",
                                  f"{e.name} keeps the remembered {f} without checking that it was obtained for the requested '{p}'" + (f" ({bad})" if bad else ""),
                                  f"{e.func.module.path}:{getattr(x.node, 'lineno', '?')}", e.name)
                # filters remember something of the graph
                if any(b.name == "Filter" for b in it.cls_of(base).mro()):
                    if any(mentions_field(leaf, ldep | L_FIELDS) for leaf, _, _ in stored[f]) and not any(mentions_field(c, ldep | L_FIELDS) for c, t in conds) and any(mentions_state(c, fields, memo) for c, t in conds):
                        R.finding("request-ignored", f"{e.name}:{f}:laplacian",
                                  f"{e.name} keeps the remembered {f}, computed from the graph's Laplacian, without checking that the Laplacian is still the same",
                                  f"{e.func.module.path}:{getattr(x.node, 'lineno', '?')}", e.name)


    # what tells how a value was obtained is updated with the value
    for e in P.entries:
        if e.kind == "init":
            continue
        try:
            r = P.run(e)
        except Exception:
            continue
        it = r.it
        for x in r.returns:
            for (ident, f), (base, _v, _n, _fn, stack, _env) in x.state.dirty.items():
                if any(g.qualname in publics and g is not e.func for g, _ in stack[1:]):
                    continue
                for key, group in pairs.items():
                    if f == key or f not in group or not is_gf(it, base, x.state) or external_base(it, base, x.state) is not True:
                        continue
                    v = x.state.heap.get((ident, f))
                    k = x.state.heap.get((ident, key))
                    if v is None:
                        continue
                    for leaf, conds in alternatives(v, x.state.path):
                        if is_orig(leaf, base, f) or leaf.op in ("const", "missing"):
                            continue
                        R.count("paired_updates_examined")
                        kk = under(k, conds) if k is not None else None
                        if kk is None or any_orig(kk, base, key):
                            R.finding("obtained-how-not-updated", f"{e.name}:{f}:{key}",
                                      f"{e.name} can replace the remembered {f} without updating {key}, which says what it was obtained for",
                                      f"{e.func.module.path}:{getattr(x.node, 'lineno', '?')}", e.name)


def costored(r, base, key, stored):
    """Fields the operation stores exactly when it stores the key (all of them when it forgets the key)."""
    if key not in stored:
        return set(stored)
    out = set()

    def implied(x, a, b):
        va = x.state.heap.get((base.ident, a))
        vb = x.state.heap.get((base.ident, b))
        if va is None:
            return True
        for leaf, conds in alternatives(va, x.state.path):
            if is_orig(leaf, base, a) or leaf.op in ("const", "missing"):
                continue
            if vb is None or any_orig(under(vb, conds), base, b):
                return False
        return True

    for f in stored:
        if f != key and all(implied(x, key, f) for x in r.returns):
            out.add(f)
    return out


def any_orig(v, base, f):
    return any(is_orig(u, base, f) for u in leaves(v))


def all_orig(v, base, f):
    return all(is_orig(u, base, f) for u in leaves(v))


def mentions_state(t, fields, memo):
    return any((u.op == "attr" and (u.name in fields or u.name in memo)) or (u.op == "missing" and u.name in fields) or (u.op == "const" and isinstance(u.x, str) and u.x in fields) for u in walk(t))


def cond_deps(v):
    """Parameters deciding between the stored alternatives (not between stored and remembered)."""
    out = set()
    for u in walk(v, into=lambda a, b: a.op in ("phi", "mu")):
        if u.op == "phi":
            c, a, b = u.args
            if not any(x.op == "attr" and x.name.startswith("_") for x in leaves(a) + leaves(b)):
                out |= deps(c, lossy=True)
    return out


DECOMPOSITIONS = ("eigh", "eigsh", "eig", "eigs", "svd", "svds", "lobpcg")


def same_size(a, p, stored):
    """Is what is compared with a request the size of the remembered value which does not change with it: the number of rows of eigenvectors?"""
    for u in a.args:
        if p in deps(u, lossy=True):
            continue
        x = None
        if u.op == "sub" and u.args[0].op == "attr" and u.args[0].name == "shape" and u.args[1].op == "const" and u.args[1].x in (0, -2):
            x = u.args[0].args[0]
        elif u.op == "ecall" and u.name == "builtins.len" and u.args:
            x = u.args[0]
        if x is None or x.op != "attr" or x.name not in stored:
            continue
        for leaf, _, _ in stored[x.name]:
            base = leaf
            while base.op in ("store", "mutview", "mutcall", "inplace") and base.args:
                base = base.args[0]
            if base.op == "unpack" and base.name == 1 and base.args[0].op == "ecall" and base.args[0].name.split(".")[-1] in DECOMPOSITIONS:
                return True
    return False


def direction(a, truth, p):
    """True if the comparison accepts only requests the memory covers, False if it accepts the others, None if unknown."""
    if a.op != "cmp":
        return None
    x, y = a.args
    px, py = p in deps(x), p in deps(y)
    if px == py:
        return None
    op = a.name
    if op in ("in", "not in"):
        if (op == "in") == truth and not px and any(v.op == "const" and v.x is not None for u in leaves(y) if u.op in ("tuple", "list", "set") for v in u.args):
            return False  # remembered for one of other requests
        return (op == "in") == truth
    if not px:
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if not truth:
        op = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<", "is": "is not", "is not": "is"}[op]
    if op in ("==", "is", "<=", "<"):
        return True
    return False


def partial_extremes(P, R):
    """The largest eigenvalue is not taken from a partial decomposition, which starts from the smallest ones."""
    for e in P.entries:
        if e.kind == "init":
            continue
        try:
            r = P.run(e)
        except Exception:
            continue
        it = r.it
        for ev in r.events:
            if ev.kind != "store" or ev.info[0] not in ("_lmax", "lmax") or not is_gf(it, ev.term, ev.state):
                continue
            R.count("largest_eigenvalues_stored")
            for d in walk(ev.info[1], into=lambda a, b: a.op in ("phi", "mu", "sub", "store", "unpack", "mutview", "mutcall", "inplace", "attr", "ecall", "mcall", "bin") and not (a.op == "phi" and b is a.args[0])):
                if d.op != "ecall" or d.name.split(".")[-1] not in ("eigsh", "eigs", "lobpcg"):
                    continue
                w = d.kw.get("which")
                k = d.kw.get("k") or (d.args[1] if len(d.args) > 1 else None)
                if w is None or w.op != "const" or w.x not in ("SM", "SA", "SR") or k is None or k.op == "const":
                    continue
                whole = False
                for c, t in ev.state.path:
                    for a, at in atoms(c, t):
                        if a.op == "cmp" and (a.name == "==" and at or a.name == "!=" and not at or a.name in (">=", "<=") and at or a.name in ("<", ">") and not at) and any(deps(z, lossy=True) & deps(k, lossy=True) - {"self"} for z in a.args):
                            whole = True
                if not whole:
                    R.finding("partial", f"{ev.func.qualname}:{ev.info[0]}", f"{ev.func.qualname} can take the largest eigenvalue from a partial decomposition, which only has the smallest ones", ev.site, e.name)


def caches(P, R, memo, ldep):
    seen = set()
    for e in P.entries:
        if e.kind == "init":
            continue
        try:
            r = P.run(e)
        except Exception:
            continue
        it = r.it
        for ev in r.events:
            if ev.kind != "mutate" or ev.info["how"] not in ("setitem", "setdefault()") or ev.info["index"] is None or ev.info["value"] is None:
                continue
            for rt, d in it.alias_roots(ev.term, ev.state):
                private = False
                if rt.op == "attr" and rt.name.startswith("_") and rt.name != "_adjacency" and is_gf(it, rt.args[0], ev.state) and external_base(it, rt.args[0], ev.state) is True:
                    private = True
                elif rt.op == "global":
                    private = True
                if not private:
                    continue
                R.count("private_cache_writes_examined")
                key, val = ev.info["index"], ev.info["value"]
                own = set(e.func.args + e.func.kwonly)
                need = deps(val, lossy=True) & own
                have = deps(key)
                have |= {p for p in need if p not in have and lossless_arg(it, key, p)}
                root = param_root(rt) if rt.op == "attr" else None
                for p in sorted(need - have):
                    if root is not None and p == root.name:
                        continue
                    if p == "self" and rt.op != "global":
                        continue
                    R.finding("cache-key", f"{e.name}:{rt.name}:{p}",
                              f"{e.name} remembers in {tname(it, rt)} a value that depends on '{p}' under a key that does not contain it",
                              ev.site, e.name, ev.trace())
                if rt.op == "global" and mentions_field(val, ldep | L_FIELDS) and not mentions_field(key, ldep | L_FIELDS):
                    R.finding("cache-key", f"{e.name}:{rt.name}:laplacian",
                              f"{e.name} remembers in {tname(it, rt)} a value computed from a graph's Laplacian under a key that does not contain it",
                              ev.site, e.name, ev.trace())


def lossless_arg(it, key, p):
    """The key contains the bytes of p (tobytes, tuple, str...)."""
    for u in walk(key):
        if u.op == "mcall" and u.name in ("tobytes", "tolist", "tostring") and p in deps(u, lossy=True):
            return True
    return False


MEMO_DECO = ("lru_cache", "cache", "cached_property", "memoize", "memoized")


def decorators(P, R, ldep):
    prog = P.prog
    for f in prog.all_functions():
        R.count("functions_scanned")
        names = [d for d in f.deco_names() if d.split(".")[-1].split("(")[0] in MEMO_DECO]
        if not names:
            continue
        R.count("memoizing_decorators")
        reads = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        if reads & (ldep | L_FIELDS | {"U", "e", "lmax", "coherence", "D", "gft", "igft", "filter", "evaluate", "grad", "div"}):
            R.finding("memoized", f.qualname, f"{f.qualname} is memoized by {names[0]} but reads what depends on the current Laplacian",
                      f"{f.module.path}:{f.node.lineno}", f.qualname)
