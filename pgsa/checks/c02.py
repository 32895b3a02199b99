"""C02: operations not documented as changing a graph or a filter bank leave it as it was."""

import re

from .. import libspec
from ..terms import NONE, Term, leaves, skey
from .common import all_memo, each, external_base, is_gf, memo_fields, param_root, tname

# operations whose documentation says they change (or lazily complete) the object
MUTATOR = re.compile(r"^(set_|compute_)")
MUTATORS = {"estimate_lmax"}
# documented side results: operation -> fields it announces
DOCUMENTED = {
    "compute_spectrogram": {"spectr"},
    "graph_multiresolution": {"mr"},
    "tree_multiresolution": {"mr"},
}
# ... and operations they announce to perform on the given graph (parameter compute_full_eigen: "for every graph in the sequence")
DOCUMENTED_CALLS = {
    "graph_multiresolution": {"compute_fourier_basis"},
    "tree_multiresolution": {"compute_fourier_basis"},
}


def documented_mutator(f):
    return bool(MUTATOR.match(f.name)) or f.name in MUTATORS


def guarded(ev, base, memo, it):
    """Does the store happen under the knowledge that a lazily computed quantity is missing?"""
    return missing_known(it, ev.state, memo)


def missing_known(it, st, memo):
    for cond, truth in st.path:
        cands = []
        stack = [cond]
        n = 0
        while stack and n < 200:
            n += 1
            u = stack.pop()
            if u.op in ("bool", "un", "phi"):
                stack.extend(u.args)
            elif u.op == "cmp":
                cands.extend(u.args)
            elif u.op == "attr":
                cands.append(u)
            elif u.op == "ecall":
                stack.extend(u.args)
        facts = None
        for x in cands:
            if any(l.op == "attr" and l.name in memo for l in leaves(x)):
                facts = it.facts_of(cond, truth, st) if facts is None else facts
                k = skey(x)
                if ("none", k) in facts or ("F", k) in facts:
                    return True
    return False


def unguarded_ok(ev, base, f, memo, it):
    """A fill by a function without parameters recomputes the same value."""
    fn = ev.func
    if f in memo and fn.cls is not None and len(fn.args) + len(fn.kwonly) == 1:
        return True
    return False


def check(P, R):
    R.rule("For every public operation that is not a documented mutator (set_*, compute_*, estimate_lmax, setters), every attribute store and "
           "in-place write on any path is traced to the object it reaches. Writing to a graph or filter bank that existed before the call is a violation, "
           "unless it fills a lazily computed field under the established fact that it was not available.")
    memo = all_memo(P.prog)
    R.count("lazily_computed_fields", len(memo))
    R.need("lazily_computed_fields", 6)

    def where(e):
        return e.kind in ("function", "method", "property", "init") and not (e.kind == "method" and documented_mutator(e.func))

    for r in each(P, R, where):
        it, e = r.it, r.entry
        doc = set()
        if e.func.name in DOCUMENTED:
            doc = DOCUMENTED[e.func.name]
        for ev in r.events:
            if ev.kind == "store":
                base, (field, val) = ev.term, ev.info
                if not is_gf(it, base, ev.state):
                    continue
                if external_base(it, base, ev.state) is not True:
                    continue
                R.count("stores_on_existing_objects")
                if field in doc:
                    continue
                if unchanged(it, base, field, val, ev.state):
                    continue
                if field in memo and (guarded(ev, base, memo, it) or unguarded_ok(ev, base, field, memo, it)) and not revised(it, base, field, val, ev.state):
                    R.count("guarded_fills")
                    continue
                if stored_by_documented(e, ev, doc):
                    continue
                if e.kind == "init" and field in memo and documented_mutator(ev.func) and not revised(it, base, field, val, ev.state):
                    R.count("guarded_fills")  # completed by the function that completes it
                    continue
                if field.startswith("_") and field not in memo and private_only(P, field):
                    continue
                R.finding("object-changed", f"{e.name}:{tname(it, base)}.{field}",
                          f"{e.name} is not documented as changing its graph or filter bank but assigns {tname(it, base)}.{field} (in {ev.func.qualname})",
                          ev.site, e.name, ev.trace())
            elif ev.kind == "mutate":
                if ev.info["maybe"]:
                    continue
                R.count("writes_examined")
                for rt, d in it.alias_roots(ev.term, ev.state):
                    if rt.op != "attr" or not (is_gf(it, rt.args[0], ev.state) or maybe_graph(P, e, it, rt, ev.state)):
                        continue
                    if is_gf(it, rt.args[0], ev.state) and external_base(it, rt.args[0], ev.state) is not True:
                        continue
                    if rt.name in doc or rt.name == "logger":
                        continue
                    if stored_by_documented(e, ev, doc):
                        continue
                    if rt.name.startswith("_") and rt.name not in memo and private_only(P, rt.name):
                        continue
                    if rt.name in memo and (guarded(ev, rt.args[0], memo, it) or unguarded_ok(ev, rt.args[0], rt.name, memo, it)):
                        continue
                    R.finding("state-written", f"{e.name}:{tname(it, rt)}",
                              f"{e.name} is not documented as changing its graph or filter bank but writes into {tname(it, rt)} ({ev.info['how']}, in {ev.func.qualname})",
                              ev.site, e.name, ev.trace())
    R.need("stores_on_existing_objects", 20)
    R.need("guarded_fills", 10)
    R.need("entry_points", 80)


def maybe_graph(P, e, it, rt, st):
    """An attribute of graphs read from an argument that is documented as being possibly a graph."""
    b = rt.args[0]
    if b.op != "param" or b.func is not e.func or b.name == "self" or rt.name in libspec.VIEW_ATTRS or it.cls_of(b, st) is not None:
        return False
    d = P.prog.inherited_doc(e.func).get(b.name)
    return bool(d) and "graph" in " ".join(x for x in d if isinstance(x, str)).lower()


def revised(it, base, field, val, st):
    """Is the stored value computed from the one that was there?"""
    k = skey(Term("attr", field, [base]))
    facts = st.facts if hasattr(st, "facts") else ()
    if ("none", k) in facts or ("F", k) in facts:
        return False
    for u in leaves(val):
        if skey(u) == k:
            continue
        if u.op in ("ecall", "mcall", "bin", "un", "sub", "inplace", "store") and any(v.op == "attr" and v.name == field and v.args[0].ident == base.ident for a in u.args for v in leaves(a)):
            return True
    return False


def unchanged(it, base, field, val, st):
    """The stored value is the one that was there."""
    orig = skey(Term("attr", field, [base]))
    return all(skey(u) == orig for u in leaves(val))


def stored_by_documented(e, ev, doc):
    """The store is made by the documented side result of a nested operation (e.g. compute_spectrogram)."""
    calls = DOCUMENTED_CALLS.get(e.func.name, ())
    if any(f.name in calls for f, _ in ev.stack):
        return True
    for f, _ in ev.stack:
        if f.name in DOCUMENTED and f is not e.func:
            field = ev.info[0] if ev.kind == "store" else None
            if field in DOCUMENTED[f.name]:
                return True
    return False


_priv = {}


def private_only(P, field):
    """A private field that no public attribute exposes and no constructor initialises: a new private cache (decided by C03)."""
    if field not in _priv:
        exposed = False
        for m in P.prog.modules.values():
            for c in m.classes.values():
                i = c.methods.get("__init__")
                if i is not None and any(
                    getattr(t, "attr", None) == field
                    for n in __import__("ast").walk(i.node) if n.__class__.__name__ == "Assign" for t in n.targets
                ):
                    exposed = True
        _priv[field] = not exposed
    return _priv[field]
