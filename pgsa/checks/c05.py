"""C05: option strings: documented values are accepted, anything else is rejected."""

import ast
import re

from ..analysis import Entry
from ..model import digest_doc, doc_options
from ..terms import Term, const, leaves, walk
from .common import tname

BOGUS = "no_such_option"

# options the documentation lists in prose: {(owner, parameter): values}
PROSE = {
    ("graph_multiresolution", "downsampling_method"): ["largest_eigenvector"],
    ("graph_multiresolution", "reduction_method"): ["kron"],
    ("symmetrize", "method"): ["average", "maximum", "fill", "tril", "triu"],
    ("LayoutMixIn.set_coordinates", "kind"): ["line1D", "line2D", "ring2D", "random2D", "random3D", "spring", "community2D",
                                              "laplacian_eigenmap2D", "laplacian_eigenmap3D"],
    ("SwissRoll.__init__", "srtype"): ["uniform", "classic"],
    ("Cube.__init__", "sampling"): ["random"],
    ("Sphere.__init__", "sampling"): ["random"],
    ("NNGraph.__init__", "NNtype"): ["knn", "radius"],
    ("NNGraph.__init__", "symmetrize_type"): ["average", "maximum", "fill", "tril", "triu"],
    ("NNGraph.__init__", "dist_type"): ["euclidean", "manhattan", "max_dist", "minkowski"],
    ("TwoMoons.__init__", "moontype"): ["standard", "synthesized"],
}
# values that are free text although a default string exists
FREE = {"weight", "path", "title"}


def own_docs(prog, e):
    d = dict(prog.inherited_doc(e.func))
    if e.kind == "init":
        for c in e.cls.mro():
            for k, v in digest_doc(c.doc).items():
                d.setdefault(k, v)
    return d


def entries(P):
    yield from P.entries
    known = {e.func for e in P.entries}
    for m in P.prog.modules.values():
        for f in m.functions.values():
            if f not in known and f.name.startswith("_") and digest_doc(f.doc):
                yield Entry(f, None, "function")


def options(P):
    """(entry, parameter, documented values, passed through **kwargs?)"""
    found = {}
    for e in entries(P):
        docs = own_docs(P.prog, e)
        owner = f"{e.func.cls.name}.{e.func.name}" if e.func.cls is not None else e.func.name
        for p in e.func.args + e.func.kwonly:
            if p in FREE:
                continue
            opts = doc_options(docs.get(p, ("",))[0]) if p in docs else []
            opts = opts or PROSE.get((owner, p)) or PROSE.get((owner.split(".")[-1], p)) or []
            if opts:
                found.setdefault((e.name, e.kind), (e, {}))[1][p] = (opts, False)
    # methods and classes handing the option over to one that documents it
    for e in P.entries:
        if e.kind not in ("method", "init") or (e.name, e.kind) in found:
            continue
        docs = own_docs(P.prog, e)
        for p in e.func.args + e.func.kwonly:
            if p in ("method", "lap_type") and p not in FREE and e.cls is not None:
                for (n, k), (o, ps) in list(found.items()):
                    if p in ps and o.cls is not None and (e.cls.is_subclass(o.cls) or o.cls.is_subclass(e.cls)):
                        found.setdefault((e.name, e.kind), (e, {}))[1][p] = (ps[p][0], False)
                        break
        if e.func.kwarg and e.kind == "init":
            for c in e.cls.mro()[1:]:
                i = c.methods.get("__init__")
                if i is None:
                    continue
                for p in i.args + i.kwonly:
                    for (n, k), (o, ps) in list(found.items()):
                        if k == "init" and o.cls is c and p in ps and not ps[p][1] and p not in e.func.args:
                            found.setdefault((e.name, e.kind), (e, {}))[1].setdefault(p, (ps[p][0], True))
    return found


def near(opts):
    """Strings that a test looser than equality takes for an option: prefixes, suffixes, extensions, other case, other separators."""
    out = []
    for o in opts:
        out += [o[:-1], o[:3], o[:len(o) // 2 + 1], o[1:], o[-3:], o + "x", "x" + o, o.upper(), o.capitalize(), o + " ", o[:-1] + "~"]
        out += [o.replace("_", "-"), o.replace("_", "")]
    return [b for b in dict.fromkeys(out) if b and b not in opts]


def mentions(t, value):
    for u in walk(t):
        if u.op == "const" and isinstance(u.x, str) and u.x == value:
            return True
    return False


OPAQUE_OK = ("builtins.isinstance", "builtins.str", "builtins.repr", "builtins.print", "builtins.format", "builtins.hasattr",
             "builtins.setattr", "builtins.getattr", "builtins.len", "builtins.type")


def uncertain(r, x, value):
    """The option takes part in a test or call this analysis cannot evaluate, on every way to this exit."""
    for cond, truth in x.state.path:
        if mentions(cond, value) and not different(cond, truth, value):
            return "compared with a run-time value"
    paths = []
    what = None
    for ev in r.events:
        if ev.kind not in ("ecall", "ucall", "mcall") or ev.term is None or not handed(ev.term, value):
            continue
        what = ev.term.name or "an unknown callable"
        paths.append([(c.uid, t) for c, t in ev.state.path])
    if paths and covered(paths, {c.uid: t for c, t in x.state.path}):
        return f"handed to {what}"
    return None


def different(cond, truth, value):
    """The branch is the one where the option differs from the value it is compared with."""
    while cond.op == "un" and cond.name == "not":
        cond, truth = cond.args[0], not truth
    if cond.op == "cmp" and cond.name in ("==", "!=", "in", "not in", "is", "is not"):
        if any(l.op == "const" and l.x == value for a in cond.args for l in [a]):
            return truth == (cond.name in ("!=", "not in", "is not"))
    return False


def handed(t, value):
    if t.op == "ecall" and (t.name in OPAQUE_OK or t.name.startswith("pkg:") or t.name.startswith("logging") or "Warning" in t.name or "Error" in t.name):
        return False
    if t.op == "mcall" and t.name in ("debug", "info", "warning", "error", "format", "join", "lower", "upper", "update", "append", "pop", "get", "setdefault"):
        return False
    args = t.args[1:] if t.op in ("mcall", "ucall") else t.args
    for a in list(args) + list(t.kw.values()):
        for l in leaves(a):
            if l.op == "const" and isinstance(l.x, str) and l.x == value:
                return True
            if l.op == "kwdict" and any(z.op == "const" and isinstance(z.x, str) and z.x == value for v in l.kw.values() for z in leaves(v)):
                return True
    return False


def covered(paths, assumed, depth=0):
    """Does every way compatible with the assumed branches pass one of the given program points?"""
    rest = []
    for p in paths:
        if any(c in assumed and assumed[c] != t for c, t in p):
            continue
        q = [(c, t) for c, t in p if c not in assumed]
        if not q:
            return True
        rest.append(q)
    if not rest or depth > 12:
        return False
    c = rest[0][0][0]
    return all(covered(rest, {**assumed, c: t}, depth + 1) for t in (True, False))


def run(P, e, p, value, through):
    def over(it):
        d = {}
        if through:
            rest = it.param("**" + e.func.kwarg, func=e.func)
            d = {}
            return {"__kw__": (p, value, rest)}
        d[p] = const(value)
        return d

    if not through:
        return P.run(e, overrides=over)
    orig = P.make_params

    def make(it, func, skip, overrides=None):
        args = orig(it, func, skip, None)
        if func is e.func:
            args[func.kwarg] = Term("kwdict", None, [], {p: const(value)})
        return args

    P.make_params = make
    try:
        return P.run(e, overrides={})
    finally:
        P.make_params = orig


def check(P, R):
    R.rule("For every parameter that selects a mode by name, the operation is analysed with that parameter bound to an unlisted string and all others "
           "symbolic: no path may return normally. With each listed value, some path must return normally.")
    thorough = R.tier == "thorough"
    for (n, k), (e, ps) in sorted(options(P).items(), key=lambda z: z[0]):
        for p, (opts, through) in sorted(ps.items()):
            if through and not thorough and p != "lap_type":
                continue
            R.count("parameters")
            R.sample(f"{e.name}({p}): {', '.join(opts)}", 80)
            bogus = [BOGUS]
            if not through:
                bogus += ["", *near(opts)]
            for b in dict.fromkeys(bogus):
                if b in opts:
                    continue
                try:
                    r = run(P, e, p, b, through)
                except Exception as ex:  # noqa: BLE001
                    R.notes.append(f"not analysed: {e.name}({p}={b!r}) {type(ex).__name__}: {ex}")
                    R.count("options_not_analysed")
                    continue
                R.count("unlisted_values")
                R.count("rejecting_exits", len(r.raises))
                hit = False
                for x in r.returns:
                    why = uncertain(r, x, b)
                    if why:
                        R.count("undecided_exits")
                        R.notes.append(f"undecided: {e.name}({p}={b!r}): {why}")
                        continue
                    R.finding("unknown-accepted", f"{e.name}({p})",
                              f"{e.name} returns normally when {p} is {b!r}, which names no option",
                              f"{e.func.module.path}:{getattr(x.node, 'lineno', e.func.node.lineno)}", e.name)
                    hit = True
                    break
                if hit:
                    break
            for o in opts:
                if through and not thorough:
                    break
                try:
                    r = run(P, e, p, o, through)
                except Exception as ex:  # noqa: BLE001
                    R.notes.append(f"not analysed: {e.name}({p}={o!r}) {type(ex).__name__}: {ex}")
                    continue
                R.count("documented_values")
                if not r.returns and r.raises and not any(mayfail(x) for x in r.raises):
                    x = r.raises[0]
                    R.finding("documented-rejected", f"{e.name}({p}={o!r})", f"{e.name} raises on every path when {p} is the documented value {o!r}",
                              f"{x.func.module.path}:{getattr(x.node, 'lineno', '?')}", e.name)
    R.need("parameters", 12)
    R.need("documented_values", 30)


def mayfail(x):
    return x.info == "mayfail"
