"""C01: nothing writes into an object the caller passed in."""

from .. import libspec
from ..model import digest_doc
from ..terms import Term, leaves, walk
from .common import each, is_gf, param_root, tname

SKIP_KINDS = {"scalar", "str", "none", "func", "bool", "kwdict"}


def field_aliases(P, R):
    """{(class name, field): (constructor, parameter, definite)}: fields that share memory with what the caller gave."""
    out = {}
    for e in P.entries:
        if e.kind not in ("init", "method", "setter") or e.cls is None:
            continue
        if e.kind == "method" and not e.func.name.startswith("set_"):
            continue
        try:
            r = P.run(e)
        except Exception:
            continue
        it = r.it
        for x in r.returns:
            for (ident, field), v in x.state.heap.items():
                if not isinstance(field, str):
                    continue
                owner = None
                if r.obj is not None and ident == r.obj.ident:
                    owner = e.cls
                elif r.params.get("self") is not None and ident == r.params["self"].ident:
                    owner = e.cls
                if owner is None:
                    continue
                for rt, d in it.alias_roots(v, x.state):
                    if rt.op == "param" and rt.name != "self" and it.kind(rt) not in SKIP_KINDS and not is_gf(it, rt):
                        for c in owner.mro():
                            out.setdefault((c.name, field), (e.name, rt.name, "field"))
                # containers whose elements are caller's objects
                for u in contents(v):
                    for rt, d in it.alias_roots(u, x.state):
                        if rt.op == "param" and rt.name != "self" and it.kind(rt) not in SKIP_KINDS and not is_gf(it, rt):
                            for c in owner.mro():
                                out.setdefault((c.name, field), (e.name, rt.name, "element"))
            if r.params.get("self") is None:
                continue
            # self.signals[name] = signal
            for ev in r.events:
                if ev.kind == "mutate" and ev.info["value"] is not None and ev.info["how"] in ("setitem", "update", "append"):
                    t = ev.term
                    if t.op == "attr" and t.args[0].ident == r.params["self"].ident:
                        for rt, d in it.alias_roots(ev.info["value"], ev.state):
                            if rt.op == "param" and rt.name not in ("self", "name") and it.kind(rt) not in SKIP_KINDS and not is_gf(it, rt):
                                for c in e.cls.mro():
                                    out.setdefault((c.name, t.name), (e.name, rt.name, "element"))
            break
    return out


def contents(v):
    out = []
    for u in leaves(v):
        if u.op in ("list", "tuple", "set"):
            out += u.args
        elif u.op == "dict":
            out += u.args
        elif u.op == "store" and len(u.args) == 3:
            out.append(u.args[2])
    return out


def array_documented(P, func, p, at=None):
    d = P.prog.inherited_doc(func).get(p)
    if d is None and at is not None and p in at.args + at.kwonly:
        d = P.prog.inherited_doc(at).get(p)
    if d is None and func.cls is not None:
        for c in func.cls.mro():
            d = digest_doc(c.doc).get(p)
            if d:
                break
    txt = (d[0] if d else "").lower()
    return any(w in txt for w in ("array", "matrix", "list", "sparse", "dict", "sequence", "signal"))


def kernels(P, R, r):
    """The functions a filter bank is made of are called with the array the caller evaluates the bank on."""
    e, it = r.entry, r.it
    if not (e.kind == "init" and e.cls is not None and any(c.name == "Filter" for c in e.cls.mro()) or e.func.cls is not None and any(c.name == "Filter" for c in e.func.cls.mro())):
        return
    P.escaped(r)
    for ev in r.escaped_events:
        if ev.kind != "mutate" or ev.info["how"].startswith("setattr:"):
            continue
        R.count("writes_examined")
        for rt, d in it.alias_roots(ev.term, ev.state):
            if rt.op == "param" and rt.func is not e.func and rt.name != "self" and rt.func is not None and it.kind(rt) not in SKIP_KINDS and not is_gf(it, rt, ev.state):
                R.finding("argument-written", f"{e.name}:{rt.func.name}({rt.name})",
                          f"a function of the filter bank made by {e.name} modifies the array it is evaluated on in place ({ev.info['how']}, in {ev.func.qualname})", ev.site, e.name, ev.trace())


def check(P, R):
    R.rule("Every in-place write (item/slice assignment, augmented assignment, mutating method or library function, out= and overwrite flags) "
           "performed on any path from a public entry point, interprocedurally, is traced through views, memory-sharing conversions, helper calls and "
           "fields to the objects it may reach; a write that reaches an argument of the caller is a violation.")
    al = field_aliases(P, R)
    R.count("fields_sharing_caller_memory", len(al))
    for (c, f), (ctor, p, how) in sorted(al.items()):
        if c in ("Graph", "Filter"):
            R.sample(f"{c}.{f} may share memory with argument {p} of {ctor} ({how})")
    for r in each(P, R):
        it, e = r.it, r.entry
        self_t = r.params.get("self")
        for ev in r.events:
            if ev.kind != "mutate":
                continue
            R.count("writes_examined")
            how = ev.info["how"]
            for rt, d in it.alias_roots(ev.term, ev.state):
                if rt.op == "param":
                    if self_t is not None and rt.ident == self_t.ident:
                        continue
                    if is_gf(it, rt, ev.state) or it.kind(rt) in SKIP_KINDS:
                        continue
                    if rt.name.startswith("*"):
                        continue
                    if e.kind == "setter" or rt.name in ("ax", "fig"):
                        continue
                    if rt.func is not e.func:
                        continue
                    if ev.info["maybe"] and not array_documented(P, e.func, rt.name, ev.func):
                        continue
                    if how.startswith("setattr:") and how[8:] not in libspec.VIEW_ATTRS | {"shape", "dtype"}:
                        continue
                    if ev.term.op == "param" and how in ("update", "add", "pop", "remove", "clear", "insert") and not array_documented(P, e.func, rt.name) and P.prog.inherited_doc(e.func).get(rt.name):
                        continue
                    R.finding("argument-written", f"{e.name}({rt.name})",
                              f"argument '{rt.name}' of {e.name} is modified in place ({how}) by {ev.func.qualname}", ev.site, e.name, ev.trace())
                elif rt.op == "kwget" and rt.args and rt.args[0].op == "param" and (ev.info["maybe"] is False or array_documented(P, e.func, rt.name)):
                    # forwarded through the ** arguments of the entry point
                    if it.kind(rt) in SKIP_KINDS or rt.name in ("ax", "fig") or how.startswith("setattr:") or rt.ident == ev.term.ident and how in ("update", "add", "pop", "remove", "clear", "insert"):
                        continue
                    R.finding("argument-written", f"{e.name}(**{rt.name})",
                              f"argument '{rt.name}' of {e.name}, passed on to {ev.func.qualname}, is modified in place ({how})", ev.site, e.name, ev.trace())
                elif rt.op == "attr" and ev.info["maybe"] is False:
                    b = rt.args[0]
                    c = it.cls_of(b, ev.state)
                    if c is None:
                        continue
                    k = (c.name, rt.name)
                    hit = al.get(k)
                    if hit is None:
                        continue
                    ctor, p, kind = hit
                    pr = param_root(b)
                    if pr is None:
                        continue
                    if kind == "element":
                        # the container itself belongs to the object; only writes into its elements count
                        if ev.term.ident == rt.ident or ev.term.op in ("attr",):
                            continue
                        if how in ("setitem", "update", "clear", "pop", "setdefault") and ev.term.op in ("store", "mutcall", "mutview"):
                            continue
                    R.finding("stored-argument-written", f"{e.name}:{tname(it, rt)}",
                              f"{tname(it, rt)}, which shares memory with argument '{p}' of {ctor}, is modified in place ({how}) by {ev.func.qualname}",
                              ev.site, e.name, ev.trace())
        kernels(P, R, r)
    R.need("writes_examined", 30)
    R.need("entry_points", 100)
