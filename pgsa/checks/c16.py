"""C16: plotting draws where asked and keeps track of what it opens."""

import ast

from ..terms import Term, const, skey, walk
from .common import each, leaves_decided

IMPLICIT = {
    "gca", "gcf", "colorbar", "scatter", "plot", "text", "title", "suptitle", "xlabel", "ylabel", "legend", "xlim", "ylim", "axis", "grid", "clf", "cla", "imshow", "tight_layout", "savefig",
    "bar", "hist", "axhline", "axvline", "annotate", "clim", "sci", "delaxes", "subplots_adjust", "xticks", "yticks", "margins", "box", "figlegend", "figtext", "twinx", "twiny", "hlines", "vlines",
    "stem", "step", "fill", "fill_between", "errorbar", "contour", "contourf", "pcolor", "pcolormesh", "matshow", "loglog", "semilogx", "semilogy", "set_cmap", "gci",
}
OPENS = {"figure", "subplots", "subplot_mosaic"}
AXES = {"subplot", "axes", "subplot2grid"}
WIPES = {"cla", "clear", "clf", "remove"}
DRAWS = {"plot", "scatter", "add_collection", "text", "set_title", "axvline", "axhline", "set_ylim", "set_xlim", "legend", "set_xlabel", "set_ylabel", "annotate", "imshow", "vlines", "hlines", "fill_between",
         "add_line", "add_artist", "add_patch", "stem", "step", "errorbar", "bar", "hist", "set", "plot3D", "scatter3D", "add_collection3d", "text2D"}
STATE = {"plotting", "coords", "signals", "_kernels", "W", "_adjacency"}


def lookup(c, key, depth=0):
    """Values a dictionary of options may hold under a key."""
    if depth > 40:
        return [None]
    if c.op == "phi":
        return lookup(c.args[1], key, depth + 1) + lookup(c.args[2], key, depth + 1)
    if c.op == "store" and len(c.args) == 3:
        i = c.args[1]
        if i.op == "const" and i.x == key:
            return [c.args[2]]
        return lookup(c.args[0], key, depth + 1) if i.op == "const" else [None]
    if c.op == "kwminus" or c.op == "mutcall" and c.name in ("pop", "setdefault"):
        return lookup(c.args[0], key, depth + 1)
    if c.op in ("kwdict", "dict"):
        if key in c.kw:
            return [c.kw[key]]
        if c.op == "dict" and isinstance(c.x, list) and len(c.x) == len(c.args):
            for k, v in zip(c.x, c.args):
                if isinstance(k, Term) and k.op == "const" and k.x == key:
                    return [v]
    return [None]


def resolve(it, t, st, depth=0):
    """What a value may be, through conditions and dictionaries of options; None when unknown."""
    out = []
    for u in leaves_decided(it, t, st):
        if depth < 12 and u.op == "kwget":
            vs = lookup(u.args[0], u.name)
        elif depth < 12 and u.op == "sub" and u.args[1].op == "const" and isinstance(u.args[1].x, str):
            vs = lookup(u.args[0], u.args[1].x)
        elif depth < 12 and u.op == "mcall" and u.name in ("pop", "get") and len(u.args) > 1 and u.args[1].op == "const" and isinstance(u.args[1].x, str):
            vs = lookup(u.args[0], u.args[1].x)
        else:
            out.append(u)
            continue
        if vs == [None]:
            out.append(u)
        for v in vs:
            if v is not None:
                out += resolve(it, v, st, depth + 1)
            elif vs != [None]:
                out.append(u)
    return out


def is_pyplot(t):
    return t is not None and t.op == "ecall" and t.name.startswith(("matplotlib.pyplot.", "pylab.", "matplotlib.pylab."))


def fname(t):
    return t.name.rpartition(".")[2]


def base(t):
    """The value a chain of attributes, items and method calls starts from, with the chain."""
    chain = []
    while t.op in ("attr", "sub", "mcall", "unpack", "elem", "ver", "mu") and t.args:
        chain.append((t.op, t.name))
        t = t.args[0]
    return t, chain


def truths(st):
    return {f for f in st.facts if isinstance(f, tuple) and f[0] in ("T", "F")}


def opposed(a, b):
    return any(("F" if k == "T" else "T", x) in b for k, x in a)


def registry(t):
    """The list of a module in which something is recorded."""
    u = t
    while u.op in ("store", "mutcall", "phi", "bin", "inplace", "mu", "ver") and u.args:
        u = u.args[1] if u.op == "phi" else u.args[0]
    if u.op == "global":
        return u.name
    return None


def recorded(evs, it):
    """(registry, leaves of the recorded value, event)."""
    out = []
    for ev in evs:
        if ev.kind == "mutate" and ev.term is not None and ev.info.get("value") is not None:
            n = registry(ev.term)
            if n:
                vs = [ev.info["value"]] + ([ev.info["index"]] if ev.info.get("index") is not None else [])
                out.append((n, [u for v in vs for w in walk(v) for u in ([w] if w.op == "ecall" else [])], ev, vs))
        if ev.kind == "gstore" and ev.term is not None and isinstance(ev.info, tuple):
            out.append((".".join(ev.info), [w for w in walk(ev.term) if w.op == "ecall"], ev, [ev.term]))
    return out


def options(R, r):
    """Nothing kept by the graph, the filters or the module depends on the options of a plot."""
    me = r.params.get("self")
    for ev in r.events:
        t = ev.term
        if ev.kind == "mutate" and t is not None:
            b, chain = base(t)
            names = [n for o, n in chain if o == "attr"]
            if me is not None and b is me and names and names[-1] in STATE and not ev.info.get("maybe"):
                R.finding("options", f"{ev.func.qualname}:{names[-1]}", f"{ev.func.name} changes the {names[-1].lstrip('_')} of the {'graph' if names[-1] != '_kernels' else 'filters'}: what is given to one plot affects the following ones", ev.site, r.entry.name)
            if b.op == "ext" and b.name.startswith("matplotlib") and "rcParams" in b.name:
                R.finding("options", f"{ev.func.qualname}:rcParams", f"{ev.func.name} changes the configuration of matplotlib, which affects the following plots", ev.site, r.entry.name)
        if ev.kind == "gstore" and isinstance(ev.info, tuple) and t is not None and any(u.op == "param" for u in walk(t)) and t.op != "list":
            if not any(u.op == "ecall" and (u.name.startswith(("matplotlib.pyplot", "pyqtgraph"))) for u in walk(t)):
                R.finding("options", f"{ev.func.qualname}:{ev.info[1]}", f"{ev.func.name} keeps an option of the plot in {'.'.join(ev.info)}, which affects the following ones", ev.site, r.entry.name)
        if ev.kind == "store" and isinstance(ev.info, tuple) and me is not None and t is me and ev.info[0] in STATE:
            R.finding("options", f"{ev.func.qualname}:{ev.info[0]}", f"{ev.func.name} changes {ev.info[0].lstrip('_')}: what is given to one plot affects the following ones", ev.site, r.entry.name)


def axis_given(P, R, e, given):
    ov = {"ax": given}
    if "backend" in e.func.args:
        ov["backend"] = const("matplotlib")
    r = P.run(e, overrides=ov)
    it = r.it
    current = any(is_pyplot(ev.term) and fname(ev.term) == "sca" for ev in r.events if ev.kind == "ecall")
    draws = 0
    for ev in r.events:
        t = ev.term
        if ev.kind == "ecall" and is_pyplot(t):
            n = fname(t)
            R.count("pyplot_calls")
            if n in OPENS:
                R.finding("opens", f"{ev.func.qualname}:{n}", f"{ev.func.name} opens a figure with plt.{n}() although an axis is given", ev.site, e.name)
            elif n == "show":
                R.finding("opens", f"{ev.func.qualname}:{n}", f"{ev.func.name} shows windows although an axis is given", ev.site, e.name)
            elif n in IMPLICIT | AXES and not current:
                R.finding("current", f"{ev.func.qualname}:{n}", f"{ev.func.name} calls plt.{n}(), which acts on the current figure of pyplot and opens one if there is none, not on the figure of the given axis", ev.site, e.name)
        if ev.kind == "ecall" and t is not None and t.name.startswith("pyqtgraph.") and t.name.endswith("Widget"):
            R.finding("opens", f"{ev.func.qualname}:{fname(t)}", f"{ev.func.name} opens a widget although an axis is given", ev.site, e.name)
        if ev.kind == "mcall" and t is not None and t.args:
            b, chain = base(t.args[0])
            bs = resolve(it, t.args[0], ev.state) if chain == [] or chain and b is not given else [t.args[0]]
            if bs == [given]:
                if t.name in DRAWS:
                    draws += 1
                    R.count("draws_on_the_given_axis")
            direct = len(bs) == 1 and (bs[0] is given or bs[0].op == "attr" and bs[0].name == "figure" and given in resolve(it, bs[0].args[0], ev.state))
            if direct and t.name in WIPES:
                R.finding("wipes", f"{ev.func.qualname}:{t.name}", f"{ev.func.name} calls {t.name}() on the given axis or its figure, which removes what was drawn there", ev.site, e.name)
            if direct and bs[0] is not given and t.name == "show":
                R.finding("opens", f"{ev.func.qualname}:show", f"{ev.func.name} shows the window of the given axis", ev.site, e.name)
    for n, vals, ev, vs in recorded(r.events, it):
        if any(given in resolve(it, v, ev.state) or any(u is given for u in walk(v)) for v in vs):
            R.finding("tracks", f"{ev.func.qualname}:{n}", f"{ev.func.name} records the figure of the given axis as one it opened: closing all plots closes it", ev.site, e.name)
    if not draws and not r.raises and any(ev.kind == "mcall" for ev in r.events):
        R.count("given_axis_undecided")
    returned(R, r, e, lambda u: u is given, "the given axis")
    return draws


def returned(R, r, e, isax, what):
    """The figure of the axis and the axis are returned."""
    for x in r.returns:
        v, st = x.value, x.state
        if v is None:
            continue
        for u in leaves_decided(r.it, v, st):
            if u.op == "const" and u.x is None:
                if st is not None:
                    R.finding("returned", f"{e.func.qualname}:None", f"{e.func.name} returns nothing: the figure and {what} do not reach the caller", None, e.name)
                continue
            if u.op not in ("tuple", "list"):
                R.count("returned_undecided")
                continue
            if len(u.args) != 2:
                R.finding("returned", f"{e.func.qualname}:{len(u.args)}", f"{e.func.name} does not return the figure and {what}", None, e.name)
                continue
            a = resolve(r.it, u.args[1], st)
            f = resolve(r.it, u.args[0], st)
            R.count("returned_pairs")
            if a and all(isax(x) for x in f) and not all(isax(x) for x in a):
                R.finding("returned", f"{e.func.qualname}:order", f"{e.func.name} returns {what} and its figure in the other order", None, e.name)
            elif any(is_pyplot(x) and fname(x) in ("gca", "gcf") for x in a + f):
                R.finding("returned", f"{e.func.qualname}:current", f"{e.func.name} returns the current figure or axis of pyplot, not {what}", None, e.name)


def axis_created(P, R, e, regs):
    ov = {"ax": const(None)}
    if "backend" in e.func.args:
        ov["backend"] = const("matplotlib")
    r = P.run(e, overrides=ov)
    it = r.it
    made = [ev for ev in r.events if ev.kind == "ecall" and is_pyplot(ev.term) and fname(ev.term) in OPENS]
    implicit = [ev for ev in r.events if ev.kind == "ecall" and is_pyplot(ev.term) and fname(ev.term) in (IMPLICIT | AXES) - {"colorbar"}]
    direct = [ev for ev in r.events if ev.kind == "ecall" and ev.term.name in ("matplotlib.figure.Figure",)]
    if not made and not direct:
        for ev in implicit:
            R.finding("untracked", f"{ev.func.qualname}:{fname(ev.term)}", f"{ev.func.name} calls plt.{fname(ev.term)}() when no axis is given: it opens a figure that is not recorded, or draws on one it did not open", ev.site, e.name)
            break
    recs = recorded(r.events, it)
    for ev in made:
        R.count("figures_opened")
        k = skey(ev.term)
        hits = [x for x in recs if any(skey(u) == k for u in x[1])]
        if not hits:
            R.finding("untracked", f"{ev.func.qualname}:{fname(ev.term)}", f"{ev.func.name} opens a figure that is not recorded: closing all plots leaves it open", ev.site, e.name)
            continue
        for n, _, rv, _ in hits:
            regs.setdefault(n, (rv, "figure"))
        replaced(R, e, ev, hits, "figure")
        if all(branches(x[2], ev, x[0].rpartition('.')[2]) for x in hits):
            R.finding("untracked", f"{ev.func.qualname}:{fname(ev.term)}:some", f"{ev.func.name} records the figure it opens only in some cases", ev.site, e.name)
        if len({getattr(x[2].node, "lineno", 0) for x in hits if x[2].kind == "mutate"}) > 1 and not any(opposed(truths(a[2].state), truths(b[2].state)) for i, a in enumerate(hits) for b in hits[:i]):
            R.finding("tracks", f"{ev.func.qualname}:{fname(ev.term)}:twice", f"{ev.func.name} records the figure it opens twice", ev.site, e.name)
    for i, a in enumerate(made):
        for b in made[:i]:
            if skey(a.term) == skey(b.term) and a.node is b.node:
                continue
            if not opposed(truths(a.state), truths(b.state)):
                R.finding("opens", f"{a.func.qualname}:second", f"{a.func.name} opens a second figure for one plot", a.site, e.name)
    ks = {skey(ev.term) for ev in made}
    returned(R, r, e, lambda u: u.op == "mcall" and u.name in ("add_subplot", "add_axes", "subplots", "gca") and any(skey(w) in ks for w in walk(u)) and base(u)[1][-1][1] in ("add_subplot", "add_axes", "subplots", "gca"), "the axis it created")
    return made


def branches(rec, ev, name=""):
    """Whether the recording is in a conditional of the function, that the opening is not in."""
    f = rec.func.node
    if rec.func is not ev.func:
        return False

    def about(n):
        """Membership of the list itself."""
        return isinstance(n, ast.If) and any(isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, "id", None) or getattr(x, "attr", "")) == name for x in ast.walk(n.test))

    def conds(target):
        out, stack = None, [(f, ())]
        while stack:
            n, path = stack.pop()
            if n is target:
                return path
            for field in ("body", "orelse", "handlers", "finalbody"):
                for c in getattr(n, field, []) if isinstance(getattr(n, field, None), list) else []:
                    p = path + ((n, field),) if isinstance(n, (ast.If, ast.For, ast.While, ast.ExceptHandler)) and not about(n) else path
                    stack.append((c, p))
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.stmt, ast.ExceptHandler)):
                    stack.append((c, path))
        return out
    a, b = conds(rec.node), conds(ev.node)
    return a is not None and b is not None and len(set(a) - set(b)) > 0


def replaced(R, e, ev, hits, what):
    """The record of what was opened before is lost."""
    for name, _, rv, _ in hits:
        if rv.kind == "gstore" and not any(u.op == "global" and u.name == name for u in walk(rv.term)):
            R.finding("untracked", f"{ev.func.qualname}:{name}:before", f"{rv.func.name} forgets the {what}s recorded before: closing all plots leaves them open", rv.site, e.name)


def widgets(P, R, e, regs):
    ov = {"backend": const("pyqtgraph")} if "backend" in e.func.args else {}
    r = P.run(e, overrides=ov)
    it = r.it
    recs = recorded(r.events, it)
    n = 0
    for ev in r.events:
        t = ev.term
        if ev.kind != "mcall" or t is None or t.name != "show" or not t.args:
            continue
        ws = [u for u in resolve(it, t.args[0], ev.state) if u.op == "ecall" and u.name.startswith("pyqtgraph.")]
        for w in ws:
            n += 1
            R.count("widgets_shown")
            hits = []
            for x in recs:
                if any(u is w for v in x[3] for u in resolve(it, v, x[2].state)) or any(u is w for u in x[1]):
                    hits.append(x)
            if not hits:
                R.finding("untracked", f"{ev.func.qualname}:{fname(w)}", f"{ev.func.name} shows a widget that is not recorded: closing all plots leaves it open", ev.site, e.name)
                continue
            for x in hits:
                regs.setdefault(x[0], (x[2], "widget"))
            replaced(R, e, ev, hits, "widget")
            if all(branches(x[2], ev, x[0].rpartition('.')[2]) for x in hits):
                R.finding("untracked", f"{ev.func.qualname}:{fname(w)}:some", f"{ev.func.name} records the widget it shows only in some cases", ev.site, e.name)
            mine = [x for x in hits if x[2].func is ev.func]
            if len(mine) > 1 and len({x[2].node for x in mine}) > 1 and not any(opposed(truths(a[2].state), truths(b[2].state)) for i, a in enumerate(mine) for b in mine[:i]):
                R.finding("tracks", f"{ev.func.qualname}:{fname(w)}:twice", f"{ev.func.name} records the widget it shows twice", ev.site, e.name)
    return n


def closing(P, R, regs):
    for r in each(P, R, where=lambda e: e.func.name == "close_all" and e.cls is None):
        e = r.entry
        for name, (rec, what) in sorted(regs.items()):
            R.count("registries")
            closed, reset = [], []
            for ev in r.events:
                t = ev.term
                if t is None:
                    continue
                if ev.kind == "mcall" and t.name == "close" or is_pyplot(t) and ev.kind == "ecall" and fname(t) == "close":
                    if any(u.op == "global" and u.name == name for u in walk(t)):
                        closed.append(ev)
                    elif is_pyplot(t) and what == "figure" and t.args and t.args[0].op == "const" and t.args[0].x == "all":
                        closed.append(ev)
                if ev.kind == "gstore" and ".".join(ev.info) == name and not any(u.op == "global" and u.name == name for u in walk(t)):
                    reset.append(ev)
                if ev.kind == "mutate" and registry(t) == name and any(ev.info["how"].startswith(h) for h in ("clear", "pop", "del", "setitem", "remove")):
                    reset.append(ev)
            if not closed:
                R.finding("close", f"{e.func.qualname}:{name}", f"{e.func.name} does not close the {what}s recorded in {name}", None, e.name)
                continue
            for ev in closed:
                x = [u for u in walk(ev.term) if u.op == "sub" and registry(u.args[0]) == name and u.args[1].op == "slice"]
                for u in x:
                    lo, hi, st = (list(u.args[1].args) + [None] * 3)[:3]
                    if any(b is not None and not (b.op == "const" and b.x in (None, 0)) for b in (lo, hi)):
                        R.finding("close", f"{e.func.qualname}:{name}:part", f"{e.func.name} closes only a part of the {what}s recorded in {name}", ev.site, e.name)
                if not ev.loops and not any(u.op in ("comp",) for u in walk(ev.term)) and any(u.op == "sub" and u.args[1].op == "const" or u.op == "mcall" and u.name == "pop" for u in walk(ev.term)):
                    R.finding("close", f"{e.func.qualname}:{name}:one", f"{e.func.name} closes only one of the {what}s recorded in {name}", ev.site, e.name)
                if conditional(ev):
                    R.finding("close", f"{e.func.qualname}:{name}:some", f"{e.func.name} closes the {what}s recorded in {name} only in some cases", ev.site, e.name)
            if not reset:
                R.finding("close", f"{e.func.qualname}:{name}:again", f"{e.func.name} does not forget the {what}s it closed: they are closed again the next time", None, e.name)


def conditional(ev):
    """Whether, inside the loop, the call depends on a condition or follows an exit of the loop."""
    if not ev.loops:
        return False
    for loop in ast.walk(ev.func.node):
        if not isinstance(loop, (ast.For, ast.While)):
            continue
        if not any(n is ev.node for n in ast.walk(loop)):
            continue
        if any(isinstance(n, (ast.Break, ast.Return)) for n in ast.walk(loop)) and not (isinstance(loop, ast.While)):
            return True
    return False


def check(P, R):
    R.rule("Each plotting operation is executed abstractly once with an axis given and once without, and with the interactive backend. "
           "With an axis, no call opens or shows a window, acts on the current figure of pyplot (plt.gca, plt.colorbar, ...), wipes the axis or records its figure. "
           "Without, the one figure opened, and each widget shown, is added to a list of the module, on every path, once; close_all closes every element of each such list and empties it. "
           "The figure and axis are returned, in this order, and no option is kept by the graph, the filters, the module or the configuration of matplotlib.")
    given = Term("ecall", "given.axis", [])
    regs = {}
    entries = [e for e in P.entries if e.cls is not None and e.func.name.startswith("plot") and e.func.module.name.startswith("pygsp")]
    for e in entries:
        try:
            if "ax" in e.func.args:
                R.count("plotting_operations")
                axis_given(P, R, e, given)
                axis_created(P, R, e, regs)
            if "backend" in e.func.args or "ax" not in e.func.args:
                widgets(P, R, e, regs)
            options(R, P.run(e))
        except RecursionError:
            R.count("entry_points_not_analysed")
    closing(P, R, regs)
    R.need("plotting_operations", 1)
