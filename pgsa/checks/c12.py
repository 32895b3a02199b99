"""C12: optional dependencies are only needed by the features that use them."""

import ast
import sys

from ..terms import Term, const, walk
from .c06 import enclosing
from .common import each

REQUIRED = {"numpy", "scipy", "pygsp"}
NAMES = {"networkx": ["networkx"], "graph_tool": ["graph-tool", "graph_tool", "graphtool"], "matplotlib": ["matplotlib"], "pyqtgraph": ["pyqtgraph"],
         "pyunlocbox": ["pyunlocbox"], "skimage": ["skimage", "scikit-image"], "pyflann": ["flann"], "sklearn": ["sklearn", "scikit-learn"]}
GROUPS = {"matplotlib": ("matplotlib", "mpl_toolkits"), "pyqtgraph": ("pyqtgraph", "PyQt5", "PyQt6", "PySide2", "PySide6", "OpenGL")}
ROOT = {r: k for k, v in GROUPS.items() for r in v}

# which features may need which library (documentation of the package: README, docstrings)
NEEDS = {
    "to_networkx": {"networkx"}, "from_networkx": {"networkx"}, "to_graphtool": {"graph_tool"}, "from_graphtool": {"graph_tool"},
    "load": {"networkx", "graph_tool"}, "save": {"networkx", "graph_tool"},
    "plot": {"matplotlib", "pyqtgraph"}, "plot_signal": {"matplotlib", "pyqtgraph"}, "plot_spectrogram": {"matplotlib", "pyqtgraph"},
    "classification_tikhonov_simplex": {"pyunlocbox"}, "prox_tv": {"pyunlocbox"},
}
NN = {"pyflann", "sklearn"}


def stdlib(root):
    return root in sys.stdlib_module_names


def import_time(P, R):
    """Imports executed when the package is imported."""
    for m in P.prog.modules.values():
        def visit(body, guarded):
            for n in body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    roots = [a.name.split(".")[0] for a in n.names] if isinstance(n, ast.Import) else ([] if n.level else [(n.module or "").split(".")[0]])
                    for r in roots:
                        R.count("import_time_imports")
                        if r in REQUIRED or stdlib(r) or guarded:
                            continue
                        R.finding("import-time", f"{m.name}:{r}", f"importing {m.name} requires {r}, which is optional", f"{m.path}:{n.lineno}")
                elif isinstance(n, ast.Try):
                    ok = False
                    for h in n.handlers:
                        names = {"BaseException"} if h.type is None else {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(h.type) if isinstance(x, (ast.Name, ast.Attribute))}
                        if names & {"Exception", "BaseException"} and not any(isinstance(z, ast.Raise) for b in h.body for z in ast.walk(b)):
                            ok = True
                    visit(n.body, guarded or ok)
                    for h in n.handlers:
                        visit(h.body, guarded)
                    visit(n.orelse, guarded)
                    visit(n.finalbody, guarded)
                elif isinstance(n, ast.If):
                    if "TYPE_CHECKING" in ast.unparse(n.test):
                        continue
                    visit(n.body, guarded)
                    visit(n.orelse, guarded)
                elif isinstance(n, (ast.With, ast.For, ast.While, ast.ClassDef)):
                    visit(n.body, guarded)
                    visit(getattr(n, "orelse", []), guarded)

        visit(m.tree.body, False)


def group(dotted):
    r = dotted.split(".")[0]
    return ROOT.get(r, r)


def imports(r):
    return {}


def optional(dotted):
    g = group(dotted)
    return None if g in REQUIRED or stdlib(g) else g


def absent(P, e, libs, exc, overrides=None):
    it = P.interp()
    it.absent = {root: exc for lib in libs for root in GROUPS.get(lib, (lib,))}
    return P.run(e, overrides=overrides if overrides is not None else {}, interp=it)


def message(v):
    """Constant text of an exception, or None when it cannot be read off."""
    if v is None or v.op not in ("ecall", "ucall", "mcall"):
        return None
    s = [u.x for u in walk(v) if u.op == "const" and isinstance(u.x, str)]
    if v.x and isinstance(v.x, str):
        s.append(v.x)  # the import itself: "No module named ..."
    return " ".join(s).lower() if s else None


def is_import_error(it, v):
    n = it.exc_name(v)
    return n in ("ImportError", "ModuleNotFoundError")


def must_raise(P, R, e, libs, overrides, what):
    """Without the libraries, the feature raises an ImportError that names them."""
    for exc, how in (("ModuleNotFoundError", "missing"), ("RuntimeError", "broken")):
        try:
            r = absent(P, e, libs, exc, overrides)
        except Exception as ex:  # noqa: BLE001
            R.notes.append(f"not analysed: {what} without {libs} ({type(ex).__name__}: {ex})")
            continue
        it = r.it
        R.count("absence_scenarios")
        hits = [ev for ev in r.events if ev.kind == "import" and group(ev.info) in libs]
        if not hits:
            continue
        for x in r.returns:
            if x.state is not None and depends_on_import(r, x, libs):
                R.finding("not-reported", f"{what}:{'+'.join(sorted(libs))}", f"{what} returns normally although {' and '.join(sorted(libs))} is {how}", f"{e.func.module.path}:{e.func.node.lineno}", e.name)
                break
        for x in r.raises:
            if x.info == "import" and exc != "ModuleNotFoundError":
                R.finding("not-import-error", f"{what}:{'+'.join(sorted(libs))}",
                          f"{what} lets an arbitrary error of a {how} {' or '.join(sorted(libs))} through instead of raising an ImportError", f"{x.func.module.path}:{getattr(x.node, 'lineno', '?')}", e.name)
            elif x.info == "raise" and is_import_error(it, x.value):
                R.count("import_errors_examined")
                msg = message(x.value)
                if msg is not None and not all(any(a in msg for a in NAMES.get(lib, [lib])) for lib in libs):
                    R.finding("does-not-name", f"{what}:{'+'.join(sorted(libs))}", f"the ImportError of {what} without {' and '.join(sorted(libs))} does not name what is missing",
                              f"{x.func.module.path}:{getattr(x.node, 'lineno', '?')}", e.name)


def depends_on_import(r, x, libs):
    """The run reached an import that failed, on the way to this exit."""
    return any(c.op == "absentmark" for c, t in x.state.path) or not any(ev.kind == "import" and group(ev.info) in libs and conditional(ev, x) for ev in r.events)


def conditional(ev, x):
    """The import happens under a condition that this exit contradicts or does not share."""
    mine = {c.uid: t for c, t in x.state.path}
    return any(mine.get(c.uid, not t) != t for c, t in ev.state.path)


def must_work(P, R, e, libs, overrides, what, quiet=False):
    """The feature works without the libraries (missing or broken)."""
    for exc, how in (("ModuleNotFoundError", "missing"), ("RuntimeError", "broken")):
        try:
            r = absent(P, e, libs, exc, overrides)
        except Exception as ex:  # noqa: BLE001
            R.notes.append(f"not analysed: {what} without {libs} ({type(ex).__name__}: {ex})")
            continue
        it = r.it
        R.count("absence_scenarios")
        if not any(ev.kind == "import" and group(ev.info) in libs for ev in r.events):
            R.count("never_imported")
            continue
        names = " or ".join(sorted(libs))
        for x in r.raises:
            bad = x.info == "import" or x.info == "raise" and is_import_error(it, x.value)
            if bad:
                R.finding("needs-optional", f"{what}:{'+'.join(sorted(libs))}", f"{what} fails when {names} is {how}, which it should do without",
                          f"{x.func.module.path}:{getattr(x.node, 'lineno', '?')}", e.name)
                break
        if not r.returns and not any(f.construct.startswith(what + ":") for f in R.findings.values()):
            if P.run(e, overrides=overrides if overrides is not None else {}, interp=P.interp()).returns:
                R.finding("needs-optional", f"{what}:{'+'.join(sorted(libs))}", f"{what} cannot return when {names} is {how}, which it should do without",
                          f"{e.func.module.path}:{e.func.node.lineno}", e.name)


def with_kwargs(e, over):
    def f(it):
        o = {}
        for k, v in over.items():
            if k in e.func.args + e.func.kwonly:
                o[k] = const(v)
            elif e.func.kwarg:
                o.setdefault("**", {})[k] = const(v)
        if e.func.kwarg:
            o[e.func.kwarg] = Term("kwdict", None, [], o.pop("**", {}))
        return o
    return f


def check(P, R):
    R.rule("(a) Nothing executed at import requires an optional library. (b) Operations outside the documented table reach no import of one. (c) For each feature, mode and back-end, "
           "the abstract execution is repeated with the libraries it does not need failing to import (missing: ModuleNotFoundError; broken: RuntimeError): it must still "
           "return and never raise because of it; (d) with the library it needs failing, it must end in an ImportError whose text names it; (e) automatic fallbacks must still return.")
    import_time(P, R)
    all_libs = set(NAMES)
    kept = P.make_params

    def make(it, func, skip, overrides=None):
        extra = {}
        if overrides:
            extra = {k: v for k, v in overrides.items() if k == func.kwarg}
        args = kept(it, func, skip, overrides)
        args.update(extra)
        return args

    P.make_params = make
    try:
        for r in each(P, R):
            P.escaped(r)
            e = r.entry
            found = {}
            for ev in list(r.events) + list(r.escaped_events):
                if ev.kind == "import" and optional(ev.info):
                    found.setdefault(optional(ev.info), ev)
            if not found:
                R.count("operations_without_optional_imports")
                continue
            R.count("operations_with_optional_imports")
            name = e.func.name
            mod = e.func.module.name.split(".")[-1]
            built = [e.cls] if e.kind == "init" else []
            if e.kind == "init":
                built += [ev.info[0] for ev in r.events if ev.kind == "new" and hasattr(ev.info[0], "mro")]
            nn = any(c.name == "NNGraph" for b in built for c in b.mro())
            img = any(c.name == "ImgPatches" for b in built for c in b.mro())
            allowed = set(NEEDS.get(name, set()))
            if nn:
                allowed |= NN
            if img:
                allowed |= {"skimage"}
            if mod == "plotting":
                allowed |= {"matplotlib", "pyqtgraph"}
            for lib, ev in found.items():
                R.sample(f"{e.name} may import {lib}")
                if lib not in allowed:
                    R.finding("needs-optional", f"{e.name}:{lib}", f"{e.name} imports {lib}, which it should do without", ev.site, e.name, ev.trace())
            # scenarios
            if nn:
                must_work(P, R, e, NN, with_kwargs(e, {"use_flann": False}), f"{e.name} without use_flann")
                must_work(P, R, e, {"pyflann"}, with_kwargs(e, {"use_flann": True}), f"{e.name} with use_flann")
                must_work(P, R, e, NN, with_kwargs(e, {"use_flann": True}), f"{e.name} with use_flann, falling back twice")
                must_work(P, R, e, all_libs - NN - ({"skimage"} if img else set()), with_kwargs(e, {}), e.name)
                if img:
                    must_raise(P, R, e, {"skimage"}, with_kwargs(e, {}), e.name)
            elif name in ("load", "save"):
                for fmt in ("graphml", "gml", "gexf"):
                    must_work(P, R, e, {"networkx"}, with_kwargs(e, {"fmt": fmt, "backend": None}), f"{e.name}({fmt}) with the automatic backend")
                    must_work(P, R, e, {"graph_tool"}, with_kwargs(e, {"fmt": fmt, "backend": None}), f"{e.name}({fmt}) with the automatic backend")
                    must_raise(P, R, e, {"networkx", "graph_tool"}, with_kwargs(e, {"fmt": fmt, "backend": None}), f"{e.name}({fmt}) with the automatic backend")
                must_work(P, R, e, {"graph_tool"}, with_kwargs(e, {"backend": "networkx"}), f"{e.name} with networkx")
                must_work(P, R, e, {"networkx"}, with_kwargs(e, {"backend": "graph-tool"}), f"{e.name} with graph-tool")
                must_raise(P, R, e, {"networkx"}, with_kwargs(e, {"backend": "networkx"}), f"{e.name} with networkx")
                must_raise(P, R, e, {"graph_tool"}, with_kwargs(e, {"backend": "graph-tool"}), f"{e.name} with graph-tool")
            elif "backend" in e.func.args + e.func.kwonly:
                must_work(P, R, e, {"pyqtgraph"}, with_kwargs(e, {"backend": "matplotlib"}), f"{e.name} with matplotlib")
                must_work(P, R, e, {"matplotlib"}, with_kwargs(e, {"backend": "pyqtgraph"}), f"{e.name} with pyqtgraph")
                must_raise(P, R, e, {"matplotlib"}, with_kwargs(e, {"backend": "matplotlib"}), f"{e.name} with matplotlib")
                must_raise(P, R, e, {"pyqtgraph"}, with_kwargs(e, {"backend": "pyqtgraph"}), f"{e.name} with pyqtgraph")
            else:
                must_work(P, R, e, all_libs - set(found), None, e.name)
                if len(found) == 1 and name != "close_all":
                    must_raise(P, R, e, set(found), None, e.name)
    finally:
        P.make_params = kept
    R.need("entry_points", 100)
    R.need("import_time_imports", 30)
    R.need("operations_with_optional_imports", 15)
    R.need("absence_scenarios", 60)
