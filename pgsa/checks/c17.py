"""C17: using the library changes nothing outside its own objects."""

import ast

from ..model import Class, Module
from .c06 import enclosing, parents
from .common import dotted_refs, each, leaves_decided, local_ext

EXACT = {
    "numpy.seterr", "numpy.seterrcall", "numpy.seterrobj", "numpy.setbufsize", "numpy.set_printoptions", "numpy.set_string_function", "numpy.set_numeric_ops", "scipy.special.seterr",
    "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "warnings.showwarning", "warnings.formatwarning",
    "matplotlib.use", "matplotlib.rc", "matplotlib.rcdefaults", "matplotlib.rc_file", "matplotlib.style.use", "matplotlib.set_loglevel", "matplotlib.rc_file_defaults",
    "matplotlib.pyplot.rc", "matplotlib.pyplot.rcdefaults", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.style.use", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff",
    "matplotlib.pyplot.set_cmap", "matplotlib.pyplot.xkcd", "matplotlib.pyplot.set_loglevel", "matplotlib.interactive", "matplotlib.colormaps.register", "matplotlib.pyplot.register_cmap",
    "pyqtgraph.setConfigOption", "pyqtgraph.setConfigOptions", "pandas.set_option", "pandas.options",
    "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.umask", "os.nice", "os.setpriority", "os.sched_setaffinity",
    "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "sys.set_int_max_str_digits", "sys.setdlopenflags",
    "logging.basicConfig", "logging.disable", "logging.captureWarnings", "logging.setLoggerClass", "logging.addLevelName", "logging.config.dictConfig", "logging.config.fileConfig",
    "logging.setLogRecordFactory", "logging.debug", "logging.info", "logging.warning", "logging.warn", "logging.error", "logging.critical", "logging.exception", "logging.log",
    "locale.setlocale", "signal.signal", "signal.alarm", "signal.setitimer", "gc.disable", "gc.enable", "gc.set_threshold", "gc.freeze", "atexit.register",
    "faulthandler.enable", "threading.stack_size", "threading.setprofile", "threading.settrace", "multiprocessing.set_start_method", "resource.setrlimit", "decimal.setcontext",
    "importlib.reload", "time.tzset", "socket.setdefaulttimeout", "mimetypes.init", "sys.stdout", "sys.__stdout__", "pprint.pprint", "pprint.pp",
    "random.seed", "random.setstate", "numpy.random.seed", "numpy.random.set_state", "logging.root",
}
STATE = ("os.environ", "sys.path", "sys.modules", "sys.meta_path", "warnings.filters", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "matplotlib.rcParamsDefault", "sys.argv",
         "matplotlib.colormaps", "pyqtgraph.CONFIG_OPTIONS")
MUT = {"append", "insert", "extend", "update", "setdefault", "pop", "popitem", "clear", "remove", "__setitem__", "__delitem__", "reverse", "sort", "register", "unregister"}
SCOPED = {"warnings": ("warnings.catch_warnings",), "matplotlib": ("matplotlib.rc_context", "matplotlib.pyplot.rc_context", "matplotlib.style.context", "matplotlib.pyplot.style.context"),
          "numpy": (), "scipy": ()}
WRITES = {"numpy.save", "numpy.savez", "numpy.savez_compressed", "numpy.savetxt", "scipy.sparse.save_npz", "scipy.io.savemat", "scipy.io.mmwrite", "pickle.dump", "json.dump",
          "os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "os.symlink", "os.link", "os.chmod", "os.truncate",
          "shutil.rmtree", "shutil.copy", "shutil.copyfile", "shutil.copytree", "shutil.move", "tempfile.mkstemp", "tempfile.mkdtemp", "tempfile.NamedTemporaryFile", "tempfile.TemporaryDirectory",
          "networkx.write_gml", "networkx.write_graphml", "networkx.write_gexf", "os.system", "subprocess.run", "subprocess.call", "subprocess.Popen", "subprocess.check_call", "subprocess.check_output"}
WRITE_METHODS = {"savefig", "tofile", "write_text", "write_bytes"}


def ext_of(P, m, n, chain):
    """Dotted library name, module or class an attribute chain denotes, with the remaining attributes."""
    parts = []
    x = n
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if not isinstance(x, ast.Name):
        return None, None
    parts.reverse()
    r = local_ext(P.prog, m, x.id, chain)
    if r is None or r == "local":
        return None, None
    if isinstance(r, tuple) and r[0] == "ext":
        return "ext", ".".join([r[1]] + parts)
    cur, k = r, 0
    while isinstance(cur, Module) and k < len(parts):
        cur = P.prog.resolve_member(cur.name, parts[k])
        k += 1
    if isinstance(cur, tuple) and cur[0] == "ext":
        return "ext", ".".join([cur[1]] + parts[k:])
    if isinstance(cur, (Module, Class)):
        return "own", (cur, parts[k:], r)
    return None, None


def chain_of(m, n):
    p = parents(m)
    out = []
    x = n
    while id(x) in p:
        y = p[id(x)]
        if isinstance(y, (ast.FunctionDef, ast.Lambda)) and (x in (y.body if isinstance(y.body, list) else [y.body])):
            out.append(y)
        x = y
    return tuple(out)


def restored(P, m, n, d, chain):
    """The setting is changed inside a context manager that restores it, or put back in a finally clause."""
    p = parents(m)
    x = n
    scopes = SCOPED.get(d.split(".")[0], ())
    while id(x) in p:
        y = p[id(x)]
        if isinstance(y, ast.With) and x in y.body:
            for i in y.items:
                c = i.context_expr.func if isinstance(i.context_expr, ast.Call) else i.context_expr
                k, v = ext_of(P, m, c, chain)
                if k == "ext" and v in scopes:
                    return True
        if isinstance(y, ast.With) and any(x is i for i in y.items) and (d.endswith("ion") or d.endswith("ioff") or d.endswith("xkcd")):
            return True  # plt.ioff() used as a context manager
        if isinstance(y, (ast.FunctionDef, ast.Module)):
            for t in ast.walk(y):
                if isinstance(t, ast.Try):
                    for b in t.finalbody:
                        for z in ast.walk(b):
                            if isinstance(z, ast.Attribute):
                                k, v = ext_of(P, m, z, chain)
                                if k == "ext" and v == d:
                                    return True
            if isinstance(y, ast.FunctionDef):
                break
        x = y
    return False


def check(P, R):
    R.rule("Every reference to a library function or object anywhere in the package, including code run at import, is resolved and matched with a table of operations on process-wide "
           "state; every assignment, deletion and mutating call whose target is an attribute or item of a module, of the environment or of a class is reported, "
           "as are printing, the root logger and writing files outside saving.")
    for m, n, d, chain in dotted_refs(P.prog):
        R.count("library_references")
        fn = enclosing(P, m, n, chain)
        where = f"{m.path}:{n.lineno}"
        par = parents(m).get(id(n))
        if d in EXACT and not restored(P, m, n, d, chain):
            R.finding("process-state", f"{fn}:{d}", f"{fn} uses {d}, which affects the whole process", where)
        for s in STATE:
            if d == s or d.startswith(s + "."):
                R.count("process_state_references")
                rest = d[len(s) + 1:].split(".") if d != s else []
                bad = None
                if rest and rest[0] in MUT and isinstance(par, ast.Call) and par.func is n:
                    bad = rest[0]
                elif not rest and isinstance(par, ast.Subscript) and isinstance(par.ctx, (ast.Store, ast.Del)):
                    bad = "item assignment"
                elif not rest and isinstance(par, ast.AugAssign):
                    bad = "augmented assignment"
                if bad and not restored(P, m, n, s, chain):
                    R.finding("process-state", f"{fn}:{s}", f"{fn} changes {s} ({bad})", where)
        if d in WRITES and not saving(m, n, chain):
            R.finding("file-written", f"{fn}:{d}", f"{fn} writes to the file system with {d}", where)
    for m in P.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "open", "setattr", "delattr", "exec", "eval"):
                ch = chain_of(m, n)
                if local_ext(P.prog, m, n.func.id, ch) is not None:
                    continue
                fn = enclosing(P, m, n, ch)
                where = f"{m.path}:{n.lineno}"
                R.count("builtin_calls_examined")
                if n.func.id == "print" and not any(k.arg == "file" for k in n.keywords):
                    R.finding("standard-output", f"{fn}:print", f"{fn} prints on the standard output", where)
                elif n.func.id == "open":
                    mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
                    if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) & set("wax+") and not saving(m, n, ch):
                        R.finding("file-written", f"{fn}:open", f"{fn} opens a file for writing", where)
                elif n.func.id in ("setattr", "delattr") and n.args:
                    k, v = ext_of(P, m, n.args[0], ch)
                    if k == "ext" or k == "own" and not v[1]:
                        R.finding("module-attribute", f"{fn}:{ast.unparse(n.args[0])}", f"{fn} changes an attribute of {ast.unparse(n.args[0])}", where)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in WRITE_METHODS:
                ch = chain_of(m, n)
                if not saving(m, n, ch):
                    R.finding("file-written", f"{enclosing(P, m, n, ch)}:{n.func.attr}", f"{enclosing(P, m, n, ch)} writes a file with {n.func.attr}", f"{m.path}:{n.lineno}")
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                base = n.value
                while isinstance(base, ast.Subscript):
                    base = base.value
                if not isinstance(base, (ast.Attribute, ast.Name)):
                    continue
                ch = chain_of(m, n)
                k, v = ext_of(P, m, base, ch)
                if k is None:
                    continue
                R.count("module_level_targets")
                fn = enclosing(P, m, n, ch)
                name = ast.unparse(n)
                if isinstance(n, ast.Attribute) and n.attr.startswith("__") and n.attr.endswith("__"):
                    continue  # documentation strings
                if k == "ext":
                    if v in STATE or not restored(P, m, n, v, ch):
                        R.finding("module-attribute", f"{fn}:{name}", f"{fn} changes {name} of a library", f"{m.path}:{n.lineno}")
                elif ch:
                    private = isinstance(n, ast.Attribute) and n.attr.startswith("_") or (v[1] and v[1][-1].startswith("_"))
                    if not private and not (isinstance(n, ast.Subscript)):
                        R.finding("module-attribute", f"{fn}:{name}", f"{fn} changes {name}, shared by the whole process", f"{m.path}:{n.lineno}")
            elif isinstance(n, ast.Global):
                ch = chain_of(m, n)
                for g in n.names:
                    R.count("global_statements")
                    stores = ch and any(isinstance(x, ast.Name) and x.id == g and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(ch[0]))
                    if stores and not g.startswith("_"):
                        R.finding("module-attribute", f"{enclosing(P, m, n, ch)}:{g}", f"{enclosing(P, m, n, ch)} rebinds the module attribute {g}", f"{m.path}:{n.lineno}")
    loggers(P, R)
    R.need("library_references", 400)
    R.need("entry_points", 100)


def saving(m, n, chain):
    """Inside saving a graph, or a private helper of it."""
    names = [getattr(f, "name", "") for f in chain]
    return any("save" in x or "write" in x or "export" in x or "dump" in x for x in names)


def everything(P, R):
    for r in each(P, R):
        P.escaped(r)
        yield r
    for e in P.extra_entries():
        try:
            yield P.run(e)
        except Exception as ex:  # noqa: BLE001
            R.notes.append(f"not analysed: {e.name} ({type(ex).__name__}: {ex})")


def restored_event(P, m, ev):
    """As `restored`, for a library reached through a local variable: any enclosing `with` or `finally` calling the same library."""
    p = parents(m)
    x = ev.node
    last = ev.term.name.split(".")[-1]
    while id(x) in p:
        y = p[id(x)]
        if isinstance(y, ast.With) and x in y.body and any(w in ast.unparse(i.context_expr) for i in y.items for w in ("catch_warnings", "rc_context", ".context(")):
            return True
        if isinstance(y, ast.withitem):
            return True
        if isinstance(y, ast.FunctionDef):
            return any(isinstance(t, ast.Try) and any(isinstance(z, ast.Attribute) and z.attr == last for b in t.finalbody for z in ast.walk(b)) for t in ast.walk(y))
        x = y
    return False


LOGGER_MUT = {"setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter"}


def loggers(P, R):
    for m in P.prog.modules.values():
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            k, v = ext_of(P, m, n.func, chain_of(m, n)) if isinstance(n.func, ast.Attribute) else (None, None)
            if k == "ext" and v == "logging.getLogger":
                R.count("logger_requests")
                a = n.args[0] if n.args else next((q.value for q in n.keywords if q.arg == "name"), None)
                root = a is None or isinstance(a, ast.Constant) and (a.value is None or a.value == "" or a.value == "root" or not str(a.value).startswith("pygsp"))
                if not root:
                    continue
                ch = chain_of(m, n)
                p = parents(m).get(id(n))
                var = None
                bad = isinstance(p, ast.Attribute) and p.attr in LOGGER_MUT | {"handlers", "level", "propagate", "disabled"}
                if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                    var = p.targets[0].id
                    scope = ch[0] if ch else m.tree
                    for z in ast.walk(scope):
                        if isinstance(z, ast.Attribute) and isinstance(z.value, ast.Name) and z.value.id == var and (
                                z.attr in LOGGER_MUT or isinstance(z.ctx, ast.Store)):
                            bad = True
                if bad:
                    R.finding("process-state", f"{enclosing(P, m, n, ch)}:logger", f"{enclosing(P, m, n, ch)} configures a logger that is not the library's own", f"{m.path}:{n.lineno}")
    for r in everything(P, R):
        it = r.it
        for ev in list(r.events) + list(getattr(r, "escaped_events", [])):
            if ev.kind == "mcall" and ev.term.name in LOGGER_MUT:
                for b in leaves_decided(it, ev.term.args[0], ev.state):
                    if b.op == "ecall" and b.name == "logging.getLogger" and (not b.args or b.args[0].op == "const" and not str(b.args[0].x).startswith("pygsp")):
                        R.finding("process-state", f"{ev.func.qualname}:logger", f"{ev.func.qualname} configures a logger that is not the library's own", ev.site, r.entry.name, ev.trace())
            elif ev.kind == "ecall":
                m = ev.func.module
                if ev.term.name in EXACT and not restored_event(P, m, ev):
                    R.finding("process-state", f"{ev.func.qualname}:{ev.term.name}", f"{ev.func.qualname} uses {ev.term.name}, which affects the whole process", ev.site, r.entry.name, ev.trace())
                for st in STATE:
                    if ev.term.name.startswith(st + ".") and ev.term.name[len(st) + 1:] in MUT and not restored_event(P, ev.func.module, ev):
                        R.finding("process-state", f"{ev.func.qualname}:{st}", f"{ev.func.qualname} changes {st} ({ev.term.name})", ev.site, r.entry.name, ev.trace())
            elif ev.kind == "mstore" and ev.term.op == "ext":
                if not (ev.info[0].startswith("__") and ev.info[0].endswith("__")):
                    R.finding("module-attribute", f"{ev.func.qualname}:{ev.term.name}.{ev.info[0]}", f"{ev.func.qualname} changes the attribute {ev.info[0]} of {ev.term.name}", ev.site, r.entry.name, ev.trace())
            elif ev.kind == "mutate" and ev.term.op == "ext" and not restored_event(P, ev.func.module, ev):
                R.finding("process-state", f"{ev.func.qualname}:{ev.term!r}", f"{ev.func.qualname} changes {ev.term!r} in place", ev.site, r.entry.name, ev.trace())
