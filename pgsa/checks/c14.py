"""C14: failures are reported, never swallowed."""

import ast
import builtins

from ..terms import leaves, walk
from .common import each, local_ext

EXC_NAMES = {n for n, o in vars(builtins).items() if isinstance(o, type) and issubclass(o, BaseException)}
BROAD = {"builtins.Exception", "builtins.BaseException"}
LOG_ERROR = ("error", "critical", "fatal")
LOG_ANY = LOG_ERROR + ("warning", "warn", "exception", "info", "log")
SOLVERS = {"cg", "cgs", "bicg", "bicgstab", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"}
ISTOP = {"lsqr": 1, "lsmr": 1}
CONVERGENCE = ("ArpackNoConvergence", "ArpackError", "LinAlgError", "NoConvergence")
LAZY = {"builtins.map", "builtins.filter", "itertools.starmap", "itertools.filterfalse"}
TRUTH = {"numpy.any", "numpy.all", "numpy.sometrue", "numpy.alltrue", "numpy.sum", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin"}
NANS = {"numpy.nan", "numpy.NaN", "numpy.NAN", "math.nan"}
PURE_TESTS = {"builtins.len", "builtins.isinstance", "builtins.issubclass", "builtins.hasattr", "builtins.callable", "builtins.all", "builtins.any", "builtins.abs", "builtins.min",
              "builtins.max", "builtins.int", "builtins.float", "builtins.sum", "builtins.type", "builtins.set", "builtins.sorted", "numpy.all", "numpy.any", "numpy.ndim", "numpy.shape",
              "numpy.size", "numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.isscalar", "numpy.isfinite", "numpy.isnan", "numpy.isreal", "numpy.iscomplexobj", "numpy.min",
              "numpy.max", "numpy.sum", "numpy.abs", "numpy.allclose", "numpy.array_equal", "scipy.sparse.issparse", "numpy.isclose", "numpy.iterable", "numpy.unique", "numpy.logical_and",
              "numpy.logical_or", "numpy.logical_not", "numpy.prod", "numpy.count_nonzero", "numpy.any", "numpy.result_type", "builtins.str", "builtins.round", "numpy.isin", "numpy.mod"}


def functions(m):
    """(function node or None for the module, chain, own statements) for every function of a module."""
    def visit(body, node, chain):
        yield node, chain, body
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield from visit(n.body, n, (n,) + chain)
                continue
            stack.extend(ast.iter_child_nodes(n))
    yield from visit(m.tree.body, None, ())


def own(body):
    """Nodes of a body without those of nested functions."""
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def dotted(prog, m, chain, n):
    """Dotted name of a library object, a package object, or None."""
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return None
    parts.reverse()
    r = local_ext(prog, m, n.id, chain)
    if r == "local":
        return None
    if r is None:
        return "builtins." + n.id if not parts and hasattr(builtins, n.id) else None
    if isinstance(r, tuple) and r[0] == "ext":
        return ".".join([r[1]] + parts)
    k = 0
    while hasattr(r, "tree") and k < len(parts):
        r = prog.resolve_member(r.name, parts[k])
        k += 1
    if isinstance(r, tuple) and r[0] == "ext":
        return ".".join([r[1]] + parts[k:])
    return r if k == len(parts) else None


def is_exc_class(d):
    if isinstance(d, str):
        head, _, last = d.rpartition(".")
        if head == "builtins":
            return last in EXC_NAMES
        return last.endswith(("Error", "Exception", "NoConvergence"))
    if hasattr(d, "methods"):
        for c in d.mro():
            for b in c.node.bases:
                if isinstance(b, (ast.Name, ast.Attribute)) and (b.id if isinstance(b, ast.Name) else b.attr) in EXC_NAMES:
                    return True
    return False


def is_logger(n):
    """A reference to a logger by its name: logger, _logger, self.logger, G.logger..."""
    last = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else ""
    return last.lower().lstrip("_") in ("logger", "log")


def log_call(n, levels):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in levels and is_logger(n.func.value)


def reports(body):
    """Does a body raise, log or warn?"""
    for n in own(body):
        if isinstance(n, ast.Raise) or log_call(n, LOG_ANY):
            return True
        if isinstance(n, ast.Call):
            f = n.func
            last = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if last in ("warn", "print", "exit", "fail") or last.startswith("warn") or "raise" in last or "report" in last:
                return True
    return False


def ends(body):
    """Last word of a statement list: 'raise', 'leave' (return, break, continue) or None when it may fall through."""
    for s in body:
        if isinstance(s, ast.Raise):
            return "raise"
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return "leave"
        if isinstance(s, ast.If) and s.orelse:
            a, b = ends(s.body), ends(s.orelse)
            if a == b == "raise":
                return "raise"
            if a and b:
                return "leave"
        if isinstance(s, ast.With):
            e = ends(s.body)
            if e:
                return e
        if isinstance(s, ast.Try) and not s.finalbody:
            es = [ends(s.body + s.orelse)] + [ends(h.body) for h in s.handlers]
            if all(x == "raise" for x in es):
                return "raise"
            if all(es):
                return "leave"
    return None


def blocks(body):
    """Every statement list of a function body, with the enclosing (list, index) pairs, innermost first."""
    def visit(b, up):
        yield b, up
        for i, s in enumerate(b):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for f in ("body", "orelse", "finalbody"):
                x = getattr(s, f, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                    yield from visit(x, ((b, i, s),) + up)
            for h in getattr(s, "handlers", []):
                yield from visit(h.body, ((b, i, s),) + up)
            for c in getattr(s, "cases", []):
                yield from visit(c.body, ((b, i, s),) + up)
    yield from visit(body, ())


class Source:
    """The rules which look at one function at a time."""

    def __init__(self, P, R):
        self.P, self.R = P, R
        for m in P.prog.modules.values():
            for node, chain, body in functions(m):
                self.m, self.chain = m, chain
                self.where = m.path.split("pygsp/")[-1] if node is None else ".".join(f.name for f in reversed(chain))
                self.key = f"{m.name}:{self.where}"
                R.count("functions_scanned")
                self.function(node, body)

    def d(self, n):
        return dotted(self.P.prog, self.m, self.chain, n)

    def bad(self, rule, n, msg):
        self.R.finding(rule, self.key, msg, f"{self.m.path}:{n.lineno}")

    def lazy(self, v):
        """Is the value of an expression computed only when it is consumed?"""
        if isinstance(v, ast.GeneratorExp):
            return "a generator expression"
        if isinstance(v, ast.Call):
            d = self.d(v.func)
            if d in LAZY:
                return d.split(".")[-1] + "()"
            if hasattr(d, "node") and isinstance(d.node, ast.FunctionDef) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(d.node.body)):
                return f"the generator {d.name}()"
        return None

    def function(self, node, body):
        loads = {}
        for n in ast.walk(node) if node is not None else ():
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                loads[n.id] = loads.get(n.id, 0) + 1
        for n in own(body):
            if isinstance(n, ast.Expr):
                self.R.count("discarded_expressions")
                v = n.value
                if isinstance(v, ast.Call) and is_exc_class(self.d(v.func)):
                    self.bad("error-not-raised", n, f"{self.where} builds an error object and throws it away instead of raising it: {ast.unparse(v)[:80]}")
                elif isinstance(v, (ast.Name, ast.Attribute)) and is_exc_class(self.d(v)):
                    self.bad("error-not-raised", n, f"{self.where} mentions {ast.unparse(v)} without raising it")
                elif self.lazy(v):
                    self.bad("lazy-result", n, f"{self.where} throws away {self.lazy(v)}: nothing it stands for is ever computed: {ast.unparse(v)[:80]}")
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and node is not None:
                name, v = n.targets[0].id, n.value
                if loads.get(name, 0) == 0 and not any(isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names for x in ast.walk(node)):
                    if isinstance(v, ast.Call) and is_exc_class(self.d(v.func)):
                        self.bad("error-not-raised", n, f"{self.where} builds an error object and never raises it: {ast.unparse(v)[:80]}")
                    elif self.lazy(v):
                        self.bad("lazy-result", n, f"{self.where} never consumes {self.lazy(v)}: nothing it stands for is ever computed")
            elif isinstance(n, ast.Return) and n.value is not None and node is not None:
                v = n.value
                if isinstance(v, ast.Call) and is_exc_class(self.d(v.func)) and not self.raised_by_callers(node):
                    self.bad("error-not-raised", n, f"{self.where} returns an error object instead of raising it: {ast.unparse(v)[:80]}")
            elif isinstance(n, ast.Raise):
                self.R.count("raise_statements")
                self.raise_(n)
            elif isinstance(n, ast.Assert):
                self.R.count("assert_statements")
                if isinstance(n.test, ast.Tuple) and n.test.elts:
                    self.bad("check-never-fails", n, f"{self.where} asserts a tuple, which is always true")
                elif self.lazy(n.test):
                    self.bad("check-never-fails", n, f"{self.where} tests {self.lazy(n.test)}, which is always true")
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                self.test(n)
            elif isinstance(n, ast.Try):
                self.R.count("try_statements")
                self.try_(n, body)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                self.with_(n)
            if isinstance(n, ast.Compare):
                self.nan(n)
            if isinstance(n, ast.Call) and n.args and self.lazy(n.args[0]):
                if self.d(n.func) in TRUTH:
                    self.bad("check-never-fails", n, f"{self.where} gives {self.lazy(n.args[0])} to {ast.unparse(n.func)}, which tests the generator, not what it yields")
        for b, up in blocks(body):
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and log_call(s.value, LOG_ERROR) and node is not None:
                    self.R.count("logged_errors")
                    self.logged(s, b, i, up)
                if i and isinstance(s, ast.Raise) and isinstance(b[i - 1], (ast.Raise, ast.Return, ast.Break, ast.Continue)):
                    self.bad("raise-never-reached", s, f"{self.where} leaves before the statement that raises the error")

    def raised_by_callers(self, node):
        """Is the result of this function raised somewhere (a factory of errors)?"""
        def calls(n):
            return any(isinstance(x, ast.Call) and (x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)) == node.name for x in ast.walk(n))
        for m in self.P.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Raise) and n.exc is not None and calls(n.exc):
                    return True
                if isinstance(n, (ast.FunctionDef, ast.Lambda)) and calls(n) and any(isinstance(x, ast.Raise) and isinstance(x.exc, ast.Name) for x in ast.walk(n)):
                    return True
        return False

    def raise_(self, n):
        e = n.exc
        if e is None:
            return
        if isinstance(e, ast.IfExp):
            return
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Tuple, ast.List, ast.Dict)) or (isinstance(e, ast.BinOp)):
            self.bad("raises-no-error", n, f"{self.where} raises something that is not an error: {ast.unparse(e)[:60]}")
            return
        f = e.func if isinstance(e, ast.Call) else e
        if isinstance(e, ast.Call) and log_call(e, LOG_ANY + ("debug",)):
            self.bad("raises-no-error", n, f"{self.where} raises the result of a logging call, which is no error")
            return
        d = self.d(f)
        if isinstance(d, str) and d.startswith("builtins.") and d.split(".")[1] not in EXC_NAMES and not isinstance(e, ast.Call):
            self.bad("raises-no-error", n, f"{self.where} raises {ast.unparse(e)}, which is no error")
        elif isinstance(d, str) and d in ("builtins.NotImplemented", "builtins.print", "builtins.str", "warnings.warn"):
            self.bad("raises-no-error", n, f"{self.where} raises {ast.unparse(e)[:60]}, which is no error")

    def test(self, n):
        t = n.test
        if isinstance(t, ast.Name) and t.id == "__debug__" and any(isinstance(x, ast.Raise) for s in (n.body if isinstance(n.body, list) else []) for x in ast.walk(s)):
            self.bad("optimised-away", n, f"{self.where} makes a check only when Python runs without optimisation")
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and any(isinstance(v, ast.Name) and v.id == "__debug__" for v in t.values) and not isinstance(n, ast.IfExp) and any(
                isinstance(x, ast.Raise) for s in n.body for x in ast.walk(s)):
            self.bad("optimised-away", n, f"{self.where} makes a check only when Python runs without optimisation")
        u = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else t
        if self.lazy(u) and not isinstance(n, ast.While):
            self.bad("check-never-fails", n, f"{self.where} tests {self.lazy(u)}, which is always true")
        if isinstance(u, ast.Tuple) and u.elts:
            self.bad("check-never-fails", n, f"{self.where} tests a tuple, which is always true")

    def nan(self, n):
        sides = [n.left] + n.comparators
        for op, a, b in zip(n.ops, sides, sides[1:]):
            for x in (a, b):
                d = self.d(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
                if isinstance(x, ast.Call) and self.d(x.func) == "builtins.float" and len(x.args) == 1 and isinstance(x.args[0], ast.Constant) and str(x.args[0].value).lower() == "nan":
                    d = "math.nan"
                if d in NANS and isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                    self.bad("check-never-fails", n, f"{self.where} compares with NaN, which never tells anything")

    def broad(self, t):
        if t is None:
            return "everything"
        for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
            if isinstance(x, (ast.Name, ast.Attribute)) and self.d(x) in BROAD:
                return self.d(x).split(".")[1]
        return None

    def try_(self, n, body):
        for s in ast.walk(ast.Module(body=n.finalbody, type_ignores=[])):
            if isinstance(s, ast.Return) or (isinstance(s, (ast.Break, ast.Continue)) and not any(isinstance(x, (ast.For, ast.While)) for x in n.finalbody)):
                if not any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in n.finalbody):
                    self.bad("error-discarded", s, f"{self.where} leaves a finally block early, which discards any error on its way")
        for h in n.handlers:
            self.R.count("handlers")
            names = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else []
            b = self.broad(h.type)
            raising = any(isinstance(x, ast.Raise) for x in own(h.body)) or any(
                isinstance(x, ast.Call) and ast.unparse(x.func) in ("sys.exit", "os._exit") for x in own(h.body))
            if b and not raising:
                if h.name and any(isinstance(x, ast.Name) and x.id == h.name and isinstance(x.ctx, ast.Load) for x in own(h.body)) and not all(
                        log_call(s.value, LOG_ANY + ("debug",)) for s in h.body if isinstance(s, ast.Expr)):
                    continue  # handed on
                if h.name and self.stored(h):
                    continue
                self.bad("error-discarded", h, f"{self.where} catches {b} and carries on: an error it did not expect is lost")
            elif any(x in CONVERGENCE for x in names) and not reports(h.body):
                if not any(isinstance(x, ast.Call) for x in own(h.body)) and not self.flag_used(h, body):
                    self.bad("error-discarded", h, f"{self.where} catches {', '.join(names)} and carries on without a word: the failure of the solver is lost")

    def stored(self, h):
        return any(isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == h.name for x in ast.walk(s.value)) for s in h.body)

    def flag_used(self, h, body):
        """A name set by the handler to a constant and tested afterwards."""
        names = {t.id for s in h.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) for t in s.targets if isinstance(t, ast.Name)}
        return any(isinstance(n, (ast.If, ast.While, ast.IfExp)) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.test)) for n in own(body))

    def with_(self, n):
        for i in n.items:
            c = i.context_expr
            if isinstance(c, ast.Call) and self.d(c.func) == "contextlib.suppress":
                for a in c.args:
                    if isinstance(a, (ast.Name, ast.Attribute)) and self.d(a) in BROAD:
                        self.bad("error-discarded", n, f"{self.where} suppresses {ast.unparse(a)}: an error it did not expect is lost")

    def logged(self, s, b, i, up):
        tests = []
        rest = b[i + 1:]
        for owner in ((b, i, None),) + up:
            if owner[2] is not None:
                blk, k, st = owner
                if isinstance(st, ast.If):
                    tests.append(ast.dump(st.test))
                if isinstance(st, (ast.For, ast.While)):
                    tests.append(None)
                rest = blk[k + 1:]
            e = ends(rest)
            if e == "raise":
                return
            for x in rest:
                if isinstance(x, ast.If) and (ast.dump(x.test) in tests or None in tests) and any(isinstance(y, ast.Raise) for y in own(x.body + x.orelse)):
                    return
                if isinstance(x, ast.If) and ends(x.body) == "raise" and self.counts(s, up, x):
                    return
            if e == "leave":
                break
        self.bad("error-only-logged", s, f"{self.where} detects an error, logs it as an error, and carries on as if nothing had happened: {ast.unparse(s)[:90]}")

    def counts(self, s, up, x):
        """A later test on a name assigned beside the logging call."""
        names = {t.id for t in ast.walk(x.test) if isinstance(t, ast.Name)}
        for owner in up:
            st = owner[2]
            for y in ast.walk(st):
                if isinstance(y, (ast.Assign, ast.AugAssign)):
                    for t in (y.targets if isinstance(y, ast.Assign) else [y.target]):
                        if isinstance(t, ast.Name) and t.id in names:
                            return True
        return False


# -- rules which need the values ------------------------------------------------------


def public_only(it, t):
    """Is a condition computed from the arguments of the caller only (with at least one of them)? -> set of parameters, or None"""
    out = set()
    stack, seen = [t], set()
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op == "const":
            continue
        if u.op == "param":
            out.add(u.name)
            continue
        if u.op in ("ext",):
            continue
        if u.op == "attr" and u.name not in ("shape", "ndim", "size", "dtype", "N", "n_vertices", "T"):
            return None
        if u.op in ("attr", "bin", "cmp", "bool", "un", "sub", "tuple", "list", "unpack"):
            stack.extend(u.children())
            continue
        if u.op == "ecall" and u.name in PURE_TESTS:
            stack.extend(u.children())
            continue
        if u.op == "mcall" and u.name in ("all", "any", "min", "max", "sum"):
            stack.extend(u.children())
            continue
        return None
    return out


def status_terms(it, t):
    """Solver calls whose status a value contains: {node of the call}."""
    out = set()
    for u in walk(t):
        if u.op in ("unpack", "sub") and u.args and u.args[0].op == "ecall":
            c = u.args[0]
            last = (c.name or "").split(".")[-1]
            if u.op == "unpack":
                k = u.x if isinstance(u.x, int) else u.name
            else:
                k = u.args[1].x if u.args[1].op == "const" else None
            if last in SOLVERS and (c.name or "").startswith("scipy.") and k in (1, -1, "1", None):
                out.add(id(c.node))
    return out


def check(P, R):
    R.rule("Every statement of the package is scanned: an error object that is built is raised, what is raised is an error, no broad handler (nor finally block, nor suppress) carries on "
           "after catching, an error logged as an error is raised, no raise is unreachable, no lazy result (map, filter, generator) is thrown away or tested for truth, no test compares with NaN.")
    R.rule("In the abstract executions of every entry point: no handler resumes after catching an error the package itself raised; no method is tested or mentioned instead of called; "
           "the status of every iterative linear solver reaches a test that tells success from failure, or the caller; no assertion tests the arguments of the caller.")
    Source(P, R)
    R.need("functions_scanned", 150)
    R.need("raise_statements", 60)
    R.need("handlers", 15)
    solver_calls, examined = {}, {}
    asserts = set()
    for r in each(P, R):
        it, e = r.it, r.entry
        P.escaped(r)
        for ev in r.events + getattr(r, "escaped_events", []):
            if ev.kind == "caught" and ev.info["resumes"]:
                R.count("resuming_handlers")
                for x in ev.info["caught"]:
                    if not isinstance(x.node, ast.Raise) or x.func is None:
                        continue
                    cls = it.exc_name(x.value) if x.value is not None else None
                    if cls is None or cls.split(".")[-1] in ("ImportError", "ModuleNotFoundError", "StopIteration") or cls.split(".")[-1].startswith("_") or cls not in EXC_NAMES:
                        continue
                    R.finding("error-discarded", f"{ev.func.qualname}:{cls}",
                              f"{ev.func.qualname} catches the {cls} that {x.func.qualname} raises (line {x.node.lineno}) and carries on: a problem the library detected is not reported",
                              ev.site, e.name, ev.trace())
            elif ev.kind in ("truth", "discard") and ev.term is not None and ev.term.op == "boundmeth" and ev.term.x is not None:
                n = ev.node if ev.kind == "truth" else ev.node.value
                if isinstance(n, ast.Attribute):
                    R.finding("method-not-called", f"{ev.func.qualname}:{getattr(ev.term.x, 'name', ev.term.name)}",
                              f"{ev.func.qualname} {'tests' if ev.kind == 'truth' else 'mentions'} {ast.unparse(n)} without calling it", ev.site, e.name, ev.trace())
            elif ev.kind == "assert" and ev.site not in asserts:
                ps = public_only(it, ev.term)
                if ps and ps - {"self"} and it.decide(ev.term, ev.state) is not True:
                    asserts.add(ev.site)
                    R.finding("optimised-away", f"{ev.func.qualname}:{ast.unparse(ev.node.test)[:60]}",
                              f"{ev.func.qualname} checks {', '.join(sorted(ps - {'self'}))} with an assertion, which disappears when Python runs with optimisation: {ast.unparse(ev.node.test)[:80]}",
                              ev.site, e.name, ev.trace())
            elif ev.kind == "ecall" and ev.term is not None and (ev.term.name or "").startswith("scipy.") and ev.term.name.split(".")[-1] in SOLVERS:
                solver_calls.setdefault(id(ev.term.node), []).append((ev, r))
        status(P, r, examined)
    for nid, evs in solver_calls.items():
        R.count("solver_calls")
        ev, r = evs[0]
        verdicts = examined.get(nid, set())
        name = ev.term.name.split(".")[-1]
        if "ok" in verdicts or "escapes" in verdicts:
            continue
        why = "tests it so that success and failure are treated alike" if "blind" in verdicts else "takes success for failure" if "inverted" in verdicts else "never looks at it"
        R.finding("solver-status", f"{ev.func.qualname}:{name}", f"{ev.func.qualname} calls {name}, whose second result tells whether it converged, and {why}", ev.site, r.entry.name, ev.trace())


def value(t, nid, v):
    """Truth of a condition when the status of the solver call is v; None when unknown."""
    if status_is(t, nid):
        return v
    if t.op == "const":
        return t.x
    if t.op == "cmp" and len(t.args) == 2:
        a, b = value(t.args[0], nid, v), value(t.args[1], nid, v)
        if a is None and t.args[0].op != "const" or b is None and t.args[1].op != "const":
            return None
        try:
            return {"==": a == b, "!=": a != b, "is": a == b, "is not": a != b}[t.name] if t.name in ("==", "!=", "is", "is not") else {
                "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}.get(t.name)
        except TypeError:
            return None
    if t.op == "un" and t.name == "not":
        a = value(t.args[0], nid, v)
        return None if a is None else not a
    if t.op == "ecall" and t.name in ("numpy.all", "builtins.all", "numpy.prod", "builtins.min", "numpy.min", "numpy.amin") and t.args and v == 1 and any(u.op == "store" for u in walk(t.args[0])):
        return 0  # one status among several
    if t.op == "ecall" and t.name in ("builtins.bool", "builtins.int", "builtins.abs", "numpy.any", "numpy.all") and t.args:
        return value(t.args[0], nid, v)
    return None


def status_is(t, nid):
    if t.op in ("unpack", "sub") and t.args and t.args[0].op == "ecall" and id(t.args[0].node) == nid:
        return nid in status_terms(None, t)
    if t.op == "phi":
        return any(status_is(x, nid) for x in t.args[1:])
    if t.op in ("store", "mu"):
        return any(status_is(x, nid) for x in t.args)
    return False


def status(P, r, examined):
    def note(t, verdict):
        for nid in status_terms(r.it, t):
            examined.setdefault(nid, set()).add(verdict)
    for ev in r.events + getattr(r, "escaped_events", []):
        if ev.kind == "if" and ev.term is not None:
            for nid in status_terms(r.it, ev.term):
                zero, one = value(ev.term, nid, 0), value(ev.term, nid, 1)
                s = examined.setdefault(nid, set())
                if zero is None or one is None or not isinstance(ev.node, ast.If):
                    s.add("ok")
                elif bool(zero) == bool(one):
                    s.add("blind")
                else:
                    fail = ev.node.body if bool(one) else ev.node.orelse
                    good = ev.node.orelse if bool(one) else ev.node.body
                    if not fail and reports(good):
                        s.add("inverted")
                    elif all(isinstance(x, ast.Pass) for x in fail) and ends(good) != "leave":
                        s.add("blind")
                    else:
                        s.add("ok")
        elif ev.kind in ("raise",) and ev.term is not None:
            note(ev.term, "ok")
        elif ev.kind in ("ecall", "mcall", "ucall") and ev.term is not None:
            if ev.kind == "ecall" and (ev.term.name or "").startswith(("numpy.", "scipy.", "builtins.")) and ev.term.name != "builtins.print":
                continue
            for a in list(ev.term.children())[1 if ev.kind == "mcall" else 0:]:
                note(a, "ok")
                whole(a, examined)
        elif ev.kind in ("store", "mstore", "mutate"):
            i = ev.info
            v = i.get("value") if isinstance(i, dict) else i[1] if isinstance(i, tuple) else None
            if hasattr(v, "op"):
                note(v, "ok")
                whole(v, examined)
    for x in r.returns:
        v = getattr(x, "value", x)
        if hasattr(v, "op"):
            note(v, "escapes")
            whole(v, examined)


def whole(t, examined):
    """The complete result tuple handed on: its receiver may look at the status."""
    if t.op == "ecall" and (t.name or "").split(".")[-1] in SOLVERS and (t.name or "").startswith("scipy."):
        examined.setdefault(id(t.node), set()).add("ok")
