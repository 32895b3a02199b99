"""C18: signal operators are linear in the signal."""

import ast

from ..linear import AFF, BOT, IND, LIN, NON, QUAD, UNK, ZERO, Degree, zero_test
from ..terms import NONE, show, skey
from .common import each

# operation -> (parameter, its position after self, degree)
OPS = {
    "gft": ("s", 0, LIN), "igft": ("s_hat", 0, LIN), "grad": ("x", 0, LIN), "div": ("y", 0, LIN), "dirichlet_energy": ("x", 0, QUAD),
    "filter": ("s", 0, LIN), "analyze": ("s", 0, LIN), "synthesize": ("s", 0, LIN),
    "cheby_op": ("signal", 2, LIN), "cheby_rect": ("signal", 2, LIN),
    "interpolate": ("f_subsampled", 1, LIN), "pyramid_analysis": ("f", 1, LIN), "regression_tikhonov": ("y", 1, LIN),
}
FUNCS = {"cheby_op", "cheby_rect", "interpolate", "pyramid_analysis", "regression_tikhonov"}
WORD = {LIN: "linear", QUAD: "quadratic"}


def site(t, e):
    if t is not None and t.node is not None and t.func is not None and hasattr(t.node, "lineno"):
        return f"{t.func.module.path}:{t.node.lineno}"
    return f"{e.func.module.path}:{e.func.node.lineno}"


def is_op(P, e):
    if e.func.name not in OPS:
        return False
    if e.cls is None:
        return e.func.name in FUNCS
    return any(b.name in ("Graph", "Filter") for b in e.cls.mro())


def check(P, R):
    R.rule("Each value an operator returns is classified by its degree in the signal (zero, independent, linear, quadratic, affine, not linear) by an optimistic fixpoint over the gated value graph, with the "
           "degree rules of the NumPy/SciPy operations; a returned value that is affine or not linear where the operator must be linear (quadratic for the Dirichlet energy), or a choice between two results "
           "by a test on the values of the signal, is a violation. Values whose degree is not decided are counted, not reported.")
    R.assumptions.append("Tests on shape, dimensions and type of a signal are not tests on its values; linear solvers and iterative solvers are linear in the right-hand side; operators called on an unknown filter bank or graph are the ones checked here.")
    for r in each(P, R, where=lambda e: is_op(P, e)):
        e = r.entry
        pname, pos, want = OPS[e.func.name]
        names = [a for a in e.func.args if a != "self"] if e.cls is not None else list(e.func.args)
        p = r.params.get(pname) or (r.params.get(names[pos]) if pos < len(names) else None)
        if p is None:
            R.count("signal_parameter_not_found")
            continue
        R.count("operators")
        D = Degree([p], r.it)
        degs = []
        for x in r.returns:
            if x.value is None or x.value is NONE:
                continue
            d = D.of(x.value)
            degs.append((d, x))
            R.count(f"results_{d.lower()}")
            R.sample(f"{e.name}: result is {WORD.get(d, d)} in {pname}")
            if d in (BOT, ZERO, IND, UNK, want):
                continue
            t, why = D.why.get(x.value.uid, (x.value, f"is {WORD.get(d, 'not ' + WORD[want])}"))
            where = t.func.qualname if t.func is not None else e.name
            R.finding("degree", f"{e.func.name} in {where}", f"the result is not {WORD[want]} in {pname}: it {why} ({show(t, 3)[:100]})", site(t, e), e.name)
        # results separated by a test on the values
        seen = {}
        for d, x in degs:
            for c, truth in x.state.path:
                k = skey(c)
                seen.setdefault(k, (c, {}))[1].setdefault(truth, []).append((d, x))
        for c, by in seen.values():
            if len(by) < 2:
                continue
            dc = D.of(c)
            if dc not in (NON, LIN, QUAD, AFF):
                continue
            vals = [d for xs in by.values() for d, _ in xs]
            if UNK in vals or BOT in vals or zero_test(c):
                continue
            a, b = by[True][0][1], by[False][0][1]
            if skey(a.value) == skey(b.value):
                continue
            where = c.func.qualname if c.func is not None else e.name
            R.finding("branch", f"{e.func.name} in {where}", f"the result depends on a test of the values of {pname}: {show(c, 3)[:100]}", site(c, e), e.name)
        # iterations skipped by a test on the values
        D = Degree([p], r.it)
        for ev in r.events:
            if ev.kind != "if" or not isinstance(ev.node, ast.If) or ev.term is None or not ev.loops:
                continue
            if not any(isinstance(n, (ast.Continue, ast.Break)) for b in (ev.node.body, ev.node.orelse) for n in b):
                continue
            if D.of(ev.term) in (NON, LIN, QUAD, AFF) and not zero_test(ev.term):
                R.finding("skip", f"{e.func.name} in {ev.func.qualname}", f"an iteration is skipped depending on the values of {pname}: {show(ev.term, 3)[:100]}", ev.site, e.name)
    R.need("operators", 8)
