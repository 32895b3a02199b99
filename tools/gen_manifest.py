"""Writes MANIFEST.json: a check for every property that has one, the rest not applicable."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": ("interprocedural alias and mutation analysis over an abstract interpretation of the source",
            "Every write reached from a public entry point is traced to the object it changes; a write that can only hit a caller's argument is a violation. "
            "Unknown aliasing is not reported, so library functions outside the table of in-place operations are a limit."),
    "C02": ("effect analysis of graph and filter fields over an abstract interpretation of the source",
            "Every field store and in-place change of a pre-existing graph or filter bank in a non-mutating operation is enumerated; only lazy fills are allowed."),
    "C03": ("typestate and dependence analysis of memoised fields",
            "Each remembered field, what it is computed from and when it is dropped are derived from the source; checks that each invalidation covers each derived field and each reuse tests the whole request."),
    "C04": ("path-sensitive effect ordering: no state change before a reachable failure",
            "Field stores that precede a raise, or a call that documents raising, on the same path are reported."),
    "C05": ("exhaustiveness analysis of option dispatch by abstract interpretation with concrete option strings",
            "Each option parameter is run with its documented values and with values outside the table; every returning path of the latter is a violation."),
    "C06": ("taint analysis of random draws and generator construction", "Every draw reached from every entry point must come from a generator built from the seed parameter."),
    "C07": ("dependence analysis from parameters to results, fields and checks", "Data and control dependences of what an operation leaves behind on each accepted parameter."),
    "C08": ("dimension (unit exponent) analysis of the weights through the numerical expressions", "Exponent of the weight unit inferred for each expression; comparisons, sums and constants of different exponents are reported."),
    "C09": ("case analysis of matrix expressions by the entry, in polynomial normal form", "The expressions extracted for Laplacians, degrees and symmetrization are written as polynomials in two opposite entries and row sums in each order type and position, and compared with their definitions."),
    "C10": ("must-pass-through analysis of shape checks", "Each use of the values of a signal parameter has to be dominated by a check of its first dimension."),
    "C11": ("closure capture analysis and pointwise-operation analysis of kernels", "Captured variables rebinding in loops; reductions, indexing and sorting over the frequency axis inside kernels."),
    "C12": ("import dependency analysis", "Which optional library each entry point and module import requires, and how its absence is reported."),
    "C13": ("name, attribute, signature and library-member resolution of the whole package",
            "Names, attributes and calls are resolved against scopes, class models and a table of the installed library versions."),
    "C14": ("discarded-value, handler and control-flow analysis", "Every expression whose value is dropped, every handler, raise and assert is enumerated."),
    "C15": ("agreement of writer and reader tables extracted from the source", "Attribute names, type tables, formats and back-end calls of both directions are extracted and compared."),
    "C16": ("typestate of figures and axes over the plotting call graph", "Each figure or widget created must be recorded and each drawing call must reach the given axis."),
    "C17": ("effect analysis for process-wide state", "Every call, store and library configuration reached from an entry point or module import is matched with a table of global effects."),
    "C18": ("linearity type inference on the signal parameter", "Degree of each value in the signal is inferred through every operation."),
    "C19": ("symbolic algebra: operator words of paired transforms", "The operators applied by each transform are extracted as words and compared with the conjugate transpose of their pair's."),
    "C20": ("reachability of dense conversions and eigendecompositions", "Calls densifying a vertex-by-vertex matrix or computing the eigenbasis reached on default scalable paths."),
    "C21": ("value-flow comparison of index expressions in derived graphs", "The selection applied to rows, columns, coordinates and signals must be the same value."),
    "C22": ("dtype inference for buffers and casts", "Stores of real values into buffers whose type comes from an input, and casts to integer types."),
}

NA = {
    "C31": "the orthonormality error of the eigenvectors returned by LAPACK on floating-point input is a runtime quantity; no static argument over this source bounds it",
    "C32": "an approximation error bound depends on the analytic smoothness of arbitrary callables and on floating-point arithmetic; nothing in the source's structure decides it (its structural part, linearity and argument flow, is in C18 and C07)",
    "C33": "that the estimate bounds the true largest eigenvalue depends on the convergence of ARPACK and on the numerical values of the weights",
    "C34": "equality of the frame bounds is a numerical identity between transcendental kernels over the whole spectrum; out of reach of a sound static analysis of the source",
    "C35": "optimality of the returned point is a property of the iterations of numerical solvers run on runtime data",
    "C36": "which points are nearest is decided inside SciPy's and FLANN's trees on runtime coordinates",
    "C37": "preservation of effective resistances holds with high probability over random draws and up to numerical error; not a property of program structure",
    "C38": "a statement about distributions of random outputs; static analysis of the source cannot decide it",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "pgsa", "checks", f"{i.lower()}.py")) and i in TECH:
            t, note = TECH[i]
            checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --thorough",
                           "technique": "static analysis: " + t, "level": "other", "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check for it in this framework yet")})
    m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
