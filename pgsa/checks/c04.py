"""C04: an operation that fails leaves the graph or filter bank as it was."""

from ..terms import leaves, skey, Term
from .c02 import DOCUMENTED, private_only, unchanged
from .common import all_memo, each, external_base, is_gf, tname


def check(P, R):
    R.rule("For every public operation on an existing graph or filter bank, every exit by exception (explicit raise, assertion, failing eigensolver or "
           "linear solver) is examined with the set of fields written since the entry: none may have been assigned or modified in place, except lazily "
           "computed fields whose filling operation had completed.")
    memo = all_memo(P.prog)
    seen_exits = 0
    dirty_exits = 0
    for r in each(P, R, lambda e: e.kind != "init"):
        it, e = r.it, r.entry
        for x in r.raises:
            seen_exits += 1
            if x.state is None or not x.state.dirty:
                continue
            hit = False
            for (ident, field), (base, value, node, func, stack, envid) in x.state.dirty.items():
                if not is_gf(it, base, x.state):
                    continue
                if external_base(it, base, x.state) is not True:
                    continue
                hit = True
                if field == "logger":
                    continue
                if unchanged(it, base, field, value, x.state):
                    continue
                cur = x.state.heap.get((ident, field))
                if cur is not None and unchanged(it, base, field, cur, x.state):
                    continue  # restored
                if field.startswith("_") and field not in memo and private_only(P, field):
                    continue
                if field in memo or field in DOCUMENTED.get(func.name, ()):
                    reset = value.op == "const" and value.x is None
                    if not reset and envid not in x.live:
                        R.count("completed_fills")
                        continue
                what = {"raise": "raises", "assert": "fails an assertion", "mayfail": "fails in an external solver"}.get(x.info, "raises")
                R.finding("half-changed", f"{e.name}:{tname(it, base)}.{field}",
                          f"{e.name} {what} in {x.func.qualname} (line {getattr(x.node, 'lineno', '?')}) after having changed {tname(it, base)}.{field} in {func.qualname}",
                          f"{func.module.path}:{getattr(node, 'lineno', '?')}", e.name,
                          " <- ".join(f.qualname for f, _ in reversed(x.stack)))
            dirty_exits += hit
    R.count("exception_exits", seen_exits)
    R.count("exception_exits_after_a_write", dirty_exits)
    R.need("exception_exits", 100)
    R.need("entry_points", 80)

