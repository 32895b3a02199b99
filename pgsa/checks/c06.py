"""C06: randomness is controlled by the seed and by nothing else."""

import ast

from ..terms import NONE, Term, const, leaves, walk
from .c13 import api
from .common import dotted_refs, each, leaves_decided, tname

CTORS = {"default_rng", "Generator", "RandomState", "SeedSequence", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "BitGenerator"}
GENS = {f"numpy.random.{c}" for c in CTORS} | {"random.Random"}
DRAWS = {"random", "uniform", "normal", "standard_normal", "integers", "randint", "random_integers", "choice", "permutation", "permuted", "shuffle", "rand", "randn",
         "binomial", "poisson", "exponential", "beta", "gamma", "bytes", "multivariate_normal", "random_sample", "sample", "randrange", "gauss", "choices",
         "laplace", "lognormal", "geometric", "multinomial", "rayleigh", "weibull", "triangular", "standard_cauchy", "dirichlet", "hypergeometric"}
NONDET = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.process_time", "os.urandom", "os.getpid", "uuid.uuid4", "uuid.uuid1",
          "secrets.token_bytes", "secrets.randbits", "secrets.randbelow", "datetime.datetime.now", "builtins.hash", "builtins.id", "os.times"}
MEMO = {"lru_cache", "cache", "cached_property", "memoize"}


def global_generators(P, R):
    for m, n, d, chain in dotted_refs(P.prog):
        R.count("library_references")
        fn = enclosing(P, m, n, chain)
        where = f"{m.path}:{n.lineno}"
        if d.startswith("numpy.random"):
            R.count("random_references")
            rest = d[len("numpy.random"):].strip(".").split(".")
            if rest[0] not in CTORS:
                R.finding("global-generator", f"{fn}:{d}", f"{fn} uses the global generator of NumPy ({d})", where)
        elif d == "random" or d.startswith("random."):
            R.count("random_references")
            rest = d.split(".")[1:]
            if not rest or rest[0] != "Random":
                R.finding("global-generator", f"{fn}:{d}", f"{fn} uses the global generator of Python ({d})", where)
        elif d.split(".")[0] == "secrets" or d in ("os.urandom", "uuid.uuid4", "uuid.uuid1"):
            R.finding("not-reproducible", f"{fn}:{d}", f"{fn} uses {d}, which no seed controls", where)
        if d in GENS:
            # a generator shared by the calls
            why = None
            if not chain:
                why = "at import"
                if isinstance(n, ast.Attribute) and not called(m, n):
                    why = None
            elif any(memoized(f) for f in chain):
                why = "in a memoized function"
            if why:
                R.finding("shared-generator", f"{fn}:{d}", f"{fn} creates a generator {why}: what it gives depends on the calls made before", where)


_parents = {}


def parents(m):
    k = id(m.tree)
    if k not in _parents:
        p = {}
        for a in ast.walk(m.tree):
            for b in ast.iter_child_nodes(a):
                p[id(b)] = a
        _parents[k] = (m.tree, p)
    return _parents[k][1]


def called(m, n):
    p = parents(m).get(id(n))
    return isinstance(p, ast.Call) and p.func is n


def memoized(f):
    for d in getattr(f, "decorator_list", []):
        x = d.func if isinstance(d, ast.Call) else d
        name = x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "")
        if name in MEMO:
            return True
    return False


def enclosing(P, m, n, chain):
    names = [getattr(f, "name", "<lambda>") for f in reversed(chain)]
    p = parents(m)
    x = chain[-1] if chain else n
    while id(x) in p:
        x = p[id(x)]
        if isinstance(x, ast.ClassDef):
            names.insert(0, x.name)
    return ".".join([m.name] + names)


def seed_arg(t):
    if t.args:
        return t.args[0]
    for k in ("seed", "entropy", "x", "bit_generator"):
        if k in t.kw:
            return t.kw[k]
    return None


def entropy(t, depth=0):
    """The value a generator is built from, through nested constructors."""
    if t.op == "ecall" and t.name in GENS and depth < 5:
        a = seed_arg(t)
        return None if a is None else entropy(a, depth + 1)
    return t


def opaque(t):
    return any(u.op in ("ucall", "opaque", "unk", "starred", "kwdict") for u in walk(t))


def from_seed(t, names):
    for u in walk(t):
        if u.op in ("param", "kwget") and u.name in names:
            return True
        if u.op == "attr" and u.name in ("seed", "_seed", "rng", "_rng"):
            return True
    return False


def takes_seed(f):
    """The function is given a seed, or reads one from its object."""
    if {"seed", "rng", "random_state"} & set(f.args + f.kwonly):
        return True
    return any(isinstance(n, ast.Attribute) and n.attr in ("seed", "_seed", "rng", "_rng") for n in ast.walk(f.node)) or any(
        isinstance(n, ast.Name) and n.id == "seed" for n in ast.walk(f.node))


def seeded(P):
    for e in P.entries:
        f = e.func
        if "seed" in f.args + f.kwonly:
            yield e, None
        elif f.kwarg and e.kind == "init":
            yield e, None


def check(P, R):
    R.rule("(a) No reference anywhere in the package resolves to a draw, a seeding or a state function of the global generators of NumPy or Python, nor to another source of "
           "entropy. (b) In every operation that takes a seed, each generator constructor reached on any path gets a value that depends on that seed, is not None for "
           "seed 0, and differs between seeds; (c) each draw is made on such a generator, not on one kept in a module, class, object or default argument between calls; "
           "(d) library functions with a generator of their own (random_state, rng, seed) are given one.")
    global_generators(P, R)
    fields = {}
    done = []
    for r in each(P, R):
        P.escaped(r)
        done.append((r, list(r.events) + list(r.escaped_events)))
    for e in P.extra_entries():
        try:
            r = P.run(e)
        except Exception as ex:  # noqa: BLE001
            R.notes.append(f"not analysed: {e.name} ({type(ex).__name__}: {ex})")
            continue
        done.append((r, list(r.events)))
    for r, evs in done:
        for ev in evs:
            if ev.kind == "store":
                for u in leaves(ev.info[1]) if len(ev.info) > 1 and hasattr(ev.info[1], "op") else []:
                    if u.op == "ecall" and u.name in GENS:
                        fields.setdefault(ev.info[0], ev)
    for r, evs in done:
        it, e = r.it, r.entry
        has_seed = "seed" in r.params and (e.kind == "init" or not e.func.name.startswith("_"))
        for ev in evs:
            if ev.kind == "ecall":
                t = ev.term
                if t.name in GENS:
                    R.count("generators_examined")
                    if not has_seed or it.decide(Term("cmp", "is", [r.params["seed"], NONE]), ev.state) is True:
                        continue
                    a = entropy(t)
                    if a is None:
                        if ev.state is not None:
                            R.finding("unseeded", f"{e.name}:{ev.func.qualname}", f"{ev.func.qualname} builds a generator without a seed in {e.name}, which takes one", ev.site, e.name, ev.trace())
                        continue
                    ls = leaves_decided(it, a, ev.state)
                    if ls and all(u.op == "const" and u.x is None for u in ls):
                        R.finding("unseeded", f"{e.name}:{ev.func.qualname}", f"the seed given to {e.name} does not reach the generator built in {ev.func.qualname}", ev.site, e.name, ev.trace())
                    elif not takes_seed(ev.func) and all(u.op == "const" for u in ls):
                        pass  # a fixed generator, where no seed is to be used
                    elif not from_seed(a, {"seed"}) and not opaque(a):
                        R.finding("unseeded", f"{e.name}:{ev.func.qualname}", f"the generator built in {ev.func.qualname} does not depend on the seed given to {e.name} ({a!r})", ev.site, e.name, ev.trace())
                    for u in walk(a):
                        if u.op == "ecall" and u.name in NONDET:
                            R.finding("unseeded", f"{e.name}:{ev.func.qualname}:{u.name}", f"the generator built in {ev.func.qualname} depends on {u.name}", ev.site, e.name, ev.trace())
                else:
                    library(R, it, e, ev, t, has_seed, True, r)
            elif ev.kind == "mcall" and ev.term.name in DRAWS:
                for b in leaves_decided(it, ev.term.args[0], ev.state):
                    if b.op == "attr" and b.name in fields and b.args[0].op == "param" and b.args[0].name == "self" and e.kind != "init":
                        R.count("draws_examined")
                        R.finding("shared-generator", f"{e.name}:{b.name}", f"{e.name} draws from the generator kept in {tname(it, b)}: what it gives depends on the calls made before", ev.site, e.name, ev.trace())
                    elif b.op == "ecall" and b.name in GENS:
                        R.count("draws_examined")
                    elif b.op == "ext" and b.name in ("numpy.random", "random"):
                        R.finding("global-generator", f"{ev.func.qualname}:{b.name}.{ev.term.name}", f"{ev.func.qualname} draws from the global generator ({b.name}.{ev.term.name})", ev.site, e.name, ev.trace())
            elif ev.kind == "mcall" and ev.term.name == "rvs" and "random_state" in ev.term.kw:
                a = ev.term.kw["random_state"]
                R.count("draws_examined")
                if has_seed and takes_seed(ev.func) and not from_seed(a, {"seed"}) and not opaque(a) and it.decide(Term("cmp", "is", [r.params["seed"], NONE]), ev.state) is not True:
                    R.finding("unseeded", f"{e.name}:{ev.func.qualname}:rvs", f"the draw in {ev.func.qualname} is governed by {a!r}, not by the seed given to {e.name}", ev.site, e.name, ev.trace())
            elif ev.kind == "mcall" and ev.term.name == "rvs" and "random_state" not in ev.term.kw:
                bs = leaves_decided(it, ev.term.args[0], ev.state)
                if not all(b.op == "ext" or b.op == "ecall" and "seed" not in b.kw and "**" not in b.kw for b in bs):
                    continue
                R.finding("global-generator", f"{ev.func.qualname}:rvs", f"{ev.func.qualname} calls rvs without random_state: it draws from the global generator of NumPy", ev.site, e.name, ev.trace())
    # concrete seeds
    for e, _ in seeded(P):
        args = {}
        for s in (0, 1, 2):
            def over(it, s=s, e=e):
                if "seed" in e.func.args + e.func.kwonly:
                    return {"seed": const(s)}
                return {}
            if "seed" not in e.func.args + e.func.kwonly:
                continue
            try:
                r = P.run(e, overrides=over)
            except Exception as ex:  # noqa: BLE001
                R.notes.append(f"not analysed: {e.name} with seed={s} ({type(ex).__name__}: {ex})")
                continue
            R.count("concrete_seed_runs")
            it = r.it
            for ev in r.events:
                if ev.kind == "ecall" and ev.term.name not in GENS:
                    library(R, it, e, ev, ev.term, True)
                if ev.kind == "ecall" and ev.term.name in GENS:
                    a = entropy(ev.term)
                    if a is None:
                        R.finding("seed-dropped", f"{e.name}:{ev.func.qualname}", f"with seed={s}, {e.name} builds an unseeded generator in {ev.func.qualname}", ev.site, e.name, ev.trace())
                        continue
                    ls = leaves_decided(it, a, ev.state)
                    if any(u.op == "const" and u.x is None for u in ls):
                        R.finding("seed-dropped", f"{e.name}:{ev.func.qualname}", f"with seed={s}, {e.name} builds an unseeded generator in {ev.func.qualname}", ev.site, e.name, ev.trace())
                    if len(ls) == 1 and ls[0].op == "const" and takes_seed(ev.func):
                        args.setdefault((id(ev.node), ev.func), {}).setdefault(s, (ls[0].x, ev))
        for k, v in args.items():
            if len(v) == 3 and len({repr(x) for x, _ in v.values()}) == 1:
                ev = v[0][1]
                R.finding("seed-dropped", f"{e.name}:{ev.func.qualname}", f"the generator built in {ev.func.qualname} is the same whatever the seed given to {e.name}", ev.site, e.name, ev.trace())
    R.need("entry_points", 100)
    R.need("random_references", 5)
    R.need("generators_examined", 10)
    R.need("draws_examined", 10)


def e_seed(r):
    return r.params["seed"]


def library(R, it, e, ev, t, has_seed, symbolic=False, r=None):
    s = api()["sigs"].get(t.name)
    if s is None or t.name.startswith("numpy.random") or t.name.startswith("random."):
        return
    pos, kwonly, var, kw, req = s
    for name in ("random_state", "seed", "rng"):
        if name not in pos and name not in kwonly:
            continue
        R.count("library_generators_examined")
        if name == "rng" and not has_seed:
            continue
        if "**" in t.kw or any(a.op == "starred" for a in t.args):
            continue
        given = t.kw.get(name)
        if given is None and name in pos and pos.index(name) < len(t.args):
            given = t.args[pos.index(name)]
        if given is None:
            alt = [k for k in ("random_state", "seed", "rng") if k in t.kw]
            if alt or "v0" in t.kw:
                continue
        elif symbolic and has_seed and name != "rng" and takes_seed(ev.func) and not from_seed(given, {"seed"}) and not opaque(given) and all(u.op == "const" and u.x is not None for u in leaves_decided(it, given, ev.state)) \
                and it.decide(Term("cmp", "is", [e_seed(r), NONE]), ev.state) is not True:
            R.finding("unseeded", f"{ev.func.qualname}:{t.name}:{name}", f"{ev.func.qualname} calls {t.name} with {name}={given!r} whatever the seed given to {e.name}", ev.site, e.name, ev.trace())
            return
        elif not any(u.op == "const" and u.x is None for u in leaves_decided(it, given, ev.state)):
            continue
        R.finding("unseeded", f"{ev.func.qualname}:{t.name}", f"{ev.func.qualname} calls {t.name} without {name}: its result is random whatever the seed", ev.site, e.name, ev.trace())
        return
