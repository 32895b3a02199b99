"""Terms of the gated value graph built by the abstract interpreter."""

import itertools

_uid = itertools.count(1)


class Term:
    """One abstract value.

    op      kind of node (const, param, attr, ecall, mcall, ucall, bin, phi...)
    name    operator, attribute, dotted external name...
    args    operand terms
    kw      keyword operands
    ident   identity of the (mutable) object the value is a snapshot of
    """

    __slots__ = ("op", "name", "args", "kw", "uid", "ident", "node", "func", "x", "_sk", "new")

    def __init__(self, op, name=None, args=(), kw=None, ident=None, node=None, func=None, x=None):
        self.op = op
        self.name = name
        self.args = list(args)
        self.kw = kw or {}
        self.uid = next(_uid)
        self.ident = ident if ident is not None else self.uid
        self.node = node
        self.func = func
        self.x = x
        self._sk = None

    def children(self):
        yield from self.args
        yield from self.kw.values()

    def __repr__(self):
        return show(self)


def show(t, depth=4):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "const":
        return repr(t.x)
    if t.op == "param":
        return t.name
    if depth <= 0:
        return "…"
    a = [show(c, depth - 1) for c in t.args] + [f"{k}={show(v, depth - 1)}" for k, v in t.kw.items()]
    if t.op == "attr":
        return f"{a[0]}.{t.name}"
    if t.op in ("ecall", "ext"):
        n = t.name
        return f"{n}({', '.join(a)})" if t.op == "ecall" else n
    if t.op == "mcall":
        return f"{a[0]}.{t.name}({', '.join(a[1:])})"
    if t.op == "bin":
        return f"({a[0]} {t.name} {a[1]})"
    if t.op == "cmp":
        return f"({a[0]} {t.name} {a[1]})"
    if t.op == "sub":
        return f"{a[0]}[{a[1]}]"
    if t.op in ("func", "class", "module"):
        return f"<{t.op} {getattr(t.x, 'name', t.name)}>"
    if t.op == "mu":
        return f"mu{t.uid}"
    n = t.op if t.name is None else f"{t.op}:{t.name}"
    return f"{n}({', '.join(a)})"


_intern = {}


def skey(t):
    """Structural key (value number): equal keys denote equal pure expressions."""
    if t._sk is not None:
        return t._sk
    # iterative to survive deep graphs
    stack = [t]
    while stack:
        u = stack[-1]
        if u._sk is not None:
            stack.pop()
            continue
        if u.op in ("mu", "obj", "opaque", "func", "elem"):
            if u.op == "elem":
                pass
            else:
                u._sk = _num((u.op, u.uid))
                stack.pop()
                continue
        todo = [c for c in u.children() if c._sk is None]
        if todo:
            stack.extend(todo)
            continue
        x = None
        if u.op == "const":
            x = (type(u.x).__name__, repr(u.x))
        elif u.op in ("param", "elem", "unk"):
            x = u.x if isinstance(u.x, (str, int)) else None
            if u.op == "param":
                x = u.uid
        elif u.op in ("class", "module", "boundmeth"):
            x = id(u.x)
        u._sk = _num(
            (
                u.op,
                u.name,
                x,
                tuple(c._sk for c in u.args),
                tuple(sorted((str(k), v._sk) for k, v in u.kw.items())),
            )
        )
        stack.pop()
    return t._sk


def _num(k):
    n = _intern.get(k)
    if n is None:
        n = _intern[k] = len(_intern) + 1
    return n


def const(v, node=None, func=None):
    return Term("const", x=v, node=node, func=func)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == "const"


def leaves(t, seen=None):
    """Alternatives of a value: phi and mu nodes are expanded."""
    seen = set() if seen is None else seen
    out = []
    stack = [t]
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op == "phi":
            stack.extend(u.args[1:])
        elif u.op == "mu":
            stack.extend(u.args)
        else:
            out.append(u)
    return out


def walk(t, into=None):
    """All the terms a value is computed from."""
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u.uid in seen:
            continue
        seen.add(u.uid)
        yield u
        for c in u.children():
            if into is None or into(u, c):
                stack.append(c)
