"""Rules about the whole package, decided on its resolved syntax trees."""

import ast

from .program import PKG, Program, canon_ext
from .lib import *  # noqa: F401,F403

FRAMEWORKS = ("autograd", "jax", "tensorflow", "torch")
ENTRY = {f"{PKG}.{f}": f for f in FRAMEWORKS}


class Found:
    """Outcome of a rule: instances it was applied to and what is wrong with which."""

    def __init__(self):
        self.instances = []
        self.findings = []  # (construct, message, where)
        self.undecided = []

    def ok(self, construct, where):
        self.instances.append((construct, where))

    def bad(self, construct, message, where):
        self.instances.append((construct, where))
        self.findings.append((construct, message, where))


class Rule:
    def __init__(self, id, props, text, fn, minimum, example=None):
        self.id, self.props, self.text, self.fn, self.minimum = id, tuple(props), text, fn, minimum
        # modules of a tiny package in which the rule has to find something
        self.example = example


def loc(m, node):
    return f"{m.relpath}:{getattr(node, 'lineno', 0)}"


def functions(prog):
    for f in prog.all_funcs():
        yield f


def scopes(m):
    """(name of the enclosing function or None, node) for every node of a module."""
    out = []

    def go(node, name):
        for c in ast.iter_child_nodes(node):
            n = name
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                n = (name + "." if name else "") + c.name
            elif isinstance(c, ast.ClassDef):
                n = (name + "." if name else "") + c.name
            out.append((n, c))
            go(c, n)

    go(m.tree, "")
    return out


_IMPORTS = {}  # the import statements of a module


def callee(prog, m, f):
    """Dotted external name of a callee, or None."""
    e = f
    while isinstance(e, ast.Attribute):
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    t = prog.resolve_expr(m, f)
    if t is not None and t.op == "ext":
        return t.args[0]
    # names imported inside a function
    nodes = _IMPORTS.get(id(m.tree))
    if nodes is None:
        nodes = _IMPORTS[id(m.tree)] = (m.tree, [n for n in ast.walk(m.tree) if isinstance(n, (ast.Import, ast.ImportFrom))])
    for node in nodes[1]:
        if isinstance(node, ast.Import):
            for a in node.names:
                if (a.asname or a.name.split(".")[0]) == e.id:
                    base = a.name if a.asname else a.name.split(".")[0]
                    tail = []
                    x = f
                    while isinstance(x, ast.Attribute):
                        tail.append(x.attr)
                        x = x.value
                    return canon_ext(".".join([base] + tail[::-1]))
        if isinstance(node, ast.ImportFrom) and node.level == 0:
            for a in node.names:
                if (a.asname or a.name) == e.id:
                    tail = []
                    x = f
                    while isinstance(x, ast.Attribute):
                        tail.append(x.attr)
                        x = x.value
                    return canon_ext(".".join([node.module, a.name] + tail[::-1]))
    if t is None and isinstance(f, ast.Name):
        return "builtins." + f.id
    return None


# --------------------------------------------------------------------- imports (P25, P29)


def imports(m):
    """Every absolute import in a module: (dotted name, node, guarded)."""

    def go(body, guarded, name):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    yield a.name, st, guarded, name
            elif isinstance(st, ast.ImportFrom):
                if st.level == 0:
                    for a in st.names:
                        yield st.module + ("" if a.name == "*" else "." + a.name), st, guarded, name
                else:
                    for a in st.names:
                        yield "." * st.level + (st.module + "." if st.module else "") + a.name, st, guarded, name
            elif isinstance(st, ast.If):
                g = guarded or any(getattr(x, "id", getattr(x, "attr", "")) == "TYPE_CHECKING" for x in ast.walk(st.test))
                yield from go(st.body, g, name)
                yield from go(st.orelse, guarded, name)
            elif isinstance(st, ast.Try):
                yield from go(st.body + st.orelse + st.finalbody, guarded, name)
                for h in st.handlers:
                    yield from go(h.body, guarded, name)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                yield from go(st.body, guarded, name)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                yield from go(st.body, guarded, (name + "." if name else "") + st.name)

    yield from go(m.tree.body, False, "")


def framework_imports(prog):
    """Only the entry module of a framework imports that framework."""
    r = Found()
    for m in prog.modules.values():
        own = ENTRY.get(m.name)
        for name, node, guarded, scope in imports(m):
            rel = name.startswith(".")
            parts = name.split(".")
            if rel:
                base = prog._rel(m, len(name) - len(name.lstrip(".")), name.lstrip("."))
                parts = base.split(".")
                bad = [p for p in parts[1:2] if p in FRAMEWORKS and m.name not in (f"{PKG}.{p}",)]
                bad = [p for p in bad if f"{PKG}.{p}" in prog.modules]
            else:
                bad = [p for p in parts[:2] if p in FRAMEWORKS and p != own]
            if bad and not guarded:
                r.bad(f"{m.name}: import {name}", f"imports {bad[0]}, which users of other frameworks need not have", loc(m, node))
            else:
                r.ok(f"{m.name}: import {name}", loc(m, node))
    return r


# --------------------------------------------------------------------- names (P29)

CLASSES = """Measure GP FDD Normal Random RandomProcess RandomVector LazyVector LazyMatrix AbstractObservations
AbstractPseudoObservations Observations PseudoObservations PseudoObservationsFITC PseudoObservationsDTC
AmbiguousDimensionalityKernel MultiOutputKernel MultiOutputMean BreakingChangeWarning""".split()
FUNCTIONS = "combine cross infer_size dimensionality assert_same_measure intersection_measure_group".split()
ALIASES = {
    "Obs": "Observations", "PseudoObs": "PseudoObservations", "SparseObs": "PseudoObservations",
    "SparseObservations": "PseudoObservations", "PseudoObsFITC": "PseudoObservationsFITC",
    "PseudoObsDTC": "PseudoObservationsDTC",
}  # fmt: skip
KERNELS = """EQ CEQ RQ Exp Matern12 Matern32 Matern52 Linear Delta DecayingKernel LogKernel Kernel Mean OneKernel ZeroKernel
OneMean ZeroMean PosteriorKernel PosteriorMean SubspaceKernel TensorProductKernel TensorProductMean num_elements pairwise
elwise""".split()
PROMISED = {"PromisedFDD": "FDD", "PromisedGP": "GP", "PromisedMeasure": "Measure"}


class Namespace:
    """What module-level code of the package binds, statement by statement, last binding first."""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.missing = []

    def of(self, name):
        if name in self.memo:
            return self.memo[name]
        m = self.prog.modules[name]
        ns = self.memo[name] = {}
        self.run(m, m.tree.body, ns)
        return ns

    def star(self, src, ns, m, node):
        if src in self.prog.modules:
            sub = self.of(src)
            mm = self.prog.modules[src]
            names = mm.all if mm.all is not None else [n for n in sub if not n.startswith("_")]
            for n in names:
                if n in sub:
                    ns[n] = sub[n]
                elif not self.bind_submodule(src, n, ns) and mm.all is not None:
                    self.missing.append((src, n, loc(m, node)))
        else:
            root = src.split(".")[0]
            if root == "mlkernels":
                for n in MLKERNELS_NAMES:
                    ns[n] = ("ext", "mlkernels." + n)
            elif root == "lab":
                ns["B"] = ("ext", "B")

    def bind_submodule(self, src, n, ns):
        if f"{src}.{n}" in self.prog.modules:
            ns[n] = ("mod", f"{src}.{n}")
            return True
        return False

    def run(self, m, body, ns):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        ns[a.asname] = ("ext", canon_ext(a.name))
                    else:
                        ns[a.name.split(".")[0]] = ("ext", canon_ext(a.name.split(".")[0]))
            elif isinstance(st, ast.ImportFrom):
                src = self.prog._rel(m, st.level, st.module)
                for a in st.names:
                    if a.name == "*":
                        self.star(src, ns, m, st)
                    elif src in self.prog.modules:
                        sub = self.of(src)
                        if a.name in sub:
                            ns[a.asname or a.name] = sub[a.name]
                        else:
                            self.bind_submodule(src, a.name, ns)
                            if a.asname and a.name in ns:
                                ns[a.asname] = ns[a.name]
                    else:
                        ns[a.asname or a.name] = ("ext", canon_ext(f"{src}.{a.name}"))
            elif isinstance(st, ast.ClassDef):
                ns[st.name] = ("class", m.name, st.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                t = ns.get(st.name)
                if not (t and t[0] == "ext" and any(self.registers(d, st.name) for d in st.decorator_list)):
                    ns[st.name] = ("def", m.name, st.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    pairs = [(t, st.value)]
                    if isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple):
                        pairs = list(zip(t.elts, st.value.elts))
                    for a, v in pairs:
                        if isinstance(a, ast.Name) and v is not None:
                            ns[a.id] = self.value(m, v, ns) or ("value", m.name, a.id)
            elif isinstance(st, ast.Delete):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ns.pop(t.id, None)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                for b in [getattr(st, f, []) for f in ("body", "orelse", "finalbody")]:
                    self.run(m, b, ns)

    def registers(self, d, name):
        """Is the decorator one that returns the generic function it adds a method to?"""
        if isinstance(d, ast.Call):
            d = d.func
        return isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.value.id == name

    def value(self, m, v, ns):
        if isinstance(v, ast.Name):
            return ns.get(v.id)
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
            b = ns.get(v.value.id)
            if b and b[0] == "mod":
                return self.of(b[1]).get(v.attr)
            if b and b[0] == "ext":
                return ("ext", canon_ext(f"{b[1]}.{v.attr}"))
        return None


MLKERNELS_NAMES = """CEQ DecayingKernel Delta DerivativeKernel DerivativeMean EQ Exp InputTransformedKernel InputTransformedMean
Kernel Linear LogKernel Matern12 Matern32 Matern52 Mean OneKernel OneMean PeriodicKernel PosteriorKernel PosteriorMean
ProductKernel ProductMean RQ ReversedKernel ScaledKernel ScaledMean SelectedKernel SelectedMean ShiftedKernel ShiftedMean
StretchedKernel StretchedMean SubspaceKernel SumKernel SumMean TensorProductKernel TensorProductMean ZeroKernel ZeroMean elwise
pairwise mean_var mean_var_diag num_elements expand""".split()


def exported(prog):
    """Every documented name is bound to what it denotes in the package and in every framework module."""
    r = Found()
    ns = Namespace(prog)
    top = ns.of(PKG)
    init = prog.modules[PKG]
    entries = [(PKG, top)]
    for e, f in ENTRY.items():
        if e not in prog.modules:
            r.bad(e, f"the entry module for {f} does not exist", init.relpath)
            continue
        entries.append((e, ns.of(e)))
        m = prog.modules[e]
        wanted = f"mlkernels.{f}"
        if any(n == wanted or n.startswith(wanted + ".") for n, _, _, scope in imports(m) if not scope):
            r.ok(f"{e} registers {wanted}", m.relpath)
        else:
            r.bad(f"{e} registers {wanted}", f"importing {e} does not register the kernels for {f}", m.relpath)
    for src, n, where in ns.missing:
        r.bad(f"{src}.{n}", f"{src} exports {n} but does not bind it", where)
    for e, names in entries:
        rel = prog.modules[e].relpath
        for n in CLASSES + FUNCTIONS + list(ALIASES) + KERNELS + ["B"]:
            got = names.get(n)
            target = ALIASES.get(n, n)
            if got is None:
                r.bad(f"{e}.{n}", f"{n} cannot be imported from {e}", rel)
                continue
            if n == "B":
                good = got == ("ext", "B")
            elif n in KERNELS:
                good = got == ("ext", "mlkernels." + n)
            elif n in FUNCTIONS:
                good = got[0] in ("def", "value") and got[-1] == n
            else:
                good = got[0] == "class" and got[2] == target
            if good:
                r.ok(f"{e}.{n}", rel)
            else:
                r.bad(f"{e}.{n}", f"{n} of {e} denotes {'.'.join(map(str, got[1:]))} instead of {target}", rel)
    return r


def delivered(prog):
    """Every promised type is delivered, as the class of that name."""
    r = Found()
    ns = Namespace(prog)
    ns.of(PKG)
    promised = {}
    for m in prog.modules.values():
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call):
                if callee(prog, m, st.value.func) == "plum.PromisedType":
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            promised[t.id] = loc(m, st)
    got = {}
    for m in prog.modules.values():
        for st in ast.walk(m.tree):
            if (
                isinstance(st, ast.Call)
                and isinstance(st.func, ast.Attribute)
                and st.func.attr == "deliver"
                and isinstance(st.func.value, ast.Name)
                and len(st.args) == 1
            ):
                t = ns.value(m, st.args[0], ns.of(m.name))
                p = ns.of(m.name).get(st.func.value.id)
                name = p[-1] if p else st.func.value.id
                top = any(st is x.value for x in m.tree.body if isinstance(x, ast.Expr))
                got.setdefault(name, []).append((t, loc(m, st), top, m.name in ns.memo))
    for name, where in promised.items():
        want = PROMISED.get(name, name.replace("Promised", ""))
        ds = got.get(name, [])
        if not ds:
            r.bad(name, f"{name} is promised but never delivered", where)
        for t, w, top, _ in ds:
            if t is None or t[0] != "class" or not top:
                r.undecided.append((name, "delivery that is not followed", w))
            elif t[2] != want:
                r.bad(name, f"{name} is delivered as {t[2]} instead of {want}", w)
            else:
                r.ok(name, w)
    return r


# --------------------------------------------------------------------- errors (P31)

BROAD = {"Exception", "BaseException", "RuntimeError", "ValueError", "AssertionError", "TypeError", "NotImplementedError",
         "ArithmeticError", "NotFoundLookupError", "AmbiguousLookupError"}  # fmt: skip


def _types(h):
    if h is None:
        return ["BaseException"]
    if isinstance(h, ast.Tuple):
        return [x for e in h.elts for x in _types(e)]
    return [h.attr if isinstance(h, ast.Attribute) else getattr(h, "id", "?")]


def always_raises(body):
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.If) and st.orelse and always_raises(st.body) and always_raises(st.orelse):
            return True
        if isinstance(st, (ast.With,)) and always_raises(st.body):
            return True
        if isinstance(st, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


PLAIN = {"builtins." + n for n in "id len isinstance hash type str repr getattr hasattr".split()}


def only_lookups(prog, m, body):
    """Can nothing fail in these statements but looking something up?"""
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call):
                name = callee(prog, m, n.func)
                if name not in PLAIN:
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "index", "remove"):
                        continue
                    return False
            if isinstance(n, (ast.Raise, ast.Assert, ast.With, ast.For, ast.While)):
                return False
            if isinstance(n, ast.BinOp):
                return False
    return True


def swallowed(prog):
    """Handlers of errors raise again, unless the statement they guard only looks something up."""
    r = Found()
    for m in prog.modules.values():
        for scope, node in scopes(m):
            if isinstance(node, ast.Raise):
                r.ok(f"{m.name}.{scope}: raise", loc(m, node))
            if isinstance(node, ast.Try):
                toplevel = not scope
                for h in node.handlers:
                    types = _types(h.type)
                    construct = f"{m.name}.{scope}: except {', '.join(types)}"
                    if always_raises(h.body) or only_lookups(prog, m, node.body) or toplevel:
                        r.ok(construct, loc(m, h))
                    elif any(t in BROAD for t in types):
                        r.bad(construct, "swallows errors of the statements it guards", loc(m, h))
                    else:
                        r.undecided.append((construct, "handler around calls", loc(m, h)))
                for st in node.finalbody:
                    for n in ast.walk(st):
                        if isinstance(n, ast.Return):
                            r.bad(f"{m.name}.{scope}: finally", "a return in a finally clause swallows errors", loc(m, n))
            if isinstance(node, ast.With):
                for it in node.items:
                    if isinstance(it.context_expr, ast.Call) and callee(prog, m, it.context_expr.func) == "contextlib.suppress":
                        types = [x for a in it.context_expr.args for x in _types(a)]
                        construct = f"{m.name}.{scope}: suppress {', '.join(types)}"
                        if any(t in BROAD for t in types) and not only_lookups(prog, m, node.body):
                            r.bad(construct, "swallows errors of the statements it guards", loc(m, node))
                        else:
                            r.ok(construct, loc(m, node))
    return r


# --------------------------------------------------------------------- determinism (P17, P20)

SOURCES = ("random", "secrets", "uuid", "time", "numpy.random", "os.urandom", "datetime")


def chance(prog):
    """Nothing draws random numbers except through the random state of the backend layer."""
    r = Found()
    for m in prog.modules.values():
        for scope, node in scopes(m):
            if not isinstance(node, ast.Call):
                continue
            name = callee(prog, m, node.func)
            if name is None:
                continue
            construct = f"{m.name}.{scope}: {name}"
            if any(name == s or name.startswith(s + ".") for s in SOURCES[:2] + SOURCES[4:5]) or name in (
                "uuid.uuid4", "uuid.uuid1", "os.urandom", "B.set_random_seed", "B.seed"):  # fmt: skip
                r.bad(construct, f"{name} draws from or resets a source of randomness that is not the given or the global state",
                      loc(m, node))
            elif name.startswith("B."):
                r.ok(construct, loc(m, node))
    return r


def _is_id(prog, m, e):
    return isinstance(e, ast.Call) and callee(prog, m, e.func) == "builtins.id"


def addresses(prog):
    """Identities are only compared for equality, never ordered."""
    r = Found()
    for m in prog.modules.values():
        for scope, node in scopes(m):
            construct = f"{m.name}.{scope}"
            if _is_id(prog, m, node):
                r.ok(construct + ": id", loc(m, node))
            if isinstance(node, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in node.ops):
                if any(_is_id(prog, m, x) for x in [node.left] + node.comparators):
                    r.bad(construct + ": id order", "orders objects by their addresses", loc(m, node))
            if isinstance(node, ast.Call):
                name = callee(prog, m, node.func)
                keys = [k.value for k in node.keywords if k.arg == "key"]
                ordered = name in ("builtins.sorted", "builtins.min", "builtins.max") or (
                    isinstance(node.func, ast.Attribute) and node.func.attr == "sort"
                )
                for k in keys if ordered else []:
                    ids = [n for n in ast.walk(k) if isinstance(n, ast.Name) and n.id in ("id", "hash")]
                    if ids:
                        r.bad(construct + ": id order", "orders objects by their addresses", loc(m, node))
    return r


REFLECTED = ("__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__rmatmul__", "__rpow__")


def _class_values(prog, cls, name):
    """What a class-level name is set to, in the class or from outside."""
    k = prog.classes.get(cls)
    if k is None:
        return
    for s in k.node.body:
        if isinstance(s, ast.FunctionDef) and s.name == name:
            yield s
        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value else []
        if any(isinstance(t, ast.Name) and t.id == name for t in ts):
            yield s.value
    for m in prog.modules.values():
        for s in m.tree.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == cls:
                        yield s.value


def _defers(prog, cls):
    for c in prog.mro(cls):
        vs = list(_class_values(prog, c, "__array_ufunc__"))
        if vs:
            # NumPy defers to objects that opt out; a protocol method is theirs to get right.
            return all(isinstance(v, ast.FunctionDef) or isinstance(v, ast.Constant) and v.value is None for v in vs)
        for v in _class_values(prog, c, "__array_priority__"):
            if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub):
                return False
            return not (isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and v.value <= 0)
    return False


def deference(prog):
    """Arrays leave the operators to random objects on their right."""
    r = Found()
    for name, k in sorted(prog.classes.items()):
        for op in REFLECTED:
            c, fs = prog.find_method(name, op)
            if not fs:
                continue
            where = f"{k.module.relpath}:{k.node.lineno}"
            if _defers(prog, name):
                r.ok(f"{name}.{op}", where)
            else:
                r.bad(f"{name}.{op}", "is not called for NumPy arrays: they apply the operation to every element", where)
    return r


RULES = [
    Rule("framework-imports", ["P25", "P29"], "only the entry module of a framework imports it", framework_imports, 40,
         {"__init__.py": "", "x.py": "import torch\n"}),
    Rule("exports", ["P29"], "every documented name denotes the documented object in every entry module", exported, 250,
         {"__init__.py": ""}),
    Rule("delivered", ["P29"], "every promised type is delivered as the class of that name", delivered, 3,
         {"__init__.py": "from plum import PromisedType\nPromisedGP = PromisedType()\n"}),
    Rule("swallowed", ["P31"], "no handler swallows the errors of what it guards", swallowed, 10,
         {"__init__.py": "def f(x):\n    try:\n        return g(x)\n    except Exception:\n        return 0\n"}),
    Rule("chance", ["P17"], "no source of randomness but random states", chance, 60,
         {"__init__.py": "import random\ndef f():\n    return random.random()\n"}),
    Rule("addresses", ["P20"], "objects are never ordered by address", addresses, 10,
         {"__init__.py": "def f(xs):\n    return sorted(xs, key=id)\n"}),
    Rule("deference", ["P33"], "NumPy arrays defer to the reflected operators of random objects", deference, 5,
         {"__init__.py": "class A:\n    def __radd__(self, other):\n        return self + other\n"}),
]


def run_rule(prog, rule):
    return rule.fn(prog)


def self_test(rule):
    """Does the rule find something in its example?"""
    import os
    import tempfile

    if rule.example is None:
        return True
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, PKG)
        os.mkdir(p)
        for n, s in rule.example.items():
            with open(os.path.join(p, n), "w") as f:
                f.write(s)
        return bool(rule.fn(Program(d)).findings)
