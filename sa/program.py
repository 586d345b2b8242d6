"""Program model: modules, names, classes and dispatch tables of the package, from source."""

import ast
import os

from .lower import Lower, rename_roles
from .terms import T

PKG = "stheno"


class AnchorMissing(Exception):
    """Something the analysis is anchored at does not exist any more."""


class Func:
    """A function or method definition (one overload)."""

    __slots__ = (
        "node",
        "module",
        "cls",
        "name",
        "qual",
        "dispatch",
        "precedence",
        "kind",
        "gfname",
        "_params",
    )

    def __init__(self, node, module, cls, name, dispatch, precedence, kind, gfname):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = name
        self.dispatch = dispatch
        self.precedence = precedence
        self.kind = kind  # function / method / property / setter / static / classmethod
        self.gfname = gfname
        self.qual = (cls + "." if cls else "") + name
        self._params = None

    @property
    def where(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    @property
    def params(self):
        """(positional [(name, annotation, default)], vararg, kwonly, kwarg)."""
        if self._params is None:
            a = self.node.args
            pos = a.posonlyargs + a.args
            defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
            self._params = (
                [(p.arg, p.annotation, d) for p, d in zip(pos, defs)],
                (a.vararg.arg, a.vararg.annotation) if a.vararg else None,
                [(p.arg, p.annotation, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)],
                a.kwarg.arg if a.kwarg else None,
            )
        return self._params


class Class:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}  # name -> [Func]
        self.props = {}  # name -> Func
        self.setters = {}  # name -> [Func]
        self.attrs = {}  # name -> expr
        self.bases = []  # names: in-package class names or external names

    @property
    def where(self):
        return f"{self.module.relpath}:{self.node.lineno}"


class Module:
    def __init__(self, name, path, relpath, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = Lower().visit(ast.parse(self.source, path))
        self.names = {}  # name -> binding
        self.stars = []  # modules star-imported from
        self.all = None


EXT_CANON = {"lab": "B", "lab.B": "B"}


def is_property(e):
    """The expression is `property(lambda self: ...)`."""
    return (
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "property" and len(e.args) == 1
        and not e.keywords and isinstance(e.args[0], ast.Lambda)
    )


def canon_ext(name):
    """Canonical dotted name of an external object."""
    parts = name.split(".")
    if parts[:2] == ["lab", "B"]:
        return ".".join(["B"] + parts[2:])
    if parts[0] == "lab" and len(parts) == 1:
        return "B"
    if parts[0] == "lab" and parts[1:2] not in (["shape"], ["util"], ["types"]):
        return ".".join(["B"] + parts[1:])
    return name


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.cached = set()  # properties that are computed once per object
        self.gfs = {}
        self.keyfaults = set()
        self.keykinds = {}  # field -> which kinds of keys it is accessed with, and where  # generic function name -> [Func]
        self.functions = {}  # qualified name -> Func
        self.promised = {}  # promised name -> class name
        self.errors = []
        pkg = os.path.join(root, PKG)
        if not os.path.isdir(pkg):
            raise AnchorMissing(f"package directory {pkg} does not exist")
        for d, _, files in sorted(os.walk(pkg)):
            for f in sorted(files):
                if f.endswith(".py"):
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, root)
                    parts = rel[:-3].split(os.sep)
                    is_pkg = parts[-1] == "__init__"
                    if is_pkg:
                        parts = parts[:-1]
                    name = ".".join(parts)
                    if name == "stheno._version":
                        continue
                    self.modules[name] = Module(name, path, rel, is_pkg)
        for m in self.modules.values():
            self._scan(m)
        rename_roles(self.modules, self.classes)
        for m in self.modules.values():
            self._scan_defs(m)

    # ----------------------------------------------------------------- scanning

    def _rel(self, module, level, name):
        if level == 0:
            return name
        parts = module.name.split(".")
        if not module.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return ".".join(parts + ([name] if name else []))

    def _toplevel(self, body):
        for st in body:
            if isinstance(st, (ast.If,)):
                yield from self._toplevel(st.body)
                yield from self._toplevel(st.orelse)
            elif isinstance(st, ast.Try):
                yield from self._toplevel(st.body)
                for h in st.handlers:
                    yield from self._toplevel(h.body)
            else:
                yield st

    def _scan(self, m):
        for st in self._toplevel(m.tree.body):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names[a.asname] = ("mod", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                src = self._rel(m, st.level, st.module)
                for a in st.names:
                    if a.name == "*":
                        m.stars.append(src)
                    else:
                        m.names[a.asname or a.name] = ("from", src, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.names[st.name] = ("def", st.name)
            elif isinstance(st, ast.ClassDef):
                m.names[st.name] = ("class", st.name)
                self.classes[st.name] = Class(st.name, st, m)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("expr", st.value)
                        if t.id == "__all__":
                            try:
                                m.all = list(ast.literal_eval(st.value))
                            except ValueError:
                                m.all = None
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    m.names[st.target.id] = ("expr", st.value)
            elif (
                isinstance(st, ast.Expr)
                and isinstance(st.value, ast.Call)
                and isinstance(st.value.func, ast.Attribute)
                and st.value.func.attr == "deliver"
                and isinstance(st.value.func.value, ast.Name)
                and len(st.value.args) == 1
                and isinstance(st.value.args[0], ast.Name)
            ):
                self.promised[st.value.func.value.id] = st.value.args[0].id

    def _decorators(self, m, node):
        """(dispatch, generic-function name or None, precedence, kind)"""
        dispatch, gf, prec, kind = False, None, 0, "function"
        for d in node.decorator_list:
            call = None
            if isinstance(d, ast.Call):
                call, d = d, d.func
            if isinstance(d, ast.Name) and d.id == "_dispatch":
                dispatch = True
                gf = gf or node.name
            elif isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"):
                kind = {"property": "property", "staticmethod": "static", "classmethod": "classmethod"}[d.id]
            elif isinstance(d, (ast.Name, ast.Attribute)) and (
                self.resolve_expr(m, d, before=node.name) is not None
                and self.resolve_expr(m, d, before=node.name).op == "ext"
                and self.resolve_expr(m, d, before=node.name).args[0] == "functools.cached_property"
            ):
                kind = "cached_property"
            elif isinstance(d, ast.Attribute) and d.attr == "setter":
                kind = "setter"
            elif isinstance(d, ast.Attribute) and d.attr in ("dispatch", "multi", "extend"):
                dispatch = True
                t = self.resolve_expr(m, d.value, before=node.name)
                if t is not None and t.op == "ext":
                    gf = "B." + node.name if t.args[0] == "B" else t.args[0]
                else:
                    gf = node.name
            elif isinstance(d, ast.Attribute) and d.attr in ("abstractmethod",):
                pass
            else:
                kind = "decorated"
            if call:
                for k in call.keywords:
                    if k.arg == "precedence":
                        if isinstance(k.value, ast.Constant):
                            prec = k.value.value
                        else:
                            prec = 100
        return dispatch, gf, prec, kind

    def _scan_defs(self, m):
        for st in self._toplevel(m.tree.body):
            if isinstance(st, ast.FunctionDef):
                dispatch, gf, prec, kind = self._decorators(m, st)
                f = Func(st, m, None, st.name, dispatch, prec, kind, gf)
                if dispatch:
                    self.gfs.setdefault(gf, []).append(f)
                else:
                    self.functions[m.name + "." + st.name] = f
            elif isinstance(st, ast.ClassDef):
                c = self.classes[st.name]
                for b in st.bases:
                    t = self.resolve_expr(m, b)
                    if t is None:
                        c.bases.append("?")
                    else:
                        c.bases.append(t.args[0])
                for s in st.body:
                    if isinstance(s, ast.FunctionDef):
                        dispatch, gf, prec, kind = self._decorators(m, s)
                        if kind == "function":
                            kind = "method"
                        f = Func(s, m, st.name, s.name, dispatch, prec, kind, None)
                        if kind == "cached_property":
                            f.kind = "property"
                            self.cached.add(f)
                            c.props[s.name] = f
                        elif kind == "property":
                            c.props[s.name] = f
                        elif kind == "setter":
                            c.setters.setdefault(s.name, []).append(f)
                        elif dispatch:
                            c.methods.setdefault(s.name, []).append(f)
                        else:
                            c.methods[s.name] = [f]
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name) and is_property(s.value):
                                d = ast.FunctionDef(t.id, s.value.args[0].args, [ast.Return(s.value.args[0].body)], [], None, None)
                                ast.fix_missing_locations(ast.copy_location(d, s))
                                c.props[t.id] = Func(d, m, st.name, t.id, False, 0, "property", None)
                            elif isinstance(t, ast.Name) and isinstance(s.value, ast.Name) and s.value.id in c.methods:
                                c.methods[t.id] = list(c.methods[s.value.id])
                            elif isinstance(t, ast.Name) and isinstance(s.value, ast.Name) and s.value.id in c.props:
                                c.props[t.id] = c.props[s.value.id]
                            elif isinstance(t, ast.Name):
                                c.attrs[t.id] = s.value
                    elif isinstance(s, ast.AnnAssign) and s.value is not None:
                        if isinstance(s.target, ast.Name):
                            c.attrs[s.target.id] = s.value

    # ----------------------------------------------------------------- resolution

    def exported(self, modname):
        """Names a star import of an in-package module binds."""
        m = self.modules[modname]
        if m.all is not None:
            return list(m.all)
        out = [n for n in m.names if not n.startswith("_")]
        for s in m.stars:
            if s in self.modules:
                out.extend(self.exported(s))
        return out

    def resolve(self, m, name, _seen=()):
        """Resolve a global name in a module to a term, or None."""
        if (m.name, name) in _seen:
            return None
        _seen = _seen + ((m.name, name),)
        b = m.names.get(name)
        if b is None:
            for s in reversed(m.stars):
                if s in self.modules:
                    if name in self.exported(s):
                        r = self.resolve(self.modules[s], name, _seen)
                        if r is not None:
                            return r
            # submodule
            sub = m.name + "." + name
            if sub in self.modules:
                return T("mod", sub)
            for s in m.stars:
                if s not in self.modules and name in EXT_STAR.get(s, ()):
                    return T("ext", canon_ext(s + "." + name))
            return None
        if b[0] == "mod":
            if b[1] in self.modules:
                return T("mod", b[1])
            return T("ext", canon_ext(b[1]))
        if b[0] == "from":
            _, src, n = b
            if src in self.modules:
                mm = self.modules[src]
                r = self.resolve(mm, n, _seen)
                if r is None and src + "." + n in self.modules:
                    return T("mod", src + "." + n)
                return r
            return T("ext", canon_ext(src + "." + n))
        if b[0] == "class":
            return T("cls", name)
        if b[0] == "def":
            for g, fs in self.gfs.items():
                for f in fs:
                    if f.module is m and f.name == name:
                        if "." in g:
                            return T("ext", g)
                        return T("gf", g)
            if m.name + "." + name in self.functions:
                return T("fn", m.name + "." + name)
            # during scanning
            return T("gf", name)
        if b[0] == "expr":
            if name in self.promised:
                return T("cls", self.promised[name])
            r = self.resolve_expr(m, b[1], _seen=_seen)
            if r is not None:
                return r
            return T("gexpr", m.name, name)
        return None

    def resolve_expr(self, m, e, before=None, _seen=()):
        if isinstance(e, ast.Name):
            b = m.names.get(e.id)
            if before == e.id and b and b[0] == "def":
                # The decorator refers to the imported name that the def rebinds.
                for st in self._toplevel(m.tree.body):
                    if isinstance(st, ast.ImportFrom):
                        for a in st.names:
                            if (a.asname or a.name) == e.id:
                                return T(
                                    "ext",
                                    canon_ext(self._rel(m, st.level, st.module) + "." + a.name),
                                )
            return self.resolve(m, e.id, _seen)
        if isinstance(e, ast.Attribute):
            v = self.resolve_expr(m, e.value, _seen=_seen)
            if v is None:
                return None
            if v.op == "ext":
                return T("ext", canon_ext(v.args[0] + "." + e.attr))
            if v.op == "mod":
                mm = self.modules[v.args[0]]
                return self.resolve(mm, e.attr, _seen)
        return None

    # ----------------------------------------------------------------- classes

    def mro(self, cname):
        out, todo = [], [cname]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            if c in self.classes:
                todo = list(self.classes[c].bases) + todo if False else todo + list(
                    self.classes[c].bases
                )
        return out

    def find_method(self, cname, name):
        for c in self.mro(cname):
            k = self.classes.get(c)
            if k and name in k.methods:
                fs = k.methods[name]
                if fs[0].dispatch:
                    # Overloads of base classes stay visible.
                    return c, fs
                return c, fs
        return None, None

    def find_prop(self, cname, name):
        for c in self.mro(cname):
            k = self.classes.get(c)
            if k and name in k.props:
                return c, k.props[name]
            if k and name in k.methods:
                return None, None
        return None, None

    def find_setter(self, cname, name):
        for c in self.mro(cname):
            k = self.classes.get(c)
            if k and name in k.setters:
                return c, k.setters[name]
        return None, None

    def find_attr(self, cname, name):
        for c in self.mro(cname):
            k = self.classes.get(c)
            if k and name in k.attrs:
                return k, k.attrs[name]
        return None, None

    def all_funcs(self):
        for fs in self.gfs.values():
            yield from fs
        yield from self.functions.values()
        for c in self.classes.values():
            for fs in c.methods.values():
                yield from fs
            yield from c.props.values()
            for fs in c.setters.values():
                yield from fs


# Names that star imports from external packages are relied on for inside the package.
EXT_STAR = {"mlkernels": ()}
