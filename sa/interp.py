"""Forward value-numbering dataflow over function bodies.

Control flow is joined (never enumerated): at a join every variable, field and container gets a
gated value. Loops over unknown sequences are summarised. Calls of private or unknown helpers
are inlined; calls of contract methods on other objects stay symbolic.
"""

import ast
import builtins
import copy

from .lib import *
from .lib import _axes
from .terms import *
from .terms import T, Term
from .program import Program, Func, AnchorMissing


_YIELDS = {}  # bodies of functions and whether they are generators


class Effect:
    __slots__ = ("guard", "kind", "args", "loc")

    def __init__(self, guard, kind, args, loc):
        self.guard, self.kind, self.args, self.loc = guard, kind, args, loc

    def term(self):
        return T("eff", self.kind, conj(*self.guard), tuple(self.args))

    def __repr__(self):
        return f"{self.kind}{self.args} if {conj(*self.guard)}"


class State:
    __slots__ = ("env", "heap", "log", "guard", "facts", "dead", "taint", "trace")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.log = []
        self.guard = ()
        self.facts = {}
        self.dead = False
        self.taint = None
        self.trace = []

    def copy(self):
        s = State()
        s.env = {k: dict(v) for k, v in self.env.items()}
        s.heap = dict(self.heap)
        s.log = list(self.log)
        s.guard = self.guard
        s.facts = dict(self.facts)
        s.dead = self.dead
        s.taint = self.taint
        s.trace = list(self.trace)
        return s

    def become(self, o):
        for k in State.__slots__:
            setattr(self, k, getattr(o, k))

    def assume(self, c):
        if c is TRUE:
            return
        self.guard = self.guard + (c,)
        self._fact(c, True)

    def _fact(self, c, v):
        if c.op == "not":
            self._fact(c.args[0], not v)
        elif c.op == "and" and v:
            for x in c.args:
                self._fact(x, True)
        elif c.op == "or" and not v:
            for x in c.args:
                self._fact(x, False)
        elif c.op == "ite":
            pass
        elif c.op != "const":
            self.facts[c] = v


class Frame:
    __slots__ = ("fid", "func", "module", "cls", "exits", "parent", "handlers", "loops", "vars", "node")

    def __init__(self, fid, func, module, cls, parent):
        self.fid = fid
        self.func = func
        self.module = module
        self.cls = cls
        self.parent = parent  # lexically enclosing frame id or None
        self.exits = []  # (kind, value, state)
        self.handlers = []
        self.loops = []
        self.vars = set()
        self.node = None  # the call


# Methods that stay symbolic when called on an object other than the analysed one.
CONTRACT = {
    "Measure": {
        "sum", "mul", "shift", "stretch", "select", "transform", "diff", "cross", "add_gp",
        "add_independent_gp", "name", "condition", "sample", "logpdf", "__call__", "__getitem__",
        "__or__",
    },
    "GP": {
        "__add__", "__mul__", "shift", "stretch", "transform", "select", "diff", "diff_approx",
        "condition", "__or__",
    },
    "Normal": {
        "logpdf", "entropy", "kl", "w2", "sample", "marginals", "marginal_credible_bounds",
        "diagonalise", "lmatmul", "rmatmul", "__add__", "__mul__",
    },
    "AbstractObservations": {
        "posterior_kernel", "posterior_mean", "K_x", "K_z", "elbo", "mu", "A",
    },
}  # fmt: skip
# Properties that stay symbolic on symbolic objects.
OBSERVERS = {
    "GP": {"measure"},
    "Normal": {"mean", "var", "var_diag", "mean_is_zero"},
}
# Contract methods that are inlined on the analysed object itself.
INLINE_SELF = {
    "Measure": {
        "sum", "mul", "shift", "stretch", "select", "transform", "diff", "cross", "add_gp",
        "add_independent_gp",
    },
    "Normal": set(),
    "GP": set(),
    "AbstractObservations": {
        "posterior_kernel", "posterior_mean", "K_x", "K_z", "elbo", "mu", "A",
    },
}  # fmt: skip
VALUE_CLASSES = {
    "FDD", "Normal", "Observations", "PseudoObservations", "PseudoObservationsFITC",
    "PseudoObservationsDTC", "MultiOutputKernel", "MultiOutputMean",
    "AmbiguousDimensionalityKernel",
}  # fmt: skip
LAZY = {"LazyVector", "LazyMatrix"}
MAX_DEPTH = 40
# Methods that kernels of the package have from the library.
KERNEL_METHODS = (
    "elwise pairwise shift stretch select transform diff periodic stationary display".split()
)


# How many arguments functions need at least.
LEAST_ARGS = dict(id=1, len=1, sum=1, any=1, all=1, isinstance=2, reversed=1, enumerate=1, hasattr=2, getattr=2, map=2, filter=2,
                  sorted=1, abs=1, callable=1, min=1, max=1)
LIBRARY_FIELDS = "primitive num_factors factor num_terms term render dim is_primitive is_zero".split()


class Config:
    def __init__(self, **kw):
        self.inline_ctors = set(kw.get("inline_ctors", ()))
        self.entry_methods = set(kw.get("entry_methods", ()))
        self.inline_methods = set(kw.get("inline_methods", ()))
        self.opaque_methods = set(kw.get("opaque_methods", ()))
        self.lazy_contract = kw.get("lazy_contract", True)
        self.self_objs = set(kw.get("self_objs", ()))
        self.members = dict(kw.get("members", {}))
        self.gp_algebra = kw.get("gp_algebra", True)
        self.inline_observers = kw.get("inline_observers", False)
        self.opaque_gfs = set(kw.get("opaque_gfs", ()))
        self.facts = kw.get("facts", ())
        self.plain_kernels = kw.get("plain_kernels", False)


def folded(t):
    """A value that depends on a loop without a closed form."""
    while t.op in ("at", "item", "foldat", "lastof", "fold", "content0", "map"):
        if t.op == "fold":
            return True
        t = t.args[0]
        if t.op == "dom":
            t = t.args[0]
    return False


def one_decision(t, p):
    """A nest of decisions whose leaves are `p` and one other value is a single decision."""
    other, conds, paths = None, [], [(t, ())]
    n = 0
    while paths:
        n += 1
        if n > 32:
            return t
        u, cs = paths.pop(0)
        if u.op == "ite":
            c = u.args[0]
            paths += [(u.args[1], cs + (c,)), (u.args[2], cs + (neg_c(c),))]
        elif u is not p:
            if other is not None and other is not u:
                return t
            other = u
            conds.append(conj(*cs))
    if other is None or n <= 3:
        return t
    return ite(disj(*conds), other, p)


class Interp:
    def __init__(self, prog, config=None):
        self.prog = prog
        self.cfg = config or Config()
        self.frames = {}
        self.clos = {}
        self.nfid = 0
        self.consumer = None  # the loop that is about to consume what a call gives
        self.wovens = []
        self.nnew = 0
        self.nloop = 0
        self.depth = 0
        self.callstack = []
        self.visited = set()  # functions analysed
        self.prov = {}  # term -> location it first came from in the repository
        self.gexpr_memo = {}
        self.cur = None
        self.inst_memo = {}
        self.lzfields = {}  # unknown value -> field of a lazy table it is
        self.origkeys = {}
        self.keyseqs = {}  # contents of dictionaries made from sequences of keys

    # ------------------------------------------------------------------ utilities

    def loc(self, node, fr):
        line = getattr(node, "lineno", 0)
        return f"{fr.module.relpath}:{line}" if fr.module else f"spec:{line}"

    def new(self, cls, st):
        self.nnew += 1
        return T("new", cls, self.nnew)

    def opq(self, st, why, node=None, fr=None):
        if node is not None and fr is not None:
            why = f"{why} at {self.loc(node, fr)}"
        return opaque(why)

    def taint(self, st, why, node=None, fr=None):
        if st.taint is None:
            if node is not None and fr is not None:
                why = f"{why} at {self.loc(node, fr)}"
            st.taint = why

    def decide(self, st, c):
        if c.op == "const":
            return c
        if st.facts:
            m = {}
            for a, v in st.facts.items():
                m[a] = const(v)
            # one level of propagation of equalities with constants
            c = subst(c, m)
        return self.member_facts(c)

    def member_facts(self, c):
        m = {}
        for u in walk(c):
            if u.op == "in":
                if (u.args[0], u.args[1]) in self.cfg.members:
                    m[u] = const(self.cfg.members[u.args[0], u.args[1]])
        return subst(c, m) if m else c

    def effect(self, st, kind, args, node, fr):
        st.log.append(Effect(st.guard, kind, tuple(args), self.loc(node, fr)))

    # ------------------------------------------------------------------ joins

    def join(self, base, c, s1, s2):
        """State after `if c` with branch results s1, s2 forked from `base`."""
        if s1.dead and s2.dead:
            r = s1.copy()
            r.dead = True
            return r
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        r = State()
        n = len(base.guard)
        e1, e2 = s1.guard[n:], s2.guard[n:]
        g = disj(conj(*e1), conj(*e2))
        r.guard = base.guard if g is TRUE else base.guard + (g,)
        r.facts = {a: v for a, v in s1.facts.items() if s2.facts.get(a) is v}
        c1 = conj(*e1)
        if c is None:
            c = c1
        sel = c
        for fid in set(s1.env) | set(s2.env):
            a, b = s1.env.get(fid), s2.env.get(fid)
            if a is None or b is None:
                r.env[fid] = dict(a or b or {})
                continue
            o = {}
            for k in list(a) + [k for k in b if k not in a]:
                if k in a and k in b:
                    o[k] = ite(sel, a[k], b[k])
                else:
                    o[k] = a.get(k, b.get(k))
            r.env[fid] = o
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            a = s1.heap.get(k)
            b = s2.heap.get(k)
            if a is None:
                a = self.initial(k)
            if b is None:
                b = self.initial(k)
            if a is None:
                a = b
            if b is None:
                b = a
            r.heap[k] = ite(sel, a, b)
        nb = len(base.log)
        r.log = list(s1.log) + list(s2.log[nb:])
        nt = len(base.trace)
        r.trace = list(s1.trace) + list(s2.trace[nt:])
        r.taint = s1.taint or s2.taint
        return r

    def initial(self, key):
        """Value a heap cell has before the analysed entry."""
        if key[0] == "f":
            _, o, name = key
            if o.op == "new":
                return None
            return self.field_init(o, name)
        if key[0] == "c":
            c = key[1]
            if c.op == "new":
                return None
            return T("content0", c)
        if key[0] == "lz":
            if key[1].op == "new":
                return None
            return T("lzbase", key[1])
        return None

    def plain_fields(self, cls, name):
        """Do objects of the class have only the fields that assignments in its methods give them, and is this none of
        those that the library's classes have?"""
        if name.startswith("__") or name in KERNEL_METHODS + LIBRARY_FIELDS:
            return False
        todo = [cls]
        while todo:
            k = self.prog.classes.get(todo.pop())
            if k is None:
                continue
            n = k.node
            if n.decorator_list or n.keywords or any("Tuple" in b or "Dict" in b or "Enum" in b for b in k.bases):
                return False
            for x in ast.walk(n):
                if isinstance(x, ast.FunctionDef) and x.name in (
                        "__getattr__", "__getattribute__", "__setattr__", "__new__", "__init_subclass__"):
                    return False
                if isinstance(x, ast.Name) and x.id in ("setattr", "vars") or isinstance(x, ast.Attribute) and x.attr in (
                        "__dict__", "__setattr__"):
                    return False
                if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == "__slots__" for y in x.targets):
                    return False
            todo.extend(k.bases)
        return True

    def field_init(self, o, name):
        if o.op == "cls":
            k, e = self.prog.find_attr(o.args[0], name)
            if k is not None and not (isinstance(e, ast.Constant) and e.value is None):
                return self.eval_global(k.module, e)
            return T("field0", o, name)
        if o.op in ("inst",):
            return attr(o, name)
        return T("field0", o, name)

    # ------------------------------------------------------------------ containers

    def content(self, st, c):
        """Contents of a container value as an immutable sequence/set/dict value."""
        if c.op in ("tuple", "map", "filter", "sslice", "set", "zipseq", "range", "content0",
                    "setand", "setor", "setminus", "bigand", "bigor"):
            return c
        if c.op == "ite":
            return ite(c.args[0], self.content(st, c.args[1]), self.content(st, c.args[2]))
        v = st.heap.get(("c", c))
        if v is not None:
            return v
        k = base_type(ty(c))
        if k in ("list", "set", "dict", "frozenset", "deque"):
            return T("content0", c)
        return c

    def set_content(self, st, c, v):
        st.heap[("c", c)] = v

    def alloc(self, st, kind, content):
        c = self.new(kind, st)
        st.heap[("c", c)] = content
        return c

    def is_container(self, t):
        return base_type(ty(t)) in ("list", "set", "dict", "frozenset")

    # ------------------------------------------------------------------ truth

    def truth(self, st, t):
        t = self._truth(st, t)
        return self.decide(st, t)

    def _truth(self, st, t):
        op = t.op
        if op == "const":
            return const(bool(t.args[1]))
        if op == "num":
            return const(numval(t) != 0)
        if op in ("eq", "lt", "not", "and", "or", "in", "is", "isinst", "exists", "dhas", "subset", "truth"):
            return t
        if op == "ite":
            return ite(t.args[0], self._truth(st, t.args[1]), self._truth(st, t.args[2]))
        if op == "tuple":
            if any(x.op != "splat" for x in t.args):
                return TRUE
            return neg_c(eq(seqlen(t), ZERO))
        if op in ("clo", "lam", "bound", "cls", "fn", "gf", "partial"):
            return TRUE
        k = ty(t)
        b = base_type(k)
        if b in ("set", "frozenset"):
            c = self.content(st, t)
            if c.op == "setminus" and all(x.op != "splat" for x in _set_items(c.args[0])):
                return neg_c(subset(*c.args))
        if b in ("list", "tuple", "set", "frozenset"):
            return neg_c(eq(self.length(st, t), ZERO))
        if b == "str":
            return neg_c(eq(t, const("")))
        if b == "opt:str":
            return conj(neg_c(is_(t, NONE)), neg_c(eq(t, const(""))))
        if b == "dict":
            return dict_truth(self.content(st, t))
        if b.startswith("opt:") and b[4:] in ("Measure", "GP", "FunctionType", "Normal", "FDD", "Pos"):
            return neg_c(is_(t, NONE))
        if b in ("Pos", "GP", "Measure", "FunctionType", "FDD", "Normal", "Kernel", "Mean"):
            return TRUE
        if b in ("Int", "int") or op in ("len",):
            return neg_c(eq(t, ZERO))
        if op == "invert" and t.args[0].op == "call" and t.args[0].args[0] in ("B.all", "B.any"):
            return neg_c(self._truth(st, t.args[0]))
        return T("truth", t)

    def length(self, st, t):
        c = self.content(st, t)
        if c.op == "ite":
            return ite(c.args[0], self.length(st, c.args[1]), self.length(st, c.args[2]))
        return seqlen(c)

    # ------------------------------------------------------------------ entry points

    def frame(self, func, module, cls, parent=None):
        self.nfid += 1
        fr = Frame(self.nfid, func, module, cls, parent)
        self.frames[self.nfid] = fr
        return fr

    # ------------------------------------------------------------------ statements

    def block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st, fr)

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.taint(st, f"unsupported statement {type(s).__name__}", s, fr)
            return
        m(s, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Import(self, s, st, fr):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            from .program import canon_ext

            st.env[fr.fid][n] = (
                T("mod", a.name)
                if a.name in self.prog.modules
                else T("ext", canon_ext(a.name if a.asname else a.name.split(".")[0]))
            )

    def s_ImportFrom(self, s, st, fr):
        from .program import canon_ext

        src = self.prog._rel(fr.module, s.level, s.module) if fr.module else s.module
        for a in s.names:
            if src in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[src], a.name)
            else:
                r = T("ext", canon_ext(src + "." + a.name))
            st.env[fr.fid][a.asname or a.name] = r or self.opq(st, "import", s, fr)

    def s_FunctionDef(self, s, st, fr):
        v = self.closure(s, st, fr)
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, st, fr), [v], [], st, fr, d)
            if v.op == "opaque":
                self.taint(st, "decorated local function", s, fr)
        st.env[fr.fid][s.name] = v

    def s_Nonlocal(self, s, st, fr):
        for n in s.names:
            f = self.frames.get(fr.parent)
            while f is not None and n not in st.env.get(f.fid, {}):
                f = self.frames.get(f.parent)
            if f is None:
                self.taint(st, "nonlocal", s, fr)
            else:
                st.env[fr.fid]["%nonlocal:" + n] = num(f.fid)

    def s_Global(self, s, st, fr):
        self.taint(st, "global statement", s, fr)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        if st.dead:
            return
        fr.exits.append(("return", v, st.copy()))
        st.dead = True

    def s_Raise(self, s, st, fr):
        v = NONE
        if s.exc is not None:
            v = self.exc_value(s.exc, st, fr)
        else:
            v = st.env[fr.fid].get("%exc", T("exc", "re-raise"))
        self.do_raise(v, st, fr, s)

    def exc_value(self, e, st, fr):
        """Exception type that an expression denotes."""
        if isinstance(e, ast.Call):
            f = e.func
            # Evaluate the arguments for their effects on exits only.
            n = self.exc_name(f, st, fr)
            if n is None:
                v = self.ev(e, st, fr)
                return v if v.op == "exc" else T("exc", "?")
            return T("exc", n)
        n = self.exc_name(e, st, fr)
        if n is None:
            v = self.ev(e, st, fr)
            return v if v.op == "exc" else T("exc", "?")
        return T("exc", n)

    def exc_name(self, f, st, fr):
        if isinstance(f, ast.Name):
            v = self.lookup(f.id, st, fr)
            if v is None or v.op == "ext" and v.args[0].startswith("builtins."):
                return f.id
            if v.op == "cls":
                return v.args[0]
            return None
        if isinstance(f, ast.Attribute):
            return f.attr
        return None

    def do_raise(self, exc, st, fr, node):
        if st.dead:
            return
        fr.exits.append(("raise", exc, st.copy()))
        st.dead = True

    def s_Assert(self, s, st, fr):
        c = self.truth(st, self.ev(s.test, st, fr))
        self.note(st, "branch", [c], s, fr)
        if c is TRUE:
            return
        bad = st.copy()
        bad.assume(neg_c(c))
        self.do_raise(T("exc", "AssertionError"), bad, fr, s)
        if c is FALSE:
            st.dead = True
        else:
            st.assume(c)

    def note(self, st, kind, args, node, fr):
        """Remember a point of the analysed program that a rule may be about."""
        if fr.module is not None:
            st.trace.append((kind,) + tuple(args) + (self.loc(node, fr),))

    def s_If(self, s, st, fr):
        c = self.truth(st, self.ev(s.test, st, fr))
        self.note(st, "branch", [c], s, fr)
        if st.dead:
            return
        self.branch(
            c,
            st,
            lambda x: self.block(s.body, x, fr),
            lambda x: self.block(s.orelse, x, fr),
        )

    def branch(self, c, st, f1, f2):
        if c is TRUE:
            f1(st)
            return
        if c is FALSE:
            f2(st)
            return
        if has_opaque(c):
            self.taint(st, "branch on " + str(has_opaque(c)))
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(neg_c(c))
        f1(s1)
        f2(s2)
        r = self.join(st, c, s1, s2)
        st.become(r)

    def choose(self, c, st, f1, f2):
        """Gated expression value."""
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(neg_c(c))
        v1 = f1(s1)
        v2 = f2(s2)
        d1, d2 = s1.dead, s2.dead
        r = self.join(st, c, s1, s2)
        st.become(r)
        if d1 and not d2:
            return v2
        if d2 and not d1:
            return v1
        return ite(c, v1, v2)

    # assignment ---------------------------------------------------------------

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        load = self._as_load(s.target)
        cur = self.ev(load, st, fr)
        rhs = self.ev(s.value, st, fr)
        k = base_type(ty(cur))
        if k == "list" and isinstance(s.op, ast.Add):
            self.set_content(
                st, cur, concat_seq(self.content(st, cur), self.as_seq(rhs, st))
            )
            self.log_items(st, cur, "append", self.as_seq(rhs, st), s, fr)
            return
        if k == "set" and isinstance(s.op, (ast.BitAnd, ast.BitOr, ast.Sub)):
            v = self.setop(s.op, self.content(st, cur), self.content(st, rhs))
            self.set_content(st, cur, v)
            self.effect(st, "mutate", [cur], s, fr)
            return
        if ty(cur) not in ("int", "float", "num", "bool", "str", "tuple") and cur.op not in ("num", "const"):
            kk = kind(ty(cur))
            if kk not in ("AbstractMatrix", "Int", "str", "tuple", "Kernel", "Mean", "GP"):
                self.effect(st, "inplace", [cur], s, fr)
        v = self.binop(s.op, cur, rhs, st, fr, s)
        self.assign(s.target, v, st, fr)

    def _as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Name(t.id, ast.Load()), t)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
        if isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
        return t

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            nl = st.env[fr.fid].get("%nonlocal:" + t.id)
            if nl is not None:
                st.env[int(numval(nl))][t.id] = v
            else:
                st.env[fr.fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(o, t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            k = self.index(t.slice, st, fr)
            self.setitem(o, k, v, st, fr, t)
        else:
            self.taint(st, "assignment target", t, fr)

    def unpack(self, elts, v, st, fr):
        v = self.as_seq(v, st)
        if v.op == "ite":
            pass
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        n = len(elts)
        if not stars:
            for i, e in enumerate(elts):
                self.assign(e, self.at(st, v, num(i)), st, fr)
            return
        k = stars[0]
        for i in range(k):
            self.assign(elts[i], self.at(st, v, num(i)), st, fr)
        after = n - k - 1
        mid = sslice(v, num(k), NONE if after == 0 else num(-after))
        self.assign(elts[k].value, self.alloc(st, "list", mid), st, fr)
        for i in range(after):
            self.assign(elts[k + 1 + i], self.at(st, v, num(i - after)), st, fr)

    def at(self, st, s, i):
        if s.op == "ite":
            return ite(s.args[0], self.at(st, s.args[1], i), self.at(st, s.args[2], i))
        r = at(s, i)
        return self.fix_at(r)

    def fix_at(self, r):
        # The first measure of a process is its measure.
        if r.op == "at" and r.args[1] is ZERO:
            c = r.args[0]
            if c.op == "content0" and c.args[0].op == "field0":
                o, n = c.args[0].args
                if n == self.measures_field() and base_type(ty(o)) == "GP":
                    return attr(o, "measure")
        if r.op == "at" and is_num(r.args[1]) and r.args[0].op == "call" and r.args[0].args[0] == "B.shape":
            if len(r.args[0].args[1]) == 1 and not r.args[0].args[2]:
                return call("B.shape", [r.args[0].args[1][0], r.args[1]])
        if r.op == "getitem" and r.args[0].op == "call" and r.args[0].args[0] == "B.shape_matrix":
            return getitem(*r.args)
        return r

    _mf = None

    def measures_field(self):
        """Name of the field of a process that lists its measures (found by its role)."""
        if self._mf is None:
            name = None
            c, f = self.prog.find_prop("GP", "measure")
            if f is not None:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
                        name = n.value.attr
            self._mf = name or "_measures"
        return self._mf

    def setattr(self, o, name, v, st, fr, node):
        if o.op == "ite":
            self.branch(
                o.args[0],
                st,
                lambda x: self.setattr(o.args[1], name, v, x, fr, node),
                lambda x: self.setattr(o.args[2], name, v, x, fr, node),
            )
            return
        k = base_type(ty(o))
        if k in LAZY and self.cfg.lazy_contract:
            self.taint(st, f"field {name} of a lazy table", node, fr)
            if self.lzfields.get(v, (o,))[0] is not o:
                self.effect(st, "alias", [o, T("const", "str", name), self.lzfields[v][0]], node, fr)
            st.heap[("lz", o)] = opaque(f"field {name} of a lazy table set")
            return
        cls, fs = self.prog.find_setter(k, name)
        if fs:
            self.call_funcs(fs, o, [v], [], st, fr, node)
            return
        if o.op == "cls":
            pass
        if o.op in ("opaque", "typeof", "call"):
            self.taint(st, f"field {name} of an unknown object", node, fr)
        st.heap[("f", o, name)] = v
        if self.is_container(v):
            for (x, *k), w in list(st.heap.items()):
                if x == "f" and w is v and k[0] is not o:
                    self.effect(st, "alias", [o, T("const", "str", name), k[0]], node, fr)
            if v.op in ("field0", "attr") and v.args[0] is not o:
                self.effect(st, "alias", [o, T("const", "str", name), v.args[0]], node, fr)
        self.effect(st, "setattr", [o, T("const", "str", name), v], node, fr)

    def setitem(self, o, k, v, st, fr, node):
        if o.op == "ite":
            self.branch(
                o.args[0],
                st,
                lambda x: self.setitem(o.args[1], k, v, x, fr, node),
                lambda x: self.setitem(o.args[2], k, v, x, fr, node),
            )
            return
        t = base_type(ty(o))
        if t in LAZY and self.cfg.lazy_contract:
            key = self.lz_key(o, k)
            st.heap[("lz", o)] = T("lzset", self.lz_log(st, o), key, v)
            self.effect(st, "lzset", [o, key, v], node, fr)
            return
        c, fs = self.prog.find_method(t, "__setitem__")
        if fs:
            self.call_funcs(fs, o, [k, v], [], st, fr, node)
            return
        if t == "dict":
            self.keyed(o, k, node, fr)
            st.heap[("c", o)] = T("dset", self.content(st, o), self.dkey(k), v)
            self.effect(st, "dictset", [o, k, v], node, fr)
            return
        if t == "list" and o.op == "new" and is_num(k):
            c = self.content(st, o)
            if c.op == "tuple" and not any(x.op == "splat" for x in c.args):
                items = list(c.args)
                if -len(items) <= numval(k) < len(items):
                    items[int(numval(k))] = v
                    st.heap[("c", o)] = T("tuple", *items)
                    return
        self.effect(st, "storeitem", [o, k, v], node, fr)
        self.taint(st, "item assignment", node, fr)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                k = self.index(t.slice, st, fr)
                self.delitem(o, k, st, fr, t)
            elif isinstance(t, ast.Name):
                st.env[fr.fid].pop(t.id, None)
            else:
                self.taint(st, "del", s, fr)

    def delitem(self, o, k, st, fr, node):
        if base_type(ty(o)) == "dict":
            self.keyed(o, k, node, fr)
            st.heap[("c", o)] = T("ddel", self.content(st, o), idkey(k))
            self.effect(st, "dictdel", [o, k], node, fr)
        elif base_type(ty(o)) == "list" and (k is ZERO or k is num(-1)):
            self.container_method(o, "pop", [k], [], st, fr, node)
        else:
            self.taint(st, "del item", node, fr)

    # with / try -----------------------------------------------------------------

    def s_With(self, s, st, fr, k=0):
        if k == len(s.items):
            self.block(s.body, st, fr)
            return
        item = s.items[k]
        o = self.ev(item.context_expr, st, fr)
        if st.dead:
            return
        t = base_type(ty(o))
        enter = self.prog.find_method(t, "__enter__")[1] if t in self.prog.classes else None
        leave = self.prog.find_method(t, "__exit__")[1] if t in self.prog.classes else None
        if not enter or not leave:
            self.taint(st, "with statement", s, fr)
            self.block(s.body, st, fr)
            return
        v = self.call_method_funcs(t, "__enter__", enter, o, [], [], st, fr, s)
        if st.dead:
            return
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, st, fr)
        n = len(fr.exits)
        self.s_With(s, st, fr, k + 1)
        new = fr.exits[n:]
        del fr.exits[n:]
        for kind_, v, x in new:
            a = [NONE] * 3 if kind_ != "raise" else [T("exctype", v), v, T("exctb", v)]
            r = self.call_method_funcs(t, "__exit__", leave, o, a, [], x, fr, s)
            if x.dead:
                continue
            if kind_ == "raise" and self.truth(x, r) is not FALSE:
                self.taint(st, "error swallowed by __exit__", s, fr)
            fr.exits.append((kind_, v, x))
        if not st.dead:
            self.call_method_funcs(t, "__exit__", leave, o, [NONE] * 3, [], st, fr, s)

    def s_Try(self, s, st, fr):
        if s.finalbody and not s.handlers:
            n = len(fr.exits)
            self.block(s.body, st, fr)
            new = fr.exits[n:]
            del fr.exits[n:]
            for kind_, v, x in new:
                self.block(s.finalbody, x, fr)
                if not x.dead:
                    fr.exits.append((kind_, v, x))
            if not st.dead:
                self.block(s.finalbody, st, fr)
            return
        if len(s.handlers) == 1 and not s.finalbody:
            h = s.handlers[0]
            names = self._handler_names(h)
            if names <= {"KeyError", "LookupError"} and names:
                if self._memo_try(s, h, st, fr):
                    return
            if names <= {"IndexError", "LookupError"} and names:
                if self._index_try(s, h, st, fr):
                    return
            # Errors raised explicitly inside the body.
            n = len(fr.exits)
            probe = st.copy()
            m = len(fr.exits)
            self.block(s.body, probe, fr)
            new = fr.exits[m:]
            raising = [e for e in new if e[0] == "raise"]
            del fr.exits[m:]
            if raising and all(
                e[1].op == "exc" and e[1].args[0] != "?" for e in raising
            ):
                self._try_explicit(s, h, names, st, fr)
                return
            if not raising and fr.module is None:
                # A history of an obligation: only the errors that the package raises itself are looked at.
                self.block(s.body, st, fr)
                if not st.dead:
                    self.block(s.orelse, st, fr)
                return
        self.effect(st, "try", [T("const", "str", "unsupported")], s, fr)
        self.taint(st, "try statement", s, fr)
        self.block(s.body, st, fr)

    def _handler_names(self, h):
        if h.type is None:
            return {"BaseException"}
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for e in es:
            out.add(e.id if isinstance(e, ast.Name) else getattr(e, "attr", "?"))
        return out

    def _try_explicit(self, s, h, names, st, fr):
        n = len(fr.exits)
        base = st.copy()
        self.block(s.body, st, fr)
        new = fr.exits[n:]
        del fr.exits[n:]
        caught = []
        for e in new:
            if e[0] == "raise" and (
                e[1].args[0] in names or names & {"Exception", "BaseException"}
            ):
                caught.append(e)
            else:
                fr.exits.append(e)
        if not st.dead:
            self.block(s.orelse, st, fr)
        states = [] if st.dead else [st.copy()]
        for _, exc, x in caught:
            x.dead = False
            x.env[fr.fid]["%exc"] = exc
            if h.name:
                x.env[fr.fid][h.name] = exc
            self.block(h.body, x, fr)
            if not x.dead:
                states.append(x)
        if not states:
            st.dead = True
            return
        st.become(self.merge_states(base, states))

    def merge_states(self, base, states):
        r = states[-1]
        n = len(base.guard)
        for x in reversed(states[:-1]):
            r = self.join(base, conj(*x.guard[n:]), x, r)
        return r

    def _memo_try(self, s, h, st, fr):
        """`try: ... D[k] ... except KeyError: ...` as a test of `k in D`."""
        subs = []
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    return False
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Load, ast.Del)):
                    subs.append(n)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if n.func.attr == "pop" and len(n.args) == 1:
                        subs.append(n)
        probe = st.copy()
        cond = TRUE
        found = False
        nexits = len(fr.exits)
        for n in subs:
            if isinstance(n, ast.Call):
                o = self.ev(n.func.value, probe, fr)
                if base_type(ty(o)) != "dict":
                    continue
                k = self.ev(n.args[0], probe, fr)
            else:
                o = self.ev(n.value, probe, fr)
                if base_type(ty(o)) != "dict":
                    continue
                k = self.index(n.slice, probe, fr)
            found = True
            cond = conj(cond, dhas(self.content(probe, o), idkey(k)))
        del fr.exits[nexits:]
        if not found:
            return False
        cond = self.decide(st, cond)
        self.branch(
            cond,
            st,
            lambda x: (self.block(s.body, x, fr), None if x.dead else self.block(s.orelse, x, fr)),
            lambda x: self.block(h.body, x, fr),
        )
        return True

    def _index_try(self, s, h, st, fr):
        subs = []
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    return False
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                    subs.append(n)
        if len(subs) != 1:
            return False
        probe = st.copy()
        nexits = len(fr.exits)
        o = self.ev(subs[0].value, probe, fr)
        k = self.index(subs[0].slice, probe, fr)
        del fr.exits[nexits:]
        if base_type(ty(o)) not in ("list", "tuple") or not (k is ZERO or k is num(-1)):
            return False
        cond = self.decide(st, neg_c(eq(self.length(st, o), ZERO)))
        self.branch(
            cond,
            st,
            lambda x: (self.block(s.body, x, fr), None if x.dead else self.block(s.orelse, x, fr)),
            lambda x: self.block(h.body, x, fr),
        )
        return True

    # loops ------------------------------------------------------------------------

    def s_While(self, s, st, fr):
        self.taint(st, "while loop", s, fr)

    def s_Break(self, s, st, fr):
        if not fr.loops:
            self.taint(st, "break", s, fr)
            return
        fr.loops[-1]["breaks"].append(st.copy())
        st.dead = True

    def s_Continue(self, s, st, fr):
        if not fr.loops:
            self.taint(st, "continue", s, fr)
            return
        fr.loops[-1]["continues"].append(st.copy())
        st.dead = True

    def iter_of(self, v, st):
        """How to iterate a value: ("items", [...]) or ("sym", dom, elem(i))."""
        v = self.content(st, v)
        v = norm_seq(v)
        if v.op in ("dnil", "dset", "ddel"):
            v = self.dict_view("keys", v, st)
        if v.op == "tuple" and not any(x.op == "splat" for x in v.args):
            return ("items", list(v.args))
        if v.op == "zipseq":
            seqs = [norm_seq(self.content(st, x)) for x in v.args]
            for n, x in enumerate(seqs):
                # A running sum in parallel with its continuation.
                if x.op == "tuple" and len(x.args) == 2 and x.args[1].op == "splat" and x.args[1].args[0] in seqs:
                    r = exclusive(x)
                    if r is not None:
                        v = T("zipseq", *v.args[:n], r, *v.args[n + 1 :])
            parts = [self.iter_of(x, st) for x in v.args]
            if any(p is None for p in parts):
                return None
            if all(p[0] == "items" for p in parts):
                return ("items", [T("tuple", *xs) for xs in zip(*[p[1] for p in parts])])
            seqs = [norm_seq(self.content(st, x)) for x in v.args]
            doms = [p[1] for p in parts if p[0] == "sym" and p[1].op == "dom"]
            # `range`-like infinite partners do not restrict the domain
            d = dom(*[s for p in doms for s in p.args])
            elems = []
            for p, sq in zip(parts, seqs):
                if p[0] == "items":
                    elems.append(lambda i, sq=sq: at(sq, i))
                else:
                    elems.append(p[2])
            return ("sym", d, lambda i: T("tuple", *[e(i) for e in elems]))
        if v.op == "enumseq":
            p = self.iter_of(v.args[0], st)
            if p is None:
                return None
            start = v.args[1]
            if p[0] == "items":
                return ("items", [T("tuple", add(num(n), start), x) for n, x in enumerate(p[1])])
            return ("sym", p[1], lambda i: T("tuple", add(i, start), p[2](i)))
        if v.op == "range":
            n = v.args[0]
            if is_num(n):
                return ("items", [num(k) for k in range(int(numval(n)))])
            d = dom(n.args[0]) if n.op == "len" else T("dom", v)
            return ("sym", d, lambda i: i)
        if v.op == "map":
            d, l = v.args
            return ("sym", d, lambda i: apply_lam(l, i))
        if v.op == "ite":
            return ("sym", dom(v), lambda i: at(v, i))
        if v.op == "filter":
            return ("sym", dom(v), lambda i: at(v, i))
        if has_opaque(v):
            return None
        return ("sym", dom(v), lambda i: self.fix_at(at(v, i)))

    def s_For(self, s, st, fr):
        if isinstance(s.iter, ast.Call):
            outer = self.consumer
            self.consumer = (s, fr)
            try:
                seq = self.ev(s.iter, st, fr)
            finally:
                self.consumer = outer
            if seq.op == "woven" and not st.dead:
                self.block(self.wovens[seq.args[0]], st, fr)
                return
        else:
            seq = self.ev(s.iter, st, fr)
        if st.dead:
            return
        it = self.iter_of(seq, st)
        if it is None:
            self.taint(st, "loop over unknown", s, fr)
            return
        if it[0] == "items":
            if len(it[1]) > 40:
                self.taint(st, "long loop", s, fr)
                return
            self.unrolled(s, it[1], st, fr)
            return
        _, d, elem = it
        self.summarise(s, d, elem, st, fr)

    def unrolled(self, s, items, st, fr):
        base = st.copy()
        breaks = []
        for x in items:
            if st.dead:
                break
            fr.loops.append({"breaks": [], "continues": []})
            b0 = st.copy()
            self.assign(s.target, x, st, fr)
            self.block(s.body, st, fr)
            lp = fr.loops.pop()
            breaks.extend(lp["breaks"])
            if lp["continues"]:
                ss = lp["continues"] + ([] if st.dead else [st.copy()])
                st.become(self.merge_states(b0, ss))
        if s.orelse and not st.dead:
            self.block(s.orelse, st, fr)
        if breaks:
            ss = breaks + ([] if st.dead else [st.copy()])
            st.become(self.merge_states(base, ss))

    def assigned(self, stmts):
        out = []
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                    out.append(n.id)
        return out

    def summarise(self, s, d, elem, st, fr):
        self.nloop += 1
        L = self.nloop
        i = fresh(f"%i{L}_", "int")
        names = [n for n in self.assigned(s.body)]
        tnames = self.assigned([ast.Expr(s.target)]) if False else [
            n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)
        ]
        env0 = st.env[fr.fid]
        carried = [n for n in names if n in env0 and n not in tnames]
        # Containers that are changed in the body: found by a trial pass.
        trial_exits = len(fr.exits)
        trial = st.copy()
        phis0 = {n: fresh(f"%t_{n}_", self._phi_type(env0[n])) for n in carried}
        for n in carried:
            if not self.is_container(env0[n]):
                trial.env[fr.fid][n] = phis0[n]
        fr.loops.append({"breaks": [], "continues": []})
        self.assign(s.target, elem(i), trial, fr)
        self.block(s.body, trial, fr)
        lp = fr.loops.pop()
        ends = lp["continues"] + lp["breaks"] + ([] if trial.dead else [trial])
        del fr.exits[trial_exits:]
        cells = []
        for x in ends:
            for k, v in x.heap.items():
                if k in cells:
                    continue
                a = st.heap.get(k)
                if a is None:
                    a = self.initial(k)
                if a is not None and a is not v:
                    cells.append(k)
        # Cells of objects that depend on the iteration are handled by the effect log.
        varying = [k for k in cells if contains(k[1], i)]
        cells = [k for k in cells if k not in varying]
        # Real pass with unknown values for everything carried.
        work = st.copy()
        phi_env, phi_cell = {}, {}
        proxies = {}
        for n in carried:
            v = env0[n]
            if self.is_container(v) and ("c", v) in work.heap and not self._rebound(s.body, n):
                continue
            if v.op == "new" and base_type(ty(v)) == "list" and ("c", v) in work.heap:
                # A list that is made anew in every iteration is followed by value.
                q = self.alloc(work, "list", T("tuple"))
                proxies[n] = q
                work.env[fr.fid][n] = q
                phi_env[n] = fresh(f"%phi_{n}_", "list")
                work.heap[("c", q)] = phi_env[n]
                continue
            phi_env[n] = fresh(f"%phi_{n}_", self._phi_type(v))
            work.env[fr.fid][n] = phi_env[n]
        for k in cells:
            v = st.heap.get(k)
            if v is None:
                v = self.initial(k)
            phi_cell[k] = fresh("%phic", self._phi_type(v))
            work.heap[k] = phi_cell[k]
        nlog, nex = len(work.log), len(fr.exits)
        g0 = len(work.guard)
        ntr = len(work.trace)
        before = work.copy()
        fr.loops.append({"breaks": [], "continues": []})
        self.assign(s.target, elem(i), work, fr)
        self.block(s.body, work, fr)
        lp = fr.loops.pop()
        conts = lp["continues"] + ([] if work.dead else [work])
        breaks = lp["breaks"]
        exits = fr.exits[nex:]
        del fr.exits[nex:]
        if not conts and not breaks and not exits:
            self.taint(st, "loop without exits", s, fr)
            return
        end = None
        if conts:
            end = self.merge_states(before, [c.copy() for c in conts])
        allends = ([end] if end else []) + breaks + [e[2] for e in exits]
        for x in allends:
            if x.taint:
                st.taint = st.taint or x.taint
        # Effects in the loop body.
        effects = []
        seen = set()
        for x in allends:
            for e in x.log[nlog:]:
                if id(e) not in seen:
                    seen.add(id(e))
                    effects.append(Effect(e.guard[g0:], e.kind, e.args, e.loc))
        traces = []
        for x in allends:
            for e in x.trace[ntr:]:
                if e not in traces:
                    traces.append(e)
        phis = set(phi_env.values()) | set(phi_cell.values())
        for q in proxies.values():
            if any(contains_any(T("tuple", conj(*e.guard), *e.args), {q}) for e in effects) or any(
                x.heap.get(("c", q)) not in phis for x in allends
            ) or any(contains(e[1], q) for e in exits if isinstance(e[1], Term)) or any(
                contains(v, q) for x in breaks for v in x.env[fr.fid].values() if isinstance(v, Term)
            ):
                self.taint(st, "a list is both changed and made anew in a loop", s, fr)
        # Conditions of leaving the loop early.
        econds = []
        for kind_, v, x in exits:
            econds.append((kind_, v, conj(*x.guard[g0:]), x))
        bconds = [(conj(*x.guard[g0:]), x) for x in breaks]
        early = bool(econds or bconds)
        sol = {}
        if end is not None:
            sol = self.solve_carried(d, i, phi_env, phi_cell, end, st, fr, proxies)
        elif phis:
            sol = {p: (self._init_of(p, phi_env, phi_cell, st, fr), None) for p in phis}
        if sol is None:
            self.taint(st, "loop-carried values not summarised", s, fr)
            return
        inside = {p: v[0] for p, v in sol.items()}  # value at iteration i
        after = {p: v[1] for p, v in sol.items()}  # value after the loop

        def fix(t):
            return subst(t, inside) if inside else t

        for e in effects:
            e2args = tuple(fix(a) for a in e.args)
            g = fix(conj(*e.guard)) if e.guard else TRUE
            if early:
                g = conj(g, T("const", "str", "until-exit")) if False else g
            if contains_any(T("tuple", g, *e2args), phis):
                self.taint(st, "loop effect with carried value", s, fr)
            if e.kind in ("mutate", "dictset", "setattr", "lzset", "lzrule", "setadd", "storeitem", "inplace", "extcall") or True:
                st.log.append(
                    Effect(
                        st.guard,
                        "foreach",
                        (d, lam([i], T("eff", e.kind, g, e2args))),
                        e.loc,
                    )
                )
        st.trace.extend(traces)
        # Per-iteration objects: forget what is known about their cells.
        for k in varying:
            st.heap.pop(k, None)
        if early:
            if effects and any(
                e.kind not in ("new",) for e in effects
            ):
                self.taint(st, "loop with effects and early exit", s, fr)
            allc = disj(*[fix(c) for _, _, c, _ in econds], *[fix(c) for c, _ in bconds])
            if contains_any(allc, phis):
                self.taint(st, "exit condition with carried value", s, fr)
                return
            ex = self.decide(st, exists(d, lam([i], allc)))
            first = st.copy()
            if ex is not TRUE:
                first.assume(ex)
            cl = lam([i], allc)
            j = T("pick", d, cl)  # index of the first iteration that leaves
            # dispatch over the ways to leave
            ways = [("exit",) + e for e in econds] + [("break", None, None, c, x) for c, x in bconds]
            rest = TRUE
            outs = []
            for n, w in enumerate(ways):
                c = fix(w[3])
                cj = subst(c, {i: j})
                # the last way needs no test
                test = TRUE if n == len(ways) - 1 else cj
                outs.append((w, test))
            cur = first
            brk_states = []
            for w, test in outs:
                if cur is None:
                    break
                here = cur.copy()
                if test is not TRUE:
                    here.assume(test)
                    nxt = cur.copy()
                    nxt.assume(neg_c(test))
                else:
                    nxt = None
                if w[0] == "exit":
                    v = subst(fix(w[2]), {i: j})
                    if contains_any(v, phis):
                        self.taint(here, "exit value with carried value", s, fr)
                    fr.exits.append((w[1], v, here))
                else:
                    x = w[4]
                    for n in names + tnames:
                        if n in x.env[fr.fid]:
                            v = subst(fix(x.env[fr.fid][n]), {i: j})
                            if contains_any(v, phis):
                                self.taint(here, "break value with carried value", s, fr)
                            here.env[fr.fid][n] = v
                    for k in cells:
                        if k in x.heap:
                            v = subst(fix(x.heap[k]), {i: j})
                            if contains_any(v, phis):
                                self.taint(here, "break value with carried value", s, fr)
                            here.heap[k] = v
                    for k, v in x.heap.items():
                        if k not in here.heap and not contains(k[1], i):
                            here.heap[k] = subst(fix(v), {i: j})
                    brk_states.append(here)
                cur = nxt
            base = st.copy()
            if end is None or ex is TRUE:
                done_dead = ex is TRUE
            else:
                done_dead = False
            if done_dead:
                st.dead = True
            elif ex is not FALSE:
                st.assume(neg_c(ex))
        else:
            base = st.copy()
            brk_states = []
        # Values after the loop ran to its end.
        if not st.dead:
            for n, p in phi_env.items():
                v = after.get(p)
                if v is None:
                    st.env[fr.fid][n] = self.opq(st, f"carried variable {n}", s, fr)
                elif n in proxies:
                    st.env[fr.fid][n] = self.alloc(st, "list", v)
                else:
                    st.env[fr.fid][n] = v
            for k, p in phi_cell.items():
                v = after.get(p)
                if v is None:
                    st.heap[k] = self.opq(st, "carried cell", s, fr)
                else:
                    st.heap[k] = v
            if end is not None:
                for n in names + tnames:
                    if n not in phi_env and n in end.env[fr.fid] and n not in carried:
                        v = fix(end.env[fr.fid][n])
                        if contains(v, i) or contains_any(v, phis):
                            v = T("last", d, lam([i], v))
                        st.env[fr.fid][n] = v
                for k, v in end.heap.items():
                    if k not in st.heap and k not in varying and not contains(k[1], i):
                        # objects allocated in the body (only reachable per iteration)
                        st.heap[k] = fix(v)
            if s.orelse:
                self.block(s.orelse, st, fr)
        if brk_states:
            ss = brk_states + ([] if st.dead else [st.copy()])
            st.become(self.merge_states(base, ss))

    def _rebound(self, body, n):
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store):
                    # `xs += [...]` keeps the list
                    return not any(
                        isinstance(y, ast.AugAssign)
                        and isinstance(y.target, ast.Name)
                        and y.target.id == n
                        for bb in body
                        for y in ast.walk(bb)
                    )
        return False

    def _phi_type(self, v):
        if v.op in ("set", "setand", "setor", "bigand"):
            return "set"
        if v.op in ("dnil", "dset"):
            return "dict"
        k = ty(v)
        if k in ("int", "Int"):
            return "Int"
        if k in ("float",):
            return "Scalar"
        return k

    def _init_of(self, p, phi_env, phi_cell, st, fr):
        for n, q in phi_env.items():
            if q is p:
                return st.env[fr.fid][n]
        for k, q in phi_cell.items():
            if q is p:
                v = st.heap.get(k)
                return v if v is not None else self.initial(k)

    def solve_carried(self, d, i, phi_env, phi_cell, end, st, fr, proxies=()):
        """Closed forms of loop-carried values: phi -> (value at iteration i, value after)."""
        step, init = {}, {}
        for n, p in phi_env.items():
            step[p] = end.env[fr.fid].get(n, p)
            init[p] = st.env[fr.fid][n]
            if n in proxies:
                v = step[p]
                step[p] = self.content(end, v) if base_type(ty(v)) == "list" else self.opq(st, "a list that becomes something else", None, fr)
                init[p] = self.content(st, init[p])
        for k, p in phi_cell.items():
            step[p] = end.heap.get(k, p)
            v = st.heap.get(k)
            init[p] = v if v is not None else self.initial(k)
        sol = {}
        todo = list(step)
        progress = True
        while todo and progress:
            progress = False
            for p in list(todo):
                t = subst(step[p], {q: v[0] for q, v in sol.items()})
                others = [q for q in todo if q is not p]
                if contains_any(t, set(others)):
                    continue
                r = self.closed_form(d, i, p, t, init[p])
                if r is not None:
                    sol[p] = r
                    todo.remove(p)
                    progress = True
        if todo:
            # One joint fold for whatever is left.
            vs = list(todo)
            ts = [subst(step[p], {q: v[0] for q, v in sol.items()}) for p in vs]
            ni = T("tuple", *[init[p] for p in vs])
            f = T("fold", d, ni, lam(vs + [i], T("tuple", *ts)))
            for n, p in enumerate(vs):
                sol[p] = (T("foldat", f, i, num(n)), T("item", f, num(n)))
        return sol

    def closed_form(self, d, i, p, t, init):
        if t is p:
            return init, init
        if not contains(t, p):
            # overwritten in every iteration
            if not contains(t, i):
                nonempty = neg_c(eq(seqlen(d.args[0]), ZERO)) if d.op == "dom" else TRUE
                return T("prevof", d, lam([i], t), init, i), ite(nonempty, t, init)
            return T("prevof", d, lam([i], t), init, i), T("lastof", d, lam([i], t), init)
        # sequences: phi ++ items
        if t.op == "tuple" and t.args and t.args[0] is splat(p):
            rest = t.args[1:]
            if not contains_any(T("tuple", *rest), {p}):
                body = T("tuple", *rest)
                if len(rest) == 1 and rest[0].op != "splat":
                    m = mk_map(d, lam([i], rest[0]))
                else:
                    m = T("flatmap", d, lam([i], body))
                after = concat_seq(init, m)
                if init.op == "tuple" and not init.args:
                    after = m
                return T("prefixseq", init, m, i), norm_seq(after)
            last = T("at", p, num(-1))
            if len(rest) == 1 and init.op == "tuple" and init.args and init.args[-1].op != "splat":
                # a running sum
                delta = sub(rest[0], last)
                if not contains(delta, p):
                    j = fresh("%b", "int")
                    m = mk_map(d, lam([j], add(init.args[-1], mk_prefix(d, lam([i], delta), add(j, ONE)))))
                    return T("prefixseq", init, m, i), norm_seq(concat_seq(init, m))
        if t.op == "ite":
            t = one_decision(t, p)
        if t.op == "ite" and not contains(t.args[0], p):
            a, b = t.args[1], t.args[2]
            c = t.args[0]
            if b is p:
                pass
            elif a is p:
                c, a, b = neg_c(c), b, a
            if b is p and a.op == "tuple" and a.args and a.args[0] is splat(p):
                rest = a.args[1:]
                if len(rest) == 1 and not contains(rest[0], p):
                    m = mk_filter(d, lam([i], c), lam([i], rest[0]))
                    return T("prefixseq", init, m, i), norm_seq(concat_seq(init, m)) if init.op == "tuple" and init.args else m
        if t.op == "filter" and t.args[0] is dom(p):
            # selections from selections
            k = fresh()
            x = T("at", p, k)
            y = fresh()
            c = subst(apply_lam(t.args[1], k), {x: y})
            if apply_lam(t.args[2], k) is x and not contains(c, k) and not contains(c, p):
                x0 = T("at", init, k)
                keep = neg_c(exists(d, lam([i], neg_c(subst(c, {y: x0})))))
                after = mk_filter(dom(init), lam([k], keep), lam([k], x0))
                return T("prefixsel", init, after, i), after
        # sets
        if t.op == "setand" and p in t.args:
            rest = [x for x in t.args if x is not p]
            if not contains_any(T("tuple", *rest), {p}):
                big = T("bigand", d, lam([i], rest[0] if len(rest) == 1 else T("setand", *rest)))
                return T("prefixset", init, big, i), setand(init, big)
        if t.op == "set" and splat(p) in t.args:
            rest = [x for x in t.args if x is not splat(p)]
            if not contains_any(T("tuple", *rest), {p}):
                if len(rest) == 1 and rest[0].op != "splat":
                    m = mk_map(d, lam([i], rest[0]))
                else:
                    m = T("flatmap", d, lam([i], T("tuple", *rest)))
                return T("prefixset", init, m, i), mk_set([splat(init), splat(m)])
        # numeric accumulation
        if kind(ty(p)) not in ("str", "set", "dict", "list", "tuple"):
            delta = sub(t, p)
            if not contains(delta, p):
                l = lam([i], delta)
                return add(init, T("prefix", d, l, i)), add(init, mk_sum(d, l))
        # boolean accumulation
        if t.op == "and" and p in t.args:
            rest = conj(*[x for x in t.args if x is not p])
            if not contains(rest, p):
                return T("prefixall", d, lam([i], rest), i), conj(init, neg_c(exists(d, lam([i], neg_c(rest)))))
        if t.op == "or" and p in t.args:
            rest = disj(*[x for x in t.args if x is not p])
            if not contains(rest, p):
                return T("prefixany", d, lam([i], rest), i), disj(init, exists(d, lam([i], rest)))
        return None

    # ------------------------------------------------------------------ expressions

    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.opq(st, f"unsupported expression {type(e).__name__}", e, fr)
        v = m(e, st, fr)
        if fr.module is not None and v not in self.prov:
            self.prov[v] = self.loc(e, fr)
        return v

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                parts.append(T("str", self.ev(x.value, st, fr)))
        return T("fstr", *parts)

    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            env = st.env.get(f.fid)
            if env is not None and name in env:
                return env[name]
            f = self.frames.get(f.parent) if f.parent else None
        m = fr.module
        if m is not None:
            r = self.prog.resolve(m, name)
            if r is not None:
                if r.op == "gexpr":
                    mm = self.prog.modules[r.args[0]]
                    b = mm.names[r.args[1]]
                    return self.eval_global(mm, b[1])
                return r
        else:
            # specification: names resolve in the package and the libraries
            r = self.spec_name(name)
            if r is not None:
                return r
        if name in BUILTINS:
            return T("ext", "builtins." + name)
        return None

    def spec_name(self, name):
        if name == "B":
            return T("ext", "B")
        if name in self.prog.classes:
            return T("cls", name)
        if name in self.prog.gfs:
            return T("gf", name)
        if name in SPEC_EXT:
            return T("ext", SPEC_EXT[name])
        for m in self.prog.modules.values():
            if name in m.names and m.names[name][0] in ("def", "class"):
                return self.prog.resolve(m, name)
        return None

    def eval_global(self, m, e):
        key = (m.name, id(e))
        if key not in self.gexpr_memo:
            fr = self.frame(None, m, None)
            st = State()
            st.env[fr.fid] = {}
            v = self.ev(e, st, fr)
            if v.op == "new":
                v = T("global", m.name, e.lineno, base_type(ty(v)))
            self.gexpr_memo[key] = v
        return self.gexpr_memo[key]

    def unbound(self, name, module):
        """Is a name bound nowhere in a module?"""
        if hasattr(builtins, name):
            return False
        for x in ast.walk(module.tree):
            if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load):
                return False
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x.name == name:
                return False
            if isinstance(x, ast.arg) and x.arg == name or isinstance(x, ast.ExceptHandler) and x.name == name:
                return False
            if isinstance(x, ast.alias) and (x.name == "*" or (x.asname or x.name.split(".")[0]) == name):
                return False
            if isinstance(x, (ast.Global, ast.Nonlocal)) or type(x).__name__.startswith("Match"):
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("globals", "locals", "exec", "vars"):
                return False
        return True

    def e_Name(self, e, st, fr):
        r = self.lookup(e.id, st, fr)
        if r is None:
            if st.taint is None and fr.module is not None and self.unbound(e.id, fr.module):
                self.do_raise(T("exc", "NameError"), st, fr, e)
                return opaque("missing name")
            return self.opq(st, f"unknown name {e.id}", e, fr)
        return r

    def e_Tuple(self, e, st, fr):
        return mk_tuple(self.elts(e.elts, st, fr))

    def elts(self, es, st, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.content(st, self.ev(x.value, st, fr))
                out.append(splat(self.as_seq(v, st)))
            else:
                out.append(self.ev(x, st, fr))
        return list(mk_tuple(out).args)

    def dict_view(self, kind, c, st):
        """Keys, values or items of a dictionary in order of insertion."""
        keyseq = self.keyseqs.get(c)
        if keyseq is not None and kind == "keys":
            return keyseq
        if c.op == "content0":
            return T("d" + kind, c)
        es = self.dict_entries(c, st)
        if es is None or len(es) > 8:
            return opaque("view of a dictionary")
        out = []
        for here, k, v in es:
            if kind != "values":
                orig = self.origkeys.get(k, ())
                if len(orig) != 1 and k.op not in ("const", "num"):
                    return opaque("keys of a dictionary")
                k = next(iter(orig)) if orig else k
            x = k if kind == "keys" else v if kind == "values" else T("tuple", k, v)
            if here is not FALSE:
                out.append(x if here is TRUE else splat(ite(here, T("tuple", x), T("tuple"))))
        return mk_tuple(out)

    def dict_entries(self, c, st):
        """(condition of being there, key, value) in order of insertion."""
        if c.op == "dnil":
            return []
        if c.op == "ite":
            a, b = self.dict_entries(c.args[1], st), self.dict_entries(c.args[2], st)
            if a is None or b is None:
                return None
            out = []
            while a and b and a[0] == b[0]:
                out.append(a.pop(0))
                b.pop(0)
            w = c.args[0]
            return out + [(self.decide(st, conj(w, h)), k, v) for h, k, v in a] + [
                (self.decide(st, conj(neg_c(w), h)), k, v) for h, k, v in b]
        if c.op not in ("dset", "ddel"):
            return None
        es = self.dict_entries(c.args[0], st)
        if es is None:
            return None
        new, out = TRUE, []
        for h, k, v in es:
            e = self.decide(st, conj(h, keyeq(c.args[1], k)))
            new = conj(new, neg_c(e))
            if c.op == "dset":
                out.append((h, k, ite(e, c.args[2], v)))
            else:
                out.append((self.decide(st, conj(h, neg_c(e))), k, v))
        if c.op == "dset":
            out.append((self.decide(st, new), c.args[1], c.args[2]))
        return out

    def keyed(self, c, k, node=None, fr=None):
        """Note whether a field of an object is indexed by processes themselves or by their identities."""
        if c.op in ("field0", "attr") and (k.op == "id" or isobject(k)):
            where = self.loc(node, fr) if fr is not None else getattr(self.callstack[-1], "where", "") if self.callstack else ""
            if where and not where.startswith("spec:"):
                kinds = self.prog.keykinds.setdefault((base_type(ty(c.args[0])), c.args[1]), {})
                kinds.setdefault("identities" if k.op == "id" else "objects", where)

    def dkey(self, k):
        """Key of a dictionary, for which objects and their identities count as the same."""
        r = idkey(k)
        self.origkeys.setdefault(r, set()).add(k)
        return r

    def from_keys(self, args, st, fr, node):
        """`dict.fromkeys`: the distinct elements, in order of their first occurrence."""
        it = self.iter_of(args[0], st)
        if it is None or it[0] != "items":
            return self.opq(st, "dict.fromkeys", node, fr)
        c, out = T("dnil"), []
        for n, x in enumerate(it[1]):
            seen = self.decide(st, disj(*[self.equal(x, y, st) for y in it[1][:n]]))
            if seen is not TRUE:
                out.append(x if seen is FALSE else splat(ite(seen, T("tuple"), T("tuple", x))))
            c = T("dset", c, self.dkey(x), args[1] if len(args) > 1 else NONE)
        o = self.alloc(st, "dict", c)
        self.keyseqs[self.content(st, o)] = mk_tuple(out)
        return o

    def as_seq(self, v, st):
        """Materialise zips, enumerations and iterators as sequences."""
        v = self.content(st, v)
        if v.op in ("dnil", "dset", "ddel"):
            return self.dict_view("keys", v, st)
        if v.op in ("zipseq", "enumseq", "range"):
            it = self.iter_of(v, st)
            if it is None:
                return opaque("sequence")
            if it[0] == "items":
                return T("tuple", *it[1])
            i = fresh("%z", "int")
            return mk_map(it[1], lam([i], it[2](i)))
        return v

    def e_List(self, e, st, fr):
        return self.alloc(st, "list", norm_seq(mk_tuple(self.elts(e.elts, st, fr))))

    def e_Set(self, e, st, fr):
        return self.alloc(st, "set", mk_set(self.elts(e.elts, st, fr)))

    def e_Dict(self, e, st, fr):
        c = T("dnil")
        for k, v in zip(e.keys, e.values):
            if k is None:
                return self.opq(st, "dict unpacking", e, fr)
            c = T("dset", c, self.dkey(self.ev(k, st, fr)), self.ev(v, st, fr))
        return self.alloc(st, "dict", c)

    def e_Starred(self, e, st, fr):
        return splat(self.content(st, self.ev(e.value, st, fr)))

    def e_IfExp(self, e, st, fr):
        c = self.truth(st, self.ev(e.test, st, fr))
        self.note(st, "branch", [c], e, fr)
        return self.choose(
            c, st, lambda x: self.ev(e.body, x, fr), lambda x: self.ev(e.orelse, x, fr)
        )

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_BoolOp(self, e, st, fr):
        return self._boolop(e.op, e.values, st, fr)

    def _boolop(self, op, values, st, fr):
        v = self.ev(values[0], st, fr)
        if len(values) == 1:
            return v
        c = self.truth(st, v)
        self.note(st, "branch", [c], values[0], fr)
        if isinstance(op, ast.And):
            r = self.choose(c, st, lambda x: self._boolop(op, values[1:], x, fr), lambda x: v)
            if c is v or self._is_bool(v):
                # and of conditions
                pass
        else:
            r = self.choose(c, st, lambda x: v, lambda x: self._boolop(op, values[1:], x, fr))
        return self.as_bool(r)

    def _is_bool(self, t):
        return ty(t) == "bool" or t.op in ("dhas", "truth")

    def as_bool(self, t):
        """ite over booleans as a formula."""
        if t.op == "ite" and all(self._is_bool(x) for x in t.args):
            c, a, b = t.args
            a, b = self.as_bool(a), self.as_bool(b)
            return disj(conj(c, a), conj(neg_c(c), b)) if a not in (TRUE, FALSE) and b not in (
                TRUE,
                FALSE,
            ) else (
                disj(c, b) if a is TRUE else conj(neg_c(c), b) if a is FALSE else conj(c, a) if b is FALSE else disj(neg_c(c), a)
            )
        return t

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return neg_c(self.truth(st, v))
        if isinstance(e.op, ast.USub):
            return self.unary("__neg__", v, st, fr, e)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return invert(v)
        return self.opq(st, "unary", e, fr)

    def unary(self, m, v, st, fr, node):
        if v.op == "ite":
            return self.choose(
                v.args[0],
                st,
                lambda x: self.unary(m, v.args[1], x, fr, node),
                lambda x: self.unary(m, v.args[2], x, fr, node),
            )
        k = base_type(ty(v))
        if self.random_algebra(v):
            return neg(v)
        if "Random" in supertypes(k):
            cls, fs = self.prog.find_method(k, m)
            if fs:
                return self.call_funcs(fs, v, [], [], st, fr, node)
        return neg(v)

    def random_algebra(self, v):
        """Is arithmetic on this (random) value kept as algebra?"""
        k = base_type(ty(v))
        if k == "GP" and v.op != "new":
            return self.cfg.gp_algebra
        if k == "Random":
            return True
        return False

    OPS = {
        ast.Add: ("__add__", "__radd__"),
        ast.Sub: ("__sub__", "__rsub__"),
        ast.Mult: ("__mul__", "__rmul__"),
        ast.Div: ("__truediv__", "__rtruediv__"),
        ast.BitOr: ("__or__", "__ror__"),
        ast.BitAnd: ("__and__", "__rand__"),
        ast.Pow: ("__pow__", "__rpow__"),
        ast.MatMult: ("__matmul__", "__rmatmul__"),
        ast.Mod: ("__mod__", "__rmod__"),
        ast.FloorDiv: ("__floordiv__", "__rfloordiv__"),
    }

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, fr, e)

    def setop(self, op, a, b):
        if isinstance(op, ast.BitAnd):
            return setand(a, b)
        if isinstance(op, ast.BitOr):
            return mk_set([splat(a), splat(b)])
        return T("setminus", a, b)

    def binop(self, op, a, b, st, fr, node):
        for n, v in enumerate((a, b)):
            if v.op == "ite" and (
                base_type(ty(v)) in ("list", "tuple", "str", ANY)
                or "Random" in supertypes(base_type(ty(v)))
            ):
                w = [a, b]

                def f(x, k):
                    u = list(w)
                    u[n] = v.args[k]
                    return self.binop(op, u[0], u[1], x, fr, node)

                return self.choose(self.decide(st, v.args[0]), st, lambda x: f(x, 1), lambda x: f(x, 2))
        ka, kb = base_type(ty(a)), base_type(ty(b))
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)) and (
            ka in ("set", "frozenset") and kb in ("set", "frozenset", "dict")
        ):
            return self.alloc(st, ka, self.setop(op, self.content(st, a), self.content(st, b)))
        if isinstance(op, ast.Add):
            if ka == "list" and kb == "list":
                return self.alloc(
                    st, "list", concat_seq(self.content(st, a), self.content(st, b))
                )
            if ka == "tuple" or kb == "tuple" or a.op == "tuple" or b.op == "tuple":
                return concat_seq(a, b)
            if ka == "str" or kb == "str":
                return T("fstr", a, b)
        if isinstance(op, ast.Mult) and (ka in ("list", "tuple") or kb in ("list", "tuple")):
            s, n = (a, b) if ka in ("list", "tuple") else (b, a)
            c = self.content(st, s)
            if is_num(n) and c.op == "tuple":
                r = mk_tuple(list(c.args) * int(numval(n)))
            elif c.op == "tuple" and len(c.args) == 1:
                r = T("map", T("dom", T("range", n)), lam([fresh()], c.args[0]))
            else:
                r = T("repeat", c, n)
            return r if base_type(ty(s)) == "tuple" else self.alloc(st, "list", r)
        if isinstance(op, ast.Mod) and ka == "str":
            return T("fstr", a, b)
        # Random objects: Python's operator protocol.
        ra, rb = "Random" in supertypes(ka), "Random" in supertypes(kb)
        rm = ka == "Measure" or kb == "Measure"
        if (ra or rb or rm) and type(op) in self.OPS:
            alg = all(self.random_algebra(x) for x, r in ((a, ra), (b, rb)) if r)
            if alg and not rm and not isinstance(op, ast.BitOr):
                return self.arith(op, a, b, st, node, fr)
            m, r = self.OPS[type(op)]
            if ra or ka == "Measure":
                cls, fs = self.prog.find_method(ka, m)
                if fs:
                    return self.call_method_funcs(ka, m, fs, a, [b], [], st, fr, node)
            if rb:
                cls, fs = self.prog.find_method(kb, r)
                if fs:
                    return self.call_method_funcs(kb, r, fs, b, [a], [], st, fr, node)
            return self.opq(st, f"operator on {ka}, {kb}", node, fr)
        return self.arith(op, a, b, st, node, fr)

    def arith(self, op, a, b, st, node, fr):
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.MatMult):
            return mm(a, b)
        if isinstance(op, ast.BitAnd):
            return T("bitand", *sorted((a, b)))
        if isinstance(op, ast.BitOr):
            return T("bitor", *sorted((a, b)))
        return T("binop", type(op).__name__, a, b)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            out = conj(out, self.compare(op, left, right, st, fr, e))
            left = right
        return self.decide(st, out)

    def compare(self, op, a, b, st, fr, node):
        if isinstance(op, ast.Is):
            return is_(a, b)
        if isinstance(op, ast.IsNot):
            return neg_c(is_(a, b))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            k = base_type(ty(a))
            r = None
            if (a.op in ("inst", "new") or fr.module is not None) and k in self.prog.classes:
                fs = self.prog.find_method(k, "__eq__")[1]
                if fs:
                    f = self.select(fs, a, [b], [])
                    if f is not None and f is not False and self.arg_ok(
                        b, self.annot_types(f.params[0][1][1], f.module)
                    ):
                        r = self.truth(st, self.inline(f, a, [b], [], st, fr, node))
            if r is None:
                r = self.equal(a, b, st)
            return r if isinstance(op, ast.Eq) else neg_c(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains_op(a, b, st)
            return r if isinstance(op, ast.In) else neg_c(r)
        ka, kb = base_type(ty(a)), base_type(ty(b))
        if ka in ("set", "frozenset") and kb in ("set", "frozenset"):
            if isinstance(op, ast.LtE):
                return subset(self.content(st, a), self.content(st, b))
            if isinstance(op, ast.GtE):
                return subset(self.content(st, b), self.content(st, a))
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return neg_c(lt(b, a))
        if isinstance(op, ast.GtE):
            return neg_c(lt(a, b))
        return self.opq(st, "comparison", node, fr)

    def equal(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and NONE in x.args[1:]:
                return ite(x.args[0], self.equal(x.args[1], y, st), self.equal(x.args[2], y, st))
        if a.op == "id" and b.op == "id":
            return is_(a.args[0], b.args[0])
        ka, kb = base_type(ty(a)), base_type(ty(b))
        objs = ("GP", "Measure")
        if (ka in objs and kb in objs) or (ka == "opt:Measure" and kb in objs):
            return is_(a, b)
        if ka in ("list", "tuple") and kb == ka and a.op != "sym":
            a, b = self.content(st, a), self.content(st, b)
        if a is NONE or b is NONE:
            plain = ("Measure", "GP", "opt:Measure", "FunctionType", "str", "Int", "opt:Int")
            if ka in plain or kb in plain:
                return is_(a, b)
        return eq(a, b)

    def contains_op(self, x, c, st):
        k = base_type(ty(c))
        cc = self.content(st, c)
        self.keyed(c, x)
        if k == "dict" or cc.op in ("dnil", "dset", "ddel"):
            return dhas(cc, idkey(x))
        return member(x, cc)

    def e_Lambda(self, e, st, fr):
        return self.closure(e, st, fr)

    def closure(self, node, st, fr):
        n = len(self.clos) + 1
        # defaults are evaluated at definition
        a = node.args
        defs = [self.ev(x, st, fr) for x in a.defaults]
        kwdefs = [self.ev(x, st, fr) if x is not None else None for x in a.kw_defaults]
        self.clos[n] = (node, fr.fid, fr.module, fr.cls, defs, kwdefs)
        return T("clo", n)

    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            k = base_type(ty(o))
            a = self.ev(e.slice.lower, st, fr) if e.slice.lower else NONE
            b = self.ev(e.slice.upper, st, fr) if e.slice.upper else NONE
            c = self.ev(e.slice.step, st, fr) if e.slice.step else NONE
            if k in ("list", "tuple") and c is num(-1) and a is NONE and b is NONE:
                r = self.reverse_seq(self.content(st, o))
                return self.alloc(st, "list", r) if k == "list" else r
            if c is ONE:
                c = NONE
            if k in ("list", "tuple") and c is NONE:
                r = sslice(self.content(st, o), a, b)
                return self.alloc(st, "list", r) if k == "list" else r
            if a is ZERO:
                a = NONE
            return getitem(o, T("slice", a, b, c))
        k = self.index(e.slice, st, fr)
        return self.getitem(o, k, st, fr, e)

    def reverse_seq(self, c):
        if c.op == "tuple" and not any(x.op == "splat" for x in c.args):
            return T("tuple", *reversed(c.args))
        return T("rseq", c)

    def index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            a = self.ev(s.lower, st, fr) if s.lower else NONE
            b = self.ev(s.upper, st, fr) if s.upper else NONE
            c = self.ev(s.step, st, fr) if s.step else NONE
            return T("slice", NONE if a is ZERO else a, b, NONE if c is ONE else c)
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.append(splat(self.content(st, self.ev(x.value, st, fr))))
                else:
                    out.append(self.index(x, st, fr))
            return mk_tuple(out)
        return self.ev(s, st, fr)

    def getitem(self, o, k, st, fr, node):
        if o.op == "ite":
            return self.choose(
                self.decide(st, o.args[0]),
                st,
                lambda x: self.getitem(o.args[1], k, x, fr, node),
                lambda x: self.getitem(o.args[2], k, x, fr, node),
            )
        t = base_type(ty(o))
        if t in LAZY and self.cfg.lazy_contract:
            return self.lz_get(st, o, self.lz_key(o, k), fr, node)
        if t in ("Measure",):
            fs = self.prog.find_method(t, "__getitem__")[1]
            if fs:
                return self.call_method_funcs(t, "__getitem__", fs, o, [k], [], st, fr, node)
        if t in self.prog.classes and self.prog.find_method(t, "__getitem__")[1]:
            fs = self.prog.find_method(t, "__getitem__")[1]
            return self.call_method_funcs(t, "__getitem__", fs, o, [k], [], st, fr, node)
        if t == "dict":
            self.keyed(o, k, node, fr)
            c = self.content(st, o)
            if closed_dict(c):
                # all keys are known: a missing one raises
                h = self.decide(st, dhas(c, idkey(k)))
                if h is not TRUE:
                    bad = st.copy()
                    bad.assume(neg_c(h))
                    self.do_raise(T("exc", "KeyError"), bad, fr, node)
                    if h is FALSE:
                        st.dead = True
                        return opaque("missing key")
                    st.assume(h)
            return dget(c, idkey(k))
        if t in ("list", "tuple") or o.op in ("tuple", "map"):
            if k.op == "slice":
                r = sslice(self.content(st, o), k.args[0], k.args[1])
                return r
            return self.at(st, self.content(st, o), k)
        if is_num(k) and (
            o.op in ("mcall", "gcall")
            or (o.op == "call" and o.args[0] in ("B.sample", "B.eig", "B.svd", "B.randn", "B.rand"))
        ):
            return at(o, k)
        return getitem(o, k)

    # comprehensions -------------------------------------------------------------

    def e_ListComp(self, e, st, fr):
        r = self.comp(e.generators, e.elt, st, fr, e)
        return self.alloc(st, "list", r)

    def e_SetComp(self, e, st, fr):
        r = self.comp(e.generators, e.elt, st, fr, e)
        return self.alloc(st, "set", r if r.op != "tuple" else mk_set(r.args))

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e.generators, e.elt, st, fr, e)

    def e_DictComp(self, e, st, fr):
        it = e.generators
        if len(it) == 1 and not it[0].ifs:
            seq = self.iter_of(self.ev(it[0].iter, st, fr), st)
            if seq is not None and seq[0] == "items":
                c = T("dnil")
                sub_ = self.frame(fr.func, fr.module, fr.cls, fr.fid)
                st.env[sub_.fid] = {}
                for x in seq[1]:
                    self.assign(it[0].target, x, st, sub_)
                    c = T("dset", c, self.dkey(self.ev(e.key, st, sub_)), self.ev(e.value, st, sub_))
                return self.alloc(st, "dict", c)
        return self.opq(st, "dict comprehension", e, fr)

    def comp(self, gens, elt, st, fr, node):
        sub_ = self.frame(fr.func, fr.module, fr.cls, fr.fid)
        st.env[sub_.fid] = {}
        sub_.exits = fr.exits
        return self._comp(gens, elt, st, sub_, node)

    def _comp(self, gens, elt, st, fr, node):
        g = gens[0]
        it = self.iter_of(self.ev(g.iter, st, fr), st)
        if it is None:
            return self.opq(st, "comprehension over unknown", node, fr)

        def body(x):
            if len(gens) == 1:
                return self.ev(elt, x, fr)
            return splat(self._comp(gens[1:], elt, x, fr, node))

        if it[0] == "items":
            out = []
            for item in it[1]:
                self.assign(g.target, item, st, fr)
                c = TRUE
                for f in g.ifs:
                    fc = self.truth(st, self.ev(f, st, fr))
                    self.note(st, "branch", [fc], f, fr)
                    c = conj(c, fc)
                c = self.decide(st, c)
                if c is FALSE:
                    continue
                if c is TRUE:
                    out.append(body(st))
                else:
                    x = st.copy()
                    x.assume(c)
                    v = body(x)
                    out.append(splat(ite(c, T("tuple", v), T("tuple"))))
            return mk_tuple(out)
        _, d, elem = it
        i = fresh("%c", "int")
        n0, t0 = len(st.log), len(st.trace)
        self.assign(g.target, elem(i), st, fr)
        c = TRUE
        for f in g.ifs:
            fc = self.truth(st, self.ev(f, st, fr))
            self.note(st, "branch", [fc], f, fr)
            c = conj(c, fc)
        heap0 = dict(st.heap)
        v = body(st)
        # Effects inside comprehensions.
        effs = st.log[n0:]
        if effs:
            del st.log[n0:]
            g0 = len(st.guard)
            for e in effs:
                st.log.append(
                    Effect(
                        st.guard,
                        "foreach",
                        (d, lam([i], T("eff", e.kind, conj(c, *e.guard[g0:]), e.args))),
                        e.loc,
                    )
                )
            for k in list(st.heap):
                if heap0.get(k) is not st.heap[k] and k in heap0:
                    self.taint(st, "comprehension changes a container", node, fr)
                if contains(k[1], i):
                    del st.heap[k]
        if v.op == "new" and base_type(ty(v)) in ("list", "tuple"):
            v = T("listv", self.content(st, v))
        elif v.op == "new" and base_type(ty(v)) in ("set", "frozenset"):
            v = self.content(st, v)
        if v.op == "splat":
            if c is not TRUE:
                return self.opq(st, "nested filtered comprehension", node, fr)
            return T("flatmap", d, lam([i], T("tuple", v)))
        if c is not TRUE:
            return mk_filter(d, lam([i], c), lam([i], v))
        return mk_map(d, lam([i], v))

    # attributes -----------------------------------------------------------------

    def e_Attribute(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        return self.getattr(o, e.attr, st, fr, e)

    def getattr(self, o, name, st, fr, node):
        op = o.op
        if op == "ite":
            return self.choose(
                self.decide(st, o.args[0]),
                st,
                lambda x: self.getattr(o.args[1], name, x, fr, node),
                lambda x: self.getattr(o.args[2], name, x, fr, node),
            )
        if op == "ext":
            full = o.args[0] + "." + name
            if full == "B.log_2_pi":
                return call("B.log", [mul(num(2), T("ext", "B.pi"))])
            return T("ext", full)
        if op == "noop":
            return T("noop", name)
        if op == "mod":
            r = self.prog.resolve(self.prog.modules[o.args[0]], name)
            return r if r is not None else self.opq(st, f"module attribute {name}", node, fr)
        if op == "cls":
            cls = o.args[0]
            v = st.heap.get(("f", o, name))
            if v is not None:
                return v
            c, fs = self.prog.find_method(cls, name)
            if fs:
                return T("unbound", cls, name)
            if self.prog.find_prop(cls, name)[1]:
                return T("propobj", cls, name)
            k, x = self.prog.find_attr(cls, name)
            if k is not None:
                if isinstance(x, ast.Constant) and x.value is None:
                    return T("field0", o, name)
                return self.eval_global(k.module, x)
            if name in ("resolve", "deliver", "__name__", "__new__"):
                return T("clsattr", cls, name)
            return self.opq(st, f"class attribute {name}", node, fr)
        if op == "super":
            cls, obj = o.args
            for c in self.prog.mro(cls)[1:]:
                k = self.prog.classes.get(c)
                if k and name in k.methods:
                    return T("bound", obj, name, c)
                if k and name in k.props:
                    return self.call_funcs([k.props[name]], obj, [], [], st, fr, node)
            return T("noop", name)
        if base_type(ty(o)) in LAZY and self.cfg.lazy_contract and name.startswith("_"):
            r = self.opq(st, f"internal field {name} of a lazy table", node, fr)
            self.lzfields[r] = (o, name)
            return r
        v = st.heap.get(("f", o, name))
        if v is not None:
            return v
        t = base_type(ty(o))
        if name == "__class__":
            return T("cls", t) if t in self.prog.classes else T("call", "builtins.type", (o,), ())
        if op == "rev" and False:
            pass
        if t in self.prog.classes and not (t in LAZY and self.cfg.lazy_contract):
            if op == "inst":
                r = self.inst_attr(o, name, st, fr, node)
                if r is not None:
                    return r
            c, f = self.prog.find_prop(t, name)
            if f is not None:
                if op != "new" and self.is_observer(t, name):
                    return self.observer(o, name)
                if op != "new" and "Normal" in supertypes(t) and name == "mean_var":
                    if not self.cfg.inline_observers:
                        return T("tuple", self.observer(o, "mean"), self.observer(o, "var"))
                r = self.call_funcs([f], o, [], [], st, fr, node)
                if f in self.prog.cached and not st.dead:
                    st.heap[("f", o, name)] = r
                return r
            c, fs = self.prog.find_method(t, name)
            if fs:
                return T("bound", o, name, c)
            k, x = self.prog.find_attr(t, name)
            if k is not None:
                # class attribute, possibly assigned since
                v = st.heap.get(("f", T("cls", k.name), name))
                if v is not None:
                    return v
                if isinstance(x, ast.Constant) and x.value is None:
                    return T("field0", T("cls", k.name), name)
                return self.eval_global(k.module, x)
            if name in KERNEL_METHODS and "Kernel" in supertypes(t):
                return T("attr", o, name)
            if op == "new":
                if st.taint is None and self.plain_fields(t, name):
                    self.do_raise(T("exc", "AttributeError"), st, fr, node)
                    return opaque("missing attribute")
                return self.opq(st, f"attribute {name} of a new {t} is not set", node, fr)
            if self.raw_field(t, name):
                return self.opq(st, f"internal field {name} of {t} read directly", node, fr)
            return T("field0", o, name)
        if t in LAZY:
            return T("bound", o, name, t)
        if t in ("list", "set", "dict", "frozenset", "tuple", "str") or op in (
            "tuple",
            "map",
            "filter",
            "fstr",
        ):
            return T("bound", o, name, t)
        if name == "T" and t not in ("Kernel", "Mean"):
            return tr(o)
        if name == "shape":
            return call("B.shape", [o])
        if name in ("dtype",) and t in ("Tensor", "Numeric", "AbstractMatrix"):
            return call("B.dtype", [o])
        if op == "opaque":
            return o
        return T("attr", o, name)

    RAW = ("_mean", "_var", "_var_diag", "_mean_is_zero", "_construct_")

    def raw_field(self, t, name):
        return "Normal" in supertypes(t) and name.startswith("_")

    def is_observer(self, t, name):
        if self.cfg.inline_observers and "Normal" in supertypes(t):
            return False
        return any(name in OBSERVERS.get(c, ()) for c in supertypes(t))

    def observer(self, o, name):
        if o.op == "inst" and o.args[0] == "Normal" and len(o.args) == 3:
            if name == "var" and o.args[2].op not in ("clo", "lam"):
                return o.args[2]
            if name == "mean" and o.args[1].op not in ("clo", "lam", "num"):
                return o.args[1]
        return attr(o, name)

    def inst_attr(self, o, name, st, fr, node):
        """Field of an immutable value object, read off its constructor."""
        cls = o.args[0]
        if cls in ("FDD",):
            if name == "p":
                return o.args[1]
            if name == "x":
                return o.args[2]
            if name == "noise":
                return attr(o, "noise")
        if cls in ("MultiOutputKernel", "MultiOutputMean"):
            if name == "measure":
                return o.args[1]
            if name == "ps":
                return norm_seq(T("tuple", *o.args[2:]))
            c, fs = self.prog.find_method(cls, "__init__")
            for f in fs or ():
                for n in ast.walk(f.node):
                    if (isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and len(n.targets) == 1
                            and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == name):
                        pos, var = [q[0] for q in f.params[0][1:]], f.params[1]
                        if n.value.id in pos:
                            return o.args[1 + pos.index(n.value.id)]
                        if var and n.value.id == (var if isinstance(var, str) else var[0]):
                            return norm_seq(T("tuple", *o.args[1 + len(pos):]))
        if "AbstractObservations" in supertypes(cls):
            if name in ("fdd", "y", "u"):
                return T("attr", o, name)
        return None

    # calls ------------------------------------------------------------------------

    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            f = self.lookup("super", st, fr)
            if f is not None and f.op == "ext":
                if not e.args:
                    selfname = fr.func.params[0][0][0] if fr.func else "self"
                    return T("super", fr.cls, st.env[fr.fid][selfname])
        f = self.ev(e.func, st, fr)
        args = self.elts(e.args, st, fr)
        kw = []
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                c = self.content(st, v)
                items = []
                while c.op == "dset":
                    items.append((c.args[1], c.args[2]))
                    c = c.args[0]
                if c.op == "dnil" and all(n.op == "const" for n, _ in items):
                    for n, x in reversed(items):
                        kw.append((n.args[1], x))
                elif c.op == "sym" or c.op == "content0":
                    kw.append(("**", v))
                else:
                    return self.opq(st, "keyword unpacking", e, fr)
            else:
                kw.append((k.arg, v))
        if st.dead:
            return opaque("dead")
        r = self.call(f, args, kw, st, fr, e)
        if r.op == "opaque" and not st.dead and self.may_act(f, args + [v for _, v in kw], st):
            self.taint(st, str(r.args[1] if len(r.args) > 1 else r.args[0]))
        return r

    def may_act(self, f, args, st):
        """Could a call that is not followed change something?"""
        if f.op != "ext":
            return True
        for a in args:
            for u in walk(a):
                if u.op in ("clo", "lam", "bound", "fn", "gf", "partial", "inst", "new", "listv"):
                    return True
                if base_type(ty(u)) in ("list", "dict", "set") and u.op in ("field0", "heap", "cont"):
                    return True
        return False

    def call(self, f, args, kw, st, fr, node):
        op = f.op
        if op == "ite":
            return self.choose(
                self.decide(st, f.args[0]),
                st,
                lambda x: self.call(f.args[1], args, kw, x, fr, node),
                lambda x: self.call(f.args[2], args, kw, x, fr, node),
            )
        if op == "opaque":
            return f
        if op == "ext":
            name = f.args[0]
            if name.startswith("builtins.") or name in PY_FUNCS:
                parts = name.split(".")
                if len(parts) == 3 and name != "builtins.dict.fromkeys" and args and args[0].op != "splat":
                    o = args[0]
                    if base_type(ty(o)) in ("list", "set", "frozenset", "dict", "tuple"):
                        return self.container_method(o, parts[2], args[1:], kw, st, fr, node)
                return self.builtin(name, args, kw, st, fr, node)
            return self.extcall(name, args, kw, st, fr, node)
        if op == "gf":
            return self.call_gf(f.args[0], args, kw, st, fr, node)
        if op == "fn":
            fn = self.prog.functions[f.args[0]]
            return self.inline(fn, None, args, kw, st, fr, node)
        if op == "clo":
            return self.call_closure(f, args, kw, st, fr, node)
        if op == "lam":
            if len(f.args[0]) == len(args) and not kw:
                return apply_lam(f, *args)
        if op == "partial":
            return self.call(f.args[0], list(f.args[1]) + args, list(f.args[2]) + kw, st, fr, node)
        if op == "bound":
            return self.call_bound(f, args, kw, st, fr, node)
        if op == "unbound":
            cls, name = f.args
            if not args:
                return self.opq(st, "unbound call", node, fr)
            c, fs = self.prog.find_method(cls, name)
            if fs[0].kind == "static":
                return self.inline(fs[0], None, args, kw, st, fr, node)
            return self.call_funcs(fs, args[0], args[1:], kw, st, fr, node)
        if op == "cls":
            return self.construct(f.args[0], args, kw, st, fr, node)
        if op == "clsattr":
            if f.args[1] == "resolve":
                return T("cls", f.args[0])
            return NONE
        if op == "noop":
            return NONE
        if op == "attr" or op == "field0":
            o, name = f.args
            k = base_type(ty(o))
            if not (op == "field0" and k in self.prog.classes) and base_type(ty(f)) == ANY:
                return self.method_ext(o, name, args, kw, st, fr, node)
        k = base_type(ty(f))
        if k in self.prog.classes:
            c, fs = self.prog.find_method(k, "__call__")
            if fs:
                return self.call_method_funcs(k, "__call__", fs, f, args, kw, st, fr, node)
        if "Kernel" in supertypes(k) or k == "Mean":
            if "Kernel" in supertypes(k):
                st.trace.append(("pairwise", f))
                if k in self.prog.classes and not kw:
                    r = self.kernel_in_package("mlkernels.pairwise", f, args, st, fr, node)
                    if r is not None:
                        return r
            return apply(f, *args) if not kw else T("callv", f, tuple(args), tuple(kw))
        if kw:
            return T("callv", f, tuple(args), tuple(sorted(kw)))
        return apply(f, *args)

    def kernel_in_package(self, name, k, args, st, fr, node):
        """Evaluate a kernel of the package by the methods that the package defines."""
        if name not in self.prog.gfs or len(args) not in (1, 2):
            return None
        return self.call_gf_ext(name, [k] + (args if len(args) == 2 else args * 2), [], st, fr, node)

    def method_ext(self, o, name, args, kw, st, fr, node):
        """Call of a method of a value of an external type."""
        k = base_type(ty(o))
        if "Kernel" in supertypes(k) or k == "Mean":
            if name == "elwise":
                st.trace.append(("elwise", o))
                if k in self.prog.classes and not kw:
                    r = self.kernel_in_package("mlkernels.elwise", o, args, st, fr, node)
                    if r is not None:
                        return r
                return call("mlkernels.elwise", [o] + args, kw)
            if name == "pairwise":
                return self.call(o, args, kw, st, fr, node)
            if name in ("shift", "stretch", "select", "transform", "diff") and not kw:
                return kmeth(name, o, args)
            if name == "__call__":
                return apply(o, *args)
        if name == "format" and o.op in ("const", "fstr"):
            return T("fstr", o, *args)
        if o.op == "opaque":
            return o
        self.note(st, "meth", [T("const", "str", name), o], node, fr)
        if k == ANY and folded(o) and not name.startswith("__") and any(name in c.methods for c in self.prog.classes.values()):
            # possibly an object of the package
            self.taint(st, f"method {name} of an object of unknown type", node, fr)
        if name in ("append", "add", "extend", "update", "pop", "remove", "insert", "clear", "discard", "setdefault", "sort", "reverse", "popitem", "fill", "put", "itemset"):
            # unknown mutable object
            self.effect(st, "mutate", [o], node, fr)
            if name not in ("fill", "put", "itemset"):
                self.taint(st, f"method {name} of an unknown object", node, fr)
        return T("meth", name, o, tuple(args), tuple(sorted(kw)))

    def call_bound(self, f, args, kw, st, fr, node):
        o, name, cls = f.args
        t = base_type(ty(o))
        if t in LAZY and self.cfg.lazy_contract:
            return self.lz_method(o, name, args, kw, st, fr, node)
        if cls in self.prog.classes:
            if cls != t and cls in supertypes(t) and self.prog.find_method(t, name)[0] != cls:
                # explicit base-class call through super()
                fs = self.prog.classes[cls].methods[name]
                return self.call_funcs(fs, o, args, kw, st, fr, node)
            c, fs = self.prog.find_method(t if t in self.prog.classes else cls, name)
            return self.call_method_funcs(t, name, fs, o, args, kw, st, fr, node)
        return self.container_method(o, name, args, kw, st, fr, node)

    def contract_of(self, t, name, table):
        return any(name in table.get(c, ()) for c in supertypes(t))

    def call_method_funcs(self, t, name, fs, o, args, kw, st, fr, node):
        """Call a method of an in-package object: inline it or keep it symbolic."""
        q = (t, name)
        if fs[0].kind == "static":
            return self.inline(fs[0], None, args, kw, st, fr, node)
        contract = self.contract_of(t, name, CONTRACT)
        if name == "__call__" and (t == "GP" or (args and base_type(ty(args[0])) == "FDD")):
            # Evaluating a process, and applying a measure to a distribution, are defined
            # by their parts.
            contract = False
        sym_ = False
        if contract:
            if any((c, name) in self.cfg.inline_methods for c in supertypes(t)):
                sym_ = False
            elif any((c, name) in self.cfg.opaque_methods for c in supertypes(t)):
                sym_ = True
            elif o in self.cfg.self_objs or o.op == "new":
                same = name in self.cfg.entry_methods
                sym_ = not (
                    same
                    or self.contract_of(t, name, INLINE_SELF)
                    or (o.op == "new" and o not in self.cfg.self_objs)
                )
            else:
                sym_ = True
        if sym_:
            return self.mcall(o, name, fs, args, kw, st, fr, node)
        return self.call_funcs(fs, o, args, kw, st, fr, node)

    def mcall(self, o, name, fs, args, kw, st, fr, node):
        t = base_type(ty(o))
        args, kw = self.canon_args(fs, args, kw, st, o)
        args = [idstrip(a) for a in args]
        kw = [(k, idstrip(v)) for k, v in kw]
        r = T("mcall", o, name, tuple(args), tuple(sorted(kw)))
        pure = (t, name) in PURE or any((c, name) in PURE for c in supertypes(t))
        if name == "__call__" and t == "Measure":
            # new processes are created; every application is a distinct one
            self.effect(st, "mcall", [o, T("const", "str", name), T("tuple", *args)], node, fr)
            return r
        if not pure:
            self.effect(st, "mcall", [o, T("const", "str", name), T("tuple", *args)] + [T("tuple", const(k), v) for k, v in sorted(kw)], node, fr)
        return r

    def canon_args(self, fs, args, kw, st, o=None):
        """Bind keywords to positions where all overloads agree; drop given defaults."""
        if len(fs) >= 1 and kw:
            f = fs[0]
            pos = f.params[0][1:]
            agree = all([p[0] for p in g.params[0][1:]] == [p[0] for p in pos] for g in fs)
            if not agree and o is not None and not any(a.op == "splat" for a in args):
                f = self.select(fs, o, args, kw)
                agree = f is not None and f is not False
                pos = f.params[0][1:] if agree else pos
            if agree:
                args = list(args)
                kw = dict(kw)
                while len(args) < len(pos) and pos[len(args)][0] in kw:
                    args.append(kw.pop(pos[len(args)][0]))
                kw = list(kw.items())
        return list(args), list(kw)

    # dispatch ---------------------------------------------------------------------

    def annot_types(self, ann, module):
        """Types an annotation allows."""
        if ann is None:
            return {ANY}
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.annot_types(ast.parse(ann.value, mode="eval").body, module)
                except SyntaxError:
                    return {"?"}
            if ann.value is None:
                return {"NoneType"}
            return {"?"}
        if isinstance(ann, ast.Subscript):
            b = ann.value
            n = b.id if isinstance(b, ast.Name) else getattr(b, "attr", "?")
            if n in ("Union", "Optional"):
                es = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                out = set()
                for x in es:
                    out |= self.annot_types(x, module)
                if n == "Optional":
                    out.add("NoneType")
                return out
            return self.annot_types(b, module)
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.annot_types(ann.left, module) | self.annot_types(ann.right, module)
        if isinstance(ann, ast.Call):
            if isinstance(ann.func, ast.Name) and ann.func.id == "type":
                return {"NoneType"}
            return {"?"}
        r = self.prog.resolve_expr(module, ann) if module is not None else None
        if r is not None:
            return {self.type_name(r)}
        if isinstance(ann, ast.Name):
            if ann.id in ("tuple", "list", "dict", "set", "int", "float", "str", "bool", "object", "reversed", "frozenset", "type"):
                return {ann.id}
        return {"?"}

    def type_name(self, r):
        if r.op == "cls":
            return r.args[0]
        if r.op == "ext":
            n = r.args[0]
            if n in EXT_TYPES:
                return EXT_TYPES[n]
            if n.startswith("builtins."):
                return {"builtins.reversed": "reversed"}.get(n, n[9:])
            return n
        return "?"

    def arg_ok(self, t, types):
        """Does a term satisfy an annotation? True / False / None."""
        k = ty(t)
        k = base_type(k)
        if k == "Numeric?":
            # an arithmetic result: numeric or structured matrix
            if ANY in types:
                return True
            rs = {subtype("Numeric", a) for a in types} | {subtype("AbstractMatrix", a) for a in types}
            if "Numeric" in types and "AbstractMatrix" in types:
                return True
            return None if True in rs or None in rs else False
        if k == "opaque":
            return None
        rs = [self._sub(k, a) for a in types]
        if t.op in ("new", "inst") and k in self.prog.classes or k == "Kernel" and self.cfg.plain_kernels:
            # the class is known exactly
            rs = [False if r is None and a in self.prog.classes else r for r, a in zip(rs, types)]
        if True in rs:
            return True
        if None in rs:
            return None
        return False

    def _sub(self, k, a):
        if a == "?":
            return None
        if k == "FunctionType" and a == "FunctionType":
            return True
        if a == "Tensor" or a == "Numeric":
            return subtype(k, "Numeric")
        if k.startswith("reversed"):
            return a in ("reversed", ANY)
        if "." in a and k in ("Tensor", "Numeric", "Scalar", "AbstractMatrix", "Kernel", "Mean", "RandomState", "dtype"):
            return None  # a class of another library that nothing is known about
        return subtype(k, a)

    def select(self, fs, obj, args, kw):
        """Pick the overload plum would pick; None if that cannot be decided."""
        if len(fs) == 1:
            return fs[0]
        skip = 1 if obj is not None else 0
        cands = []
        for f in fs:
            pos, var, kwonly, kwvar = f.params
            pos = pos[skip:]
            names = [p[0] for p in pos]
            n_required = len([p for p in pos if p[2] is None])
            splats = [a for a in args if a.op == "splat"]
            if not splats:
                n = len(args)
                if n > len(pos) and not var:
                    continue
                # positional parameters may only be missing if they have a default
                # (plum generates methods for those)
                if n < n_required:
                    continue
                ok = True
                for i, a in enumerate(args):
                    if i < len(pos):
                        r = self.arg_ok(a, self.annot_types(pos[i][1], f.module))
                    else:
                        r = self.arg_ok(a, self.annot_types(var[1], f.module))
                    if r is False:
                        ok = False
                        break
                    if r is None:
                        ok = None
                if ok is False:
                    continue
                if ok is None and {k for k, _ in kw} & set(names[: len(args)]):
                    ok = "twice"  # an argument would be given twice
                cands.append((f, ok, len(pos)))
            else:
                ok = True
                k = 0
                for a in args:
                    if a.op == "splat":
                        et = elem_type(a.args[0])
                        if k < len(pos):
                            ok = None
                            if not var:
                                # a splat that exactly fills up is possible
                                pass
                        if var is not None:
                            r = self._sub_any(et, self.annot_types(var[1], f.module))
                            if r is False:
                                ok = False
                                break
                            if r is None:
                                ok = None
                        # Required parameters have to be filled from the sequence.
                        for p in pos[k:n_required]:
                            if self._sub_any(et, self.annot_types(p[1], f.module)) is False:
                                ok = False
                        if ok is False:
                            break
                        continue
                    if k < len(pos):
                        r = self.arg_ok(a, self.annot_types(pos[k][1], f.module))
                    elif var:
                        r = self.arg_ok(a, self.annot_types(var[1], f.module))
                    else:
                        r = False
                    k += 1
                    if r is False:
                        ok = False
                        break
                    if r is None:
                        ok = None if ok is not False else ok
                if ok is False:
                    continue
                cands.append((f, ok, len(pos)))
        cands = [c for c in cands if c[1] != "twice"] or [(f, None if ok == "twice" else ok, n) for f, ok, n in cands]
        if not cands:
            return False
        if len(cands) == 1:
            return cands[0][0]
        definite = [c for c in cands if c[1]]
        if not definite:
            return None
        best = self.most_specific([c[0] for c in definite], skip, len(args))
        if best is None:
            return None
        for f, ok, _ in cands:
            if not ok and not self.more_specific(best, f, skip, len(args)):
                # An ambiguity between the two would be resolved by precedence.
                if best.precedence > f.precedence and not self.more_specific(f, best, skip, len(args)):
                    continue
                return None
        return best

    def _sub_any(self, k, types):
        rs = [self._sub(base_type(k), a) for a in types]
        return True if True in rs else None if None in rs else False

    def most_specific(self, fs, skip, n):
        mx = max(f.precedence for f in fs)
        out = []
        for f in fs:
            if all(g is f or self.more_specific(f, g, skip, n) for g in fs):
                out.append(f)
        if len(out) == 1:
            return out[0]
        if not out:
            # The candidates that no other candidate is strictly more specific than.
            low = [
                f
                for f in fs
                if not any(
                    g is not f
                    and self.more_specific(g, f, skip, n)
                    and not self.more_specific(f, g, skip, n)
                    for g in fs
                )
            ]
            fs = low or fs
            mx = max(f.precedence for f in fs)
        top = [f for f in (out or fs) if f.precedence == mx]
        if len(top) == 1:
            return top[0]
        # later definitions replace equal signatures
        if out:
            return out[-1]
        return None

    def more_specific(self, f, g, skip, n):
        """Is the signature of f at least as specific as that of g on n arguments?"""
        pf, vf, _, _ = f.params
        pg, vg, _, _ = g.params
        pf, pg = pf[skip:], pg[skip:]
        for i in range(n):
            a = pf[i][1] if i < len(pf) else (vf[1] if vf else None)
            b = pg[i][1] if i < len(pg) else (vg[1] if vg else None)
            ta, tb = self.annot_types(a, f.module), self.annot_types(b, g.module)
            for x in ta:
                if not any((y == ANY) or (x == y) or subtype(x, y) is True for y in tb):
                    return False
        if n >= len(pf) and vf and not vg:
            return False
        return True

    def call_gf(self, name, args, kw, st, fr, node, ext=False):
        fs = self.prog.gfs.get(name, [])
        if name in self.cfg.opaque_gfs:
            return self.gcall(name, args, kw)
        f = self.select(fs, None, args, kw)
        if ext and f is not None and f is not False and len(fs) == 1:
            # the in-package method only applies if its types definitely match
            pos = f.params[0]
            if not all(
                self.arg_ok(a, self.annot_types(p[1], f.module)) is True
                for a, p in zip(args, pos)
            ) or len(args) > len(pos):
                f = False
        elif ext and f is not None and f is not False:
            pos = f.params[0]
            if len(args) > len(pos) or not all(
                self.arg_ok(a, self.annot_types(p[1], f.module)) is True
                for a, p in zip(args, pos)
            ):
                f = None
        if f is None:
            return T("gcall", name, tuple(args), tuple(sorted(kw)))
        if f is False:
            if ext:
                return None
            # plum raises NotFoundLookupError
            x = st.copy()
            self.do_raise(T("exc", "NotFoundLookupError"), x, fr, node)
            st.dead = True
            return opaque("no applicable method")
        if self.recursing(f):
            return T("gcall", name, tuple(args), tuple(sorted(kw)))
        return self.inline(f, None, args, kw, st, fr, node)

    def gcall(self, name, args, kw):
        """Symbolic call of a function of the package."""
        if name == "combine" and args and not kw:
            ks = {base_type(elem_type(a.args[0]) if a.op == "splat" else ty(a)) for a in args}
            if ks == {"tuple"}:
                return T("tuple", T("gcall", "combine.0", tuple(args), ()), T("gcall", "combine.1", tuple(args), ()))
        return T("gcall", name, tuple(args), tuple(sorted(kw)))

    def recursing(self, f):
        return self.callstack.count(f) >= 1

    def call_funcs(self, fs, o, args, kw, st, fr, node):
        if fs[0].kind == "static":
            return self.inline(fs[0], None, args, kw, st, fr, node)
        f = fs[0] if len(fs) == 1 and not fs[0].dispatch else self.select(fs, o, args, kw)
        if f is None:
            self.taint(st, f"the method of {fs[0].name} that applies", node, fr)
            return self.mcall(o, fs[0].name, fs, args, kw, st, fr, node)
        if f is False:
            x = st.copy()
            self.do_raise(T("exc", "NotFoundLookupError"), x, fr, node)
            st.dead = True
            return opaque("no applicable method")
        if f.kind == "decorated":
            return self.call_decorated(f, [o] + args, kw, st, fr, node)
        if self.callstack.count(f) >= 4 or len(self.callstack) > MAX_DEPTH:
            return self.mcall(o, fs[0].name, fs, args, kw, st, fr, node)
        if f in self.callstack and "Normal" in supertypes(base_type(ty(o))) and f.name == "logpdf":
            return self.mcall(o, f.name, fs, args, kw, st, fr, node)
        return self.inline(f, o, args, kw, st, fr, node)

    def bind(self, f, o, args, kw, st, fr, node, defs=None, kwdefs=None):
        """Bind arguments to parameters; returns dict or None."""
        if isinstance(f, Func):
            pos, var, kwonly, kwvar = f.params
        else:
            a = f.args
            p = a.posonlyargs + a.args
            d = [None] * (len(p) - len(defs)) + list(defs)
            pos = [(x.arg, None, y) for x, y in zip(p, d)]
            var = (a.vararg.arg, None) if a.vararg else None
            kwonly = [(x.arg, None, y) for x, y in zip(a.kwonlyargs, kwdefs)]
            kwvar = a.kwarg.arg if a.kwarg else None
        out = {}
        args = list(args)
        if o is not None:
            args = [o] + args
        kw = dict(kw)
        k = 0
        i = 0
        while i < len(pos):
            name = pos[i][0]
            if k < len(args):
                x = args[k]
                if x.op == "splat":
                    # take as many as are needed
                    s = x.args[0]
                    rest_args = args[k + 1 :]
                    if rest_args and not var:
                        return None
                    need = [q for q in pos[i:] if q[0] not in kw]
                    for n, q in enumerate(need):
                        out[q[0]] = self.at(st, s, num(n))
                    if var:
                        out[var[0]] = norm_seq(
                            mk_tuple([splat(sslice(s, num(len(need)), NONE))] + rest_args)
                        )
                    k = len(args)
                    i = len(pos)
                    for q in pos:
                        if q[0] in kw:
                            out[q[0]] = kw.pop(q[0])
                    break
                out[name] = x
                k += 1
            elif name in kw:
                out[name] = kw.pop(name)
            elif pos[i][2] is not None:
                out[name] = pos[i][2]
            else:
                return None
            i += 1
        if k < len(args):
            if not var:
                return None
            out[var[0]] = norm_seq(mk_tuple(args[k:]))
        elif var and var[0] not in out:
            out[var[0]] = T("tuple")
        for name, _, d in kwonly:
            if name in kw:
                out[name] = kw.pop(name)
            elif d is not None:
                out[name] = d
            elif "**" in kw:
                out[name] = T("kwget", kw["**"], const(name))
            else:
                return None
        if kwvar:
            c = T("dnil")
            for n, v in kw.items():
                if n == "**":
                    if len(kw) == 1:
                        out[kwvar] = v
                        break
                    return None
                c = T("dset", c, const(n), v)
            else:
                out[kwvar] = self.alloc(st, "dict", c)
        elif kw and set(kw) != {"**"}:
            return None
        return out

    def inline(self, f, o, args, kw, st, fr, node):
        if f.kind == "decorated":
            return self.call_decorated(f, args if o is None else [o] + args, kw, st, fr, node)
        if len(self.callstack) > MAX_DEPTH or self.callstack.count(f) >= 6:
            return self.opq(st, f"recursion in {f.qual}", node, fr)
        nf = self.frame(f, f.module, f.cls)
        nf.node = node
        b = self.bind(f, o, args, kw, st, nf, node)
        if b is None:
            x = st.copy()
            self.do_raise(T("exc", "TypeError"), x, fr, node)
            st.dead = True
            return opaque(f"arguments of {f.qual} do not bind at {self.loc(node, fr)}")
        st.env[nf.fid] = {}
        for n, v in b.items():
            if isinstance(v, ast.AST):
                v = self.default(f, v)
            st.env[nf.fid][n] = v
        self.visited.add(f)
        self.callstack.append(f)
        try:
            return self.run_body(f.node.body, nf, st, fr)
        finally:
            self.callstack.pop()

    def call_decorated(self, f, args, kw, st, fr, node):
        """Call what the decorators make of a function."""
        if len(self.callstack) > MAX_DEPTH or self.callstack.count(f) >= 4:
            return self.opq(st, f"recursion in {f.qual}", node, fr)
        mf = self.frame(f, f.module, f.cls)
        st.env[mf.fid] = {}
        v = self.closure(f.node, st, mf)
        for d in reversed(f.node.decorator_list):
            name = d.func if isinstance(d, ast.Call) else d
            name = name.id if isinstance(name, ast.Name) else getattr(name, "attr", "")
            if name in ("_dispatch", "dispatch", "multi", "extend"):
                continue
            v = self.call(self.ev(d, st, mf), [v], [], st, fr, d)
        if v.op not in ("clo", "fn", "partial", "lam", "bound"):
            return self.opq(st, f"decorated function {f.qual}", node, fr)
        self.visited.add(f)
        self.callstack.append(f)
        try:
            return self.call(v, args, kw, st, fr, node)
        finally:
            self.callstack.pop()

    def default(self, f, e):
        return self.eval_global(f.module, e)

    def call_closure(self, t, args, kw, st, fr, node):
        cnode, pfid, module, cls, defs, kwdefs = self.clos[t.args[0]]
        if len(self.callstack) > MAX_DEPTH or self.callstack.count(t) >= 3:
            return self.opq(st, "recursive closure", node, fr)
        pf = self.frames[pfid]
        nf = self.frame(pf.func, module, cls, pfid)
        nf.node = node
        b = self.bind(cnode, None, args, kw, st, nf, node, defs, kwdefs)
        if b is None:
            x = st.copy()
            self.do_raise(T("exc", "TypeError"), x, fr, node)
            st.dead = True
            return opaque(f"arguments of a closure do not bind at {self.loc(node, fr)}")
        st.env[nf.fid] = b
        self.callstack.append(t)
        try:
            if isinstance(cnode, ast.Lambda):
                n = len(nf.exits)
                v = self.ev(cnode.body, st, nf)
                self.raise_up(nf, fr)
                return v
            return self.run_body(cnode.body, nf, st, fr)
        finally:
            self.callstack.pop()

    def raise_up(self, nf, fr):
        for e in nf.exits:
            if e[0] == "raise":
                fr.exits.append(e)
        nf.exits = [e for e in nf.exits if e[0] != "raise"]

    def run_body(self, body, nf, st, fr):
        base = st.copy()
        y = _YIELDS.get(id(body))
        if y is None:
            y = _YIELDS[id(body)] = (body, not self._yields_only_nested(body))
        if y[1]:
            return self.generator(body, nf, st, fr)
        self.block(body, st, nf)
        if not st.dead:
            nf.exits.append(("return", NONE, st.copy()))
        rets = [e for e in nf.exits if e[0] == "return"]
        for e in nf.exits:
            if e[0] == "raise":
                fr.exits.append(e)
        if not rets:
            st.dead = True
            return opaque("no normal exit")
        if len(rets) == 1:
            v, x = rets[0][1], rets[0][2]
            st.become(x)
            st.dead = False
            return v
        n = len(base.guard)
        v, x = rets[-1][1], rets[-1][2]
        for _, v2, x2 in reversed(rets[:-1]):
            c = conj(*x2.guard[n:])
            v = ite(c, v2, v)
            x = self.join(base, c, x2, x)
        st.become(x)
        st.dead = False
        return v

    def _yields_only_nested(self, body):
        def scan(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return False
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
            return any(scan(c) for c in ast.iter_child_nodes(n))

        return not any(scan(s) for s in body)

    def generator(self, body, nf, st, fr):
        """A generator function: woven into the loop that consumes it, or else the list of what
        it yields."""
        if self.consumer is not None and self.consumer[0].iter is nf.node and self.consumer[1] is fr:
            w = self.weave(body, nf, st, *self.consumer)
            if w is not None:
                self.wovens.append(w)
                return T("woven", len(self.wovens) - 1)
        if any(isinstance(n, (ast.Lambda, ast.FunctionDef)) for s in body for n in ast.walk(s)):
            self.taint(st, "functions made by a generator")
        base = st.copy()
        acc = self.alloc(st, "list", T("tuple"))
        st.env[nf.fid]["%yield"] = acc
        self.block(body, st, nf)
        if not st.dead:
            nf.exits.append(("return", NONE, st.copy()))
        self.raise_up(nf, fr)
        rets = [e for e in nf.exits if e[0] == "return"]
        if not rets:
            st.dead = True
            return opaque("no normal exit")
        n = len(base.guard)
        v, x = self.content(rets[-1][2], acc), rets[-1][2]
        for _, _, x2 in reversed(rets[:-1]):
            c = conj(*x2.guard[n:])
            v = ite(c, self.content(x2, acc), v)
            x = self.join(base, c, x2, x)
        st.become(x)
        st.dead = False
        return v

    def weave(self, body, nf, st, s, fr):
        """The body of a generator with the body of the consuming loop in place of the yields."""
        if s.orelse or nf.module is not fr.module or nf.parent not in (None, fr.fid):
            return None
        names, inner = set(st.env[nf.fid]), set()

        def scan(n, nested):
            if isinstance(n, (ast.Return, ast.Nonlocal, ast.Global, ast.Await, ast.ExceptHandler, ast.ClassDef)) and not (
                nested and isinstance(n, ast.Return)
            ):
                return False
            if isinstance(n, (ast.Yield, ast.YieldFrom)) and nested:
                return False
            if isinstance(n, ast.Name) and n.id == "super":
                return False
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not nested:
                names.add(n.id)
            if isinstance(n, ast.FunctionDef):
                (inner if nested else names).add(n.name)
            if isinstance(n, ast.arg):
                inner.add(n.arg)
            deep = nested or isinstance(n, (ast.FunctionDef, ast.Lambda))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and nested:
                inner.add(n.id)
            return all(scan(c, deep) for c in ast.iter_child_nodes(n))

        if not all(scan(b, False) for b in body) or names & inner:
            return None
        if not all(isinstance(n, str) and not n.startswith("%") for n in st.env[nf.fid]):
            return None
        own = set(st.env[fr.fid]) | set(self.assigned(s.body + [ast.Expr(s.target)]))
        free = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name)} - names
        if nf.parent is None and free & own:
            return None

        def leaves(stmts):
            """Does the consuming body break or continue the loop itself?"""
            out = set()
            for x in stmts:
                if isinstance(x, (ast.Break, ast.Continue)):
                    out.add(type(x))
                elif isinstance(x, (ast.For, ast.While)):
                    out |= leaves(x.orelse)
                elif not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    for f in ("body", "orelse", "finalbody"):
                        out |= leaves(getattr(x, f, []) or [])
                    for h in getattr(x, "handlers", []):
                        out |= leaves(h.body)
            return out

        def has_yield(x):
            return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(x))

        lv = leaves(s.body)
        if lv:
            loop = body[-1]
            if not isinstance(loop, (ast.For, ast.While)) or loop.orelse or any(has_yield(b) for b in body[:-1]):
                return None

            def tail(stmts):
                if any(has_yield(x) for x in stmts[:-1]):
                    return False
                x = stmts[-1] if stmts else None
                if x is None or not has_yield(x) or isinstance(x, ast.Expr):
                    return not isinstance(x, ast.Expr) or not isinstance(x.value, ast.YieldFrom)
                return isinstance(x, ast.If) and tail(x.body) and tail(x.orelse)

            if not tail(loop.body):
                return None
        prefix = f"%g{nf.fid}:"

        class Weaver(ast.NodeTransformer):
            ok = True

            def visit_Name(self, n):
                if n.id in names:
                    return ast.copy_location(ast.Name(id=prefix + n.id, ctx=n.ctx), n)
                return n

            def visit_FunctionDef(self, n):
                n = self.generic_visit(n)
                if n.name in names:
                    n.name = prefix + n.name
                return n

            def visit_Expr(self, n):
                y = n.value
                if isinstance(y, ast.Yield):
                    v = self.visit(y.value) if y.value else ast.Constant(value=None)
                    a = ast.copy_location(ast.Assign(targets=[s.target], value=v), n)
                    return [ast.fix_missing_locations(a)] + s.body
                if isinstance(y, ast.YieldFrom):
                    f = ast.copy_location(
                        ast.For(target=s.target, iter=self.visit(y.value), body=s.body, orelse=[], type_comment=None), n
                    )
                    return ast.fix_missing_locations(f)
                return self.generic_visit(n)

            def visit_Yield(self, n):
                self.ok = False
                return n

            visit_YieldFrom = visit_Yield

        w = Weaver()
        out = []
        for b in body:
            r = w.visit(copy.deepcopy(b))
            out.extend(r if isinstance(r, list) else [r])
        if not w.ok:
            return None
        for n, v in st.env[nf.fid].items():
            st.env[fr.fid][prefix + n] = v
        return out

    def e_Yield(self, e, st, fr):
        acc = st.env[fr.fid].get("%yield")
        v = self.ev(e.value, st, fr) if e.value else NONE
        if acc is None:
            return self.opq(st, "yield", e, fr)
        self.set_content(st, acc, concat_seq(self.content(st, acc), T("tuple", v)))
        return NONE

    # construction -----------------------------------------------------------------

    def construct(self, cls, args, kw, st, fr, node):
        k = self.prog.classes.get(cls)
        if k is None:
            return self.opq(st, f"unknown class {cls}", node, fr)
        if any(b.endswith("Exception") or b in ("UserWarning", "RuntimeError") for b in k.bases):
            return T("exc", cls)
        if cls in LAZY and self.cfg.lazy_contract:
            o = self.new(cls, st)
            st.heap[("lz", o)] = T("lznil", o)
            return o
        if cls in VALUE_CLASSES and cls not in self.cfg.inline_ctors:
            return self.value(cls, args, kw, st, fr, node)
        o = self.new(cls, st)
        c, fs = self.prog.find_method(cls, "__init__")
        if fs:
            self.call_funcs(fs, o, args, kw, st, fr, node)
        return o

    def value(self, cls, args, kw, st, fr, node):
        if cls == "FDD" and not kw or cls == "FDD":
            kwd_ = dict(kw)
            a = list(args)
            for n in ("p", "x", "noise")[len(a) :]:
                if n in kwd_:
                    a.append(kwd_.pop(n))
                else:
                    break
            if kwd_ or any(x.op == "splat" for x in a):
                return T("callv", T("cls", cls), tuple(args), tuple(sorted(kw)))
            if len(a) == 2:
                a.append(NONE)
            return T("inst", cls, *a)
        if cls == "Normal":
            kwd_ = dict(kw)
            a = list(args)
            if not kwd_ and len(a) == 1:
                a = [ZERO] + a
            elif not a and set(kwd_) == {"mean", "var"}:
                a = [kwd_["mean"], kwd_["var"]]
                kwd_ = {}
            if not kwd_:
                return T("inst", cls, *a)
            return T("callv", T("cls", cls), tuple(args), tuple(sorted(kw)))
        if kw:
            c, fs = self.prog.find_method(cls, "__init__")
            if fs:
                args, kw = self.canon_args(fs, args, kw, st, o)
            if kw:
                return T("callv", T("cls", cls), tuple(args), tuple(sorted(kw)))
        return T("inst", cls, *args)

    # external calls -----------------------------------------------------------------

    def extcall(self, name, args, kw, st, fr, node):
        if name in self.prog.gfs:
            r = self.call_gf_ext(name, args, kw, st, fr, node)
            if r is not None:
                return r
        # Constructors of containers and iterators of other libraries.
        st.trace.append((name, T("tuple", *args)))
        self.note(st, "ext", [T("const", "str", name), T("tuple", *args, *[v for _, v in kw])], node, fr)
        if name == "B.set_global_random_state":
            self.effect(st, "extcall", [T("const", "str", name)] + args, node, fr)
            return NONE
        if name.startswith("B.random.") or name in ("B.seed",):
            self.effect(st, "extcall", [T("const", "str", name)] + args, node, fr)
        if name.startswith("operator."):
            n = name[9:].strip("_")
            n = {"truth": "bool"}.get(n, n)
            if len(args) == 2 and n in OPERATORS and not kw:
                op = OPERATORS[n]
                if isinstance(op, ast.operator):
                    return self.binop(op, args[0], args[1], st, fr, node)
                return self.compare(op, args[0], args[1], st, fr, node)
            if len(args) == 1 and n in ("neg", "not", "pos", "abs", "bool"):
                if n == "neg":
                    return self.unary("__neg__", args[0], st, fr, node)
                if n == "not":
                    return neg_c(self.truth(st, args[0]))
                if n in ("abs", "bool"):
                    return self.builtin(n, args, kw, st, fr, node)
        if name.split(".")[0] in ("logging", "warnings"):
            return T("noop", name)
        if not known_ext(name):
            if name.split(".")[0] in ("typing",):
                return T("call", name, tuple(args), tuple(sorted(kw)))
            return opaque(f"unfamiliar function {name} at {self.loc(node, fr)}")
        # gated arguments of arithmetic are lifted where needed later
        args = [self.content_arg(a, st) for a in args]
        return call(name, args, kw)

    def content_arg(self, a, st):
        """Lists passed to libraries count by their contents."""
        if a.op == "new" and base_type(ty(a)) in ("list",):
            return T("listv", self.deep_content(self.content(st, a), st))
        if a.op == "splat":
            return splat(self.deep_content(a.args[0], st))
        return a

    def deep_content(self, c, st):
        if c.op == "tuple":
            return T("tuple", *[self.content_arg(x, st) for x in c.args])
        return c

    def call_gf_ext(self, name, args, kw, st, fr, node):
        fs = self.prog.gfs[name]
        f = self.select(fs, None, args, kw)
        if f is None or f is False:
            return None
        pos = f.params[0]
        if len(args) > len(pos) or any(a.op == "splat" for a in args):
            return None
        for a, p in zip(args, pos):
            if self.arg_ok(a, self.annot_types(p[1], f.module)) is not True:
                return None
        if name in self.cfg.opaque_gfs:
            return None
        if self.callstack.count(f) >= 2:
            return None
        return self.inline(f, None, args, kw, st, fr, node)

    # builtins ------------------------------------------------------------------------

    def builtin(self, name, args, kw, st, fr, node):
        n = name[9:] if name.startswith("builtins.") else name
        kwd_ = dict(kw)
        if not kw and len(args) < LEAST_ARGS.get(n, 0) and not any(a.op == "splat" for a in args):
            self.do_raise(T("exc", "TypeError"), st, fr, node)
            return opaque("missing arguments")
        if any(a.op == "splat" for a in args) and n not in ("zip", "max", "min", "print") and not n.startswith(
            ("set.", "frozenset.")
        ):
            if n in ("list", "tuple") and False:
                pass
            return self.opq(st, f"{n}(*...)", node, fr)
        if n == "len" and len(args) == 1:
            k = base_type(ty(args[0]))
            if k in ("Tensor", "Numeric", "AbstractMatrix"):
                return call("B.shape", [args[0], ZERO])
            if args[0].op == "call" and args[0].args[0] == "B.shape" and len(args[0].args[1]) == 1:
                return call("B.rank", [args[0].args[1][0]])
            return self.length(st, self.as_seq(args[0], st))
        if n == "sum":
            start = args[1] if len(args) > 1 else kwd_.get("start", ZERO)
            c = self.as_seq(args[0], st)
            return self.sum_seq(c, start, st, fr, node)
        if n in ("all", "any"):
            return self.quantify(n, self.as_seq(args[0], st), st)
        if n == "map":
            return self.map_(args, st, fr, node)
        if n == "filter":
            f = args[0]
            it = self.iter_of(args[1], st)
            if it is None:
                return self.opq(st, "filter", node, fr)
            if it[0] == "items":
                out = []
                for x in it[1]:
                    c = self.decide(st, self.filter_cond(f, x, st, fr, node))
                    if c is TRUE:
                        out.append(x)
                    elif c is not FALSE:
                        out.append(splat(ite(c, T("tuple", x), T("tuple"))))
                return mk_tuple(out)
            i = fresh("%f", "int")
            x = it[2](i)
            c = self.filter_cond(f, x, st, fr, node)
            return mk_filter(it[1], lam([i], c), lam([i], x))
        if n == "zip":
            seqs = []
            for a in args:
                if a.op == "splat":
                    return self.transpose_zip(args, st, fr, node)
                seqs.append(self.as_seq(a, st))
            return T("zipseq", *seqs)
        if n == "enumerate":
            return T("enumseq", self.as_seq(args[0], st), args[1] if len(args) > 1 else kwd_.get("start", ZERO))
        if n == "range":
            if len(args) == 1:
                return T("range", args[0])
            if len(args) == 2 and args[0] is ZERO:
                return T("range", args[1])
            if len(args) == 2 and all(is_num(a) for a in args):
                return T("tuple", *[num(k) for k in range(int(numval(args[0])), int(numval(args[1])))])
            if len(args) == 2:
                ln = sub(args[1], args[0])
                i = fresh("%r", "int")
                if args[0] is ONE and args[1].op == "len":
                    s = args[1].args[0]
                    return mk_map(dom(sslice(s, ONE, NONE)), lam([i], add(i, ONE)))
                return T("map", T("dom", T("range", ln)), lam([i], add(i, args[0])))
            return self.opq(st, "range", node, fr)
        if n in ("list", "tuple", "set", "frozenset", "iter", "sorted"):
            if n == "sorted":
                return self.sorted_(args, dict(kw), st, fr, node)
            if not args:
                return T("tuple") if n == "tuple" else self.alloc(st, n if n != "iter" else "list", T("tuple") if n == "list" else T("set"))
            c = self.as_seq(args[0], st)
            if has_opaque(c) and base_type(ty(args[0])) == "dict":
                return self.opq(st, f"{n} of a dict", node, fr)
            if n in ("tuple", "iter"):
                return norm_seq(c) if c.op in ("tuple", "map", "filter", "sslice", "content0", "flatmap") or ty(args[0]).startswith("tuple") else T("tuple", splat(c))
            if n == "list":
                return self.alloc(st, "list", c if c.op in ("tuple",) else norm_seq(T("tuple", splat(c))))
            return self.alloc(st, n, mk_set(list(c.args)) if c.op in ("tuple", "set") else mk_set([splat(c)]))
        if n in ("set.intersection", "frozenset.intersection", "set.union", "frozenset.union"):
            return self.setmany(n.split(".")[1], args, st, fr, node)
        if n == "dict.fromkeys":
            return self.from_keys(args, st, fr, node)
        if n == "dict":
            c = T("dnil")
            if args:
                src = self.content(st, args[0])
                if base_type(ty(args[0])) == "dict":
                    c = src
                else:
                    return self.opq(st, "dict()", node, fr)
            for k, v in kw:
                c = T("dset", c, const(k), v)
            return self.alloc(st, "dict", c)
        if n == "reversed":
            return self.reversed_(args[0], st)
        if n in ("isinstance", "plum.isinstance"):
            return self.isinstance_(args[0], args[1], st, fr, node)
        if n == "issubclass":
            return T("call", "builtins.issubclass", tuple(args), ())
        if n == "id":
            return T("id", args[0])
        if n == "hash":
            return T("call", "builtins.hash", tuple(args), ())
        if n == "type" and len(args) == 1:
            k = base_type(ty(args[0]))
            if k in self.prog.classes and not any(
                    k in c.bases for c in self.prog.classes.values()):
                return T("cls", k)
            return T("typeof", args[0])
        if n in ("str", "repr", "format"):
            return T("str", *args)
        if n in ("int", "float", "bool"):
            if n == "bool":
                return self.truth(st, args[0])
            if n == "int" and kind(ty(args[0])) == "Int":
                return args[0]
            self.note(st, "convert", [T("const", "str", n), args[0]], node, fr)
            return T("concretise", n, args[0])
        if n == "abs":
            return call("B.abs", args)
        if n in ("max", "min") and len(args) >= 2:
            if any(a.op == "call" or kind(ty(a)) in ("Tensor", "Numeric", "Numeric?") for a in args):
                self.note(st, "convert", [T("const", "str", n), T("lt", *args[:2])], node, fr)
            return T("py" + n, *sorted(args))
        if n == "getattr":
            if args[1].op == "const":
                if len(args) > 2 and ("f", args[0], args[1].args[1]) not in st.heap:
                    k = base_type(ty(args[0]))
                    has = self.has_attr(k, args[1].args[1]) if k in self.prog.classes else None
                    if has is None:
                        return self.opq(st, "getattr", node, fr)
                    if not has:
                        return args[2]
                r = self.getattr(args[0], args[1].args[1], st, fr, node)
                return r
            if args[1].op == "ite":
                return self.choose(
                    self.decide(st, args[1].args[0]), st,
                    lambda x: self.builtin(name, [args[0], args[1].args[1]] + args[2:], kw, x, fr, node),
                    lambda x: self.builtin(name, [args[0], args[1].args[2]] + args[2:], kw, x, fr, node),
                )
            return self.opq(st, "getattr", node, fr)
        if n == "setattr":
            if args[1].op == "const":
                self.setattr(args[0], args[1].args[1], args[2], st, fr, node)
                return NONE
            self.taint(st, "setattr", node, fr)
            return NONE
        if n == "hasattr":
            k = base_type(ty(args[0]))
            if args[1].op == "const" and k in self.prog.classes:
                has = self.has_attr(k, args[1].args[1])
                if has is not None:
                    return const(has)
            return self.opq(st, "hasattr", node, fr)
        if n == "next":
            return self.next_(args, st, fr, node)
        if n == "slice":
            a = args + [NONE] * (3 - len(args))
            if len(args) == 1:
                a = [NONE, args[0], NONE]
            return T("slice", NONE if a[0] is ZERO else a[0], a[1], NONE if a[2] is ONE else a[2])
        if n == "callable":
            k = base_type(ty(args[0]))
            if k == "FunctionType":
                return TRUE
            if k in ("NoneType", "Numeric", "Tensor", "Scalar", "int"):
                return FALSE
            if k == "opt:FunctionType":
                return neg_c(is_(args[0], NONE))
            return T("call", "builtins.callable", tuple(args), ())
        if n == "object":
            return self.new("object", st)
        if n == "functools.reduce":
            return self.reduce_(args, st, fr, node)
        if n == "functools.wraps":
            return T("ext", "builtins.%same")
        if n == "%same":
            return args[0]
        if n == "functools.partial":
            return T("partial", args[0], tuple(args[1:]), tuple(sorted(kw)))
        if n == "itertools.chain":
            return mk_tuple([splat(self.as_seq(a, st)) for a in args])
        if n == "itertools.accumulate" and len(args) == 1 and (not kw or [k for k, _ in kw] == ["initial"]):
            first = [v for _, v in kw if v is not NONE]
            c = self.as_seq(args[0], st)
            it = self.iter_of(c, st) if c.op != "filter" else None
            if it is None:
                return self.opq(st, "accumulate", node, fr)
            if it[0] == "items":
                out = list(first)
                for x in it[1]:
                    out.append(self.binop(ast.Add(), out[-1], x, st, fr, node) if out else x)
                return mk_tuple(out)
            i, j = fresh("%a", "int"), fresh("%b", "int")
            m = mk_map(it[1], lam([j], add(*first, mk_prefix(it[1], lam([i], it[2](i)), add(j, ONE)))))
            return mk_tuple(first + [splat(m)]) if first else m
        if n == "operator.attrgetter" or n == "operator.itemgetter":
            return T("getter", n, *args)
        if n == "print":
            return NONE
        return self.opq(st, f"builtin {n}", node, fr)

    def has_attr(self, k, name):
        """Do instances of the class have the attribute? (None: not known)"""
        if self.prog.find_method(k, name)[1] or self.prog.find_prop(k, name)[1] or self.prog.find_attr(k, name)[0] is not None:
            return True
        found = False
        for c in self.prog.mro(k):
            if c not in self.prog.classes:
                if c != "object":
                    return None
                continue
            for n in ast.walk(self.prog.classes[c].node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name:
                    found = True
        if not found:
            return False
        inits = [f for f in self.prog.find_method(k, "__init__")[1] or () if (k, name) in FIELDS]
        return True if inits else None

    def filter_cond(self, f, x, st, fr, node):
        if f is NONE:
            return self.truth(st, x)
        return self.truth(st, self.call(f, [x], [], st, fr, node))

    def reversed_(self, x, st):
        k = base_type(ty(x))
        if x.op == "ite":
            return ite(x.args[0], self.reversed_(x.args[1], st), self.reversed_(x.args[2], st))
        if x.op == "tuple" or k in ("tuple", "list"):
            return self.reverse_seq(self.content(st, x))
        if "Kernel" in supertypes(k) or x.op in ("add", "mul", "lget", "meth", "rev"):
            return rev(x)
        return T("rev", x)

    def quantify(self, n, c, st):
        if c.op == "tuple":
            out = TRUE if n == "all" else FALSE
            for x in c.args:
                if x.op == "splat":
                    v = self.quantify(n, self.as_seq(x.args[0], st), st)
                else:
                    v = self.truth(st, x)
                out = conj(out, v) if n == "all" else disj(out, v)
            return out
        it = self.iter_of(c, st) if c.op != "filter" else None
        if c.op == "filter":
            d, cl, vl = c.args
            i = fresh("%q", "int")
            cc, v = apply_lam(cl, i), self._truth(st, apply_lam(vl, i))
            if n == "all":
                return neg_c(exists(d, lam([i], conj(cc, neg_c(v)))))
            return exists(d, lam([i], conj(cc, v)))
        if c.op == "ite":
            return ite(c.args[0], self.quantify(n, c.args[1], st), self.quantify(n, c.args[2], st))
        if it is None:
            return opaque(n)
        if it[0] == "items":
            return self.quantify(n, T("tuple", *it[1]), st)
        i = fresh("%q", "int")
        v = self._truth(st, it[2](i))
        if n == "all":
            return neg_c(exists(it[1], lam([i], neg_c(v))))
        return exists(it[1], lam([i], v))

    def sum_seq(self, c, start, st, fr, node):
        if c.op == "tuple":
            out = start
            for x in c.args:
                if x.op == "splat":
                    out = self.binop(ast.Add(), out, self.sum_seq(self.as_seq(x.args[0], st), ZERO, st, fr, node), st, fr, node)
                else:
                    out = self.binop(ast.Add(), out, x, st, fr, node)
            return out
        if c.op == "ite":
            return ite(c.args[0], self.sum_seq(c.args[1], start, st, fr, node), self.sum_seq(c.args[2], start, st, fr, node))
        if c.op == "filter":
            d, cl, vl = c.args
            i = fresh("%s", "int")
            return add(start, mk_sum(d, lam([i], ite(apply_lam(cl, i), apply_lam(vl, i), ZERO))))
        if c.op == "sslice" and c.args[1] is NONE:
            it = self.iter_of(c.args[0], st)
            if it and it[0] == "sym":
                i = fresh("%s", "int")
                return add(start, mk_prefix(it[1], lam([i], it[2](i)), c.args[2]))
        it = self.iter_of(c, st)
        if it is None:
            return opaque("sum")
        if it[0] == "items":
            return self.sum_seq(T("tuple", *it[1]), start, st, fr, node)
        i = fresh("%s", "int")
        v = it[2](i)
        if base_type(ty(v)) in ("tuple", "list") or base_type(ty(start)) in ("tuple", "list"):
            s0 = self.content(st, start)
            r = T("flatmap", it[1], lam([i], T("tuple", splat(v))))
            return concat_seq(s0, r)
        return add(start, mk_sum(it[1], lam([i], v)))

    def map_(self, args, st, fr, node):
        f = args[0]
        its = [self.iter_of(a, st) for a in args[1:]]
        if any(i is None for i in its):
            return self.opq(st, "map", node, fr)
        if all(i[0] == "items" for i in its):
            return mk_tuple(
                [self.call(f, list(xs), [], st, fr, node) for xs in zip(*[i[1] for i in its])]
            )
        if len(its) == 1:
            i = fresh("%m", "int")
            n0 = len(st.log)
            v = self.call(f, [its[0][2](i)], [], st, fr, node)
            if len(st.log) > n0:
                self.taint(st, "map with effects", node, fr)
            return mk_map(its[0][1], lam([i], v))
        z = self.iter_of(T("zipseq", *[self.as_seq(a, st) for a in args[1:]]), st)
        if z is None:
            return self.opq(st, "map", node, fr)
        i = fresh("%m", "int")
        v = self.call(f, list(z[2](i).args), [], st, fr, node)
        return mk_map(z[1], lam([i], v))

    def transpose_zip(self, args, st, fr, node):
        """zip(*pairs)"""
        if len(args) != 1:
            return self.opq(st, "zip", node, fr)
        s = args[0].args[0]
        return T("transpose", s)

    def sorted_(self, args, kw, st, fr, node):
        c = norm_seq(self.as_seq(args[0], st))
        if has_opaque(c) or base_type(ty(args[0])) == "dict":
            return self.opq(st, "sorted", node, fr)
        v = fresh("%k", elem_type(c))
        key = kw.get("key", NONE)
        key = lam([v], self.call(key, [v], [], st, fr, node)) if key is not NONE else NONE
        if c.op == "tuple" and len(c.args) <= 1 and not any(x.op == "splat" for x in c.args):
            r = c
        else:
            r = T("sortedseq", c, key, kw.get("reverse", FALSE))
        if c.op == "tuple" and r is not c and not any(x.op == "splat" for x in c.args):
            r = T("tuple", *[at(r, num(k)) for k in range(len(c.args))])
        return self.alloc(st, "list", r)

    def next_(self, args, st, fr, node):
        c = self.as_seq(args[0], st)
        if c.op == "filter":
            d, cl, vl = c.args
            ex = self.decide(st, exists(d, cl))
            j = T("pick", d, cl)
            v = apply_lam(vl, j)
            if len(args) > 1:
                return ite(ex, v, args[1])
            if ex is not TRUE:
                bad = st.copy()
                bad.assume(neg_c(ex))
                self.do_raise(T("exc", "StopIteration"), bad, fr, node)
                st.assume(ex)
            return v
        if c.op == "tuple":
            def first(xs):
                """(value, condition of there being one), or None."""
                if not xs:
                    return (args[1] if len(args) > 1 else T("undef", c, ZERO)), FALSE
                x, rest = xs[0], xs[1:]
                if x.op != "splat":
                    return x, TRUE
                s = x.args[0]
                if s.op == "tuple":
                    return first(tuple(s.args) + rest)
                if s.op == "ite" and all(y.op == "tuple" for y in s.args[1:]):
                    a, b = first(tuple(s.args[1].args) + rest), first(tuple(s.args[2].args) + rest)
                    if a is None or b is None:
                        return None
                    return ite(s.args[0], a[0], b[0]), ite(s.args[0], a[1], b[1])
                return None

            r = first(tuple(c.args)) if len(c.args) <= 6 else None
            if r is not None:
                v, ex = r
                ex = self.decide(st, ex)
                if len(args) == 1 and ex is not TRUE:
                    bad = st.copy()
                    bad.assume(neg_c(ex))
                    self.do_raise(T("exc", "StopIteration"), bad, fr, node)
                    st.assume(ex)
                return v
        if c.op == "tuple" and len(c.args) == 1 and c.args[0].op == "splat":
            c = c.args[0].args[0]
        if c.op in ("dkeys", "dvalues", "ditems", "content0", "map"):
            ex = neg_c(eq(self.length(st, c), ZERO)) if c.op in ("content0", "map") else dict_truth(c.args[0])
            ex = self.decide(st, ex)
            v = at(c, ZERO)
            if len(args) > 1:
                return ite(ex, v, args[1])
            if ex is not TRUE:
                bad = st.copy()
                bad.assume(neg_c(ex))
                self.do_raise(T("exc", "StopIteration"), bad, fr, node)
                st.assume(ex)
            return v
        return self.opq(st, "next", node, fr)

    def reduce_(self, args, st, fr, node):
        f, c = args[0], self.as_seq(args[1], st)
        it = self.iter_of(c, st)
        if it is None:
            return self.opq(st, "reduce", node, fr)
        if it[0] == "items":
            xs = list(it[1])
            acc = args[2] if len(args) > 2 else (xs.pop(0) if xs else None)
            if acc is None:
                return self.opq(st, "reduce", node, fr)
            for x in xs:
                acc = self.call(f, [acc, x], [], st, fr, node)
            return acc
        if len(args) > 2:
            p = fresh("%red", self._phi_type(args[2]))
            d, elem, init = it[1], it[2], args[2]
        else:
            c = norm_seq(c)
            d = dom(sslice(c, ONE, NONE))
            elem = lambda i: at(c, add(i, ONE))
            init = at(c, ZERO)
            p = fresh("%red", self._phi_type(init))
        i = fresh("%ri", "int")
        v = self.call(f, [p, elem(i)], [], st, fr, node)
        if self.is_container(v) and v.op == "new":
            pc = fresh("%redc")
            st2 = st.copy()
            st2.heap[("c", p)] = pc
            v2 = self.call(f, [p, elem(i)], [], st2, fr, node)
            r = self.closed_form(d, i, pc, self.content(st2, v2), self.content(st, init))
            if r is None:
                return self.opq(st, "reduce", node, fr)
            return self.alloc(st, base_type(ty(v)), r[1])
        r = self.closed_form(d, i, p, v, init)
        if r is None:
            return T("item", T("fold", d, T("tuple", init), lam([p, i], T("tuple", v))), ZERO)
        return r[1]

    def isinstance_(self, x, t, st, fr, node):
        if x.op == "ite":
            return ite(
                x.args[0],
                self.isinstance_(x.args[1], t, st, fr, node),
                self.isinstance_(x.args[2], t, st, fr, node),
            )
        ts = []
        todo = [t]
        while todo:
            u = todo.pop(0)
            if u.op == "tuple":
                todo.extend(u.args)
            elif u.op == "getitem" and u.args[0] is T("ext", "typing.Union"):
                todo.extend(u.args[1].args if u.args[1].op == "tuple" else [u.args[1]])
            else:
                ts.append(u)
        out = FALSE
        for u in ts:
            if u.op == "call" and u.args[0] == "builtins.type" or u.op == "typeof":
                name = "NoneType" if u.args[-1] is NONE else "?"
            else:
                name = self.type_name(u)
            if name == "?":
                out = disj(out, T("isinst", x, u))
                continue
            r = self.arg_ok(x, {name})
            if r is True:
                return TRUE
            if r is None:
                out = disj(out, T("isinst", x, T("const", "type", name)))
        return self.decide(st, out)

    # container methods ------------------------------------------------------------------

    def log_items(self, st, o, verb, seq, node, fr):
        if seq.op in ("tuple", "set"):
            for x in seq.args:
                if x.op == "splat":
                    self.effect(st, "mutate", [o, const(verb + " all"), x.args[0]], node, fr)
                else:
                    self.effect(st, "mutate", [o, const(verb), x], node, fr)
        else:
            self.effect(st, "mutate", [o, const(verb + " all"), seq], node, fr)

    def setmany(self, name, args, st, fr, node):
        """Intersection or union of several sets, some of which may be given as a sequence of sets."""
        c = None
        for a in args:
            if a.op == "splat":
                it = self.iter_of(a.args[0], st)
                if it is None:
                    return self.opq(st, name, node, fr)
                if it[0] == "items":
                    parts = [self.as_seq(x, st) for x in it[1]]
                elif name == "intersection":
                    i = fresh("%is", "int")
                    parts = [T("bigand", it[1], lam([i], self.as_seq(it[2](i), st)))]
                else:
                    i = fresh("%is", "int")
                    parts = [T("bigor", it[1], lam([i], self.as_seq(it[2](i), st)))]
            else:
                parts = [self.as_seq(a, st)]
            for x in parts:
                if c is None:
                    c = x
                elif name == "intersection":
                    c = setand(c, x)
                else:
                    c = mk_set(_set_items(c) + _set_items(x))
        if c is None:
            return self.opq(st, name, node, fr)
        return self.alloc(st, "set", mk_set([splat(c)]) if c.op == "tuple" else c)

    def container_method(self, o, name, args, kw, st, fr, node):
        k = base_type(ty(o))
        c = self.content(st, o)
        if o.op == "const" or o.op == "fstr" or k == "str":
            if name == "join":
                return T("fstr", o, *[self.as_seq(a, st) for a in args])
            return T("meth", name, o, tuple(args), tuple(kw))
        if k == "list":
            if name == "append" and len(args) == 1:
                self.set_content(st, o, concat_seq(c, T("tuple", args[0])))
                self.effect(st, "mutate", [o, const("append"), args[0]], node, fr)
                return NONE
            if name == "extend" and len(args) == 1:
                self.set_content(st, o, concat_seq(c, self.as_seq(args[0], st)))
                self.log_items(st, o, "append", self.as_seq(args[0], st), node, fr)
                return NONE
            if name == "insert" and len(args) == 2 and args[0] is ZERO:
                self.set_content(st, o, concat_seq(T("tuple", args[1]), c))
                self.effect(st, "mutate", [o, const("insert"), args[1]], node, fr)
                return NONE
            if name == "pop" and len(args) == 1 and args[0].op == "ite":
                g = args[0]
                return self.choose(self.decide(st, g.args[0]), st,
                                   lambda x: self.container_method(o, name, [g.args[1]], kw, x, fr, node),
                                   lambda x: self.container_method(o, name, [g.args[2]], kw, x, fr, node))
            if name == "pop" and len(args) == 1 and args[0] is ZERO:
                self.effect(st, "mutate", [o], node, fr)
                self.set_content(st, o, sslice(c, ONE, NONE))
                return at(c, ZERO)
            if name == "pop" and (not args or args[0] is num(-1)):
                self.effect(st, "mutate", [o], node, fr)
                if c.op == "tuple" and c.args and c.args[-1].op != "splat":
                    self.set_content(st, o, norm_seq(T("tuple", *c.args[:-1])))
                    return c.args[-1]
                self.set_content(st, o, T("sslice", c, NONE, num(-1)))
                return at(c, num(-1))
            if name == "copy" and not args:
                return self.alloc(st, "list", c)
            if name == "clear":
                self.set_content(st, o, T("tuple"))
                self.effect(st, "mutate", [o], node, fr)
                return NONE
            if name == "index" and len(args) == 1:
                return T("meth", "index", c, tuple(args), ())
        if k in ("set", "frozenset"):
            if name == "add":
                self.keyed(o, args[0], node, fr)
                self.set_content(st, o, mk_set(_set_items(c) + [args[0]]))
                self.effect(st, "mutate", [o, const("add"), args[0]], node, fr)
                return NONE
            if name == "update":
                self.set_content(
                    st, o, mk_set(_set_items(c) + [splat(self.as_seq(a, st)) for a in args])
                )
                for a in args:
                    self.log_items(st, o, "add", self.as_seq(a, st), node, fr)
                return NONE
            if name == "clear" and not args:
                self.set_content(st, o, T("set"))
                self.effect(st, "mutate", [o], node, fr)
                return NONE
            if name == "copy":
                return self.alloc(st, k, c)
            if name in ("issubset", "issuperset") and len(args) == 1:
                y = self.as_seq(args[0], st)
                return self.decide(st, subset(c, y) if name == "issubset" else subset(y, c))
            if name in ("intersection", "union", "difference"):
                for a in args:
                    if a.op == "splat":
                        s = a.args[0]
                        it = self.iter_of(s, st)
                        if it[0] == "sym" and name == "intersection":
                            i = fresh("%is", "int")
                            c = setand(c, T("bigand", it[1], lam([i], self.content(st, it[2](i)))))
                            continue
                        return self.opq(st, name, node, fr)
                    y = self.as_seq(a, st)
                    c = (
                        setand(c, y)
                        if name == "intersection"
                        else mk_set([splat(c), splat(y)])
                        if name == "union"
                        else T("setminus", c, y)
                    )
                return self.alloc(st, k, c)
            if name == "intersection_update":
                for a in args:
                    c = setand(c, self.as_seq(a, st))
                self.set_content(st, o, c)
                self.effect(st, "mutate", [o], node, fr)
                return NONE
            if name in ("remove", "discard"):
                self.set_content(st, o, T("setminus", c, T("set", args[0])))
                self.effect(st, "mutate", [o], node, fr)
                return NONE
        if k == "dict":
            if name in ("get", "pop", "setdefault") and args:
                self.keyed(o, args[0], node, fr)
            if name == "get":
                d = args[1] if len(args) > 1 else NONE
                h = self.decide(st, dhas(c, idkey(args[0])))
                return ite(h, dget(c, idkey(args[0])), d)
            if name == "pop":
                self.effect(st, "dictdel", [o, args[0]], node, fr)
                h = self.decide(st, dhas(c, idkey(args[0])))
                v = dget(c, idkey(args[0]))
                if len(args) > 1:
                    v = ite(h, v, args[1])
                    self.set_content(st, o, ite(h, T("ddel", c, idkey(args[0])), c))
                else:
                    self.set_content(st, o, T("ddel", c, idkey(args[0])))
                return v
            if name == "setdefault":
                key = self.dkey(args[0])
                d = args[1] if len(args) > 1 else NONE
                h = self.decide(st, dhas(c, key))
                self.set_content(st, o, ite(h, c, T("dset", c, key, d)))
                self.effect(st, "dictset", [o, args[0], d], node, fr)
                return ite(h, dget(c, key), d)
            if name == "copy":
                return self.alloc(st, "dict", c)
            if name == "clear":
                self.set_content(st, o, T("dnil"))
                self.effect(st, "mutate", [o], node, fr)
                return NONE
            if name == "update" and len(args) == 1 and not kw:
                src = self.content(st, args[0])
                items = []
                while src.op == "dset":
                    items.append((src.args[1], src.args[2]))
                    src = src.args[0]
                if src.op == "dnil":
                    for a, b in reversed(items):
                        c = T("dset", c, a, b)
                    self.set_content(st, o, c)
                    self.effect(st, "mutate", [o], node, fr)
                    return NONE
            if name in ("keys", "values", "items"):
                return self.dict_view(name, c, st)
        if k == "tuple" or o.op in ("tuple", "map"):
            if name in ("index", "count"):
                return T("meth", name, c, tuple(args), ())
        self.taint(st, f"container method {name}", node, fr)
        return self.opq(st, f"container method {k}.{name}", node, fr)

    # lazily built tables (contract) ---------------------------------------------------------

    def lz_key(self, o, k):
        rank = 1 if base_type(ty(o)) == "LazyVector" else 2
        if k.op == "tuple":
            items = k.args
        elif k.op == "rseq":
            return T("lzkey", T("opaque", -1, "reversed key"))
        else:
            items = (k,) * rank
        return T("lzkey", *[idstrip(x) for x in items])

    def lz_log(self, st, o):
        v = st.heap.get(("lz", o))
        return v if v is not None else T("lzbase", o)

    def lz_method(self, o, name, args, kw, st, fr, node):
        t = base_type(ty(o))
        c, fs = self.prog.find_method(t, name)
        if fs is None:
            return self.opq(st, f"method {name} of {t}", node, fr)
        b = self.bind(fs[0], o, args, kw, st, fr, node)
        if b is None:
            return self.opq(st, f"arguments of {name}", node, fr)
        pn = [p[0] for p in fs[0].params[0]][1:]
        log = self.lz_log(st, o)
        if name == "add_rule":
            e = T("lzrule", log, self.resolved(self.content(st, b[pn[0]])), b[pn[1]])
        elif name == "add_left_rule":
            e = T("lzleft", log, self.resolved(b[pn[0]]), self.resolved(self.content(st, b[pn[1]])), b[pn[2]])
        elif name == "add_right_rule":
            e = T("lzright", log, self.resolved(b[pn[0]]), self.resolved(self.content(st, b[pn[1]])), b[pn[2]])
        else:
            return self.call_funcs(fs, o, args, kw, st, fr, node)
        st.heap[("lz", o)] = e
        self.effect(st, "lzrule", [o], node, fr)
        return NONE

    def resolved(self, x):
        """An index, or a set of them, as the lazy tables compare them: only identities are ever found."""
        if self.resolves():
            return idstrip(x)
        if x.op in ("set", "setor"):
            return T(x.op, *[self.resolved(y) for y in x.args])
        if x.op == "splat":
            return splat(self.resolved(x.args[0]))
        if x.op == "map" and x.args[1].op == "lam" and isobject(x.args[1].args[1]) or x.op in ("content0", "field0") and (
                elem_type(x) in ("GP", "Measure")):
            return T("set")
        if x.op != "id" and isobject(x):
            return T("raw", x)
        return idstrip(x)

    _resolves = None

    def resolves(self):
        """Do the methods of the lazy tables that add rules resolve indices themselves?"""
        if self._resolves is None:
            c, fs = self.prog.find_method("LazyMatrix", "add_left_rule")
            self._resolves = bool(fs) and any(isinstance(n, (ast.Call, ast.IfExp, ast.If)) and not (
                isinstance(n, ast.Call) and (getattr(n.func, "id", "") in ("frozenset", "set", "tuple") or
                                             getattr(n.func, "attr", "") in ("append", "add", "insert", "update")))
                for f in fs for s_ in f.node.body for n in ast.walk(s_))
        return self._resolves

    def lz_get(self, st, o, key, fr, node):
        """Entry of a lazily built table, by its contract."""
        if any(x.op == "opaque" for x in key.args):
            return self.opq(st, "key of a lazy table", node, fr)
        rank = 1 if base_type(ty(o)) == "LazyVector" else 2
        if len(key.args) != rank:
            return T("undef", o, key)
        for n, x in enumerate(key.args):
            if x.op == "ite":
                def f(y, k):
                    ks = list(key.args)
                    ks[n] = x.args[k]
                    return self.lz_get(y, o, T("lzkey", *ks), fr, node)

                return self.choose(x.args[0], st, lambda y: f(y, 1), lambda y: f(y, 2))
        return self._lz_get(st, o, self.lz_log(st, o), key, fr, node, 0)

    def _lz_entries(self, log):
        out = []
        while log.op in ("lzset", "lzrule", "lzleft", "lzright"):
            out.append(log)
            log = log.args[0]
        return out, log

    def _lz_get(self, st, o, log, key, fr, node, depth):
        if depth > 12:
            return self.opq(st, "lookup recursion", node, fr)
        ents, base = self._lz_entries(log)
        if base.op == "ite":
            # gated history: rebuild both
            def f(x, k):
                l = base.args[k]
                for e in reversed(ents):
                    l = T(e.op, l, *e.args[1:])
                return self._lz_get(x, o, l, key, fr, node, depth + 1)

            return self.choose(base.args[0], st, lambda x: f(x, 1), lambda x: f(x, 2))
        # explicit entries, newest first
        for e in ents:
            if e.op == "lzset":
                k2 = e.args[1]
                if len(k2.args) != len(key.args):
                    continue
                c = conj(*[keyeq(a, b) for a, b in zip(key.args, k2.args)])
                c = self.decide(st, c)
                if c is TRUE:
                    return e.args[2]
                if c is not FALSE:
                    rest = T("lzset", FALSE, k2, e.args[2])
                    return ite(
                        c,
                        e.args[2],
                        self._lz_get(st, o, self._without(log, e), key, fr, node, depth + 1),
                    )
        if base.op == "lzbase":
            if all(x.op != "new" for x in key.args):
                return T("lget", o, *key.args)
        elif base.op != "lznil":
            return self.opq(st, "history of a lazy table", node, fr)
        rules = [e for e in reversed(ents) if e.op == "lzrule"]
        lefts = [e for e in reversed(ents) if e.op == "lzleft"]
        rights = [e for e in reversed(ents) if e.op == "lzright"]
        ks = key.args

        def pick(cands):
            if not cands:
                return T("undef", o, key)
            c, fn, fargs = cands[0]
            if c is TRUE:
                return self.lz_apply(fn, fargs, st, fr, node)
            v = self.lz_apply(fn, fargs, st, fr, node)
            return ite(c, v, pick(cands[1:]))

        cands = []
        for e in rules:
            c = conj(*[member(x, e.args[1]) for x in ks])
            cands.append((c, e.args[2], [T("id", x) for x in ks]))
        if len(ks) == 2:
            for e in lefts:
                c = conj(keyeq(ks[0], e.args[1]), member(ks[1], e.args[2]))
                cands.append((c, e.args[3], [T("id", ks[1])]))
            for e in rights:
                c = conj(keyeq(ks[1], e.args[1]), member(ks[0], e.args[2]))
                cands.append((c, e.args[3], [T("id", ks[0])]))
        live = []
        for c, fn, a in cands:
            c = self.decide(st, c)
            if c is FALSE:
                continue
            live.append((c, fn, a))
            if c is TRUE:
                break
        return pick(live)

    def _without(self, log, e):
        if log is e:
            return log.args[0]
        return T(log.op, self._without(log.args[0], e), *log.args[1:])

    def lz_apply(self, fn, args, st, fr, node):
        return self.call(fn, args, [], st, fr, node)


# ---------------------------------------------------------------------------------- helpers


def isobject(t):
    if t.op == "ite":
        return isobject(t.args[1]) or isobject(t.args[2])
    return t.op != "id" and base_type(ty(t)) in ("GP", "Measure", "Kernel", "Mean")


def closed_dict(c):
    """Are all keys of the dictionary known?"""
    while c.op in ("dset", "ddel"):
        c = c.args[0]
    if c.op == "ite":
        return closed_dict(c.args[1]) and closed_dict(c.args[2])
    return c.op == "dnil"


def idkey(k):
    return idstrip(k)


def setand(a, b):
    out = []
    for x in (a, b):
        out.extend(x.args if x.op == "setand" else [x])
    u = []
    for x in out:
        if x not in u:
            u.append(x)
    return T("setand", *sorted(u)) if len(u) > 1 else u[0]


@rebuilder("setand")
def _re_setand(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = setand(out, x)
    return out


def _set_items(c):
    if c.op in ("set", "tuple"):
        return list(c.args)
    return [splat(c)]


def dict_truth(c):
    """Is a dictionary not empty?"""
    if c.op == "dset":
        return TRUE
    if c.op == "dnil":
        return FALSE
    if c.op == "ite":
        return ite(c.args[0], dict_truth(c.args[1]), dict_truth(c.args[2]))
    return T("truth", c)


def subset(a, b):
    """Everything in `a` is in `b`."""
    out = TRUE
    for x in _set_items(a):
        if x.op != "splat":
            out = conj(out, member(x, b))
        elif x.args[0] is not b:
            out = conj(out, T("subset", x.args[0], b))
    return out


def mk_filter(d, cl, vl):
    (v,), c = open_lam(cl)
    if c is TRUE:
        return mk_map(d, vl)
    if d.op == "dom" and len(d.args) == 1 and d.args[0].op == "filter":
        # A selection from a selection.
        f = d.args[0]
        w = fresh()
        at_ = T("at", f, v)
        val = subst(vl.args[1], {T("bv", vl.args[0][0]): v})
        y = fresh()
        c2, v2 = subst(c, {at_: y}), subst(val, {at_: y})
        if not contains(c2, v) and not contains(v2, v):
            x = apply_lam(f.args[2], w)
            return mk_filter(
                f.args[0],
                lam([w], conj(apply_lam(f.args[1], w), subst(c2, {y: x}))),
                lam([w], subst(v2, {y: x})),
            )
    return T("filter", d, cl, vl)


@rebuilder("filter")
def _re_filter(d, cl, vl):
    return mk_filter(d, cl, vl)


BUILTINS = set(
    """len sum all any map filter zip enumerate range list tuple set frozenset dict reversed sorted
    isinstance issubclass id hash type str repr int float bool abs max min getattr setattr hasattr
    next iter slice callable object print super property staticmethod classmethod
    RuntimeError ValueError KeyError TypeError AssertionError NotImplementedError IndexError
    AttributeError Exception BaseException StopIteration LookupError NotImplemented Warning
    UserWarning DeprecationWarning round pow divmod format vars""".split()
) | {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
OPERATORS = {
    "add": ast.Add(), "sub": ast.Sub(), "mul": ast.Mult(), "truediv": ast.Div(), "pow": ast.Pow(),
    "matmul": ast.MatMult(), "floordiv": ast.FloorDiv(), "mod": ast.Mod(),
    "and": ast.BitAnd(), "or": ast.BitOr(),
    "is": ast.Is(), "is_not": ast.IsNot(), "eq": ast.Eq(), "ne": ast.NotEq(), "lt": ast.Lt(), "le": ast.LtE(),
    "gt": ast.Gt(), "ge": ast.GtE(),
}
PY_FUNCS = {
    "plum.isinstance",
    "functools.reduce",
    "functools.partial",
    "functools.wraps",
    "itertools.chain",
    "itertools.accumulate",
}
SPEC_EXT = {
    "pairwise": "mlkernels.pairwise",
    "elwise": "mlkernels.elwise",
    "num_elements": "mlkernels.num_elements",
    "PosteriorKernel": "mlkernels.PosteriorKernel",
    "PosteriorMean": "mlkernels.PosteriorMean",
    "SubspaceKernel": "mlkernels.SubspaceKernel",
    "TensorProductKernel": "mlkernels.TensorProductKernel",
    "ZeroKernel": "mlkernels.ZeroKernel",
    "OneKernel": "mlkernels.OneKernel",
    "OneMean": "mlkernels.OneMean",
    "ZeroMean": "mlkernels.ZeroMean",
    "Diagonal": "matrix.Diagonal",
    "Dense": "matrix.Dense",
    "Zero": "matrix.Zero",
    "Constant": "matrix.Constant",
    "AbstractMatrix": "matrix.AbstractMatrix",
    "central_fdm": "fdm.central_fdm",
    "convert": "plum.convert",
    "identical": "algebra.util.identical",
    "mean_var": "mlkernels.mean_var",
    "mean_var_diag": "mlkernels.mean_var_diag",
}
PURE = {
    ("AbstractObservations", "posterior_kernel"),
    ("AbstractObservations", "posterior_mean"),
    ("AbstractObservations", "K_x"),
    ("AbstractObservations", "K_z"),
    ("AbstractObservations", "elbo"),
    ("AbstractObservations", "mu"),
    ("AbstractObservations", "A"),
    ("Measure", "condition"),
    ("Measure", "logpdf"),
    ("Measure", "__or__"),
    ("Measure", "__getitem__"),
    ("Normal", "logpdf"),
    ("Normal", "entropy"),
    ("Normal", "kl"),
    ("Normal", "w2"),
    ("Normal", "marginals"),
    ("Normal", "marginal_credible_bounds"),
    ("Normal", "diagonalise"),
    ("Normal", "lmatmul"),
    ("Normal", "rmatmul"),
    ("Normal", "__add__"),
    ("Normal", "__mul__"),
    ("Normal", "sample"),
    ("GP", "condition"),
    ("GP", "__or__"),
    ("GP", "shift"),
    ("GP", "stretch"),
    ("GP", "transform"),
    ("GP", "select"),
    ("GP", "diff"),
    ("GP", "diff_approx"),
}
