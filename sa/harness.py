"""Obligations: what is analysed, what it has to equal, and how the two are compared."""

import ast
import functools
import math
import textwrap
from fractions import Fraction

from .interp import Config, Effect, Interp, State
from .lib import *
from .program import AnchorMissing
from .terms import *
from .terms import T, Term, subterms


class KnownFinding(Exception):
    """A facet has a value that is a recorded finding."""


class Problem(Exception):
    """The obligation cannot be set up on this tree."""


# --------------------------------------------------------------------- canonical values


class Canon:
    """Values of a final state as terms that do not mention the state."""

    def __init__(self, it, st, fr):
        self.it, self.st, self.fr = it, st, fr
        self.memo = {}
        self.busy = set()
        self.depth = 0

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._canon(t)
            self.memo[t] = r
        return r

    def _canon(self, t):
        if t.op == "clo":
            return self.closure(t)
        if t.op == "bound":
            return self.callable_(t)
        if t.op == "partial":
            return self.partial(t)
        if t.op == "fn":
            return self.function(t)
        if t.op == "content0" or t.op in ("const", "num", "sym", "bv", "opaque", "ext", "cls"):
            return t
        if t.op == "new":
            k = base_type(ty(t))
            if k in ("list", "set", "dict", "frozenset"):
                if t in self.busy:
                    return T("cycle", t)
                self.busy.add(t)
                try:
                    c = self.it.content(self.st, t)
                    return T("listv" if k == "list" else "setv" if k != "dict" else "dictv", self(c))
                finally:
                    self.busy.discard(t)
            return t
        if t.op == "lam":
            vs, body = open_lam(t)
            return unit(lam(vs, self(body)))
        return rebuild(t, self)

    def closure(self, t):
        if t in self.busy or self.depth > 4:
            return T("opaque", -2, "nested closure")
        node = self.it.clos[t.args[0]][0]
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            return T("opaque", -3, "closure with variable arguments")
        n = len(a.posonlyargs) + len(a.args) - len(a.defaults)
        return self.call(t, n)

    def function(self, t):
        """A function of a module that is handed on is judged by what it does."""
        f = self.it.prog.functions.get(t.args[0])
        if t in self.busy or self.depth > 4 or f is None:
            return t
        pos, var, kwonly, kwvar = f.params
        if var or kwonly or kwvar or any(p[2] is not None for p in pos):
            return t
        r = self.call(t, len(pos))
        return t if r.op == "always-raises" or has_opaque(r) else r

    def callable_(self, t):
        o, name, cls = t.args
        c, fs = self.it.prog.find_method(base_type(ty(o)), name)
        if not fs or len(fs) != 1:
            return t
        pos, var, kwonly, kwvar = fs[0].params
        if var or kwvar or kwonly:
            return t
        n = len([p for p in pos[1:] if p[2] is None])
        return self.call(t, n)

    def partial(self, t):
        """`functools.partial(f, *args)` as the function of what is left to be given."""
        f, args, kw = t.args
        fs, skip = [], 0
        if f.op == "cls":
            c, fs = self.it.prog.find_method(f.args[0], "__init__")
            skip = 1
        elif f.op == "bound":
            c, fs = self.it.prog.find_method(base_type(ty(f.args[0])), f.args[1])
            skip = 1
        elif f.op == "clo":
            a = self.it.clos[f.args[0]][0].args
            n = len(a.posonlyargs) + len(a.args) - len(a.defaults) - len(args) - len(kw)
            return self.call(t, n) if n >= 0 else t
        elif f.op == "lam":
            return self.call(t, len(f.args[0]) - len(args))
        need = []
        for fn in fs or ():
            pos = fn.params[0]
            if not fn.params[1] and not fn.params[3]:
                names = [p[0] for p in pos[skip:] if p[2] is None][len(args):]
                need.append(len([p for p in names if p not in dict(kw)]))
        if not need:
            return rebuild(t, self)
        return self.call(t, max(1, min(need)))

    def call(self, t, n):
        vs = [fresh("%v") for _ in range(n)]
        self.busy.add(t)
        self.depth += 1
        st = self.st.copy()
        nex = len(self.fr.exits)
        try:
            v = self.it.call(t, vs, [], st, self.fr, _NODE)
            raised = self.fr.exits[nex:]
            del self.fr.exits[nex:]
            if st.dead:
                return T("always-raises", *[e[1] for e in raised])
            c = Canon(self.it, st, self.fr)
            c.depth, c.busy = self.depth, self.busy
            v = c(v)
            return unit(eta(vs, v))
        finally:
            self.busy.discard(t)
            self.depth -= 1


def unit(f):
    """The function that is one everywhere."""
    if f.op == "lam" and len(f.args[0]) == 1:
        b = f.args[1]
        x = T("bv", f.args[0][0])
        n = call("mlkernels.num_elements", [x])
        if b is call("matrix.Constant", [ONE, n, ONE]):
            return UNIT
        if b.op == "call" and b.args[0] == "B.ones" and b.args[1][-2:] == (n, ONE):
            return UNIT
    return f


UNIT = T("unitfn")
UNDEFINED = T("undefined")


def eta(vs, body):
    if len(vs) == 1:
        if body.op == "apply" and len(body.args) == 2 and body.args[1] is vs[0]:
            f = body.args[0]
            if not contains(f, vs[0]):
                return f
    return lam(vs, body)


_NODE = ast.parse("0", mode="eval").body


@functools.lru_cache(maxsize=None)
def parsed(src, mode):
    return ast.parse(src, mode=mode)



def renumber(t):
    """Number new objects per class in order of allocation."""
    news = sorted((u for u in walk(t) if u.op == "new"), key=lambda u: u.args[1])
    m, n = {}, {}
    for u in news:
        k = u.args[0]
        n[k] = n.get(k, 0) + 1
        m[u] = T("obj", k, n[k])
    return subst(t, m) if m else t


# --------------------------------------------------------------------- equality


MAX_ATOMS = 14


def linear(t):
    """(form, factor, constant) of `factor * form + constant` over whole numbers, or None."""
    ms = monos(t)
    k = ms.get(ONE, 0)
    rest = {m: c for m, c in ms.items() if m is not ONE}
    if not rest or not whole(t):
        return None
    lead = rest[min(rest)]
    if any((c / lead).denominator != 1 for c in rest.values()):
        return None
    return from_monos({m: c / lead for m, c in rest.items()}), lead, k


def intervals(facts):
    """Are the comparisons of whole numbers with constants among the literals satisfiable?"""
    lo, hi, out = {}, {}, {}

    def least(q, v):
        lo[q] = max(lo.get(q, v), v)

    def most(q, v):
        hi[q] = min(hi.get(q, v), v)

    for a, v in facts.items():
        if a.op not in ("lt", "eq"):
            continue
        x, y = a.args
        if x.op == "const" or y.op == "const":
            continue
        try:
            l = linear(sub(y, x))
        except Exception:
            l = None
        if l is None:
            continue
        q, c, k = l
        if natural(q):
            least(q, Fraction(0))
        p = -k / c  # where the two sides are equal
        if a.op == "eq":
            if v:
                if p.denominator != 1:
                    return False
                least(q, p)
                most(q, p)
            else:
                out.setdefault(q, set()).add(p)
        elif v == (c > 0):
            # q > p or, if the sign is the other way around and the literal is false, q >= p
            if v:
                least(q, Fraction(math.floor(p) + 1))
            else:
                least(q, Fraction(math.ceil(p)))
        elif v:
            most(q, Fraction(math.ceil(p) - 1))
        else:
            most(q, Fraction(math.floor(p)))
    for q in set(lo) | set(hi):
        a, b = lo.get(q), hi.get(q)
        if a is None or b is None:
            continue
        if a > b:
            return False
        if b - a < 8 and all(a + i in out.get(q, ()) for i in range(int(b - a) + 1)):
            return False
    return True


def consistent(facts):
    """Cheap consistency test of a set of literals."""
    if not intervals(facts):
        return False
    vals = {}
    for a, v in facts.items():
        if v and a.op in ("is", "eq"):
            x, y = a.args
            for p, q in ((x, y), (y, x)):
                if q.op in ("const", "num"):
                    if vals.setdefault(p, q) is not q:
                        return False
        if v and a.op == "isinst" and a.args[1].op == "const":
            n = a.args[1].args[1]
            for b, w in facts.items():
                if b.op == "isinst" and b.args[0] is a.args[0] and b is not a:
                    m = b.args[1].args[1]
                    if w and subtype(n, m) is False and subtype(m, n) is False:
                        return False
                    if not w and subtype(n, m) is True:
                        return False
                if b.op == "is" and w and b.args[0] is a.args[0] and b.args[1] is NONE:
                    if n != "NoneType":
                        return False
    return True


def equal(a, b, facts=None, budget=None):
    """(True, None) / (False, (a', b', facts)) / (None, reason)."""
    facts = facts or {}
    if budget is None:
        budget = [4000]
    budget[0] -= 1
    if budget[0] < 0:
        return None, "too many cases"
    if a is b:
        return True, None
    atoms = cond_atoms(T("pair", a, b))
    atoms = {x for x in atoms if x not in facts}
    if not atoms:
        a, b = renumber(a), renumber(b)
        if a is b:
            return True, None
        o = has_opaque(a) or has_opaque(b)
        if o:
            return None, str(o.args[1])
        r = arrange(a), arrange(b)
        if r[0] is r[1]:
            return True, None
        return False, (a, b, facts)
    # prefer atoms without nested conditions and small ones first
    atom = min(atoms, key=lambda x: (size(x), x.id))
    unknown = None
    for v in (True, False):
        f2 = dict(facts)
        f2[atom] = v
        if not consistent(f2):
            continue
        a2, b2 = assume(a, atom, v), assume(b, atom, v)
        if v:
            m = _alias(atom)
            if m:
                a2, b2 = subst(a2, m), subst(b2, m)
        r, d = equal(a2, b2, f2, budget)
        if r is False:
            if has_opaque(atom):
                unknown = str(has_opaque(atom).args[1])
                continue
            return r, d
        if r is None:
            unknown = d
    if unknown is not None:
        return None, unknown
    return True, None


OBJECTS = ("GP", "Measure", "FDD", "Normal", "Kernel", "Mean")


def _alias(atom):
    """Substitution that follows from two objects being the same."""
    if atom.op in ("is", "eq"):
        x, y = atom.args
        if x.op == "id" and y.op == "id":
            x, y = x.args[0], y.args[0]
        if base_type(ty(x)) in OBJECTS and base_type(ty(y)) in OBJECTS or ty(x) == ty(y) == "str":
            if y.op == "sym":
                return {y: x}
            if x.op == "sym":
                return {x: y}
    if atom.op == "eq":
        for x, y in (atom.args, atom.args[::-1]):
            if x.op == "call" and x.args[0] == "B.rank" and is_num(y) and numval(y) == 2:
                # The axes of a matrix counted from the end
                a = x.args[1][0]
                return {call("B.shape", [a, num(k)]): call("B.shape", [a, num(k - 2)]) for k in (0, 1)}
    return None


_size = {}


def size(t):
    s = _size.get(t)
    if s is None:
        s = 1 + sum(size(c) for c in subterms(t))
        _size[t] = s
    return s


def arrange(t):
    """Hook for canonical forms that need the whole term."""
    return t


def difference(a, b, path=()):
    """Smallest pair of differing subterms."""
    if a.op == b.op and a.op in ("lam",):
        if len(a.args[0]) == len(b.args[0]):
            vs, x = open_lam(a)
            y = apply_lam(b, *vs)
            return difference(x, y)
    if a.op == b.op and a.op not in ("add", "mul", "and", "or", "const", "num", "sym", "set", "dom"):
        ca, cb = subterms(a), subterms(b)
        if len(ca) == len(cb) and [x for x in a.args if not isinstance(x, (Term, tuple))] == [
            x for x in b.args if not isinstance(x, (Term, tuple))
        ]:
            ds = [(x, y) for x, y in zip(ca, cb) if x is not y]
            if len(ds) == 1:
                return difference(*ds[0])
    if a.op == b.op == "add":
        da, db = dict(a.args), dict(b.args)
        xa = {m: c for m, c in da.items() if db.get(m) != c}
        xb = {m: c for m, c in db.items() if da.get(m) != c}
        if len(xa) == 1 and len(xb) == 1:
            ((m, c),), ((n, e),) = xa.items(), xb.items()
            if c == e:
                return difference(m, n)
            return scale(c, m), scale(e, n)
        if (xa, xb) != (da, db):
            return from_monos(xa), from_monos(xb)
    return a, b


# --------------------------------------------------------------------- obligations


class Result:
    __slots__ = ("ob", "facet", "verdict", "detail", "where", "actual", "expected")

    def __init__(self, ob, facet, verdict, detail="", where="", actual=None, expected=None):
        self.ob, self.facet, self.verdict = ob, facet, verdict
        self.detail, self.where = detail, where
        self.actual, self.expected = actual, expected


# Obligations (by the beginning of their names) that further properties rest on.
ALSO = (
    ("sample.", ("P35", "P12")),
    ("logpdf.", ("P12", "P35")),
    ("condition", ("P27", "P08")),
    ("ctor.", ("P12", "P27")),
    ("exact.", ("P12", "P26")),
    ("take.", ("P12", "P27")),
    ("pseudo.", ("P12",)),
    ("combine.", ("P09", "P10")),
    ("arith.", ("P27", "P13", "P26")),
    ("diff_approx", ("P01", "P20")),
    ("lazy.", ("P02", "P06", "P22")),
    ("product.", ("P02",)),
    ("operator", ("P14", "P01")),
    ("draw.", ("P27",)),
)


def also(id, props):
    return tuple(dict.fromkeys([*props, *(p for start, ps in ALSO if id.startswith(start) for p in ps)]))


class Ob:
    """One obligation.

    env: name -> type of the parameters (symbols).
    setup: statements evaluated before (shared by both sides, effects not logged).
    run: statements analysed.
    facets: name -> (actual expression, expected expression). The actual expression is
      evaluated in the state after `run`, the expected one in the state after `setup`
      (or after `ref`, statements of a reference implementation, if given).
    raises: expected condition of raising (expression), "never", None (not checked) or "any"
      (not checked, and everything else only counts where nothing is raised).
    effects: kinds of effects compared with those of `ref`.
    """

    def __init__(self, id, props, env, run="", facets=None, setup="", ref=None, raises=None,
                 effects=None, assume=(), config=None, anchor=None, where=None, note="",
                 custom=None, raise_type=None, pure=(), known=None, lenient=(), trace=None):
        self.id, self.props, self.env = id, tuple(props) if known else also(id, props), dict(env)
        self.run, self.setup, self.ref = _d(run), _d(setup), None if ref is None else _d(ref)
        self.facets = dict(facets or {})
        self.raises, self.effects, self.assume = raises, effects, tuple(assume)
        self.config = dict(config or {})
        self.anchor, self.where, self.note, self.custom = anchor, where, note, custom
        self.raise_type = raise_type
        self.pure = tuple(pure)
        # facet -> (expression of a value that is a listed finding, id of the finding)
        self.known = dict(known or {})
        # facets in which a difference from the reference is only undecided
        self.lenient = set(lenient)
        # rule about the points the analysis passed: function of (trace, log)
        self.trace = trace


def _d(s):
    return textwrap.dedent(s).strip("\n")


class Session:
    """Evaluation of specification code and repository code in one interpreter."""

    def __init__(self, prog, env, config):
        members = config.pop("members", {})
        self_names = config.pop("self_", ())
        # Methods that the reference refers to, rather than repeats
        self.ref_opaque = set(config.pop("ref_opaque", ()))
        self.it = Interp(prog, Config(**config))
        self.prog = prog
        self.st = State()
        self.fr = self.it.frame(None, None, None)
        e = {}
        for n, t in env.items():
            e[n] = sym(n, t) if isinstance(t, str) else t
        self.st.env[self.fr.fid] = e
        for n in self_names:
            self.it.cfg.self_objs.add(e[n])
        for (x, c), v in members.items():
            self.it.cfg.members[e[x], c] = v

    def exec(self, src, st=None):
        st = st or self.st
        if src:
            self.it.block(parsed(src, "exec").body, st, self.fr)

    def ev(self, src, st):
        return self.it.ev(parsed(src.strip(), "eval").body, st, self.fr)

    def assume(self, src, st=None):
        st = st or self.st
        c = self.it.truth(st, self.ev(src, st))
        if c is FALSE:
            raise Problem(f"assumption {src} is false")
        st.assume(c)


def pids_field(prog):
    """Field of a measure that holds the ids of its processes (found by its role)."""
    k = prog.classes["Measure"]
    for f in k.methods.get("__init__", []):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.Set)):
                if isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "set":
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            return t.attr
    return "_pids"


def run_ob(prog, ob, monitors=(), facets=True):
    """Decide one obligation: list of results, one per facet."""
    if ob.custom is not None:
        return ob.custom(prog, ob) if facets else []
    cfg = dict(ob.config)
    s = Session(prog, ob.env, cfg)
    it = s.it
    s.exec(ob.setup)
    if s.st.dead:
        return [Result(ob, "setup", "undecided", "setup raises")]
    for a in ob.assume:
        _assume(s, a)
    s.st.log.clear()
    s.st.trace.clear()
    del s.fr.exits[:]
    s.st.taint = None
    g0 = s.st.guard
    base = s.st.copy()
    results = []
    # --- actual
    act = base.copy()
    it.visited.clear()
    s.exec(ob.run, act)
    raised = [e for e in s.fr.exits if e[0] == "raise"]
    del s.fr.exits[:]
    rcond = disj(*[conj(*e[2].guard[len(g0):]) for e in raised])
    taints = {e[2].taint for e in raised if e[2].taint}
    if act.taint:
        taints.add(act.taint)
    visited = set(it.visited)
    ob.visited = visited
    for mon in monitors:
        for facet, v, detail, loc in mon(s, base, act):
            if v == "violation" and loc.startswith("spec:"):
                continue
            results.append(Result(ob, facet, v, detail, loc))
    if not facets:
        return results
    if ob.trace is not None:
        for facet, v, detail, loc in ob.trace(s, base, act):
            if v == "violation" and taints:
                v = "undecided"
            results.append(Result(ob, facet, v, detail, loc or (ob.where or _where(prog, ob, visited))))
    # --- expected
    exp = base.copy()
    rraised = []
    if ob.ref is not None:
        it.cfg.opaque_methods |= s.ref_opaque
        s.exec(ob.ref, exp)
        it.cfg.opaque_methods -= s.ref_opaque
        rraised = [e for e in s.fr.exits if e[0] == "raise"]
        del s.fr.exits[:]
    rrcond = disj(*[conj(*e[2].guard[len(g0):]) for e in rraised])
    it.visited = visited
    where = ob.where or _where(prog, ob, visited)

    # For facets, the state is the one in which nothing was raised.
    def verdict(facet, a, b, extra=None, tainted=True):
        if has_opaque(b):
            results.append(Result(ob, facet, "undecided", "reference: " + str(has_opaque(b).args[1]), where, a, b))
            return
        r, d = equal(a, b)
        if r is False and facet != "raises" and ob.raises is not None and rcond is not FALSE and not has_opaque(rcond):
            # Values are only those where nothing is raised.
            r, d = equal(ite(rcond, NONE, a), ite(rcond, NONE, b))
        if r is True:
            if tainted and taints:
                results.append(Result(ob, facet, "undecided", "; ".join(sorted(taints)), where, a, b))
            else:
                results.append(Result(ob, facet, "ok", "", where, a, b))
        elif r is None or (tainted and taints):
            results.append(
                Result(ob, facet, "undecided", d if r is None else "; ".join(sorted(taints)), where, a, b)
            )
        else:
            x, y = difference(d[0], d[1])
            if ".any" in ob.id and any(u.op == "fold" for u in walk(x)):
                # Any number of arguments; obligations with one, two, and three also check this.
                results.append(Result(ob, facet, "undecided", "a loop without a closed form", where, a, b))
                return
            loc = _prov(it, x, d[0]) or where
            cond = " and ".join(
                (show(k) if v else f"not ({show(k)})") for k, v in d[2].items()
            )
            if facet in ob.lenient and any(u.op == "meth" and u.args[0] == "elwise" or u.op == "call" and u.args[0] in (
                    "mlkernels.elwise", "B.diag") for u in walk(a)):
                results.append(Result(ob, facet, "undecided", "not the reference value", where, a, b))
                return
            msg = f"is {show(x)} but has to be {show(y)}"
            if cond:
                msg += f" when {cond}"
            results.append(Result(ob, facet, "violation", msg, loc, a, b))

    if ob.raises is not None and ob.raises != "any":
        if ob.raises == "ref":
            want = rrcond
        elif ob.raises == "never":
            want = FALSE
        elif ob.raises == "always":
            want = TRUE
        else:
            want = it.truth(base, s.ev(ob.raises, base.copy()))
        verdict("raises", rcond, want)
        if ob.raise_type and raised:
            pass
    if act.dead:
        for f in ob.facets:
            results.append(
                Result(ob, f, "violation" if not taints and not has_opaque(rcond) else "undecided",
                       "always raises " + ", ".join(sorted({str(e[1].args[0]) for e in raised if e[1].op == "exc"})),
                       where)
            )
        return results
    for f, (a, b) in ob.facets.items():
        sa, sb = act.copy(), exp.copy()
        try:
            _facet(s, ob, f, a, b, sa, sb, g0, verdict)
        except KnownFinding as k:
            results.append(Result(ob, f, "known", k.args[1], where))
        del s.fr.exits[:]
    if ob.effects is not None:
        kinds = ob.effects
        ca, cb = Canon(it, act, s.fr), Canon(it, exp, s.fr)
        la = effects_term(act.log, kinds, len(g0), ca)
        lb = effects_term(exp.log, kinds, len(g0), cb)
        verdict("effects", la, lb)
    return results


def _assume(s, a):
    if a.startswith("member "):
        # "member p m": process p belongs to measure m
        _, p, m = a.split()
        _member(s, p, m, True)
    elif a.startswith("nonmember "):
        _, p, m = a.split()
        _member(s, p, m, False)
    else:
        s.assume(a)


def _member(s, p, m, v):
    it, st = s.it, s.st
    e = st.env[s.fr.fid]
    cont = it.content(st, it.getattr(e[m], pids_field(s.prog), st, s.fr, _NODE))
    ps = it.content(st, it.getattr(e[m], "ps", st, s.fr, _NODE))
    for c in (cont, ps):
        it.cfg.members[e[p], c] = v
        t = member(e[p], c)
        if t.op == "in":
            it.cfg.members[t.args[0], t.args[1]] = v


def _facet(s, ob, f, a, b, sa, sb, g0, verdict):
    it = s.it
    n = len(s.fr.exits)
    va = s.ev(a, sa)
    raised = s.fr.exits[n:]
    del s.fr.exits[n:]
    if sa.dead:
        va = T("raises", *[e[1] for e in raised])
    if b == "!undefined":
        # Nothing may be known: looking it up fails.
        va = Canon(it, sa, s.fr)(it.decide(sa, va))
        verdict(f, UNDEFINED if va.op in ("undef", "raises") else va, UNDEFINED)
        return
    vb = s.ev(b, sb)
    if sb.dead:
        vb = T("raises", *[e[1] for e in s.fr.exits[n:]])
    del s.fr.exits[n:]
    ca, cb = Canon(it, sa, s.fr), Canon(it, sb, s.fr)
    va, vb = ca(va), cb(vb)
    if f in ob.known:
        src, finding = ob.known[f]
        sk = sb.copy()
        vk = cb(s.ev(src, sk))
        del s.fr.exits[n:]
        if equal(va, vk)[0] is True:
            raise KnownFinding(f, finding)
    # what is known when nothing was raised
    va = it.decide(sa, va)
    vb = it.decide(sa, vb)
    verdict(f, va, vb)


def effects_term(log, kinds, g0, canon):
    out = []
    for e in log:
        t = _eff(e, kinds, g0, canon)
        if t is not None and t not in out:
            out.append(t)
    return T("effects", *sorted(out, key=lambda t: show(t, 30)))


def _eff(e, kinds, g0, canon):
    if e.kind == "foreach":
        d, l = e.args
        vs, body = open_lam(l)
        if body.op != "eff":
            return None
        kind, g, args = body.args
        if not _kind_ok(kind, args, kinds) and kind != "foreach":
            return None
        return T("foreach", canon(d), conj(*e.guard[g0:]), lam(vs, T("eff", kind, canon(g), tuple(canon(x) for x in args))))
    if not _kind_ok(e.kind, e.args, kinds):
        return None
    g = conj(*e.guard[g0:])
    return T("eff", e.kind, canon(g), tuple(canon(x) for x in e.args))


def _kind_ok(kind, args, kinds):
    if callable(kinds):
        return kinds(kind, args)
    return kind in kinds


def _where(prog, ob, visited):
    if ob.anchor:
        c, _, m = ob.anchor.partition(".")
        if c in prog.classes and m:
            k = prog.classes[c]
            if m in k.methods:
                f = k.methods[m][0]
                return f"{f.module.relpath}:{f.node.lineno}"
            if m in k.props:
                f = k.props[m]
                return f"{f.module.relpath}:{f.node.lineno}"
        for f in visited:
            if f.name == (m or c):
                return f"{f.module.relpath}:{f.node.lineno}"
    for f in visited:
        return f"{f.module.relpath}:{f.node.lineno}"
    return "stheno"


def _prov(it, x, whole):
    for t in (x,):
        if t in it.prov:
            return it.prov[t]
    best = None
    for t in walk(x):
        if t in it.prov and t.op not in ("const", "num", "sym", "ext", "cls", "fn"):
            if best is None or size(t) > size(best):
                best = t
    return it.prov[best] if best is not None else None
