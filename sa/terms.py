"""Hash-consed, normalised value numbers.

A value number is a `Term`. Terms that denote the same value for every input
are, as far as the laws below go, the *same* Python object. The laws are:

* numeric `+`, `-`, `*`, `/`, integer and fractional powers: polynomial normal form over
  opaque atoms with rational coefficients;
* matrix products and transposition: flattened non-commutative products, transposition
  pushed to the factors, bilinearity over sums and rational scalars;
* booleans, gated values (`ite`), sequences (concatenation, maps, filters, zips);
* reversal of kernels, `kernel(x) = kernel(x, x)`, squeezing of a trailing axis and a few
  other library identities (see `call`).
"""

from fractions import Fraction

_table = {}
_counter = [0]


class Term:
    __slots__ = ("op", "args", "id", "_opq", "_h", "_hgt", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def T(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        _counter[0] += 1
        t.id = _counter[0]
        t._h = t.id
        t._opq = None
        t._hgt = None
        _table[key] = t
    return t


def const(v):
    if v is True or v is False or v is None or v is Ellipsis:
        return T("const", type(v).__name__, v)
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return T("const", "float", repr(v))
        return num(Fraction(repr(v)))
    if isinstance(v, (str, bytes)):
        return T("const", type(v).__name__, v)
    return T("const", type(v).__name__, repr(v))


def num(v):
    return T("num", Fraction(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELL = const(Ellipsis)
ZERO = num(0)
ONE = num(1)


def sym(name, ty="Any"):
    return T("sym", name, ty)


_opq = [0]


def opaque(reason):
    _opq[0] += 1
    return T("opaque", _opq[0], reason)


def subterms(t):
    """Direct children that are terms."""
    out = []
    for a in t.args:
        _collect(a, out)
    return out


def _collect(a, out):
    if isinstance(a, Term):
        out.append(a)
    elif isinstance(a, tuple):
        for b in a:
            _collect(b, out)


def walk(t):
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        stack.extend(subterms(u))


def has_opaque(t):
    if t._opq is None:
        r = None
        if t.op == "opaque":
            r = t
        else:
            for c in subterms(t):
                r = has_opaque(c)
                if r:
                    break
        t._opq = r or False
    return t._opq


def contains(t, s):
    return any(u is s for u in walk(t))


def contains_any(t, ss):
    return any(u in ss for u in walk(t))


# --------------------------------------------------------------------------- numeric


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0]


def monos(t):
    """Polynomial as dict monomial -> coefficient."""
    if t.op == "num":
        return {ONE: t.args[0]} if t.args[0] != 0 else {}
    if t.op == "add":
        return dict(t.args)
    if t.op == "mul" and t.args and t.args[0][0] is None:
        # never stored
        raise AssertionError
    return {t: Fraction(1)}


def from_monos(d):
    d = {m: c for m, c in d.items() if c != 0}
    # A matrix of zeros added to something else does not change it.
    if len(d) > 1:
        zs = [m for m in d if m.op == "call" and m.args[0] == "B.zeros"]
        if zs and any(m not in zs and m is not ONE for m in d):
            for m in zs:
                del d[m]
    zs = [m for m in d if m.op == "call" and m.args[0] in ZEROS]
    if zs:
        if len(d) > len(zs):
            for m in zs:
                del d[m]
        else:
            d = {zs[0]: Fraction(1)}
    if not d:
        return ZERO
    if len(d) == 1:
        ((m, c),) = d.items()
        if m is ONE:
            return num(c)
        if c == 1:
            return m
    return T("add", *sorted(d.items(), key=lambda e: e[0].id))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in monos(t).items():
            d[m] = d.get(m, 0) + c
    return from_monos(d)


def scale(c, t):
    return from_monos({m: v * c for m, v in monos(t).items()})


def neg(t):
    return scale(Fraction(-1), t)


def sub(a, b):
    return add(a, neg(b))


def factors(m):
    """Monomial as dict base -> exponent (a Term)."""
    if m is ONE:
        return {}
    if m.op == "mul":
        return dict(m.args)
    return {m: ONE}


ZEROS = ("mlkernels.ZeroKernel", "mlkernels.ZeroMean")
ONES = ("mlkernels.OneKernel", "mlkernels.OneMean")
factor_hook = [None]


def from_factors(f):
    f = {b: e for b, e in f.items() if e is not ZERO}
    for b in f:
        if b.op == "call" and b.args[0] in ZEROS:
            return b
    if len(f) > 1 and T("unitfn") in f:
        f = {b: e for b, e in f.items() if b.op != "unitfn"}
    if len(f) > 1 and factor_hook[0] is not None and any(
        b.op == "call" and b.args[0] in ONES + ("mlkernels.TensorProductKernel",) for b in f
    ):
        f = factor_hook[0](f)
    if not f:
        return ONE
    if len(f) == 1:
        ((b, e),) = f.items()
        if e is ONE:
            return b
    return T("mul", *sorted(f.items(), key=lambda e: e[0].id))


def mul2(a, b):
    d = {}
    for m1, c1 in monos(a).items():
        for m2, c2 in monos(b).items():
            f = factors(m1)
            for base, e in factors(m2).items():
                f[base] = add(f.get(base, ZERO), e)
            m = from_factors(f)
            d[m] = d.get(m, 0) + c1 * c2
    return from_monos(d)


def mul(*ts):
    out = ONE
    for t in ts:
        out = mul2(out, t)
    return out


def power(b, e):
    if e is ONE:
        return b
    if e is ZERO:
        return ONE
    if is_num(b) and is_num(e) and numval(e).denominator == 1 and abs(numval(e)) < 64:
        if not (numval(b) == 0 and numval(e) < 0):
            return num(numval(b) ** int(numval(e)))
    if is_num(e) and numval(e).denominator == 1 and 2 <= numval(e) <= 3:
        out = ONE
        for _ in range(int(numval(e))):
            out = mul2(out, b)
        return out
    ms = monos(b)
    if len(ms) == 1:
        ((m, c),) = ms.items()
        integral = is_num(e) and numval(e).denominator == 1
        if integral or c == 1:
            f = {}
            ok = True
            for base, ex in factors(m).items():
                # (x^a)^e = x^(a e) only for integer e (or a single plain factor).
                if not integral and ex is not ONE:
                    ok = False
                f[base] = mul2(ex, e)
            if ok and (integral or len(f) == 1):
                cc = num(c) if c == 1 else power(num(c), e)
                return mul2(cc, from_factors(f))
    return T("mul", (b, e))


def div(a, b):
    return mul2(a, power(b, num(-1)))


# --------------------------------------------------------------------------- matrices


def tr(t):
    if t.op == "tr":
        return t.args[0]
    if t.op == "num":
        return t
    if t.op == "mm":
        return mm(*[tr(f) for f in reversed(t.args)])
    if t.op == "add":
        return add(*[scale(c, tr(m)) for m, c in t.args])
    if t.op == "call" and t.args[0] in (
        "matrix.Diagonal",
        "matrix.Zero",
        "B.eye",
    ):
        return t
    if t.op == "ite":
        return ite(t.args[0], tr(t.args[1]), tr(t.args[2]))
    return T("tr", t)


def mm(*ts):
    # Bilinear expansion.
    sums = [()]
    coefs = [Fraction(1)]
    for t in ts:
        new, newc = [], []
        for pre, c in zip(sums, coefs):
            for m, cm in monos(t).items():
                if m is ONE:
                    m = num(1)
                fs = m.args if m.op == "mm" else (m,)
                new.append(pre + tuple(fs))
                newc.append(c * cm)
        sums, coefs = new, newc
    d = {}
    for fs, c in zip(sums, coefs):
        t = T("mm", *fs) if len(fs) > 1 else fs[0]
        d[t] = d.get(t, 0) + c
    return from_monos(d)


# --------------------------------------------------------------------------- booleans


def neg_c(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return disj(*[neg_c(x) for x in c.args])
    if c.op == "or":
        return conj(*[neg_c(x) for x in c.args])
    if c.op == "ite":
        return ite(c.args[0], neg_c(c.args[1]), neg_c(c.args[2]))
    return T("not", c)


def conj(*cs):
    out = []
    for c in cs:
        if c.op == "and":
            out.extend(c.args)
        else:
            out.append(c)
    s = set()
    for c in out:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        s.add(c)
    for c in s:
        if neg_c(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    for c in s:
        # absorption and unit resolution
        if c.op == "or":
            if any(x in s for x in c.args):
                return conj(*(s - {c}))
            keep = [x for x in c.args if neg_c(x) not in s]
            if len(keep) < len(c.args):
                return conj(disj(*keep), *(s - {c}))
    return T("and", *sorted(s))


def disj(*cs):
    out = []
    for c in cs:
        if c.op == "or":
            out.extend(c.args)
        else:
            out.append(c)
    s = set()
    for c in out:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        s.add(c)
    for c in s:
        if neg_c(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s.pop()
    for c in s:
        # absorption and unit resolution
        if c.op == "and":
            if any(x in s for x in c.args):
                return disj(*(s - {c}))
            keep = [x for x in c.args if neg_c(x) not in s]
            if len(keep) < len(c.args):
                return disj(conj(*keep), *(s - {c}))
    return T("or", *sorted(s))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg_c(c)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return T("ite", c, a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite":
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if distinct(a, b):
        return FALSE
    if b.id < a.id:
        a, b = b, a
    return T("eq", a, b)


def lt(a, b):
    d = sub(b, a)
    if is_num(d):
        return const(numval(d) > 0)
    if is_zero_length(d):
        pass
    # len(x) > 0  <=>  not (len(x) == 0), and len(x) < 1 <=> len(x) == 0
    ms = monos(d)
    nonneg = [m for m in ms if m is not ONE]
    if len(nonneg) == 1 and nonneg[0].op in ("len",) and nonneg[0] in ms:
        m, c, k = nonneg[0], ms[nonneg[0]], ms.get(ONE, Fraction(0))
        if c == 1 and k == 0:
            return neg_c(eq(m, ZERO))
        if c == -1 and k == 1:
            return eq(m, ZERO)
        if c == 1 and k > 0:
            return TRUE
        if c == -1 and k <= 0:
            return FALSE
    return T("lt", a, b)


def is_zero_length(d):
    return False


def distinct(a, b):
    """Provably different (by value for constants, by identity for fresh objects)."""
    cs = ("const", "num")
    if a.op in cs and b.op in cs:
        if a.op != b.op and {a.op, b.op} == {"const", "num"}:
            # True == 1 in Python; treat as distinct except for booleans.
            x = a if a.op == "const" else b
            return x.args[0] != "bool"
        return a is not b
    if a.op in ("new", "clo") and b.op in ("new", "clo", "const", "num"):
        return a is not b
    if b.op in ("new", "clo") and a.op in ("const", "num"):
        return True
    if a.op == "id" and b.op == "id":
        return distinct(a.args[0], b.args[0])
    if a.op == "new" and older(b, a):
        return True
    if b.op == "new" and older(a, b):
        return True
    for x, y in ((a, b), (b, a)):
        # An object private to a module, and anything else but itself.
        if x.op == "global" and len(x.args) == 3 and x.args[2] == "object" and y.op in (
            "sym", "call", "new", "clo", "num", "const", "tuple", "add", "mul", "mm", "lam", "apply", "id", "fn", "attr", "inst"
        ):
            return True
    if a.op in cs and b.op in ("tuple", "id"):
        return True
    if b.op in cs and a.op in ("tuple", "id"):
        return True
    return False


def older(t, new):
    """`t` denotes something that existed before `new` was allocated."""
    if t.op == "sym":
        return True
    if t.op in ("field0", "attr", "at0"):
        return True
    if t.op == "at":
        return older(t.args[0], new)
    if t.op == "content0":
        return True
    return False


# --------------------------------------------------------------------------- sequences
#
# A sequence is T("seq", kind, items) with kind in tuple/list; items are terms or
# T("splat", s) where s is a term denoting a sequence.


def seq_items(t):
    """Items of an immutable sequence value, or None if it is not a literal one."""
    if t.op == "tuple":
        return list(t.args)
    return None


def mk_tuple(items):
    out = []
    for it in items:
        if it.op == "splat":
            s = it.args[0]
            if s.op in ("tuple",):
                out.extend(s.args)
                continue
        out.append(it)
    return T("tuple", *out)


def splat(s):
    return T("splat", s)


def concat_seq(a, b):
    ia = list(a.args) if a.op == "tuple" else [splat(a)]
    ib = list(b.args) if b.op == "tuple" else [splat(b)]
    return norm_seq(mk_tuple(ia + ib))


def norm_seq(t):
    """tuple(*s) == s as a sequence."""
    if t.op == "tuple" and len(t.args) == 1 and t.args[0].op == "splat":
        return t.args[0].args[0]
    return t


def at(s, i):
    """Element of a sequence."""
    if s.op == "call" and s.args[0] == "B.shape_matrix" and len(s.args[1]) == 1 and is_num(i):
        return T("getitem", s, i)
    if s.op == "tuple":
        if is_num(i) and numval(i).denominator == 1:
            k = int(numval(i))
            items = s.args
            if not any(x.op == "splat" for x in items):
                if -len(items) <= k < len(items):
                    return items[k]
                return T("at", s, i)
            # Count from the left or right up to the first splat.
            if k >= 0:
                for n, x in enumerate(items):
                    if x.op == "splat":
                        inner = x.args[0]
                        if n == len(items) - 1:
                            return at(inner, num(k - n))
                        break
                    if n == k:
                        return x
            else:
                for n, x in enumerate(reversed(items)):
                    if x.op == "splat":
                        if x.args[0].op == "prefixseq":
                            return at(x.args[0], num(k + n))
                        break
                    if n == -k - 1:
                        return x
        elif len(s.args) == 1 and s.args[0].op == "splat":
            return at(s.args[0].args[0], i)
    if s.op == "map":
        if not (is_num(i) and numval(i) < 0):
            return apply_lam(s.args[1], i)
    if s.op == "ite":
        return ite(s.args[0], at(s.args[1], i), at(s.args[2], i))
    if s.op == "sslice" and s.args[2] is NONE and is_num(s.args[1]) and not (
        is_num(i) and numval(i) < 0
    ):
        if numval(s.args[1]) >= 0:
            return at(s.args[0], add(i, s.args[1]))
    if s.op == "prefixseq" and is_num(i) and numval(i) == -1 and s.args[0].op == "tuple" and s.args[0].args:
        # The running sum so far.
        r = exclusive(T("tuple", s.args[0].args[-1], splat(s.args[1])))
        if r is not None:
            return at(r, s.args[2])
    if s.op == "transpose" and is_num(i):
        b = fresh("%t", "int")
        return mk_map(dom(s.args[0]), lam([b], at(at(s.args[0], b), i)))
    return T("at", s, i)


def seqlen(s):
    if s.op == "tuple":
        n = ZERO
        for x in s.args:
            n = add(n, seqlen(x.args[0]) if x.op == "splat" else ONE)
        return n
    if s.op == "map":
        d = s.args[0]
        return seqlen(d.args[0]) if d.op == "dom" and d.args[0].op != "range" else T("len", s)
    if s.op == "ite":
        return ite(s.args[0], seqlen(s.args[1]), seqlen(s.args[2]))
    if s.op == "range":
        return s.args[0]
    if s.op in ("sortedseq", "rseq"):
        return seqlen(s.args[0])
    return T("len", s)


def sslice(s, a, b):
    """s[a:b] for a sequence."""
    if a is ZERO:
        a = NONE
    if a is NONE and b is NONE:
        return s
    if s.op == "tuple" and not any(x.op == "splat" for x in s.args):
        ia = None if a is NONE else (int(numval(a)) if is_num(a) else "?")
        ib = None if b is NONE else (int(numval(b)) if is_num(b) else "?")
        if ia != "?" and ib != "?":
            return T("tuple", *s.args[ia:ib])
    if s.op == "tuple" and b is NONE and is_num(a) and numval(a) > 0:
        k = int(numval(a))
        if not any(x.op == "splat" for x in s.args[:k]) and len(s.args) >= k:
            return norm_seq(T("tuple", *s.args[k:]))
    if s.op == "tuple" and a is NONE and is_num(b) and numval(b) < 0:
        # the last elements are known
        k = int(-numval(b))
        if len(s.args) >= k and not any(x.op == "splat" for x in s.args[-k:]):
            return norm_seq(T("tuple", *s.args[:-k]))
    if a is NONE and is_num(b) and numval(b) == -1 and s.op == "tuple" and len(s.args) == 2:
        r = exclusive(s)
        if r is not None:
            return r
    return T("sslice", s, a, b)


def mk_prefix(d, l, i):
    """Sum of the first `i` elements."""
    if i is ZERO:
        return ZERO
    j = sub(i, ONE)
    if not is_num(i) and j.op in ("bv", "sym") and l.op == "lam":
        return add(T("prefix", d, l, j), apply_lam(l, j))
    return T("prefix", d, l, i)


def exclusive(s):
    """Start + sums of the first 0, 1, ... elements, without the sum of them all."""
    c, m = s.args
    if m.op == "splat" and m.args[0].op == "map" and m.args[0].args[1].op == "lam":
        d, l = m.args[0].args
        j = fresh("%x", "int")
        body = apply_lam(l, j)
        for x in [body, *subterms(body)]:
            if x.op == "prefix" and x.args[0] is d and x.args[2] is j and x.args[1].op == "lam":
                if body is add(c, x, apply_lam(x.args[1], j)):
                    return mk_map(d, lam([j], add(c, x)))
    return None


def dom(*ss):
    """Index domain of iterating sequences in parallel."""
    out = set()
    for s in ss:
        s = norm_seq(s)
        if s.op in ("attr", "field0") and s.args[1] == "grid" and s.args[0].op == "call" and str(s.args[0].args[0]).startswith("fdm."):
            # A finite-difference scheme has one weight per grid point.
            s = T(s.op, s.args[0], "coefs")
        while s.op == "map":
            d = s.args[0]
            if d.op == "dom":
                if len(d.args) == 1:
                    s = d.args[0]
                    continue
                out.update(d.args)
                s = None
                break
            break
        if s is not None:
            out.add(s)
    return T("dom", *sorted(out))


# --------------------------------------------------------------------------- lambdas


def height(t):
    """Largest number of a binder in `t`."""
    if t._hgt is None:
        h = 0
        for c in subterms(t):
            h = max(h, height(c))
        if t.op == "lam" and t.args[0]:
            h = max(h, max(t.args[0]))
        t._hgt = h
    return t._hgt


_fresh = [0]


def fresh(hint="%", ty="Any"):
    _fresh[0] += 1
    return T("sym", f"{hint}{_fresh[0]}", ty)


def open_lam(l):
    """Body of an abstraction with fresh symbols for the bound variables."""
    vs = [fresh() for _ in l.args[0]]
    m = {T("bv", k): v for k, v in zip(l.args[0], vs)}
    return vs, _subst_raw(l.args[1], m)


def _subst_raw(t, m):
    return subst(t, m)


def lam(vs, body):
    """Abstract the symbols `vs` in `body`."""
    h = height(body)
    bvs = tuple(range(h + 1, h + 1 + len(vs)))
    m = {v: T("bv", k) for v, k in zip(vs, bvs)}
    return T("lam", bvs, subst(body, m))


def apply_lam(l, *args):
    if l.op != "lam":
        return T("apply", l, *args)
    m = {T("bv", k): a for k, a in zip(l.args[0], args)}
    return subst(l.args[1], m)


def mk_map(d, l):
    # identity map over a single sequence
    if d.op == "dom" and len(d.args) == 1:
        b = l.args[1]
        if b is T("at", d.args[0], T("bv", l.args[0][0])):
            return d.args[0]
    return T("map", d, l)


# --------------------------------------------------------------------------- rebuild


def subst(t, m, memo=None):
    """Substitute terms, renormalising on the way up."""
    if not m:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op == "lam":
        if contains_any(t, m):
            # Open the binder so that nothing is captured.
            vs = [fresh() for _ in t.args[0]]
            body = subst(t.args[1], {T("bv", k): v for k, v in zip(t.args[0], vs)})
            r = lam(vs, subst(body, m))
        else:
            r = t
    else:
        r = rebuild(t, lambda c: subst(c, m, memo))
    memo[t] = r
    return r


def _map(a, f):
    if isinstance(a, Term):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map(b, f) for b in a)
    return a


_rebuilders = {}


def rebuild(t, f):
    if not t.args:
        return t
    op = t.op
    if op in ("const", "num", "sym", "bv", "ext", "fn", "cls", "opaque"):
        return t
    new = tuple(_map(a, f) for a in t.args)
    if new == t.args and all(
        x is y for x, y in zip(new, t.args) if isinstance(x, Term)
    ):
        return t
    return make(op, new)


def make(op, a):
    if op == "add":
        return add(*[scale(c, m) for m, c in a])
    if op == "mul":
        out = ONE
        for b, e in a:
            out = mul2(out, power(b, e))
        return out
    if op == "mm":
        return mm(*a)
    if op == "tr":
        return tr(*a)
    if op == "not":
        return neg_c(*a)
    if op == "and":
        return conj(*a)
    if op == "or":
        return disj(*a)
    if op == "ite":
        return ite(*a)
    if op == "eq":
        return eq(*a)
    if op == "lt":
        return lt(*a)
    if op == "at":
        return at(*a)
    if op == "len":
        return seqlen(*a)
    if op == "tuple":
        return mk_tuple(a)
    if op == "sslice":
        return sslice(*a)
    if op == "dom":
        return dom(*a)
    if op == "map":
        return mk_map(*a)
    if op in _rebuilders:
        return _rebuilders[op](*a)
    return T(op, *a)


def rebuilder(op):
    def deco(f):
        _rebuilders[op] = f
        return f

    return deco


# --------------------------------------------------------------------------- atoms


def cond_atoms(t, out=None):
    """Atomic conditions under `ite` and boolean operators in `t`."""
    out = set()
    for u in walk(t):
        if u.op == "ite":
            _formula_atoms(u.args[0], out)
        elif u.op in ("and", "or", "not"):
            for c in u.args:
                _formula_atoms(c, out)
    # Atoms that mention variables bound outside cannot be lifted out of their binder.
    return {a for a in out if not free_bvs(a)}


_free = {}


def free_bvs(t):
    r = _free.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset(t.args)
        else:
            r = frozenset().union(*[free_bvs(c) for c in subterms(t)])
            if t.op == "lam":
                r -= frozenset(t.args[0])
        _free[t] = r
    return r


def _formula_atoms(c, out):
    if c.op in ("and", "or", "not"):
        for x in c.args:
            _formula_atoms(x, out)
    elif c.op == "ite":
        for x in c.args:
            _formula_atoms(x, out)
    elif c.op != "const":
        out.add(c)


def assume(t, atom, val):
    m = {atom: const(val)}
    if val and atom.op == "eq":
        a, b = atom.args
        if a.op in ("const", "num") and b.op not in ("const", "num"):
            m[b] = a
        elif b.op in ("const", "num"):
            m[a] = b
    if val and atom.op == "is":
        a, b = atom.args
        if a.op in ("const",) and b.op not in ("const", "num"):
            m[b] = a
        elif b.op in ("const",):
            m[a] = b
    return subst(t, m)


# --------------------------------------------------------------------------- display


def show(t, depth=12):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    if op == "const":
        return "..." if a[1] is Ellipsis else repr(a[1])
    if op == "num":
        return str(a[0])
    if op == "sym":
        return a[0]
    if op == "bv":
        return f"i{a[0]}"
    if op == "ext":
        return a[0]
    if op in ("fn", "cls"):
        return a[0]
    if op == "opaque":
        return f"?({a[1]})"
    if op == "add":
        out = []
        for m, c in a:
            if m is ONE:
                out.append(str(c))
            elif c == 1:
                out.append(show(m, d))
            elif c == -1:
                out.append("-" + show(m, d))
            else:
                out.append(f"{c}*{show(m, d)}")
        return "(" + " + ".join(out) + ")"
    if op == "mul":
        return "*".join(
            show(b, d) if e is ONE else f"{show(b, d)}^{show(e, d)}" for b, e in a
        )
    if op == "mm":
        return "(" + " @ ".join(show(x, d) for x in a) + ")"
    if op == "tr":
        return show(a[0], d) + "ᵀ"
    if op == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if op == "splat":
        return "*" + show(a[0], d)
    if op == "ite":
        return f"[if {show(a[0], d)} then {show(a[1], d)} else {show(a[2], d)}]"
    if op == "not":
        return f"not {show(a[0], d)}"
    if op == "eq":
        return f"{show(a[0], d)} == {show(a[1], d)}"
    if op == "lt":
        return f"{show(a[0], d)} < {show(a[1], d)}"
    if op == "call":
        fs = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{a[0]}({', '.join(fs)})"
    if op == "lam":
        return f"λ{','.join('i%d' % k for k in a[0])}.{show(a[1], d)}"
    if op == "at":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if op == "attr" or op == "field0":
        return f"{show(a[0], d)}.{a[1]}"
    return f"{op}({', '.join(_show_arg(x, d) for x in a)})"


def _show_arg(a, d):
    if isinstance(a, Term):
        return show(a, d)
    if isinstance(a, tuple):
        return "(" + ", ".join(_show_arg(x, d) for x in a) + ")"
    return str(a)
