"""Obligations on multi-output processes, sizes, restriction and wrapped kernels."""

from .harness import Ob
from .obl_condition import outside


def eff(kind, args):
    return outside(kind, args) or kind == "extcall"


E = dict(m="Measure", p="GP", q="GP", t="GP", x="Tensor", y="Tensor", z="Tensor", w="Tensor", f="FDD", g="FDD", h="FDD",
         i="int", j="int", mask="Tensor", k="Kernel", l="Kernel")
K2 = "MultiOutputKernel(m, p, q)"
K3 = "MultiOutputKernel(m, p, q, t)"
K1 = "MultiOutputKernel(m, p)"


def block(rows, cols):
    """rows, cols: lists of (process, input)."""
    return "B.block(" + ", ".join(
        "[" + ", ".join(f"m.kernels[{a}, {b}]({x}, {y})" for b, y in cols) + "]" for a, x in rows
    ) + ")"


def diag(parts):
    return "B.concat(" + ", ".join(f"m.kernels[{a}, {b}].elwise({x}, {y})" for (a, x), (b, y) in parts) + ", axis=-2)"


def layout():
    out = []

    def ob(id, run, want, props=("P23",), raises="never", env=E, **kw):
        facets = {"value": ("r", want)} if want is not None else {}
        kw.setdefault("ref", "")
        out.append(Ob(f"mo.{id}", list(props), env, run=f"r = {run}", facets=facets, raises=raises,
                      config=dict(opaque_gfs={"infer_size"}), effects=eff, **kw))

    X = {
        "x": ("x", lambda ps: [(a, "x") for a in ps]),
        "f": ("f", lambda ps: [("f.p", "f.x")]),
        "ff": ("(f, g)", lambda ps: [("f.p", "f.x"), ("g.p", "g.x")]),
        "f1": ("(f,)", lambda ps: [("f.p", "f.x")]),
        "fff": ("(f, g, h)", lambda ps: [("f.p", "f.x"), ("g.p", "g.x"), ("h.p", "h.x")]),
        "xx": ("(x, z)", None),
        "fx": ("(f, x)", None),
    }
    Y = {
        "y": ("y", lambda ps: [(a, "y") for a in ps]),
        "g": ("g", lambda ps: [("g.p", "g.x")]),
        "gh": ("(g, h)", lambda ps: [("g.p", "g.x"), ("h.p", "h.x")]),
        "g1": ("(g,)", lambda ps: [("g.p", "g.x")]),
    }
    for kn, ks, ps in (("1", K1, ["p"]), ("2", K2, ["p", "q"]), ("3", K3, ["p", "q", "t"])):
        for xn, (xs, xr) in X.items():
            for yn, (ys, yr) in Y.items():
                if xr is None:
                    continue
                # Two single distributions need no block.
                rows, cols = xr(ps), yr(ps)
                if xn == "f" and yn == "g":
                    want = "m.kernels[f.p, g.p](f.x, g.x)"
                else:
                    want = block(rows, cols)
                ob(f"pairwise.{kn}.{xn}.{yn}", f"pairwise({ks}, {xs}, {ys})", want, props=["P23", "P08"])
                ob(f"call.{kn}.{xn}.{yn}", f"{ks}({xs}, {ys})", want, props=["P23", "P08"])
        rows = [(a, "x") for a in ps]
        ob(f"elwise.{kn}.x.y", f"elwise({ks}, x, y)", diag([((a, "x"), (a, "y")) for a in ps]), props=["P23", "P34", "P26"])
        ob(f"elwise.{kn}.f.g", f"elwise({ks}, f, g)", "m.kernels[f.p, g.p].elwise(f.x, g.x)", props=["P23", "P34"])
        ob(f"elwise.{kn}.tuples", f"elwise({ks}, (f, g), (g, h))",
           diag([(("f.p", "f.x"), ("g.p", "g.x")), (("g.p", "g.x"), ("h.p", "h.x"))]), props=["P23", "P26"])
        ob(f"elwise.{kn}.f.y", f"elwise({ks}, f, y)", None, props=["P23", "P31"], raises="always")
        ob(f"elwise.{kn}.x.g", f"elwise({ks}, x, g)", None, props=["P23", "P31"], raises="always")
        ob(f"elwise.{kn}.mismatch", f"elwise({ks}, (f, g), (h,))", None, props=["P23", "P31"], raises="always")
        ob(f"elwise.{kn}.mismatch3", f"elwise({ks}, (f, g), (f, g, h))", None, props=["P23", "P31"], raises="always")
        ob(f"elwise.{kn}.mismatch tuple", f"elwise({ks}, (f, g), h)", None, props=["P23", "P31"], raises="always")
        ob(f"elwise.{kn}.mismatch other", f"elwise({ks}, f, (g, h))", None, props=["P23", "P31"], raises="always")
    # Nested tuples and plain kernels at tuples of inputs.
    for kn in ("k",):
        ob("pairwise.plain.tuples", "pairwise(k, (x, y), (z, w))",
           "B.block([k(x, z), k(x, w)], [k(y, z), k(y, w)])")
        ob("pairwise.plain.left", "pairwise(k, (x, y), z)", "B.block([k(x, z)], [k(y, z)])")
        ob("pairwise.plain.right", "pairwise(k, z, (x, y))", "B.block([k(z, x), k(z, y)])")
        ob("pairwise.plain.one", "pairwise(k, (x,), (y,))", "k(x, y)")
        ob("pairwise.plain.three", "pairwise(k, (x, y, z), (w,))", "B.block([k(x, w)], [k(y, w)], [k(z, w)])")
        ob("elwise.plain.tuples", "elwise(k, (x, y), (z, w))", "B.concat(k.elwise(x, z), k.elwise(y, w), axis=-2)",
           props=["P23", "P26"])
        ob("elwise.plain.one", "elwise(k, (x,), (y,))", "B.concat(k.elwise(x, y), axis=-2)", props=["P23", "P26"])
        ob("elwise.plain.left", "elwise(k, (x,), y)", "B.concat(k.elwise(x, y), axis=-2)", props=["P23", "P26"])
        ob("elwise.plain.right", "elwise(k, x, (y,))", "B.concat(k.elwise(x, y), axis=-2)", props=["P23", "P26"])
        ob("elwise.plain.mismatch", "elwise(k, (x, y), (z,))", None, props=["P23", "P31"], raises="always")
        ob("elwise.plain.mismatch2", "elwise(k, (x, y), z)", None, props=["P23", "P31"], raises="always")
    # Distributions given by the id of a process.
    ob("pairwise.ids", f"pairwise({K2}, FDD(i, x), FDD(j, y))", "m.kernels[i, j](x, y)", props=["P23", "P08", "P02"])
    ob("pairwise.x.id", f"pairwise({K2}, x, FDD(j, y))", block([("p", "x"), ("q", "x")], [("j", "y")]),
       props=["P23", "P08", "P02"])
    ob("pairwise.id.y", f"pairwise({K2}, FDD(i, x), y)", block([("i", "x")], [("p", "y"), ("q", "y")]),
       props=["P23", "P08", "P02"])
    ob("pairwise.tuple.id", f"pairwise({K2}, (f, g), FDD(j, y))", block([("f.p", "f.x"), ("g.p", "g.x")], [("j", "y")]),
       props=["P23", "P08", "P02"])
    # The wrappers hold what they are given.
    for cls in ("MultiOutputKernel", "MultiOutputMean"):
        for n, ps, seq in (("0", "", "()"), ("1", "p", "(p,)"), ("2", "p, q", "(p, q)"), ("3", "p, q, t", "(p, q, t)")):
            out.append(Ob(f"mo.holds.{cls}.{n}", ["P23"], E, run=f"k = {cls}({', '.join(['m'] + ([ps] if ps else []))})",
                          facets={"measure": ("k.measure", "m"), "ps": ("tuple(k.ps)", seq)}, raises="never", ref="",
                          config=dict(inline_ctors={cls})))
    # Means.
    ob("mean.x", "MultiOutputMean(m, p, q)(x)", "B.concat(m.means[p](x), m.means[q](x), axis=-2)", props=["P23", "P26"])
    ob("mean.x3", "MultiOutputMean(m, p, q, t)(x)", "B.concat(m.means[p](x), m.means[q](x), m.means[t](x), axis=-2)",
       props=["P23", "P26"])
    ob("mean.x1", "MultiOutputMean(m, p)(x)", "B.concat(m.means[p](x), axis=-2)", props=["P23", "P26"])
    ob("mean.f", "MultiOutputMean(m, p, q)(f)", "m.means[f.p](f.x)")
    ob("mean.id", "MultiOutputMean(m, p, q)(FDD(i, x))", "m.means[i](x)")
    ob("mean.tuple", "MultiOutputMean(m, p, q)((f, g))", "B.concat(m.means[f.p](f.x), m.means[g.p](g.x), axis=-2)",
       props=["P23", "P08", "P26"])
    ob("mean.tuple3", "MultiOutputMean(m, p, q)((f, g, h))",
       "B.concat(m.means[f.p](f.x), m.means[g.p](g.x), m.means[h.p](h.x), axis=-2)", props=["P23", "P08", "P26"])
    ob("mean.nested", "MultiOutputMean(m, p, q)((f, x))",
       "B.concat(m.means[f.p](f.x), B.concat(m.means[p](x), m.means[q](x), axis=-2), axis=-2)", props=["P23", "P26"])
    return out



def sizes():
    out = []

    def ob(id, run, want, props=("P24",), raises="never", env=None, cfg=None, **kw):
        facets = {"value": ("r", want)} if want is not None else {}
        e = dict(E)
        e.update(env or {})
        kw.setdefault("ref", "")
        out.append(Ob(f"size.{id}", list(props), e, run=f"r = {run}", facets=facets, raises=raises,
                      config=dict(**(cfg or {})), effects=eff, **kw))

    # Dimensionalities: every combination of known and unknown parts.
    def merge(id, kind, parts):
        n = len(parts)
        ds = [f"dimensionality({p})" for p in parts]
        for mask in range(2**n):
            known = [d for i, d in enumerate(ds) if mask >> i & 1]
            assume = [f"{d} is not None" if mask >> i & 1 else f"{d} is None" for i, d in enumerate(ds)]
            if not known:
                ob(f"dim.{id}.{mask}", "dimensionality(k)", "None", env=dict(k=kind), assume=assume)
                continue
            cond = " and ".join(f"{known[0]} == {d}" for d in known[1:])
            ob(f"dim.{id}.{mask}", "dimensionality(k)", known[0], env=dict(k=kind), assume=assume,
               raises=f"not ({cond})" if cond else "never", props=["P24", "P31"])

    merge("join", "JoinKernel", ["k[0]", "k[1]"])
    merge("posterior", "PosteriorKernel", ["k.k_ij", "k.k_zi", "k.k_zj"])
    merge("subspace", "SubspaceKernel", ["k.k_zi", "k.k_zj"])
    ob("dim.wrapped", "dimensionality(k)", "dimensionality(k[0])", env=dict(k="PlainWrappedKernel"))
    ob("dim.element", "dimensionality(k)", "1", env=dict(k="ElementKernel"))
    ob("dim.adk", "dimensionality(AmbiguousDimensionalityKernel(k))", "None", props=["P24", "P32"])
    for n, ps in ((1, "p"), (2, "p, q"), (3, "p, q, t")):
        names = ps.split(", ")
        ds = [f"dimensionality(m.kernels[{a}])" for a in names]
        none = " or ".join(f"{d} is None" for d in ds)
        ob(f"dim.mok.{n}", f"dimensionality(MultiOutputKernel(m, {ps}))", f"None if ({none}) else " + " + ".join(ds),
           props=["P24", "P23"])
        ob(f"dim.mom.{n}", f"dimensionality(MultiOutputMean(m, {ps}))", str(n), props=["P24", "P23"])
    # Sizes.
    ob("tensor", "infer_size(k, x)", "num_elements(x) * dimensionality(k)", raises="dimensionality(k) is None",
       props=["P24", "P31"])
    ob("fdd", "infer_size(k, f)", "infer_size(f.p.kernel, f.x)", where="stheno/mo/infer.py")
    ob("fdd.tensor", "infer_size(k, p(x))", "num_elements(x) * dimensionality(p.kernel)", raises="dimensionality(p.kernel) is None", env=dict())
    for n, xs in ((1, ["x"]), (2, ["x", "y"]), (3, ["x", "y", "z"])):
        tup = "(" + ", ".join(xs) + ",)"
        ob(f"tuple.{n}", f"infer_size(k, {tup})", "dimensionality(k) * (" + " + ".join(f"num_elements({a})" for a in xs) + ")",
           raises="dimensionality(k) is None", props=["P24"])
        ob(f"num_elements.{n}", f"num_elements({tup})", " + ".join(f"num_elements({a})" for a in xs), props=["P24", "P23"])
    ob("num_elements.fdd", "num_elements(f)", "num_elements(f.x)", props=["P24", "P11"])
    ob("dtype.fdd", "B.dtype(f)", "B.dtype(f.x)", props=["P24", "P11"])
    return out



def restrict():
    out = []
    BOOL = "B.issubdtype(B.dtype(mask), bool)"

    def ob(id, setup, run, want, props=("P07", "P24"), raises="never", env=None, assume=(BOOL,), facets=None, **kw):
        if facets is None:
            facets = {"value": ("r", want)} if want is not None else {}
        e = dict(E)
        e.update(env or {})
        kw.setdefault("ref", "")
        out.append(Ob(f"take.{id}", list(props), e, setup=setup, run=f"r = {run}", facets=facets, raises=raises,
                      config=dict(plain_kernels=True, opaque_gfs={"infer_size"}), effects=eff, assume=list(assume), **kw))

    views = lambda xs, noise: {
        "process": ("r.p", "fd.p"),
        "input": ("r.x", xs),
        "noise": ("r.noise", f"B.submatrix({noise}, mask)"),
    }
    ob("plain", "fd = p(x, w)", "B.take(fd, mask)", None, facets=views("B.take(x, mask)", "fd.noise"), props=["P07", "P12", "P24"])
    ob("none", "fd = p(x)", "B.take(fd, mask)", None, facets=views("B.take(x, mask)", "fd.noise"), props=["P07", "P12", "P24"])
    ob("mask only", "fd = p(x)", "B.take(fd, mask)", None, assume=[f"not ({BOOL})"], raises="always", props=["P07", "P31"])
    n1, n2, n3 = (f"infer_size(fd.p.kernel, {a})" for a in "xyz")
    ob("tuple1", "fd = p((x,), w)", "B.take(fd, mask)", None, facets=views(f"(B.take(x, mask[0:{n1}]),)", "fd.noise"))
    ob("tuple2", "fd = p((x, y), w)", "B.take(fd, mask)", None,
       facets=views(f"(B.take(x, mask[0:{n1}]), B.take(y, mask[{n1}:{n1} + {n2}]))", "fd.noise"))
    ob("tuple3", "fd = p((x, y, z), w)", "B.take(fd, mask)", None,
       facets=views(f"(B.take(x, mask[0:{n1}]), B.take(y, mask[{n1}:{n1} + {n2}]), "
                    f"B.take(z, mask[{n1} + {n2}:{n1} + {n2} + {n3}]))", "fd.noise"))
    # Products: each output takes its own part of the mask.
    for n, ps in ((1, ["p"]), (2, ["p", "q"]), (3, ["p", "q", "t"])):
        k = "MultiOutputKernel(m, " + ", ".join(ps) + ")"
        sizes_ = [f"infer_size(k, {a}(x))" for a in ps]
        starts = [" + ".join(["0"] + sizes_[:i]) for i in range(n + 1)]
        xs = [f"B.take({a}(x), mask[{starts[i]}:{starts[i + 1]}])" for i, a in enumerate(ps)]
        facets = {"n": ("len(r)", str(n))}
        for i, a in enumerate(ps):
            facets[f"{i}.p"] = (f"r[{i}].p", a)
            facets[f"{i}.x"] = (f"r[{i}].x", f"B.take(x, mask[{starts[i]}:{starts[i + 1]}])")
        parts = [f"{BOOL.replace('mask', f'mask[{starts[i]}:{starts[i + 1]}]')}" for i in range(n)]
        ob(f"product.{n}", f"k = {k}", "_take_x(k, x, mask)", None, facets=facets, props=["P07", "P23", "P24"],
           assume=[BOOL] + parts)
    # A kernel composed from a product, such as that of ``2 * cross(p, q)``, takes its parts like the product
    # does.  It does not (known finding).
    s0, s1 = "infer_size(K, p(x))", "infer_size(K, p(x)) + infer_size(K, q(x))"
    ob("product.scaled", "K = MultiOutputKernel(m, p, q); k = 2 * K", "_take_x(k, x, mask)", None,
       facets={"value": ("r", "_take_x(K, x, mask)")},
       known={"value": ("B.take(x, mask)", "composite-missing")}, props=["P07"],
       assume=[BOOL, BOOL.replace("mask", f"mask[0:{s0}]"), BOOL.replace("mask", f"mask[{s0}:{s1}]")])
    ob("product.fdd", "k = MultiOutputKernel(m, p, q); fd = p(x, w)", "_take_x(k, fd, mask)", None,
       facets=views("B.take(x, mask)", "fd.noise"), props=["P07", "P23"])
    ob("product.foreign", "k = MultiOutputKernel(m, p, q); fd = t(x)", "_take_x(k, fd, mask)", None, raises="always",
       assume=[BOOL, "t is not p", "t is not q"], props=["P07", "P23", "P31"])
    return out


def wrapped():
    out = []
    e = dict(E)
    e.update(s="GP")

    def ob(id, run, want, **kw):
        kw.setdefault("ref", "")
        kw.setdefault("raises", "never")
        out.append(Ob(f"adk.{id}", ["P32"], e, run=f"r = {run}", facets={"value": ("r", want)}, effects=eff,
                      config=dict(), **kw))

    A = "AmbiguousDimensionalityKernel(k)"
    ob("pairwise", f"pairwise({A}, x, y)", "pairwise(k, x, y)")
    ob("pairwise method", f"{A}.pairwise(x, y)", "k(x, y)")
    ob("call", f"{A}(x, y)", "k(x, y)")
    ob("call one", f"{A}(x)", "k(x)")
    ob("elwise", f"elwise({A}, x, y)", "elwise(k, x, y)")
    ob("elwise method", f"{A}.elwise(x, y)", "k.elwise(x, y)")
    ob("elwise one", f"{A}.elwise(x)", "k.elwise(x)")
    ob("pairwise fdds", f"pairwise({A}, f, g)", "pairwise(k, f, g)")
    ob("pairwise tuple", f"pairwise({A}, (x, y), z)", "pairwise(k, (x, y), z)")
    ob("elwise tuple", f"elwise({A}, (x, y), (z, w))", "elwise(k, (x, y), (z, w))")
    ob("mok", "AmbiguousDimensionalityKernel(MultiOutputKernel(m, p, q))(x, y)", "MultiOutputKernel(m, p, q)(x, y)")
    ob("mok elwise", "AmbiguousDimensionalityKernel(MultiOutputKernel(m, p, q)).elwise(x, y)",
       "MultiOutputKernel(m, p, q).elwise(x, y)")
    ob("stationary", f"{A}._stationary", "k.stationary")
    ob("eq", f"{A} == AmbiguousDimensionalityKernel(l)", "k == l")
    ob("render", f"{A}.render_wrap(i, None)", "str(i)")
    return out


def obligations():
    return layout() + sizes() + restrict() + wrapped()
