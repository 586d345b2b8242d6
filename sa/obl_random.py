"""Obligations on normal distributions and finite-dimensional distributions."""

from itertools import permutations, product

from .harness import Ob
from .terms import show
from .obl_condition import outside


def eff(kind, args):
    return outside(kind, args) or kind == "extcall"


# ------------------------------------------------------------------- views of a distribution

# How a distribution is made: name -> (environment, constructor, mean, variance, diagonal, zero mean)
_Z = "B.zeros(B.dtype({v}), *B.shape_batch({v}), B.shape_matrix({v})[0], 1)"
NORMALS = {
    "moments": (dict(a="Tensor", b="AbstractMatrix"), "Normal(a, b)", "a", "b", "B.diag(b)"),
    "matrix mean": (dict(a="AbstractMatrix", b="AbstractMatrix"), "Normal(a, b)", "a", "b", "B.diag(b)"),
    "var only": (dict(b="AbstractMatrix"), "Normal(b)", _Z.format(v="b"), "b", "B.diag(b)"),
    "zero": (dict(b="AbstractMatrix"), "Normal(0, b)", _Z.format(v="b"), "b", "B.diag(b)"),
    "lazy": (dict(a="AbstractMatrix", b="AbstractMatrix"), "Normal(lambda: a, lambda: b)", "a", "b", "B.diag(b)"),
    "lazy var": (dict(b="AbstractMatrix"), "Normal(lambda: b)", _Z.format(v="b"), "b", "B.diag(b)"),
    "lazy diag": (dict(a="AbstractMatrix", b="AbstractMatrix"),
                  "Normal(lambda: a, lambda: b, var_diag=lambda: B.diag(b))", "a", "b", "B.diag(b)"),
    "lazy joint": (dict(a="AbstractMatrix", b="AbstractMatrix"),
                   "Normal(lambda: a, lambda: b, mean_var=lambda: (a, b), mean_var_diag=lambda: (a, B.diag(b)))",
                   "a", "b", "B.diag(b)"),
    "lazy all": (dict(a="AbstractMatrix", b="AbstractMatrix"),
                 "Normal(lambda: a, lambda: b, var_diag=lambda: B.diag(b), mean_var=lambda: (a, b),"
                 " mean_var_diag=lambda: (a, B.diag(b)))", "a", "b", "B.diag(b)"),
    "lazy zero joint": (dict(b="AbstractMatrix"),
                        "Normal(lambda: 0, lambda: b, var_diag=lambda: B.diag(b), mean_var=lambda: (0, b),"
                        " mean_var_diag=lambda: (0, B.diag(b)))", _Z.format(v="b"), "b", "B.diag(b)"),
    "lazy zero": (dict(b="AbstractMatrix"), "Normal(lambda: b, var_diag=lambda: B.diag(b))", _Z.format(v="b"), "b", "B.diag(b)"),
    "numeric var": (dict(a="Tensor", b="Tensor"), "Normal(a, b)", "a", "convert(b, AbstractMatrix)",
                    "B.diag(convert(b, AbstractMatrix))"),
}  # fmt: skip


def views(mean, var, diag):
    mg = f"(B.squeeze(B.dense({mean}), axis=-1), B.maximum(B.dense({diag}), B.zero({diag})))"
    return {
        "mean": ("d.mean", mean),
        "var": ("d.var", var),
        "var_diag": ("d.var_diag", diag),
        "mean_var": ("d.mean_var", f"({mean}, {var})"),
        "marginals": ("d.marginals()", mg),
        "dim": ("d.dim", f"B.shape_matrix({var})[0]"),
        "dtype": ("d.dtype", f"B.dtype({var})"),
        "m2": ("d.m2", f"{var} + B.matmul({mean}, {mean}, tr_b=True)"),
        "bounds": ("d.marginal_credible_bounds()",
                   f"({mg}[0], {mg}[0] - 1.96 * B.sqrt({mg}[1]), {mg}[0] + 1.96 * B.sqrt({mg}[1]))"),
    }  # fmt: skip


CFG = dict(
    inline_ctors={"Normal", "FDD"}, inline_observers=True,
)


def zero_test(mean):
    return "True" if mean.startswith("B.zeros") else f"isinstance({mean}, Zero)"


def histories(queries, depth):
    return [h for n in range(depth[0], depth[1] + 1) for h in permutations(queries, n)]


def distribution_views(prefix, env, ctor, mean, var, diag, props, assume=(), cfg=CFG, setup="", depth=(1, 2)):
    out = []
    V = views(mean, var, diag)
    setup = (setup + "\n" if setup else "") + f"d = {ctor}"
    P = {
        "mean": ["P13", "P11"], "var": ["P13", "P11"], "var_diag": ["P13", "P11", "P16"], "mean_var": ["P13", "P11"],
        "marginals": ["P16", "P13", "P11", "P26"], "bounds": ["P16", "P13"], "m2": ["P15", "P26", "P13"],
        "dim": ["P13"], "dtype": ["P13"],
    }  # fmt: skip
    for n, (run, want) in V.items():
        out.append(
            Ob(f"{prefix}.{n}", [p for p in P[n] if p != "P11" or "P11" in props] + [p for p in props if p not in P[n]],
               env, setup=setup, run=f"r = {run}", facets={"value": ("r", want)}, raises="never", config=cfg,
               assume=assume)
        )
    out.append(
        Ob(f"{prefix}.mean_is_zero", ["P13"] + list(props), env, setup=setup, run="r = d.mean_is_zero",
           facets={"value": ("r", zero_test(mean))}, config=cfg, assume=assume, raises="never")
    )
    # Histories.
    H = ["mean", "var", "var_diag", "mean_var", "marginals", "mean_is_zero"]
    V["mean_is_zero"] = ("d.mean_is_zero", zero_test(mean))
    obs = ["mean", "var", "var_diag", "mean_var", "marginals", "mean_is_zero"]
    for h in histories(H, depth):
        run = "\n".join(f"h{i} = {V[x][0]}" for i, x in enumerate(h))
        run += "\n" + "\n".join(f"r_{x} = {V[x][0]}" for x in obs)
        out.append(
            Ob(f"{prefix}.after.{'+'.join(h)}", ["P13"] + (["P11"] if "P11" in props else []), env, setup=setup, run=run,
               facets={x: (f"r_{x}", V[x][1]) for x in obs}, config=cfg, assume=assume)
        )
    return out


def normals(depth=(1, 2)):
    out = []
    for name, (env, ctor, mean, var, diag) in NORMALS.items():
        out += distribution_views(f"normal.{name}", env, ctor, mean, var, diag, [], depth=depth)
    return out


FULL = ("mlkernels.pairwise", "mlkernels.mean_var")


def never_full(s, base, act):
    """No kernel is evaluated at all pairs of inputs, nor is the covariance asked for."""
    for e in act.trace:
        if e[0] == "pairwise" or e[0] in FULL:
            yield "diagonal only", "violation", f"evaluates the full covariance ({e[0]} of {show(e[1])[:160]})", ""
            return
    n = sum(e[0] in ("elwise", "mlkernels.elwise", "mlkernels.mean_var_diag") for e in act.trace)
    yield "diagonal only", "ok" if n else "undecided", f"{n} element-wise evaluations", ""


def joint_once(s, base, act):
    n = sum(e[0] == "mlkernels.mean_var" for e in act.trace)
    m = sum(e[0] in ("pairwise", "mlkernels.pairwise") for e in act.trace)
    ok = n == 1 and m == 0
    yield "joint once", "ok" if ok else "violation", f"{n} joint computations, {m} further evaluations of the full covariance", ""


def diagonal_only():
    """Which kernel evaluations the queries of a fresh distribution of a process lead to."""
    out = []
    forms = {"none": (dict(), "p(x)"), "None": (dict(), "FDD(p, x)"), "numeric": (dict(e="Tensor"), "p(x, e)"),
             "matrix": (dict(e="AbstractMatrix"), "p(x, e)"), "FDD matrix": (dict(e="AbstractMatrix"), "FDD(p, x, e)")}
    queries = {
        "var_diag": ("d.var_diag", never_full), "marginals": ("d.marginals()", never_full),
        "bounds": ("d.marginal_credible_bounds()", never_full), "mean_var": ("d.mean_var", joint_once),
        "after mean marginals": ("d.mean\nr = d.marginals()", never_full),
        "after mean bounds": ("d.mean\nr = d.marginal_credible_bounds()", never_full),
        "marginals twice": ("d.marginals()\nr = d.marginals()", never_full),
        "diag then bounds": ("d.var_diag\nr = d.marginal_credible_bounds()", never_full),
        "marginals then diag": ("d.marginals()\nr = d.var_diag", never_full),
        "bounds then marginals": ("d.marginal_credible_bounds()\nr = d.marginals()", never_full),
        "mean_var twice": ("d.mean_var\nr = d.mean_var", joint_once),
        "mean_var then all": ("d.mean_var\nr = (d.mean, d.var, d.mean_var)", joint_once),
    }
    for fn, (env, ctor) in forms.items():
        for xt in ("Tensor", "tuple"):
            for q, (run, rule) in queries.items():
                out.append(
                    Ob(f"diagonal.{fn}.{xt}.{q}", ["P34"], dict(env, p="GP", x=xt), setup=f"d = {ctor}", run=f"r = {run}",
                       config=dict(CFG, opaque_gfs={"infer_size"}), assume=("not identical(p.mean(x), 0)",), trace=rule,
                       raises="never", anchor="FDD.__init__")
                )
    return out


def fdds(depth=(1, 2)):
    out = []
    n = "infer_size(p.kernel, x)"
    forms = {
        "no noise": (dict(), "p(x)", f"Zero(B.dtype(x), {n}, {n})"),
        "None": (dict(), "p(x, None)", f"Zero(B.dtype(x), {n}, {n})"),
        "FDD": (dict(), "FDD(p, x)", f"Zero(B.dtype(x), {n}, {n})"),
        "numeric": (dict(e="Tensor"), "p(x, e)",
                    f"(B.fill_diag(e, {n}) if B.is_scalar(e) else Diagonal(e) if B.rank(e) == 1 else Dense(e))"),
        "FDD numeric": (dict(e="Tensor"), "FDD(p, x, e)",
                    f"(B.fill_diag(e, {n}) if B.is_scalar(e) else Diagonal(e) if B.rank(e) == 1 else Dense(e))"),
        "matrix": (dict(e="AbstractMatrix"), "p(x, e)", "e"),
        "keyword": (dict(e="AbstractMatrix"), "p(x, noise=e)", "e"),
    }
    for xt in ("Tensor", "tuple", "Any"):
        for name, (env, ctor, noise) in forms.items():
            env = dict(env, p="GP", x=xt)
            cfg = dict(CFG, opaque_gfs={"infer_size"})
            out.append(
                Ob(f"fdd.{name}.{xt}.parts", ["P12", "P11", "P24"], env, run=f"d = {ctor}", raises="never",
                   facets={"noise": ("d.noise", noise), "input": ("d.x", "x"), "process": ("d.p", "p"),
                           "dtype": ("B.dtype(d)", "B.dtype(x)"), "size": ("num_elements(d)", "num_elements(x)")},
                   config=cfg, effects=eff, ref="", anchor="FDD.__init__")
            )
            if xt == "Tensor":
                out += distribution_views(
                    f"fdd.{name}", env, ctor, "p.mean(x)", f"B.add(p.kernel(x), {noise})",
                    f"B.add(B.squeeze(p.kernel.elwise(x), axis=-1), B.diag({noise}))",
                    ["P11", "P12"], cfg=cfg, assume=("not identical(p.mean(x), 0)",), depth=depth,
                )
    # Identity-only distributions.
    out.append(
        Ob("fdd.id", ["P11", "P12", "P08"], dict(q="int", x="Tensor"), run="d = FDD(q, x)", raises="never",
           facets={"noise": ("d.noise", "None"), "input": ("d.x", "x"), "process": ("d.p", "q"),
                   "dtype": ("B.dtype(d)", "B.dtype(x)"), "size": ("num_elements(d)", "num_elements(x)")}, config=CFG)
    )
    return out


def obligations():
    return normals() + fdds() + diagonal_only()


# ------------------------------------------------------------------- arithmetic and information

D = dict(d="Normal", e="Normal", c="Tensor", k="Tensor", x="Tensor", s="RandomState", n="Int", g="FDD", t="dtype", a="Any")
ARITH = {
    "add number": ("d + c", "d.mean + c", "d.var", ["P14"]),
    "radd number": ("c + d", "d.mean + c", "d.var", ["P14", "P33"]),
    "add normal": ("d + e", "d.mean + e.mean", "d.var + e.var", ["P14"]),
    "add fdd": ("d + g", "d.mean + g.mean", "d.var + g.var", ["P14"]),
    "fdd add": ("g + c", "g.mean + c", "g.var", ["P14"]),
    "mul": ("d * c", "d.mean * c", "d.var * c ** 2", ["P14"]),
    "rmul": ("c * d", "d.mean * c", "d.var * c ** 2", ["P14", "P33"]),
    "neg": ("-d", "-d.mean", "d.var", ["P14", "P33"]),
    "sub number": ("d - c", "d.mean - c", "d.var", ["P14", "P33"]),
    "rsub number": ("c - d", "c - d.mean", "d.var", ["P14", "P33"]),
    "sub normal": ("d - e", "d.mean - e.mean", "d.var + e.var", ["P14", "P33"]),
    "div": ("d / c", "d.mean / c", "d.var / c ** 2", ["P14", "P33"]),
    "chain": ("(d + c) * k", "(d.mean + c) * k", "d.var * k ** 2", ["P14"]),
    "lmatmul": ("d.lmatmul(k)", "B.matmul(k, d.mean)", "B.matmul(k, d.var, k, tr_c=True)", ["P14", "P26"]),
    "rmatmul": ("d.rmatmul(k)", "B.matmul(k, d.mean, tr_a=True)", "B.matmul(k, d.var, k, tr_a=True)", ["P14", "P26"]),
    "lmatmul any": ("d.lmatmul(a)", "B.matmul(a, d.mean)", "B.matmul(a, d.var, a, tr_c=True)", ["P14", "P26"]),
    "rmatmul any": ("d.rmatmul(a)", "B.matmul(a, d.mean, tr_a=True)", "B.matmul(a, d.var, a, tr_a=True)", ["P14", "P26"]),
    "diagonalise": ("d.diagonalise()", "d.mean", "Diagonal(d.var_diag)", ["P14", "P16", "P26"]),
    "cast": ("B.cast(t, d)", "B.cast(t, d.mean)", "B.cast(t, d.var)", ["P14"]),
    "cast fdd": ("B.cast(t, g)", "B.cast(t, g.mean)", "B.cast(t, g.var)", ["P14"]),
}

INFO = {
    "entropy": ("d.entropy()", "(B.logdet(d.var) + B.cast(d.dtype, d.dim) * B.cast(d.dtype, B.log_2_pi + 1)) / 2",
                ["P15", "P26"]),
    "kl": ("d.kl(e)", "(B.iqf_diag(e.var, e.mean - d.mean)[..., 0] + B.ratio(d.var, e.var) + B.logdet(e.var)"
           " - B.logdet(d.var) - B.cast(d.dtype, d.dim)) / 2", ["P15", "P26"]),
    "kl self": ("d.kl(d)", "(B.iqf_diag(d.var, d.mean - d.mean)[..., 0] + B.ratio(d.var, d.var) + B.logdet(d.var)"
                " - B.logdet(d.var) - B.cast(d.dtype, d.dim)) / 2", ["P15"]),
    "kl fdd": ("d.kl(g)", "(B.iqf_diag(g.var, g.mean - d.mean)[..., 0] + B.ratio(d.var, g.var) + B.logdet(g.var)"
               " - B.logdet(d.var) - B.cast(d.dtype, d.dim)) / 2", ["P15"]),
    "w2": ("d.w2(e)", "B.sqrt(B.maximum(B.sum(B.sum((d.mean - e.mean) ** 2, axis=-1), axis=-1) + B.trace(d.var)"
           " + B.trace(e.var) - 2 * B.trace(B.root(B.matmul(B.root(d.var), e.var, B.root(d.var)))),"
           " B.cast(d.dtype, 0)))", ["P15", "P26"]),
    "dtype": ("B.dtype(Normal(c, k))", "B.dtype(c, k)", ["P14", "P25"]),
    "m2": ("d.m2", "d.var + B.matmul(d.mean, d.mean, tr_b=True)", ["P15", "P26"]),
    "marginals": ("d.marginals()", "(B.squeeze(B.dense(d.mean), axis=-1), B.maximum(B.dense(d.var_diag), B.zero(d.var_diag)))",
                  ["P16", "P26"]),
    "bounds": ("d.marginal_credible_bounds()", "(d.marginals()[0], d.marginals()[0] - 1.96 * B.sqrt(d.marginals()[1]),"
               " d.marginals()[0] + 1.96 * B.sqrt(d.marginals()[1]))", ["P16", "P26"]),
}  # fmt: skip

REF_LOGPDF = """
x = B.uprank(x)
a = B.jit_to_numpy(~B.isnan(x[:, 0]))
l = -(B.logdet({d}.var)[..., None] + B.cast({d}.dtype, {d}.dim) * B.cast({d}.dtype, B.log_2_pi)
    + B.iqf_diag({d}.var, B.subtract(x, {d}.mean))) / 2
full = l[..., 0] if B.shape(l, -1) == 1 else l
if B.rank(x) == 2 and B.shape(x, 1) == 1 and not B.all(a):
    r = Normal(B.take({d}.mean, a), B.submatrix({d}.var, a)).logpdf(B.take(x, a))
else:
    r = full
"""


def arithmetic():
    out = []
    entry = ["__add__", "__mul__", "__radd__", "__rmul__", "lmatmul", "rmatmul", "diagonalise", "entropy", "kl", "w2",
             "__neg__", "__sub__", "__rsub__", "__truediv__", "marginal_credible_bounds"]
    cfg = lambda **k: dict(dict(self_=["d", "g", "e"], entry_methods=entry, inline_ctors={"Normal"}), **k)
    for n, (run, mean, var, props) in ARITH.items():
        out.append(
            Ob(f"arith.{n}", props, D, run=f"r = {run}", ref=f"r = Normal({mean}, {var})", raises="never",
               facets={"mean": ("r.mean", "r.mean"), "var": ("r.var", "r.var"), "var_diag": ("r.var_diag", "B.diag(r.var)"),
                       "mean_var": ("r.mean_var", "(r.mean, r.var)")}, effects=eff, config=cfg())
        )
    for n, (run, want, props) in INFO.items():
        c = cfg()
        if n in ("m2", "dtype", "marginals"):
            # Defined through the private state; analysed from the constructor on above.
            c = cfg(inline_observers=False)
        if n == "marginals":
            continue
        out.append(
            Ob(f"info.{n}", props, D, run=f"r = {run}", ref=f"r = {want}", raises="never",
               facets={"value": ("r", "r")}, effects=eff, config=c)
        )
    for o in ("d", "g"):
        out.append(
            Ob(f"logpdf.{o}", ["P15", "P07", "P10", "P26", "P25"], D, run=f"r = {o}.logpdf(x)", ref=REF_LOGPDF.format(d=o),
               raises="never", facets={"value": ("r", "r")}, effects=eff,
               config=dict(self_=["d", "g"], entry_methods=["logpdf"]), anchor="Normal.logpdf")
        )
    # ------------------------------------------------------------- sampling
    for zero in (True, False):
        for nz in (None, "c"):
            for num in (None, "n"):
                for st in (True, False):
                    args = (["s"] if st else []) + ([num] if num else []) + ([f"noise={nz}"] if nz else [])
                    ref = "s0 = %s\n" % ("s" if st else "B.global_random_state(d.dtype)")
                    ref += "v = d.var\n" + (f"v = B.add(v, B.fill_diag({nz}, d.dim))\n" if nz else "")
                    ref += f"s1, z = B.sample(s0, v, num={num or 1})\n"
                    ref += "z = z if d.mean_is_zero else z + d.mean\nz = B.dense(z)\n"
                    ref += "r = (s1, z)" if st else "B.set_global_random_state(s1)\nr = z"
                    out.append(
                        Ob(f"draw.{'zero' if zero else 'any'}.{nz}.{num}.{st}", ["P17", "P09", "P26", "P13"], D,
                           run=f"r = d.sample({', '.join(args)})", ref=ref, raises="never",
                           assume=("d.mean_is_zero",) if zero else ("not d.mean_is_zero",),
                           facets={"value": ("r", "r")}, effects=eff,
                           config=dict(self_=["d"], entry_methods=["sample"]), anchor="Normal.sample")
                    )
    out.append(
        Ob("draw.positional noise", ["P17"], D, run="r = d.sample(s, n, c)",
           ref="s1, z = B.sample(s, B.add(d.var, B.fill_diag(c, d.dim)), num=n)\n"
           "r = (s1, B.dense(z if d.mean_is_zero else z + d.mean))", raises="never",
           facets={"value": ("r", "r")}, effects=eff,
           config=dict(self_=["d"], entry_methods=["sample"]), anchor="Normal.sample")
    )
    return out


_a = obligations


def obligations():
    return _a() + arithmetic()


# ------------------------------------------------------- the same for distributions as they are made

PREFIX = {"": "", "mean": "d.mean\n", "var": "d.var\n", "zero": "d.mean_is_zero\n", "diag": "d.var_diag\n",
          "marginals": "d.marginals()\n", "joint": "d.mean_var\n"}
MADE_PREFIX = ("", "mean", "var", "zero", "marginals", "joint")


def made():
    """Arithmetic, information and sampling on distributions in every state they can be in."""
    out = []
    forms = {n: (env, ctor, mean, var, diag, ()) for n, (env, ctor, mean, var, diag) in NORMALS.items()}
    n = "infer_size(p.kernel, x)"
    forms["fdd"] = (dict(p="GP", x="Tensor"), "p(x)", "p.mean(x)", f"B.add(p.kernel(x), Zero(B.dtype(x), {n}, {n}))",
                    f"B.add(B.squeeze(p.kernel.elwise(x), axis=-1), B.diag(Zero(B.dtype(x), {n}, {n})))",
                    ("not identical(p.mean(x), 0)",))
    forms["fdd matrix"] = (dict(p="GP", x="Tensor", N="AbstractMatrix"), "p(x, N)", "p.mean(x)", "B.add(p.kernel(x), N)",
                           "B.add(B.squeeze(p.kernel.elwise(x), axis=-1), B.diag(N))", ("not identical(p.mean(x), 0)",))
    cfg = lambda: dict(inline_ctors={"Normal", "FDD"}, inline_observers=True, ref_opaque={("Normal", "logpdf")},
                       opaque_gfs={"infer_size"})
    X = dict(x_="Tensor", c="Tensor", k="Tensor", v="Tensor", w="AbstractMatrix", s="RandomState", num="Int", t="dtype")
    for name, (env, ctor, mean, var, diag, assume) in forms.items():
        M, V = "mean_", "var_"
        dt, dm = "B.dtype(var_)", "B.shape_matrix(var_)[0]"
        ref = f"mean_ = {mean}\nvar_ = {var}\n"
        both = {"mean": ("r.mean", "r.mean"), "var": ("r.var", "r.var")}
        val = {"value": ("r", "r")}
        ms = {
            "add": ("d + c", "r = Normal(mean_ + c, var_)", both, ["P14", "P13"]),
            "add normal": ("d + Normal(v, w)", "r = Normal(mean_ + v, var_ + w)", both, ["P14", "P13"]),
            "mul": ("d * c", "r = Normal(mean_ * c, var_ * c ** 2)", both, ["P14", "P13"]),
            "lmatmul": ("d.lmatmul(k)", "r = Normal(B.matmul(k, mean_), B.matmul(k, var_, k, tr_c=True))", both, ["P14", "P13"]),
            "rmatmul": ("d.rmatmul(k)", "r = Normal(B.matmul(k, mean_, tr_a=True), B.matmul(k, var_, k, tr_a=True))", both,
                        ["P14", "P13"]),
            "diagonalise": ("d.diagonalise()", f"r = Normal(mean_, Diagonal({diag}))", both, ["P14", "P13"]),
            "cast": ("B.cast(t, d)", "r = Normal(B.cast(t, mean_), B.cast(t, var_))", both, ["P14", "P13"]),
            "entropy": ("d.entropy()", f"r = (B.logdet(var_) + {dm} * B.cast({dt}, B.log_2_pi + 1)) / 2", val, ["P15", "P13"]),
            "kl": ("d.kl(Normal(v, w))",
                   f"r = (B.iqf_diag(w, v - mean_)[..., 0] + B.ratio(var_, w) + B.logdet(w) - B.logdet(var_) - {dm}) / 2",
                   val, ["P15", "P13"]),
            "kl of": ("Normal(v, w).kl(d)",
                      "r = (B.iqf_diag(var_, mean_ - v)[..., 0] + B.ratio(w, var_) + B.logdet(var_) - B.logdet(w)"
                      " - B.shape_matrix(w)[0]) / 2", val, ["P15", "P13"]),
            "w2": ("d.w2(Normal(v, w))",
                   "r = B.sqrt(B.maximum(B.sum(B.sum((mean_ - v) ** 2, axis=-1), axis=-1) + B.trace(var_) + B.trace(w)"
                   " - 2 * B.trace(B.root(B.matmul(B.root(var_), w, B.root(var_)))), 0))", val, ["P15", "P13"]),
            "logpdf": ("d.logpdf(x_)", LOGPDF, val, ["P15", "P13", "P07"]),
            "sample": ("d.sample(s, num)",
                       f"s1, z = B.sample(s, var_, num=num)\nz = z if {zero_test(mean)} else z + mean_\nr = (s1, B.dense(z))",
                       val, ["P13", "P17", "P09"]),
            "sample noise": ("d.sample(s, noise=c)",
                             f"s1, z = B.sample(s, var_ + B.fill_diag(c, {dm}), num=1)\n"
                             f"z = z if {zero_test(mean)} else z + mean_\nr = (s1, B.dense(z))", val, ["P13", "P17"]),
            "sample global": ("d.sample(num)",
                              f"s1, z = B.sample(B.global_random_state({dt}), var_, num=num)\n"
                              f"z = z if {zero_test(mean)} else z + mean_\nB.set_global_random_state(s1)\nr = B.dense(z)", val,
                              ["P13", "P17"]),
        }
        for q, (run, want, facets, props) in ms.items():
            for pre in MADE_PREFIX:
                out.append(
                    Ob(f"made.{name}.{q}{'.after ' + pre if pre else ''}", props, dict(X, **env), setup=f"d = {ctor}",
                       run=PREFIX[pre] + f"r = {run}", ref=ref + want, facets=facets, raises="never", effects=eff,
                       config=cfg(), assume=assume)
                )
    return out


LOGPDF = """
x = B.uprank(x_)
a = B.jit_to_numpy(~B.isnan(x[:, 0]))
l = -(B.logdet(var_)[..., None] + B.shape_matrix(var_)[0] * B.cast(B.dtype(var_), B.log_2_pi) + B.iqf_diag(var_, B.subtract(x, mean_))) / 2
if B.rank(x) == 2 and B.shape(x, 1) == 1 and not B.all(a):
    r = Normal(B.take(mean_, a), B.submatrix(var_, a)).logpdf(B.take(x, a))
else:
    r = l[..., 0] if B.shape(l, -1) == 1 else l
"""

_b = obligations


def obligations():
    return _b() + made()


def thorough():
    """Histories of three earlier queries."""
    return [o for o in normals((3, 3)) + fdds((3, 3)) if ".after." in o.id] + diagonal_histories()


def covariance_once(s, base, act):
    n = sum(e[0] in ("pairwise", "mlkernels.pairwise", "mlkernels.mean_var") for e in act.trace)
    yield "covariance once", "ok" if n == 1 else "violation", f"{n} evaluations of the full covariance", ""


def diagonal_histories():
    """Every sequence of up to four queries that do not ask for the covariance, then those with one that does."""
    out = []
    diag = {"mean": "d.mean", "diag": "d.var_diag", "marginals": "d.marginals()", "bounds": "d.marginal_credible_bounds()"}
    forms = {"none": (dict(), "p(x)"), "numeric": (dict(e="Tensor"), "p(x, e)"), "matrix": (dict(e="AbstractMatrix"), "p(x, e)")}
    for fn, (env, ctor) in forms.items():
        for h in [h for n in (2, 3, 4) for h in product(diag, repeat=n)]:
            for last in ("", "mean_var", "var"):
                if (last and len(h) > 2) or not (last or set(h) - {"mean"}):
                    continue
                if last == "mean_var" and set(h) <= {"diag"}:
                    rule = joint_once
                else:
                    rule = covariance_once if last else never_full
                run = "\n".join(diag[x] for x in h) + (f"\nd.{last}" if last else "")
                out.append(
                    Ob(f"diagonal.history.{fn}.{'+'.join(h)}{'+' + last if last else ''}", ["P34"], dict(env, p="GP", x="Tensor"),
                       setup=f"d = {ctor}", run=run, config=dict(CFG, opaque_gfs={"infer_size"}),
                       assume=("not identical(p.mean(x), 0)",), trace=rule, raises="never", anchor="FDD.__init__")
                )
    return out
