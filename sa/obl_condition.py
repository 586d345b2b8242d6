"""Obligations on conditioning, observations and their combination."""

from .harness import Ob
from .terms import *

MC = dict(self_=["m"], entry_methods=["condition", "__or__"])


def outside(kind, args):
    """Mutations of what existed before."""
    if kind in ("mutate", "dictset", "dictdel", "lzset", "lzrule", "setattr", "storeitem"):
        return root(args[0]).op != "new"
    return kind == "mcall" and args[1].args[-1] not in PURE


PURE = {"posterior_mean", "posterior_kernel", "__call__", "__getitem__"}


def root(t):
    while t.op in ("attr", "field0", "content0", "at", "getitem") and t.args:
        t = t.args[0]
    return t


REF_POST = """
r = Measure()
for p in m.ps:
    p._measures.append(r)
"""

# calling form -> (environment, statement, observations it has to stand for)
FORMS = {
    "obs": (dict(obs="Observations"), "r = m.condition(obs)", "obs"),
    "pseudo": (dict(obs="PseudoObservations"), "r = m.condition(obs)", "obs"),
    "fitc": (dict(obs="PseudoObservationsFITC"), "r = m.condition(obs)", "obs"),
    "fdd_y": (dict(f="FDD", y="Tensor"), "r = m.condition(f, y)", "Observations(f, y)"),
    "pair": (dict(f="FDD", y="Tensor"), "r = m.condition((f, y))", "Observations(f, y)"),
    "pairs": (dict(f="FDD", y="Tensor", g="FDD", z="Tensor"), "r = m.condition((f, y), (g, z))",
              "Observations((f, y), (g, z))"),
    "or_obs": (dict(obs="Observations"), "r = m | obs", "obs"),
    "or_pseudo": (dict(obs="PseudoObservationsDTC"), "r = m | obs", "obs"),
    "or_pair": (dict(f="FDD", y="Tensor"), "r = m | (f, y)", "Observations(f, y)"),
    "or_pairs": (dict(f="FDD", y="Tensor", g="FDD", z="Tensor"), "r = m | ((f, y), (g, z))",
                 "Observations((f, y), (g, z))"),
}  # fmt: skip


def condition():
    out = []
    for name, (env, run, obs) in FORMS.items():
        e = dict(m="Measure", i="GP", j="GP")
        e.update(env)
        props = ["P04", "P06", "P08"] if "obs" not in env else ["P04", "P06"]
        if "pseudo" in name or name == "fitc":
            props = props + ["P05"]
        out.append(
            Ob(f"condition.{name}", props, e, run=run, assume=["member i m", "member j m"], config=MC,
               facets={
                   "mean": ("r.means[i]", f"({obs}).posterior_mean(m, id(i))"),
                   "kernel": ("r.kernels[i, j]", f"({obs}).posterior_kernel(m, id(i), id(j))"),
                   "variance": ("r.kernels[i]", f"({obs}).posterior_kernel(m, id(i), id(i))"),
                   "processes": ("list(r.ps)", "list(m.ps)"),
                   "prior processes": ("list(m.ps)", "list(m.ps)"),
                   "prior mean": ("m.means[i]", "m.means[i]"),
                   "prior kernel": ("m.kernels[i, j]", "m.kernels[i, j]"),
                   "new": ("r is m", "False"),
               },
               ref=REF_POST, effects=outside, raises="never", anchor="Measure.condition")
        )
        # The posterior has its own list of processes.
        e2 = dict(e, p="GP")
        out.append(
            Ob(f"condition.{name}.apart", ["P06", "P02", "P20", "P35"], e2, setup="p.measure = m",
               run=run + "\na = r(p)\nb = m(p)",
               assume=["member i m", "member j m", "member p m"],
               config=dict(MC, entry_methods=["condition", "__or__", "__call__"]),
               facets={
                   "posterior copy mean": ("r.means[a]", f"({obs}).posterior_mean(m, id(p))"),
                   "posterior copy kernel": ("r.kernels[a]", f"({obs}).posterior_kernel(m, id(p), id(p))"),
                   "posterior copy left": ("r.kernels[a, j]", f"({obs}).posterior_kernel(m, id(p), id(j))"),
                   "posterior copy right": ("r.kernels[j, a]", f"({obs}).posterior_kernel(m, id(j), id(p))"),
                   "prior copy mean": ("m.means[b]", "m.means[p]"),
                   "prior copy left": ("m.kernels[b, j]", "m.kernels[p, j]"),
                   "prior copy right": ("m.kernels[j, b]", "m.kernels[j, p]"),
                   "posterior has": ("a in r.ps and b not in r.ps", "True"),
                   "prior has": ("a not in m.ps and b in m.ps", "True"),
                   "posterior variance": ("r.kernels[j]", f"({obs}).posterior_kernel(m, id(j), id(j))"),
                   "posterior mean": ("r.means[i]", f"({obs}).posterior_mean(m, id(i))"),
                   "prior variance": ("m.kernels[j]", "m.kernels[j]"),
                   "model of a": ("a.measure is r", "True"),
                   "model of b": ("b.measure is m", "True"),
               })
        )
        # What is added to one of them stays unknown to the other.
        A, B, C = ({"posterior": f"{v} = r.add_independent_gp(GP(), mu, k)\n", "prior": f"{v} = m.add_independent_gp(GP(), mu, k)\n"}
                   for v in "abc")
        Ac, Bc = "a = r(p)\n", "b = m(p)\n"
        e3 = dict(e2, mu="Mean", k="Kernel")
        for order, step, extra in (
            ("posterior first", A["posterior"] + B["prior"], ""), ("prior first", B["prior"] + A["posterior"], ""),
            ("posterior first", A["posterior"] + B["prior"], C["posterior"]),
            ("prior first", B["prior"] + A["posterior"], C["prior"]),
            ("posterior first copies", Ac + Bc, ""), ("prior first copies", Bc + Ac, ""),
            ("posterior first copy", Ac + B["prior"], ""), ("prior first copy", Bc + A["posterior"], ""),
        ):
            fs = {
                "prior of posterior's": ("m.means[a]", "!undefined"),
                "posterior of prior's": ("r.means[b]", "!undefined"),
                "prior variance": ("m.kernels[a]", "!undefined"),
                "posterior variance": ("r.kernels[b]", "!undefined"),
                "prior across": ("m.kernels[b, a]", "!undefined"),
                "prior across back": ("m.kernels[a, b]", "!undefined"),
                "posterior across": ("r.kernels[a, b]", "!undefined"),
                "posterior across back": ("r.kernels[b, a]", "!undefined"),
                "prior old": ("m.kernels[j, a]", "!undefined"),
                "prior old back": ("m.kernels[a, j]", "!undefined"),
                "posterior old": ("r.kernels[j, b]", "!undefined"),
                "posterior old back": ("r.kernels[b, j]", "!undefined"),
            }
            if extra:
                w, o = ("m", "a") if order == "prior first" else ("r", "b")
                fs["later across"] = (f"{w}.kernels[c, {o}]", "!undefined")
                fs["later across back"] = (f"{w}.kernels[{o}, c]", "!undefined")
            out.append(
                Ob(f"condition.{name}.separate.{order}{'.later' if extra else ''}", ["P06", "P20", "P02"], e3,
                   setup="p.measure = m", run=run + "\n" + step + extra, assume=["member i m", "member j m", "member p m"],
                   config=dict(MC, entry_methods=["condition", "__or__", "__call__", "add_independent_gp"]), facets=fs)
            )
    return out


def obligations():
    return condition()


# ------------------------------------------------------------------- exact observations

OBS_INL = dict(
    self_=["o"], inline_ctors={"Observations", "PseudoObservations", "PseudoObservationsFITC", "PseudoObservationsDTC"},
)


def exact():
    env = dict(f="FDD", y="Tensor", m="Measure", i="GP", j="GP")
    K = "(m.kernels[o.fdd.p](o.fdd.x) + o.fdd.noise)"
    kern = f"PosteriorKernel(m.kernels[i, j], m.kernels[o.fdd.p, i], m.kernels[o.fdd.p, j], o.fdd.x, {K})"
    mean = f"PosteriorMean(m.means[i], m.means[o.fdd.p], m.kernels[o.fdd.p, i], o.fdd.x, {K}, o.y)"
    empty = "num_elements(o.fdd.x) == 0"
    kern = f"m.kernels[i, j] if {empty} else {kern}"
    mean = f"m.means[i] if {empty} else {mean}"
    cfg = dict(self_=[], inline_ctors={"Observations"}, inline_methods={"K_x", "posterior_kernel", "posterior_mean"})
    setup = "o = Observations(f, y)"
    out = []

    def ob(name, props, run, facets, **kw):
        out.append(Ob("exact." + name, props, kw.pop("env", env), setup=setup, run=run, config=cfg, facets=facets, **kw))

    ob("kernel", ["P04", "P22", "P02"], "r = o.posterior_kernel(m, i, j)", {"kernel": ("r", kern)}, raises="never",
       anchor="Observations.posterior_kernel")
    ob("kernel same", ["P04", "P22", "P02"], "r = o.posterior_kernel(m, i, i)", {"kernel": ("r", kern.replace("j", "i"))}, raises="never",
       anchor="Observations.posterior_kernel")
    ob("mean", ["P04", "P22"], "r = o.posterior_mean(m, i)", {"mean": ("r", mean)}, raises="never",
       anchor="Observations.posterior_mean")
    ob("observed mean", ["P04", "P22"], "r = o.posterior_mean(m, o.fdd.p)", {"mean": ("r", mean.replace("i]", "o.fdd.p]"))}, raises="never",
       anchor="Observations.posterior_mean")
    ob("K_x", ["P04", "P22"], "r = o.K_x(m)", {"kernel matrix": ("r", K)}, raises="never", anchor="Observations.K_x")
    # Histories over two models: every query gives what it would give first.
    Q = {
        "K_x": ("o.K_x(m)", K),
        "kernel": ("o.posterior_kernel(m, i, j)", kern),
        "mean": ("o.posterior_mean(m, i)", mean),
    }
    e2 = dict(env, m2="Measure")
    for a, (ra, xa) in Q.items():
        for b, (rb, xb) in Q.items():
            to = lambda s: s.replace("m.", "m2.").replace("(m,", "(m2,").replace("(m)", "(m2)")
            ob(f"history.{a}.{b}", ["P22", "P04", "P06"],
               f"a = {ra}\nb = {to(rb)}\nc = {ra}\nd = {rb}",
               {"first": ("a", xa), "other model": ("b", to(xb)), "again": ("c", xa), "last": ("d", xb)}, env=e2)
    return out


_a = obligations


def obligations():
    return _a() + exact()


# ------------------------------------------------------------------- constructors

CTORS = {"Observations", "PseudoObservations", "PseudoObservationsFITC", "PseudoObservationsDTC"}

# What the constructor of observations has to do.
REF_OBS = """
y0 = B.uprank({y}, rank=2)
if B.shape(y0, -1) != 1:
    raise ValueError()
a0 = B.jit_to_numpy(~B.isnan(y0[..., :, 0]))
if B.all(a0):
    F, Y = {f}, y0
else:
    F, Y = B.take({f}, a0), B.take(y0, a0)
"""


def constructors():
    out = []
    forms = {
        "fdd": (dict(f="FDD", y="Tensor"), "f, y", ("f", "y")),
        "fdd matrix": (dict(f="FDD", y="AbstractMatrix"), "f, y", ("f", "y")),
        "pair": (dict(f="FDD", y="Tensor"), "(f, y)", ("combine((f, y))[0]", "combine((f, y))[1]")),
        "pairs": (dict(f="FDD", y="Tensor", g="FDD", z="Tensor"), "(f, y), (g, z)",
                  ("combine((f, y), (g, z))[0]", "combine((f, y), (g, z))[1]")),
    }
    us = {
        "": (dict(), "", None),
        "u": (dict(u="FDD"), "u, ", "u"),
        "us": (dict(u="FDD", v="FDD"), "(u, v), ", "combine(u, v)"),
        "us1": (dict(u="FDD"), "(u,), ", "combine(u)"),
        "us3": (dict(u="FDD", v="FDD", w="FDD"), "(u, v, w), ", "combine(u, v, w)"),
        "us any": (dict(us="tuple[FDD]"), "us, ", "combine(*us)"),
    }
    for fn, (fenv, fargs, (xf, xy)) in forms.items():
        for un, (uenv, uargs, xu) in us.items():
            for cls in sorted(CTORS):
                if (cls == "Observations") != (un == "") or un == "us any" and fn == "fdd matrix":
                    continue
                facets = {"fdd": ("o.fdd", "F"), "y": ("o.y", "Y")}
                if xu:
                    facets["u"] = ("o.u", xu)
                    facets["method"] = ("o.method", {"PseudoObservations": "'vfe'", "PseudoObservationsFITC": "'fitc'",
                                                       "PseudoObservationsDTC": "'dtc'"}[cls])
                props = ["P07", "P04" if not xu else "P05", "P26", "P31"] + (["P08"] if "pair" in fn or un.startswith("us") else [])
                out.append(
                    Ob(f"ctor.{cls}.{fn}.{un}", props, dict(fenv, **uenv), run=f"o = {cls}({uargs}{fargs})",
                       ref=REF_OBS.format(f=xf, y=xy), facets=facets, raises="ref",
                       config=dict(inline_ctors=CTORS, opaque_gfs={"combine"}), anchor="AbstractObservations.__init__",
                       effects=outside)
                )
    return out


_b = obligations


def obligations():
    return _b() + constructors()


# ------------------------------------------------------------------- pseudo-point observations


def _names(mod):
    """Definitions shared by the expected values: what the approximations are defined by."""
    return f"""
px, x, nx = o.fdd.p, o.fdd.x, o.fdd.noise
pz, z, nz = o.u.p, o.u.x, o.u.noise
Kzx = {mod}.kernels[pz, px](z, x)
Kz = B.add({mod}.kernels[pz](z), nz)
Lz = B.cholesky(Kz)
W = B.solve(Lz, Kzx)
kd = {mod}.kernels[px].elwise(x)[..., 0]
qd = B.matmul_diag(W, W, tr_a=True)
gap = Diagonal(kd) - Diagonal(qd)
N = nx + gap if o.method == "fitc" else nx
tr = B.ratio(gap, N) if o.method == "vfe" else 0
A0 = B.add(B.eye(Kz), B.iqf(N, B.transpose(W)))
A = B.mm(Lz, A0, Lz, tr_c=True)
ybar = B.subtract(B.uprank(o.y), {mod}.means[px](x))
v = B.iqf(N, B.transpose(W), ybar)
mu = B.add({mod}.means[pz](z), B.iqf(A0, B.transpose(Lz), v))
dt = B.dtype_float(N)
det = B.logdet(B.multiply(B.cast(dt, 2 * B.pi), N)) + B.logdet(A0)
quad = B.iqf_diag(N, ybar)[..., 0] - B.iqf_diag(A0, v)[..., 0]
elbo = -0.5 * (det + quad + tr)
"""


def _pseudo_values(mod):
    kern = f"""PosteriorKernel({mod}.kernels[i, j], {mod}.kernels[pz, i], {mod}.kernels[pz, j], z, Kz) + SubspaceKernel({mod}.kernels[pz, i], {mod}.kernels[pz, j], z, A)"""
    mean = f"PosteriorMean({mod}.means[i], {mod}.means[pz], {mod}.kernels[pz, i], z, Kz, mu)"
    return {
        "K_z": (f"o.K_z({mod})", "Kz"),
        "A": (f"o.A({mod})", "A"),
        "mu": (f"o.mu({mod})", "mu"),
        "elbo": (f"o.elbo({mod})", "elbo"),
        "kernel": (f"o.posterior_kernel({mod}, i, j)", kern),
        "mean": (f"o.posterior_mean({mod}, i)", mean),
    }


def pseudo():
    out = []
    for cls in ("PseudoObservations", "PseudoObservationsFITC", "PseudoObservationsDTC"):
        env = dict(f="FDD", u="FDD", y="Tensor", m="Measure", m2="Measure", i="GP", j="GP")
        setup = f"o = {cls}(u, f, y)"
        cfg = dict(
            inline_ctors=CTORS,
            inline_methods={"K_z", "A", "mu", "elbo", "posterior_kernel", "posterior_mean", "logpdf"},
        )
        Q = _pseudo_values("m")
        bad = "not isinstance(o.fdd.noise, Diagonal)"
        for n, (run, want) in Q.items():
            props = ["P05", "P22"] + (["P26"] if n in ("elbo", "mu", "A") else []) + (["P10"] if n == "logpdf" else [])
            out.append(
                Ob(f"pseudo.{cls}.{n}", props, env, setup=setup, run="r = " + run, ref=_names("m") + f"\nr = {want}",
                   facets={"value": ("r", "r")}, config=cfg, anchor="AbstractPseudoObservations._compute")
            )
            out.append(
                Ob(f"pseudo.{cls}.{n}.guard", ["P05", "P31"], env, setup=setup, run="r = " + run,
                   raises=bad, config=cfg, anchor="AbstractPseudoObservations._compute")
            )
        H = ["K_z", "A", "mu", "elbo", "kernel", "mean"]
        # A query that failed leaves nothing behind for the next one.
        for a in H:
            for b in H[1:]:  # (`K_z` does not involve the noise.)
                for mod in ("m", "m2"):
                    Qb = _pseudo_values(mod)[b][0]
                    out.append(
                        Ob(f"pseudo.{cls}.retry.{a}.{b}.{mod}", ["P22", "P05", "P31"], env, setup=setup,
                           run=f"try:\n    a = {Q[a][0]}\nexcept RuntimeError:\n    pass\nb = {Qb}", raises=bad, config=cfg)
                    )
        Q2 = _pseudo_values("m2")
        for a in H:
            for b in H:
                out.append(
                    Ob(f"pseudo.{cls}.history.{a}.{b}", ["P22", "P05", "P06"], env, setup=setup,
                       run=f"a = {Q[a][0]}\nb = {Q2[b][0]}\nc = {Q[a][0]}\nd = {Q[b][0]}",
                       ref=_names("m2") + f"\nb = {Q2[b][1]}\n" + _names("m") + f"\na = {Q[a][1]}\nd = {Q[b][1]}",
                       facets={"first": ("a", "a"), "other model": ("b", "b"), "again": ("c", "a"), "last": ("d", "d")},
                       config=cfg)
                )
    return out


_c = obligations


def obligations():
    return _c() + pseudo()
