"""Obligations on `Measure`: the operations that add processes, and conditioning."""

import ast

from .harness import Ob

M = dict(self_=["m"])

# name, properties, environment, assumptions, setup, call, mean, kernel, left, right
# In the last four, `n` is the new process, `j` any other process of the measure.
LIN = ["P01", "P02", "P25", "P26"]

ONES = "(lambda z: Constant(B.one(z), num_elements(z), 1))"

OPS = {
    "sum_num": dict(
        props=LIN, env=dict(p="GP", c="Tensor"), run="m.sum(n, p, c)",
        mean="m.means[p] + c", kernel="m.kernels[p]", left="m.kernels[p, j]",
    ),
    "sum_num_rev": dict(
        props=LIN + ["P33"], env=dict(p="GP", c="Tensor"), run="m.sum(n, c, p)",
        mean="m.means[p] + c", kernel="m.kernels[p]", left="m.kernels[p, j]",
    ),
    "sum_fn": dict(
        props=LIN, env=dict(p="GP", g="FunctionType"), run="m.sum(n, p, g)",
        mean="m.means[p] + g", kernel="m.kernels[p]", left="m.kernels[p, j]",
    ),
    "sum_fn_rev": dict(
        props=LIN + ["P33"], env=dict(p="GP", g="FunctionType"), run="m.sum(n, g, p)",
        mean="m.means[p] + g", kernel="m.kernels[p]", left="m.kernels[p, j]",
    ),
    "sum_gp": dict(
        props=LIN, env=dict(p="GP", q="GP"), run="m.sum(n, p, q)",
        mean="m.means[p] + m.means[q]",
        kernel="m.kernels[p] + m.kernels[q] + m.kernels[p, q] + m.kernels[q, p]",
        left="m.kernels[p, j] + m.kernels[q, j]",
    ),
    "sum_same": dict(
        props=LIN, env=dict(p="GP"), run="m.sum(n, p, p)",
        mean="2 * m.means[p]", kernel="4 * m.kernels[p]", left="2 * m.kernels[p, j]",
    ),
    "mul_num": dict(
        props=LIN, env=dict(p="GP", c="Tensor"), run="m.mul(n, p, c)",
        mean="m.means[p] * c", kernel="m.kernels[p] * c ** 2", left="m.kernels[p, j] * c",
    ),
    "mul_num_rev": dict(
        props=LIN + ["P33"], env=dict(p="GP", c="Tensor"), run="m.mul(n, c, p)",
        mean="m.means[p] * c", kernel="m.kernels[p] * c ** 2", left="m.kernels[p, j] * c",
    ),
    "mul_fn": dict(
        props=LIN, env=dict(p="GP", g="FunctionType"), run="m.mul(n, p, g)",
        mean="g * m.means[p]", kernel="g * m.kernels[p]",
        left="TensorProductKernel(g, lambda z: Constant(B.one(z), num_elements(z), 1)) * m.kernels[p, j]",
    ),
    "mul_fn_rev": dict(
        props=LIN + ["P33"], env=dict(p="GP", g="FunctionType"), run="m.mul(n, g, p)",
        mean="g * m.means[p]", kernel="g * m.kernels[p]",
        left="TensorProductKernel(g, lambda z: Constant(B.one(z), num_elements(z), 1)) * m.kernels[p, j]",
    ),
    "shift": dict(
        props=LIN, env=dict(p="GP", c="Any"), run="m.shift(n, p, c)",
        mean="m.means[p].shift(c)", kernel="m.kernels[p].shift(c)",
        left="m.kernels[p, j].shift(c, 0)",
    ),
    "stretch": dict(
        props=LIN, env=dict(p="GP", c="Any"), run="m.stretch(n, p, c)",
        mean="m.means[p].stretch(c)", kernel="m.kernels[p].stretch(c)",
        left="m.kernels[p, j].stretch(c, 1)",
    ),
    "select": dict(
        props=LIN, env=dict(p="GP", a="Any", b="Any"), run="m.select(n, p, a, b)",
        mean="m.means[p].select((a, b))", kernel="m.kernels[p].select((a, b))",
        left="m.kernels[p, j].select((a, b), None)",
    ),
    "select1": dict(
        props=LIN, env=dict(p="GP", a="Any"), run="m.select(n, p, a)",
        mean="m.means[p].select((a,))", kernel="m.kernels[p].select((a,))",
        left="m.kernels[p, j].select((a,), None)",
    ),
    "transform": dict(
        props=LIN, env=dict(p="GP", g="Any"), run="m.transform(n, p, g)",
        mean="m.means[p].transform(g)", kernel="m.kernels[p].transform(g)",
        left="m.kernels[p, j].transform(g, None)",
    ),
    "diff": dict(
        props=LIN, env=dict(p="GP", d="Any"), run="m.diff(n, p, d)",
        mean="m.means[p].diff(d)", kernel="m.kernels[p].diff(d)",
        left="m.kernels[p, j].diff(d, None)",
    ),
    "diff_default": dict(
        props=LIN, env=dict(p="GP"), run="m.diff(n, p)",
        mean="m.means[p].diff(0)", kernel="m.kernels[p].diff(0)",
        left="m.kernels[p, j].diff(0, None)",
    ),
    "mul_gp": dict(
        props=["P03", "P02"], env=dict(p="GP", q="GP"), run="m.mul(n, p, q)",
        # The mean is a separate obligation (known finding).
        kernel="m.kernels[p] * m.kernels[q] + m.kernels[p, q] * m.kernels[q, p]"
        " + (lambda x: m.means[p](x)) * m.kernels[q] + (lambda x: m.means[q](x)) * m.kernels[p]"
        " + TensorProductKernel(lambda x: m.means[p](x), lambda x: m.means[q](x)) * m.kernels[q, p]"
        " + TensorProductKernel(lambda x: m.means[q](x), lambda x: m.means[p](x)) * m.kernels[p, q]",
        left="TensorProductKernel(lambda x: m.means[p](x), lambda z: Constant(B.one(z), num_elements(z), 1)) * m.kernels[q, j]"
        " + TensorProductKernel(lambda x: m.means[q](x), lambda z: Constant(B.one(z), num_elements(z), 1)) * m.kernels[p, j]",
    ),
    "mul_same": dict(
        props=["P03", "P02"], env=dict(p="GP"), run="m.mul(n, p, p)",
        kernel="2 * (m.kernels[p] * m.kernels[p])"
        " + 2 * ((lambda x: m.means[p](x)) * m.kernels[p])"
        " + 2 * (TensorProductKernel(lambda x: m.means[p](x), lambda x: m.means[p](x)) * m.kernels[p])",
        left="2 * (TensorProductKernel(lambda x: m.means[p](x), lambda z: Constant(B.one(z), num_elements(z), 1)) * m.kernels[p, j])",
    ),
    "cross": dict(
        props=["P02", "P23", "P08", "P24"], env=dict(p="GP", q="GP"), run="m.cross(n, p, q)",
        mean="MultiOutputMean(m, p, q)", kernel="MultiOutputKernel(m, p, q)",
        left="AmbiguousDimensionalityKernel(MultiOutputKernel(m, p, q).transform(None, lambda y: FDD(id(j), y)))",
    ),
    "cross1": dict(
        props=["P02", "P23", "P08", "P24"], env=dict(p="GP"), run="m.cross(n, p)",
        mean="MultiOutputMean(m, p)", kernel="MultiOutputKernel(m, p)",
        left="AmbiguousDimensionalityKernel(MultiOutputKernel(m, p).transform(None, lambda y: FDD(id(j), y)))",
    ),
    "independent": dict(
        props=["P02", "P28"], env=dict(mu="Mean", k="Kernel"), run="m.add_independent_gp(n, mu, k)",
        mean="mu", kernel="k", left="ZeroKernel()", right="ZeroKernel()",
    ),
    "call": dict(
        props=["P35", "P02", "P06"], env=dict(p="GP"), run="m(p)", fresh=False, config=dict(entry_methods=["__call__"]),
        mean="m.means[p]", kernel="m.kernels[p]", left="m.kernels[p, j]", right="m.kernels[j, p]",
    ),
    "call_posterior": dict(
        props=["P35", "P02", "P06"], env=dict(p="GP"), run="m(p)", fresh=False, config=dict(entry_methods=["__call__"]), foreign=True,
        mean="m.means[p]", kernel="m.kernels[p]", left="m.kernels[p, j]", right="m.kernels[j, p]",
    ),
    "add_gp": dict(
        props=["P02"], env=dict(mu="Mean", k="Kernel", l="FunctionType"), run="m.add_gp(mu, k, lambda i: l(i))",
        fresh=False, mean="mu", kernel="k", left="l(id(j))",
    ),
    "add_gp_right": dict(
        props=["P02"], env=dict(mu="Mean", k="Kernel", l="FunctionType", s="FunctionType"),
        run="m.add_gp(mu, k, lambda i: l(i), right_rule=lambda i: s(i))",
        fresh=False, mean="mu", kernel="k", left="l(id(j))", right="s(id(j))",
    ),
    "add_gp_right_pos": dict(
        props=["P02"], env=dict(mu="Mean", k="Kernel", l="FunctionType", s="FunctionType"),
        run="m.add_gp(mu, k, lambda i: l(i), lambda i: s(i))",
        fresh=False, mean="mu", kernel="k", left="l(id(j))", right="s(id(j))",
    ),
}  # fmt: skip

# Processes that are created by an operation besides its result.
NEW = {"mul_gp", "mul_same"}


def obligations():
    out = []
    for name, o in OPS.items():
        env = dict(m="Measure", j="GP", a1="GP", a2="GP")
        env.update(o["env"])
        gps = [v for v, t in o["env"].items() if t == "GP"]
        setup = []
        fresh = o.get("fresh", True)
        if fresh:
            setup.append("n = GP()")
        if not o.get("foreign"):
            setup += [f"{g}.measure = m" for g in gps]
        assume = [f"member {g} m" for g in gps + ["j", "a1", "a2"]]
        run = f"r = {o['run']}" + ("" if fresh else "\nn = r")
        pre = "\n".join(setup)
        facets = {}
        r0 = "" if fresh else "n = r"
        if "mean" in o:
            facets["mean"] = ("m.means[n]", o["mean"])
        facets["kernel"] = ("m.kernels[n]", o["kernel"])
        facets["left"] = ("m.kernels[n, j]", o["left"])
        facets["right"] = ("m.kernels[j, n]", o.get("right", f"reversed({o['left']})"))
        if fresh:
            facets["ret"] = ("r", "n")
        out.append(
            Ob(f"measure.{name}", o["props"], env, setup=pre, run=run, assume=assume,
               config=dict(M, **o.get("config", {})), facets=facets, raises="never", anchor="Measure." + o["run"].split("(")[0][2:] if o["run"].startswith("m.") else "Measure.__call__")
        )
        if gps and not o.get("foreign") and name not in ("call",):
            # The same for a model that is not the first of its operands.
            pre2 = ["n = GP()"] if fresh else []
            pre2 += [f"{g}.measure = {gps[0]}.measure" for g in gps[1:]]
            out.append(
                Ob(f"measure.{name}.shared", o["props"] + ["P20"], env, setup="\n".join(pre2), run=run,
                   assume=assume + [f"m is not {gps[0]}.measure"],
                   config=dict(M, **o.get("config", {})), facets={k: v for k, v in facets.items()}, raises="never")
            )
        # What is stored apart from the result.
        facets = {
            "other means": ("m.means[j]", "m.means[j]"),
            "other kernels": ("m.kernels[a1, a2]", "m.kernels[a1, a2]"),
            "in processes": ("n in m.ps", "True"),
            "member": ("n._measures", "[m]"),
            "names": ("m._gps_by_name", "m._gps_by_name"),
        }
        if name not in NEW:
            facets["processes"] = ("list(m.ps)", "list(m.ps) + [%s]" % ("n" if fresh else "GP()"))
        out.append(
            Ob(f"measure.{name}.state", ["P20", "P06", "P02"] + [p for p in o["props"] if p in ("P01", "P03", "P35")],
               env, setup=pre, run=run, assume=assume, config=dict(M, **o.get("config", {})), facets=facets)
        )
    return out


class _Expand(ast.NodeTransformer):
    """Rewrite lookups of new processes to what their operations have to give."""

    def __init__(self, new, order):
        self.new, self.order = new, order

    def visit_Subscript(self, n):
        v = n.value
        if isinstance(v, ast.Attribute) and getattr(v.value, "id", "") == "m" and v.attr in ("means", "kernels"):
            if v.attr == "means":
                return self.mean(n.slice.id)
            if isinstance(n.slice, ast.Tuple):
                return self.cov(*[e.id for e in n.slice.elts])
            return self.cov(n.slice.id, n.slice.id)
        return self.generic_visit(n)

    def inst(self, src, bind):
        t = ast.parse(src, mode="eval").body

        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                return ast.copy_location(ast.Name(bind.get(n.id, n.id), n.ctx), n)

        return self.visit(R().visit(t))

    def mean(self, x):
        if x not in self.new:
            return ast.parse(f"m.means[{x}]", mode="eval").body
        o, b = self.new[x]
        return self.inst(o["mean"], b)

    def cov(self, x, y):
        if x not in self.new and y not in self.new:
            return ast.parse(f"m.kernels[{x}, {y}]", mode="eval").body
        if x == y:
            o, b = self.new[x]
            return self.inst(o["kernel"], b)
        rank = lambda z: self.order.index(z) if z in self.order else -1
        if rank(x) > rank(y):
            o, b = self.new[x]
            return self.inst(o["left"], dict(b, j=y))
        o, b = self.new[y]
        src = o.get("right") or f"reversed({o['left']})"
        return self.inst(src, dict(b, j=x))


def pairs(ops1, ops2):
    """Two operations after each other: what the second sees of the first."""
    out = []
    for a in ops1:
        for b in ops2:
            A, B = OPS[a], OPS[b]
            if "mean" not in A or "mean" not in B:
                continue
            for chain in (True, False):
                ga = [v for v, t in A["env"].items() if t == "GP"]
                gb = [v for v, t in B["env"].items() if t == "GP"]
                if chain and not gb:
                    continue
                if not A.get("fresh", True) and ("id(" in B["left"]):
                    # Rules that get the process itself: covered with the other first operations.
                    continue
                env = dict(m="Measure", j="GP")
                ba = {v: v + "1" for v in A["env"]}
                bb = {v: v + "2" for v in B["env"]}
                for v, t in A["env"].items():
                    env[v + "1"] = t
                for v, t in B["env"].items():
                    env[v + "2"] = t
                ba["n"], bb["n"] = "n1", "n2"
                if chain:
                    bb[gb[0]] = "n1"
                    del env[gb[0] + "2"]
                setup, assume = [], ["member j m"]
                for v, t in env.items():
                    if t == "GP" and v != "j":
                        setup.append(f"{v}.measure = m")
                        assume.append(f"member {v} m")
                run = []
                for o, bi, n in ((A, ba, "n1"), (B, bb, "n2")):
                    if o.get("fresh", True):
                        setup.append(f"{n} = GP()")
                        run.append(_rename(o["run"], bi))
                    else:
                        run.append(f"{n} = " + _rename(o["run"], bi))
                ex = _Expand({"n1": (A, ba), "n2": (B, bb)}, ["n1", "n2"])
                src = lambda t: ast.unparse(ast.fix_missing_locations(t))
                facets = {
                    "later-earlier": ("m.kernels[n2, n1]", src(ex.cov("n2", "n1"))),
                    "earlier-later": ("m.kernels[n1, n2]", src(ex.cov("n1", "n2"))),
                    "later": ("m.kernels[n2]", src(ex.cov("n2", "n2"))),
                    "mean": ("m.means[n2]", src(ex.mean("n2"))),
                    "earlier": ("m.kernels[n1]", src(ex.cov("n1", "n1"))),
                    "later-other": ("m.kernels[n2, j]", src(ex.cov("n2", "j"))),
                    "other-later": ("m.kernels[j, n2]", src(ex.cov("j", "n2"))),
                }
                props = [p for p in dict.fromkeys(A["props"] + B["props"]) if p in ("P01", "P02", "P03", "P23", "P35", "P06")]
                cfg = dict(M)
                for o in (A, B):
                    cfg.update(o.get("config", {}))
                out.append(
                    Ob(f"pair.{a}.{b}.{'chain' if chain else 'fork'}", props, env, setup="\n".join(setup),
                       run="\n".join(run), assume=assume, config=cfg, facets=facets)
                )
    return out


def _rename(src, b):
    t = ast.parse(src, mode="eval").body

    class R(ast.NodeTransformer):
        def visit_Name(s, n):
            return ast.Name(b.get(n.id, n.id), n.ctx)

    return ast.unparse(ast.fix_missing_locations(R().visit(t)))


PAIR1 = ["sum_num", "sum_gp", "mul_num", "mul_fn", "shift", "diff", "independent", "call", "add_gp_right", "cross"]
PAIR2 = ["sum_num", "sum_gp", "mul_num", "mul_fn", "shift", "stretch", "select", "transform", "diff", "independent",
         "call", "add_gp", "cross"]

_single = obligations


def obligations():
    return _single() + pairs(PAIR1, PAIR2)


# ------------------------------------------------------------------- joint queries


def outside(kind, args):
    from .obl_condition import outside as f

    return f(kind, args) or kind == "extcall"


def joint():
    out = []
    ML = dict(self_=["m"], entry_methods=["logpdf", "sample"])
    F = dict(m="Measure", f="FDD", g="FDD", h="FDD", y="Tensor", z="Tensor", w="Tensor",
             s="RandomState", n="Int", ps="tuple[tuple]", fs="tuple[FDD]", o="Observations", u="PseudoObservations", v="PseudoObservationsFITC")
    forms = {
        "fdd": ("m.logpdf(f, y)", "m(f).logpdf(y)"),
        "pair": ("m.logpdf((f, y))", "m(combine((f, y))[0]).logpdf(combine((f, y))[1])"),
        "pairs": ("m.logpdf((f, y), (g, z))",
                  "m(combine((f, y), (g, z))[0]).logpdf(combine((f, y), (g, z))[1])"),
        "triples": ("m.logpdf((f, y), (g, z), (h, w))",
                    "m(combine((f, y), (g, z), (h, w))[0]).logpdf(combine((f, y), (g, z), (h, w))[1])"),
        "any": ("m.logpdf(*ps)", "m(combine(*ps)[0]).logpdf(combine(*ps)[1])"),
        "obs": ("m.logpdf(o)", "m(o.fdd).logpdf(o.y)"),
        "pseudo": ("m.logpdf(u)", "u.elbo(m)"),
        "fitc": ("m.logpdf(v)", "v.elbo(m)"),
    }
    for n, (run, want) in forms.items():
        props = ["P10"] + (["P08"] if n in ("pair", "pairs", "triples") else []) + (["P05"] if n in ("pseudo", "fitc") else [])
        out.append(Ob(f"logpdf.{n}", props, F, run="r = " + run, facets={"value": ("r", want)}, raises="never",
                      config=dict(ML, opaque_gfs={"combine"}), anchor="Measure.logpdf", ref="", effects=outside))
    for k in (1, 2, 3):
        fs = ["f", "g", "h"][:k]
        sizes = "".join(f"n{i} = infer_size({x}.p.kernel, {x}.x)\n" for i, x in enumerate(fs))
        lo, parts = "0", []
        for i in range(k):
            hi = f"{lo} + n{i}"
            parts.append(f"smp[..., {lo} : {hi}, :]")
            lo = hi
        core = "st, smp = m(combine(%s)).sample({st}, {n})\n" % ", ".join(fs) + sizes
        tup = "(" + ", ".join(parts) + ",)"
        a = ", ".join(fs)
        for name, call, stt, num_, glob in (
            ("state n", f"m.sample(s, n, {a})", "s", "n", False),
            ("state", f"m.sample(s, {a})", "s", "1", False),
            ("n", f"m.sample(n, {a})", f"B.global_random_state(({a},))", "n", True),
            ("bare", f"m.sample({a})", f"B.global_random_state(({a},))", "1", True),
        ):
            ref = core.format(st=stt, n=num_)
            if glob:
                ref += f"B.set_global_random_state(st)\nr = B.squeeze({tup})"
            else:
                ref += f"r = (st,) + {tup}"
            out.append(Ob(f"sample.{k}.{name}", ["P09", "P17", "P26", "P24"] + (["P08"] if k > 1 else []), F,
                          run="r = " + call, ref=ref,
                          facets={"value": ("r", "r")}, raises="never", effects=outside,
                          config=dict(ML, opaque_gfs={"combine"}), anchor="Measure.sample"))
    for name, call, stt, num_, glob in (
        ("state n", "m.sample(s, n, *fs)", "s", "n", False),
        ("state", "m.sample(s, *fs)", "s", "1", False),
        ("n", "m.sample(n, *fs)", "B.global_random_state(fs)", "n", True),
        ("bare", "m.sample(*fs)", "B.global_random_state(fs)", "1", True),
    ):
        ref = f"st, smp = m(combine(*fs)).sample({stt}, {num_})\n"
        ref += "i = 0\nparts = []\nfor f_ in fs:\n    n_ = infer_size(f_.p.kernel, f_.x)\n"
        ref += "    parts.append(smp[..., i : i + n_, :])\n    i += n_\n"
        ref += "B.set_global_random_state(st)\nr = B.squeeze(tuple(parts))" if glob else "r = (st,) + tuple(parts)"
        out.append(Ob(f"sample.any.{name}", ["P09", "P17", "P26", "P24", "P08"], F, run="r = " + call, ref=ref,
                      facets={"value": ("r", "r")}, raises=None, effects=outside, assume=["len(fs) > 0"],
                      config=dict(ML, opaque_gfs={"combine"}), anchor="Measure.sample"))
    return out


def viewed():
    """A model applied to a distribution."""
    E = dict(m="Measure", f="FDD", j="GP", e="Tensor", N="AbstractMatrix", p="GP", x="Tensor")
    cfg = dict(self_=["m"], entry_methods=["__call__"])
    out = []
    for name, ctor in (("fdd", "f"), ("noiseless", "p(x)"), ("noisy", "FDD(p, x, N)"), ("numeric", "p(x, e)")):
        out.append(
            Ob(f"measure.view.{name}", ["P35", "P12", "P22", "P10"], E, setup=f"d = {ctor}\ndp = d.p", run="r = m(d)",
               assume=["member j m", "member dp m"], config=dict(cfg, opaque_gfs={"infer_size"}), raises="never",
               facets={
                   "input": ("r.x", "d.x"), "noise": ("r.noise", "d.noise"), "model": ("r.p.measure is m", "True"),
                   "mean": ("m.means[r.p]", "m.means[d.p]"), "kernel": ("m.kernels[r.p]", "m.kernels[d.p]"),
                   "left": ("m.kernels[r.p, j]", "m.kernels[d.p, j]"), "right": ("m.kernels[j, r.p]", "m.kernels[j, d.p]"),
                   "given": ("(d.x, d.noise)", "(d.x, d.noise)"),
               }, anchor="Measure.__call__")
        )
    return out


_pairs = obligations


def obligations():
    return _pairs() + joint() + viewed()
