"""Obligations on names, the default model, construction, products, derivatives and operators."""

from itertools import product

from .harness import Ob
from .obl_condition import outside


def eff(kind, args):
    return outside(kind, args) or kind == "extcall"


def names():
    out = []
    E = dict(p="GP", q="GP", t="GP", a="str", b="str", c="str")
    cfg = lambda: dict(inline_methods=["name", "__getitem__"], inline_ctors=["Measure"])

    def ob(id, run, facets, raises=None, assume=(), **kw):
        out.append(Ob(f"name.{id}", ["P18"], E, setup="m = Measure()", run=run, facets=facets, raises=raises,
                      assume=assume, config=cfg(), anchor="Measure.name", **kw))

    D = ["p != q", "p != t", "q != t"]
    N = ["a != b", "a != c", "b != c"]
    ob("first", "m.name(p, a)", {"by name": ("m[a]", "p"), "by process": ("m[p]", "a")}, raises="never")
    ob("again", "m.name(p, a)\nm.name(p, a)", {"by name": ("m[a]", "p"), "by process": ("m[p]", "a")}, raises="never")
    ob("two", "m.name(p, a)\nm.name(q, b)",
       {"a": ("m[a]", "p"), "b": ("m[b]", "q"), "p": ("m[p]", "a"), "q": ("m[q]", "b")}, raises="a == b", assume=["p != q"])
    ob("taken", "m.name(p, a)\nm.name(q, a)", {}, raises="always", assume=["p != q"])
    ob("taken by named", "m.name(p, a)\nm.name(q, b)\nm.name(q, a)", {}, raises="always", assume=["p != q"])
    keep = "m.name(p, a)\nm.name(q, b)\ntry:\n    m.name(q, a)\nexcept RuntimeError:\n    pass"
    ob("failed rename", keep,
       {"a": ("m[a]", "p"), "b": ("m[b]", "q"), "p": ("m[p]", "a"), "q": ("m[q]", "b")}, raises="never",
       assume=["p != q", "a != b"])
    keep = "m.name(p, a)\ntry:\n    m.name(q, a)\nexcept RuntimeError:\n    pass\nm.name(q, b)"
    ob("failed first", keep,
       {"a": ("m[a]", "p"), "b": ("m[b]", "q"), "p": ("m[p]", "a"), "q": ("m[q]", "b")}, raises="never",
       assume=["p != q", "a != b"])
    ob("rename", "m.name(p, a)\nm.name(p, b)", {"b": ("m[b]", "p"), "p": ("m[p]", "b")}, raises="never")
    ob("rename frees", "m.name(p, a)\nm.name(p, b)\nm.name(q, a)",
       {"a": ("m[a]", "q"), "b": ("m[b]", "p"), "p": ("m[p]", "b"), "q": ("m[q]", "a")}, raises="never",
       assume=["p != q", "a != b"])
    ob("rename gone", "m.name(p, a)\nm.name(p, b)\nm[a]", {}, raises="always", assume=["a != b"])
    ob("rename back", "m.name(p, a)\nm.name(p, b)\nm.name(p, a)", {"a": ("m[a]", "p"), "p": ("m[p]", "a")}, raises="never")
    ob("rename others", "m.name(p, a)\nm.name(q, b)\nm.name(p, c)",
       {"b": ("m[b]", "q"), "q": ("m[q]", "b"), "c": ("m[c]", "p"), "p": ("m[p]", "c")}, raises="never",
       assume=["p != q"] + N)
    ob("three", "m.name(p, a)\nm.name(q, b)\nm.name(t, c)",
       {"a": ("m[a]", "p"), "b": ("m[b]", "q"), "c": ("m[c]", "t"), "p": ("m[p]", "a"), "q": ("m[q]", "b"),
        "t": ("m[t]", "c")}, raises="never", assume=D + N)
    ob("swap", "m.name(p, a)\nm.name(q, b)\nm.name(p, c)\nm.name(q, a)\nm.name(p, b)",
       {"a": ("m[a]", "q"), "b": ("m[b]", "p"), "p": ("m[p]", "b"), "q": ("m[q]", "a")}, raises="never", assume=["p != q"] + N)
    ob("unknown name", "m.name(p, a)\nm[b]", {}, raises="always", assume=["a != b"])
    ob("unknown process", "m.name(p, a)\nm[q]", {}, raises="always", assume=["p != q"])
    # Names of a process are those of its models.
    out.append(Ob("name.get", ["P18", "P28"], E, run="r = p.name", facets={"value": ("r", "p.measure[p]")}, anchor="GP.name"))
    out.append(Ob("name.set", ["P18", "P28"], dict(E, n="str"), run="p.name = n", ref="for m in p._measures:\n    m.name(p, n)",
                  effects=lambda k, a: eff(k, a) or k == "mcall" and "assert" not in str(a[1]), raises="any", anchor="GP.name"))
    two = "m = Measure()\nm2 = Measure()\np = GP()\nq = GP()\nr = GP()\n" + "\n".join(
        f"{a}.add_independent_gp({b}, ZeroMean(), ZeroKernel())" for a, b in (("m", "p"), ("m2", "p"), ("m2", "q"), ("m", "r")))
    ES = dict(a="str", b="str", c="str")

    def both(id, run, facets, assume=(), raises="never"):
        out.append(Ob(f"name.both.{id}", ["P18"], ES, setup=two, run=run, facets=facets, raises=raises, assume=assume,
                      config=cfg(), anchor="GP.name"))

    # Names given at construction.
    def given(id, run, facets, assume=(), raises="never", **kw):
        out.append(Ob(f"name.given.{id}", ["P18", "P28"], dict(a="str", b="str", k="Kernel", l="Kernel"), setup="m = Measure()\nq = GP(k, measure=m)",
                      run=run, facets=facets, raises=raises, assume=list(assume) + ["a", "b"], config=cfg(), anchor="GP.__init__"))

    given("taken", "m.name(q, a)\np = GP(l, measure=m, name=a)", {}, raises="always")
    given("taken keeps", "m.name(q, a)\ntry:\n    p = GP(l, measure=m, name=a)\nexcept RuntimeError:\n    pass",
          {"by name": ("m[a]", "q"), "by process": ("m[q]", "a")})
    given("free", "m.name(q, a)\np = GP(l, measure=m, name=b)",
          {"a": ("m[a]", "q"), "b": ("m[b] is p", "True"), "q": ("m[q]", "a"), "p": ("m[p]", "b")}, ["a != b"])
    given("freed", "m.name(q, a)\nm.name(q, b)\np = GP(l, measure=m, name=a)",
          {"a": ("m[a] is p", "True"), "b": ("m[b]", "q"), "q": ("m[q]", "b"), "p": ("m[p]", "a")}, ["a != b"])
    given("then taken", "p = GP(l, measure=m, name=a)\nm.name(q, a)", {}, raises="always")
    given("then renamed", "p = GP(l, measure=m, name=a)\np.name = b\nm.name(q, a)",
          {"a": ("m[a]", "q"), "b": ("m[b] is p", "True"), "q": ("m[q]", "a"), "p": ("m[p]", "b")}, ["a != b"])
    # A posterior and the model it is made from have their own names.
    EP = dict(E, o="Observations", k="Kernel")
    PC = dict(inline_methods=["name", "__getitem__", "condition", "__or__"], inline_ctors=["Measure"])

    def post(id, run, facets, assume=(), raises="never"):
        out.append(Ob(f"name.posterior.{id}", ["P18", "P06"], EP, setup="m = Measure()\np = GP(k, measure=m)\nq = GP(k, measure=m)",
                      run=run, facets=facets, raises=raises, assume=list(assume), config=dict(PC), anchor="Measure.condition"))

    post("later", "r = m | o\nr.name(p, a)", {"by name": ("r[a]", "p"), "by process": ("r[p]", "a"),
                                              "prior by name": ("m[a]", "!undefined"), "prior by process": ("m[p]", "!undefined")})
    post("later copy", "r = m | o\nt = r(p)\nr.name(t, a)",
         {"by name": ("r[a] is t", "True"), "by process": ("r[t]", "a"), "prior by name": ("m[a]", "!undefined"),
          "prior by process": ("m[t]", "!undefined")})
    post("prior later", "r = m | o\nm.name(p, a)",
         {"by name": ("m[a]", "p"), "by process": ("m[p]", "a"), "posterior by name": ("r[a]", "!undefined"),
          "posterior by process": ("r[p]", "!undefined")})
    post("both", "r = m | o\nr.name(p, a)\nm.name(q, a)",
         {"posterior": ("r[a]", "p"), "prior": ("m[a]", "q"), "of p": ("r[p]", "a"), "of q": ("m[q]", "a")})
    post("named prior", "m.name(p, a)\nr = m | o\nr.name(q, b)",
         {"prior": ("m[a]", "p"), "of p": ("m[p]", "a"), "posterior": ("r[b]", "q"), "prior by name": ("m[b]", "!undefined"),
          "prior of q": ("m[q]", "!undefined")}, ["a != b"])
    post("two", "r = m | o\nt = m | o\nr.name(p, a)", {"posterior": ("r[a]", "p"), "other": ("t[a]", "!undefined"),
                                                       "other of p": ("t[p]", "!undefined")})
    both("set", "p.name = a", {"first": ("m[p]", "a"), "second": ("m2[p]", "a"), "by name": ("m[a]", "p"), "and": ("m2[a]", "p")})
    both("again", "p.name = a\np.name = b",
         {"first": ("m[p]", "b"), "second": ("m2[p]", "b"), "by name": ("m[b]", "p"), "and": ("m2[b]", "p")})
    both("taken in the second", "q.name = a\np.name = a", {}, raises="always")
    both("taken in the first", "r.name = a\np.name = a", {}, raises="always")
    both("elsewhere", "q.name = a\nr.name = a", {"q": ("m2[q]", "a"), "r": ("m[r]", "a")})
    fail = "\ntry:\n    p.name = b\nexcept RuntimeError:\n    pass"
    kept = {"p": ("m[p]", "a"), "p2": ("m2[p]", "a"), "a": ("m[a]", "p"), "a2": ("m2[a]", "p")}
    both("failed in the second", "p.name = a\nq.name = b" + fail, {**kept, "q": ("m2[q]", "b"), "b": ("m2[b]", "q")}, ["a != b"])
    both("failed in the first", "p.name = a\nr.name = b" + fail, {**kept, "r": ("m[r]", "b"), "b": ("m[b]", "r")}, ["a != b"])
    both("failed unnamed", "q.name = b" + fail + "\nr.name = b", {"q": ("m2[q]", "b"), "r": ("m[r]", "b")})
    return out



def default():
    out = []
    E = dict(m="Measure", n="Measure", k="Kernel", l="Kernel", x="Any", y="Any", z="Any")

    def ob(id, run, facets, setup="", raises="never", props=("P19",), **kw):
        kw.setdefault("config", dict(self_=["m", "n"] if not setup.startswith("m = ") else [], entry_methods=["add_independent_gp"]))
        out.append(Ob(f"default.{id}", props, E, setup=setup, run=run, facets=facets, raises=raises, anchor="Measure.__enter__", **kw))

    for fresh in (True, False):
        sfx = "new" if fresh else "any"
        pre = "m = Measure()\nn = Measure()" if fresh else ""
        d0 = "\nd = Measure.default"
        ob(f"enter.{sfx}", "r = m.__enter__()", {"default": ("Measure.default", "m"), "value": ("r", "m")}, setup=pre)
        ob(f"exit.{sfx}", "m.__enter__()\nr = m.__exit__(x, y, z)",
           {"default": ("Measure.default", "d"), "propagates": ("not r", "True")}, setup=pre + d0)
        ob(f"nested.{sfx}", "m.__enter__()\nn.__enter__()\na = Measure.default\nn.__exit__(x, y, z)\nb = Measure.default\nm.__exit__(x, y, z)",
           {"inner": ("a", "n"), "outer": ("b", "m"), "after": ("Measure.default", "d")}, setup=pre + d0, assume=["m != n"])
        ob(f"again.{sfx}", "m.__enter__()\nm.__enter__()\na = Measure.default\nm.__exit__(x, y, z)\nb = Measure.default\nm.__exit__(x, y, z)",
           {"inner": ("a", "m"), "outer": ("b", "m"), "after": ("Measure.default", "d")}, setup=pre + d0)
        ob(f"reenter.{sfx}", "m.__enter__()\nn.__enter__()\nm.__enter__()\na = Measure.default\nm.__exit__(x, y, z)\nb = Measure.default\n"
           "n.__exit__(x, y, z)\nc = Measure.default\nm.__exit__(x, y, z)",
           {"1": ("a", "m"), "2": ("b", "n"), "3": ("c", "m"), "after": ("Measure.default", "d")}, setup=pre + d0, assume=["m != n"])
        ob(f"sequence.{sfx}", "m.__enter__()\nm.__exit__(x, y, z)\nn.__enter__()\na = Measure.default\nn.__exit__(x, y, z)\nm.__enter__()\nm.__exit__(x, y, z)",
           {"1": ("a", "n"), "after": ("Measure.default", "d")}, setup=pre + d0, assume=["m != n"])
        ob(f"with.{sfx}", "with m as r:\n    a = Measure.default\n    with n as s:\n        b = Measure.default\n    c = Measure.default",
           {"1": ("a", "m"), "2": ("b", "n"), "3": ("c", "m"), "after": ("Measure.default", "d"), "as": ("r", "m")},
           setup=pre + d0, assume=["m != n"])
        ob(f"create.{sfx}", "with m:\n    p = GP(k)\n    with n:\n        q = GP(l)\n    t = GP(l)",
           {"outer": ("p.measure", "m"), "inner": ("q.measure", "n"), "back": ("t.measure", "m")}, setup=pre,
           assume=["m != n"], props=["P19", "P28"])
        ob(f"error.{sfx}", "try:\n    with m:\n        a = Measure.default\n        raise RuntimeError()\nexcept RuntimeError:\n    b = 1",
           {"inside": ("a", "m"), "after": ("Measure.default", "d"), "reached": ("b", "1")}, setup=pre + d0)
        ob(f"error nested.{sfx}", "try:\n    with m:\n        with n:\n            a = Measure.default\n            raise RuntimeError()\n"
           "except RuntimeError:\n    b = 1",
           {"inside": ("a", "n"), "after": ("Measure.default", "d"), "reached": ("b", "1")}, setup=pre + d0)
        ob(f"error caught.{sfx}", "with m:\n    try:\n        with n:\n            raise RuntimeError()\n"
           "    except RuntimeError:\n        a = Measure.default",
           {"outer": ("a", "m"), "after": ("Measure.default", "d")}, setup=pre + d0)
        ob(f"error escapes.{sfx}", "with m:\n    raise RuntimeError()", {}, setup=pre + d0, raises="always")
    ob("start", "r = Measure.default", {"none": ("r", "Measure.default")})
    return out


def construct():
    out = []
    E = dict(m="Measure", k="Kernel", mu="Mean", c="Tensor", g="FunctionType", s="str", j="GP", i="int")
    forms = {
        "kernel": ("GP(k{})", "ZeroMean()", "k"),
        "mean kernel": ("GP(mu, k{})", "mu", "k"),
        "number": ("GP(c, k{})", "c * OneMean()", "k"),
        "function": ("GP(g, k{})", "g * OneMean()", "k"),
        "mean number kernel": ("GP(mu, c{})", "mu", "c * OneKernel()"),
        "mean function kernel": ("GP(mu, g{})", "mu", "g * OneKernel()"),
        "number kernel": ("GP(c{})", "ZeroMean()", "c * OneKernel()"),
        "function kernel": ("GP(g{})", "ZeroMean()", "g * OneKernel()"),
        "int": ("GP(1, k{})", "1 * OneMean()", "k"),
    }
    for n, (form, mean, kernel) in forms.items():
        for where in ("given", "default", "new", "named", "given default"):
            arg = {"given": ", measure=m", "given default": ", measure=m", "named": ", measure=m, name=s"}.get(where, "")
            setup = {"default": "Measure.default = m", "new": "Measure.default = None", "given default": "Measure.default = Measure()",
                     "given": "Measure.default = None"}.get(where, "")
            facets = {
                "mean": ("p.mean", mean),
                "kernel": ("p.kernel", kernel),
                "models": ("len(p._measures)", "1"),
            }
            if where != "new":
                facets["model"] = ("p.measure", "m")
                facets["apart left"] = ("m.kernels[p, j]", "ZeroKernel()")
                facets["apart right"] = ("m.kernels[j, p]", "ZeroKernel()")
                facets["others"] = ("m.kernels[j]", "m.kernels[j]")
            else:
                facets["fresh model"] = ("p.measure in [m, j.measure]", "False")
                facets["members"] = ("list(p.measure.ps) == [p]", "True")
            if where == "named":
                facets["by name"] = ("m[s] is p", "True")
                facets["name"] = ("p.name", "s")
            out.append(Ob(f"gp.new.{n}.{where}", ["P28"] + (["P18"] if where == "named" else []) + (["P19"] if where != "named" else []), E, setup=setup,
                          run="p = " + form.format(arg), facets=facets,
                          raises="never" if where != "named" else None,
                          assume=(["member j m"] if where != "new" else []) + (["s"] if where == "named" else []),
                          config=dict(self_=["m"], entry_methods=["add_independent_gp", "name", "__getitem__"]),
                          anchor="GP.__init__"))
    out.append(Ob("gp.empty", ["P28", "P31"], E, run="r = GP().measure", facets={}, raises="always", anchor="GP.measure"))
    out.append(Ob("gp.empty kernel", ["P28", "P31"], E, run="r = GP().kernel", facets={}, raises="always", anchor="GP.kernel"))
    out.append(Ob("gp.empty mean", ["P28", "P31"], E, run="r = GP().mean", facets={}, raises="always", anchor="GP.mean"))
    out.append(Ob("gp.measure", ["P28", "P20"], dict(p="GP"), run="r = p.measure", facets={"value": ("r", "p._measures[0]")}, anchor="GP.measure",
                  raises=None, config=dict()))
    # A process of several models is first of all one of the model it was made in.
    several = {
        "added": ("m = Measure()\nn = Measure()\np = GP()\nm.add_independent_gp(p, mu, k)\nn.add_independent_gp(p, nu, l)", "m"),
        "added other": ("m = Measure()\nn = Measure()\np = GP()\nn.add_independent_gp(p, nu, l)\nm.add_independent_gp(p, mu, k)", "n"),
        "posterior": ("m = Measure()\np = GP(mu, k, measure=m)\nn = m | o", "m"),
        "posteriors": ("m = Measure()\np = GP(mu, k, measure=m)\nn = m | o\nn2 = m | o", "m"),
        "posterior of posterior": ("m = Measure()\np = GP(mu, k, measure=m)\nn = m | o\nn2 = n | o", "m"),
    }
    for n, (run, first) in several.items():
        out.append(Ob(f"gp.several.{n}", ["P28", "P20"], dict(k="Kernel", l="Kernel", mu="Mean", nu="Mean", o="Observations"), run=run,
                      facets={"model": (f"p.measure is {first}", "True"), "mean": ("p.mean", f"{first}.means[p]"),
                              "kernel": ("p.kernel", f"{first}.kernels[p]"),
                              "is": ("p.mean", "mu" if first == "m" else "nu")},
                      ref=run, raises="never", anchor="GP.measure",
                      config=dict(inline_ctors=["Measure"], inline_methods=["condition", "__or__", "add_independent_gp"])))
    out.append(Ob("gp.kernel", ["P28", "P11"], dict(p="GP"), run="r = p.kernel", facets={"value": ("r", "p.measure.kernels[p]")}, anchor="GP.kernel",
                  config=dict()))
    out.append(Ob("gp.mean", ["P28", "P11"], dict(p="GP"), run="r = p.mean", facets={"value": ("r", "p.measure.means[p]")}, anchor="GP.mean",
                  config=dict()))
    out.append(Ob("gp.stationary", ["P28"], dict(p="GP"), run="r = p.stationary", facets={"value": ("r", "p.kernel.stationary")}, anchor="GP.stationary"))
    out.append(Ob("gp.call", ["P11", "P12", "P28"], dict(p="GP", x="Tensor", w="Tensor"), run="r = p(x, w)",
                  facets={"process": ("r.p", "p"), "input": ("r.x", "x"), "value": ("r", "FDD(p, x, w)")}, anchor="GP.__call__", raises="never"))
    out.append(Ob("gp.call kw", ["P11", "P12", "P28"], dict(p="GP", x="Tensor", w="Tensor"), run="r = p(x, noise=w)",
                  facets={"value": ("r", "FDD(p, x, w)")}, anchor="GP.__call__", raises="never"))
    out.append(Ob("gp.call none", ["P11", "P12", "P28"], dict(p="GP", x="Tensor", w="Tensor"), run="r = p(x)",
                  facets={"value": ("r", "FDD(p, x, None)")}, anchor="GP.__call__", raises="never"))
    return out



def products():
    out = []
    cfg = dict(self_=["m"])
    E = dict(m="Measure", p="GP", q="GP")
    pre = "n = GP()\np.measure = m\nq.measure = m"
    ind = "\nm.kernels[p, q] = ZeroKernel()\nm.kernels[q, p] = ZeroKernel()"
    mem = ["member p m", "member q m"]
    out.append(Ob("product.independent", ["P03"], E, setup=pre + ind, run="m.mul(n, p, q)", assume=mem + ["p != q"], config=cfg,
                  facets={"mean": ("m.means[n]", "m.means[p] * m.means[q]"),
                          "kernel": ("m.kernels[n]", "m.kernels[p] * m.kernels[q] + (lambda x: m.means[p](x)) * m.kernels[q]"
                                     " + (lambda x: m.means[q](x)) * m.kernels[p]")},
                  raises="never", anchor="Measure.mul"))
    out.append(Ob("product.correlated", ["P03"], E, setup=pre, run="m.mul(n, p, q)", assume=mem + ["p != q"], config=cfg,
                  facets={"mean": ("m.means[n]", "m.means[p] * m.means[q] + (lambda x: m.kernels[p, q].elwise(x))")},
                  known={"mean": ("m.means[p] * m.means[q]", "product-mean")}, lenient=["mean"], anchor="Measure.mul"))
    out.append(Ob("product.square", ["P03"], E, setup=pre, run="m.mul(n, p, p)", assume=mem, config=cfg,
                  facets={"mean": ("m.means[n]", "m.means[p] * m.means[p] + (lambda x: m.kernels[p].elwise(x))")},
                  known={"mean": ("m.means[p] * m.means[p]", "product-mean")}, lenient=["mean"], anchor="Measure.mul"))
    return out


def derivative():
    out = []
    E = dict(p="GP", d="int", o="int")
    fdm = "f = central_fdm({o}, {d}, adapt=0, factor=1e8)\nf.estimate()\n"
    ref = fdm + "s = 0\nfor g, c in zip(f.grid, f.coefs):\n    s = s + c * p.shift(-g * f.step)\nr = s / f.step ** {d}"
    for n, run, o, d in (
        ("all", "r = p.diff_approx(d, o)", "o", "d"),
        ("kw", "r = p.diff_approx(deriv=d, order=o)", "o", "d"),
        ("default", "r = p.diff_approx()", "6", "1"),
        ("deriv", "r = p.diff_approx(d)", "6", "d"),
        ("order", "r = p.diff_approx(order=o)", "o", "1"),
    ):
        out.append(Ob(f"diff_approx.{n}", ["P30"], E, run=run, ref=ref.format(o=o, d=d), facets={"value": ("r", "r")},
                      effects=eff, anchor="GP.diff_approx", raises="never",
                      config=dict(self_=["p"], entry_methods=["diff_approx"])))
    return out


def operators():
    """Operators of random objects in terms of addition and multiplication."""
    out = []
    forms = {
        "radd": ("o + r0", "r0 + o", "P33"),
        "rmul": ("o * r0", "r0 * o", "P33"),
        "neg": ("-r0", "r0 * -1", "P33"),
        "sub": ("r0 - o", "r0 + (-o)", "P33"),
        "rsub": ("o - r0", "(r0 * -1) + o", "P33"),
        "div": ("r0 / o", "r0 * (1 / o)", "P33"),
    }
    for cls in ("Normal", "FDD", "GP"):
        for t in ("Tensor", "Scalar", "int"):
            for n, (run, want, p) in forms.items():
                out.append(Ob(f"operator.{cls}.{t}.{n}", [p], dict(r0=cls, o=t), run=f"r = {run}", ref=f"r = {want}",
                              facets={"value": ("r", "r")}, effects=eff, raises="never"))
        out.append(Ob(f"operator.{cls}.same.sub", ["P33"], dict(r0=cls, o=cls), run="r = r0 - o", ref="r = r0 + (o * -1)",
                      facets={"value": ("r", "r")}, effects=eff, raises="ref"))
    return out


def obligations():
    return names() + default() + construct() + products() + derivative() + operators()


# ------------------------------------------------------------------- longer histories


def _sequences(events, lengths):
    return [s for k in lengths for s in product(events, repeat=k)]


def longer_names(lengths):
    """Every sequence of namings of two processes with two names, rejected ones included, against two tables."""
    out = []
    events = [(p, a) for p in "pq" for a in "ab"]
    for h in _sequences(events, lengths):
        table = {}
        run = []
        for i, (p, a) in enumerate(h):
            ok = table.get(a, p) == p
            if ok:
                table = {n: x for n, x in table.items() if x != p}
                table[a] = p
            run.append(f"e{i} = 0\ntry:\n    m.name({p}, {a})\nexcept RuntimeError:\n    e{i} = 1")
        facets = {f"m[{n}]": (f"m[{n}]", table.get(n, "!undefined")) for n in "ab"}
        back = {p: n for n, p in table.items()}
        facets.update({f"m[{p}]": (f"m[{p}]", back.get(p, "!undefined")) for p in "pq"})
        table = {}
        for i, (p, a) in enumerate(h):
            ok = table.get(a, p) == p
            if ok:
                table = {n: x for n, x in table.items() if x != p}
                table[a] = p
            facets[f"rejected {i}"] = (f"e{i}", "0" if ok else "1")
        out.append(Ob("name.history." + "+".join(p + a for p, a in h), ["P18", "P31"], dict(p="GP", q="GP", a="str", b="str"),
                      setup="m = Measure()", run="\n".join(run), facets=facets, raises="never", assume=["p != q", "a != b"],
                      config=dict(inline_methods=["name", "__getitem__"], inline_ctors=["Measure"]), anchor="Measure.name"))
    return out


def _nestings(n):
    """Well-nested sequences of n blocks: strings of ( and )."""
    if n == 0:
        return [""]
    return [f"({i}){r}" for k in range(n) for i in _nestings(k) for r in _nestings(n - 1 - k)]


def longer_blocks(blocks):
    """Every nesting and succession of blocks of two models."""
    out = []
    E = dict(m="Measure", n="Measure", x="Any", y="Any", z="Any")
    for k in blocks:
        for shape in _nestings(k):
            for labels in product("mn", repeat=k):
                if labels[0] == "n":
                    continue  # the same up to names
                run, facets, stack, i = [], {}, ["d"], 0
                for j, c in enumerate(shape):
                    if c == "(":
                        stack.append(labels[i])
                        i += 1
                        run.append(f"{stack[-1]}.__enter__()")
                    else:
                        run.append(f"{stack.pop()}.__exit__(x, y, z)")
                    run.append(f"a{j} = Measure.default")
                    facets[f"after {j + 1}"] = (f"a{j}", stack[-1])
                out.append(Ob(f"default.history.{shape}.{''.join(labels)}", ["P19"], E, setup="m = Measure()\nn = Measure()\nd = Measure.default",
                              run="\n".join(run), facets=facets, raises="never", assume=["m != n"],
                              config=dict(self_=[], entry_methods=["add_independent_gp"]), anchor="Measure.__enter__"))
    return out


def thorough():
    return longer_names([3, 4]) + longer_blocks([4, 5])


_b = obligations


def obligations():
    return _b() + longer_names([1, 2]) + longer_blocks([1, 2, 3])
