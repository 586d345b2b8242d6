"""Obligations on processes: operators, construction, combination, conditioning."""

from .harness import Ob, Result, run_ob
from .obl_condition import outside


def eff(kind, args):
    return outside(kind, args) or kind == "extcall"


UNARY = {
    "add_num": ("p + c", "m.sum(r, p, c)", dict(c="Tensor"), ["P01", "P33"]),
    "add_fn": ("p + g", "m.sum(r, p, g)", dict(g="FunctionType"), ["P01"]),
    "radd_num": ("c + p", "m.sum(r, p, c)", dict(c="Tensor"), ["P01", "P33"]),
    "radd_fn": ("g + p", "m.sum(r, p, g)", dict(g="FunctionType"), ["P01", "P33"]),
    "mul_num": ("p * c", "m.mul(r, p, c)", dict(c="Tensor"), ["P01", "P33"]),
    "mul_fn": ("p * g", "m.mul(r, p, g)", dict(g="FunctionType"), ["P01"]),
    "rmul_num": ("c * p", "m.mul(r, p, c)", dict(c="Tensor"), ["P01", "P33"]),
    "rmul_fn": ("g * p", "m.mul(r, p, g)", dict(g="FunctionType"), ["P01", "P33"]),
    "neg": ("-p", "m.mul(r, p, -1)", dict(), ["P01", "P33"]),
    "sub_num": ("p - c", "m.sum(r, p, -c)", dict(c="Tensor"), ["P01", "P33"]),
    "div_num": ("p / c", "m.mul(r, p, 1 / c)", dict(c="Tensor"), ["P01", "P33"]),
    "shift": ("p.shift(a)", "m.shift(r, p, a)", dict(a="Any"), ["P01"]),
    "stretch": ("p.stretch(a)", "m.stretch(r, p, a)", dict(a="Any"), ["P01"]),
    "transform": ("p.transform(a)", "m.transform(r, p, a)", dict(a="Any"), ["P01"]),
    "select1": ("p.select(a)", "m.select(r, p, a)", dict(a="Any"), ["P01"]),
    "select2": ("p.select(a, b)", "m.select(r, p, a, b)", dict(a="Any", b="Any"), ["P01"]),
    "diff": ("p.diff(a)", "m.diff(r, p, a)", dict(a="Any"), ["P01"]),
    "diff_default": ("p.diff()", "m.diff(r, p, 0)", dict(), ["P01"]),
}  # fmt: skip

BINARY = {
    "add": ("p + q", "m.sum(r, p, q)", ["P01", "P20"]),
    "mul": ("p * q", "m.mul(r, p, q)", ["P03", "P20"]),
    "cross": ("cross(p, q)", "m.cross(r, p, q)", ["P08", "P20", "P23"]),
}

GROUP = """
if p.measure is not q.measure:
    raise AssertionError()
"""


def obligations():
    out = identity()
    names = ["__add__", "__mul__", "__radd__", "__rmul__", "shift", "stretch", "transform", "select", "diff", "__neg__",
             "__sub__", "__truediv__", "__rsub__"]
    cfg = lambda: dict(gp_algebra=False, self_=["p"], entry_methods=list(names))
    for n, (run, op, env, props) in UNARY.items():
        out.append(
            Ob(f"gp.{n}", props + ["P20"], dict(env, p="GP"), run=f"r = {run}",
               ref=f"r = GP()\nfor m in p._measures:\n    {op}", facets={"value": ("r", "r")},
               effects=eff, raises="never", config=cfg())
        )
    # One operation expressed by others: composition of operators.
    comp = {
        "rsub_num": ("c - p", "(-1 * p) + c", dict(c="Tensor"), ["P33", "P01"]),
        "rsub_fn": ("g - p", "(-1 * p) + g", dict(g="FunctionType"), ["P33", "P01"]),
        "sub_gp": ("p - q", "p + (-1 * q)", dict(q="GP"), ["P33", "P01"]),
    }
    for n, (run, want, env, props) in comp.items():
        out.append(
            Ob(f"gp.{n}", props, dict(env, p="GP"), run=f"r = {run}", ref=f"r = {want}",
               facets={"value": ("r", "r")}, effects=eff, raises="ref", config=dict(gp_algebra=True))
        )
    for n, (run, op, props) in BINARY.items():
        out.append(
            Ob(f"gp.{n}", props + ["P31"], dict(p="GP", q="GP"), run=f"r = {run}",
               ref=GROUP + f"r = GP()\nfor m in [m for m in p._measures if m in q._measures]:\n    {op}",
               facets={"value": ("r", "r")}, effects=eff, raises="ref",
               config=dict(gp_algebra=False, entry_methods=list(names), self_=["p"]))
        )
    out.append(
        Ob("gp.add_self", ["P01", "P20"], dict(p="GP"), run="r = p + p",
           ref="r = GP()\nfor m in p._measures:\n    m.sum(r, p, p)", facets={"value": ("r", "r")},
           effects=eff, raises="never", config=cfg())
    )
    out.append(
        Ob("gp.mul_self", ["P03", "P20"], dict(p="GP"), run="r = p * p",
           ref="r = GP()\nfor m in p._measures:\n    m.mul(r, p, p)", facets={"value": ("r", "r")},
           effects=eff, raises="never", config=cfg())
    )
    out.append(
        Ob("gp.cross3", ["P08", "P20", "P23"], dict(p="GP", q="GP", t="GP"), run="r = cross(p, q, t)",
           ref="""
if p.measure is not q.measure or p.measure is not t.measure:
    raise AssertionError()
r = GP()
for m in [m for m in p._measures if m in q._measures and m in t._measures]:
    m.cross(r, p, q, t)
""",
           facets={"value": ("r", "r")}, effects=eff, raises="ref", config=dict(gp_algebra=False))
    )
    out.append(
        Ob("gp.cross1", ["P08", "P20", "P23"], dict(p="GP"), run="r = cross(p)",
           ref="r = GP()\nfor m in p._measures:\n    m.cross(r, p)",
           facets={"value": ("r", "r")}, effects=eff, raises="never", config=dict(gp_algebra=False))
    )
    # ----------------------------------------------------------------- combination
    F = dict(f="FDD", g="FDD", h="FDD", y="Tensor", z="Tensor", w="Tensor")
    for k, fs in ((1, "f"), (2, "fg"), (3, "fgh")):
        a = ", ".join(fs)
        ps = ", ".join(x + ".p" for x in fs)
        ns = ", ".join(x + ".noise" for x in fs)
        out.append(
            Ob(f"combine.{k}", ["P08", "P12"], F, run=f"r = combine({a})",
               ref=f"r = cross({ps})(({a},), B.block_diag({ns}))", facets={"value": ("r", "r")},
               effects=eff, raises="ref", anchor="combine", config=dict(opaque_gfs=set()))
        )
        ys = "yzw"[:k]
        prs = ", ".join(f"({x}, {v})" for x, v in zip(fs, ys))
        up = ", ".join(f"B.uprank({v})" for v in ys)
        out.append(
            Ob(f"combine.pairs.{k}", ["P08", "P12", "P07"], F, run=f"r = combine({prs})",
               ref=f"r = cross({ps})(({a},), B.block_diag({ns})), B.concat({up}, axis=-2)",
               facets={"fdd": ("r[0]", "r[0]"), "values": ("r[1]", "r[1]"), "length": ("len(r)", "2")},
               effects=eff, raises="ref", anchor="combine")
        )
    out.append(
        Ob("combine.any", ["P08", "P12"], dict(fs="tuple[FDD]"), run="r = combine(*fs)",
           ref="r = cross(*[f.p for f in fs])(fs, B.block_diag(*[f.noise for f in fs]))", facets={"value": ("r", "r")},
           effects=eff, raises="ref", anchor="combine")
    )
    # ----------------------------------------------------------------- conditioning
    for n, env, args in (
        ("obs", dict(o="Observations"), "o"), ("pseudo", dict(o="PseudoObservations"), "o"),
        ("fdd", dict(f="FDD", y="Tensor"), "f, y"), ("pair", dict(f="FDD", y="Tensor"), "(f, y)"),
        ("pairs", dict(f="FDD", y="Tensor", g="FDD", z="Tensor"), "(f, y), (g, z)"),
    ):
        out.append(
            Ob(f"gp.condition.{n}", ["P35", "P08"], dict(env, p="GP"), run=f"r = p.condition({args})",
               ref=f"r = p.measure.condition({args})(p)", facets={"value": ("r", "r")}, effects=eff,
               raises="ref", config=dict(self_=["p"], entry_methods=["condition", "__or__"]), anchor="GP.condition")
        )
        if n != "fdd":
            arg = args if n != "pairs" else f"({args})"
            out.append(
                Ob(f"gp.or.{n}", ["P35", "P08"], dict(env, p="GP"), run=f"r = p | {arg}",
                   ref=f"r = p.measure.condition({arg})(p)", facets={"value": ("r", "r")}, effects=eff,
                   raises="ref", config=dict(self_=["p"], entry_methods=["condition", "__or__"]), anchor="GP.__or__")
            )
    return out


# ------------------------------------------------------------------------- identity


def same(prog, ob):
    """Comparing processes or models compares identities, also where a class says how to compare."""
    k = ob.env["p"]
    if not prog.find_method(k, "__eq__")[1]:
        return [Result(ob, "equality", "ok", "", ob.where)]
    o = Ob(ob.id, ob.props, ob.env, run="r = p.__eq__(q)", facets={"equality": ("r", "p is q")}, raises="never")
    return run_ob(prog, o)


def identity():
    props = {"GP": ["P20", "P08", "P18", "P23", "P07"], "Measure": ["P20", "P31", "P22", "P19"], "FDD": ["P07", "P08"]}
    return [Ob(f"identity.{k}", ps, dict(p=k, q=k), custom=same, where=prefix) for k, ps, prefix in (
        ("GP", props["GP"], "stheno/model/gp.py"), ("Measure", props["Measure"], "stheno/model/measure.py"),
        ("FDD", props["FDD"], "stheno/model/fdd.py"))]
