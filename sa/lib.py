"""Normalisation of calls into the libraries, types of terms, and sequence/set laws."""

import ast
from fractions import Fraction

from .terms import *
from .terms import T, Term

# ------------------------------------------------------------------------------- types

SUPER = {
    "FDD": "Normal",
    "Normal": "RandomVector",
    "RandomVector": "Random",
    "RandomProcess": "Random",
    "GP": "RandomProcess",
    "Observations": "AbstractObservations",
    "AbstractPseudoObservations": "AbstractObservations",
    "PseudoObservations": "AbstractPseudoObservations",
    "PseudoObservationsFITC": "AbstractPseudoObservations",
    "PseudoObservationsDTC": "AbstractPseudoObservations",
    "MultiOutputKernel": "Kernel",
    "AmbiguousDimensionalityKernel": "WrappedKernel",
    "PosteriorKernel": "Kernel",
    "SubspaceKernel": "Kernel",
    "TensorProductKernel": "Kernel",
    "WrappedKernel": "Kernel",
    "PlainWrappedKernel": "Kernel",
    "JoinKernel": "Kernel",
    "ElementKernel": "Kernel",
    "MultiOutputMean": "Mean",
    "LazyVector": "LazyTensor",
    "LazyMatrix": "LazyTensor",
    "Zero": "AbstractMatrix",
    "Diagonal": "AbstractMatrix",
    "Dense": "AbstractMatrix",
    "Constant": "AbstractMatrix",
    "Tensor": "Numeric",
    "Scalar": "Numeric",
    "Int": "Scalar",
    "int": "Int",
    "Pos": "Int",
    "Dimension": "Int",
    "float": "Scalar",
    "bool": "Scalar",
}
# Types a mlkernels kernel that is a `Join`/`Wrapped`/... also belongs to.
EXTRA = {
    "WrappedKernel": ("Wrapped",),
    "PlainWrappedKernel": ("Wrapped",),
    "JoinKernel": ("Join",),
    "ElementKernel": ("Element",),
    "TensorProductKernel": ("Element",),
    "MultiOutputKernel": (),
    "AmbiguousDimensionalityKernel": ("Wrapped",),
}


_SUPERTYPES = {}


def supertypes(t):
    """All types that a type is, most specific first. The list is shared: do not change it."""
    out = _SUPERTYPES.get(t)
    if out is None:
        out, u = [], t
        while u:
            out.append(u)
            out.extend(EXTRA.get(u, ()))
            u = SUPER.get(u)
        _SUPERTYPES[t] = out
    return out


def set_class_hierarchy(prog):
    _SUPERTYPES.clear()
    INIT_KINDS.clear()
    init_kinds(prog)
    for c, k in prog.classes.items():
        for b in k.bases:
            if b in prog.classes:
                SUPER[c] = b
                break
            if b in ("mlkernels.Kernel",) and c not in SUPER:
                SUPER[c] = "Kernel"
            if b in ("mlkernels.Mean",) and c not in SUPER:
                SUPER[c] = "Mean"
    _SUPERTYPES.clear()


def init_kinds(prog):
    """Kinds of the containers that constructors put in fields."""
    for c, k in prog.classes.items():
        for f in k.methods.get("__init__", []):
            for n in ast.walk(f.node):
                if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                    continue
                v = n.value
                kind_ = None
                if isinstance(v, (ast.List, ast.ListComp)):
                    kind_ = "list"
                elif isinstance(v, (ast.Dict, ast.DictComp)):
                    kind_ = "dict"
                elif isinstance(v, (ast.Set, ast.SetComp)):
                    kind_ = "set"
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                    kind_ = v.func.id if v.func.id in ("list", "dict", "set") else None
                if kind_ is None:
                    continue
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        if t.value.id == "self" and (c, t.attr) not in FIELDS:
                            INIT_KINDS.setdefault((c, t.attr), kind_)


ANY = "Any"


def subtype(a, b):
    """True / False / None (unknown): is every `a` a `b`?"""
    if b in (ANY, "object"):
        return True
    if a == ANY:
        return None
    if a.startswith("opt:"):
        x = subtype(a[4:], b)
        y = subtype("NoneType", b)
        return x if x == y else None
    if "|" in a:
        rs = {subtype(x, b) for x in a.split("|")}
        return rs.pop() if len(rs) == 1 else None
    if b in supertypes(a):
        return True
    if a in supertypes(b):
        return None
    # Sibling mixins of kernels are not excluded by being a plain kernel.
    if a == "Kernel" and b in ("Wrapped", "Join", "Element"):
        return None
    if a == "Function" or b == "Function":
        return None
    return False


EXT_TYPES = {
    "B.Numeric": "Numeric",
    "B.NPNumeric": "Numeric",
    "B.Int": "Int",
    "B.Number": "Scalar",
    "B.DType": "dtype",
    "B.RandomState": "RandomState",
    "types.FunctionType": "FunctionType",
    "typing.Callable": "FunctionType",
    "matrix.AbstractMatrix": "AbstractMatrix",
    "matrix.Zero": "Zero",
    "matrix.Diagonal": "Diagonal",
    "matrix.Dense": "Dense",
    "matrix.Constant": "Constant",
    "mlkernels.Kernel": "Kernel",
    "mlkernels.Mean": "Mean",
    "mlkernels.PosteriorKernel": "PosteriorKernel",
    "mlkernels.SubspaceKernel": "SubspaceKernel",
    "algebra.Join": "Join",
    "algebra.Wrapped": "Wrapped",
    "algebra.WrappedFunction": "Wrapped",
    "algebra.Element": "Element",
    "algebra.Function": "Function",
    "lab.shape.Dimension": "Dimension",
    "numbers.Number": "Scalar",
}

LENGTH_FIELDS = {}

# (class, field) -> (type, element type) of instance fields whose type matters.
FIELDS = {
    ("FDD", "p"): "GP",
    ("FDD", "noise"): "AbstractMatrix",
    ("AbstractObservations", "fdd"): "FDD",
    ("AbstractObservations", "y"): "Tensor",
    ("AbstractPseudoObservations", "u"): "FDD",
    ("MultiOutputKernel", "measure"): "Measure",
    ("MultiOutputKernel", "ps"): "tuple[GP]",
    ("MultiOutputMean", "measure"): "Measure",
    ("MultiOutputMean", "ps"): "tuple[GP]",
    ("Measure", "ps"): "list[GP]",
    ("Measure", "means"): "LazyVector",
    ("Measure", "kernels"): "LazyMatrix",
    ("Measure", "default"): "opt:Measure",
    ("GP", "measure"): "Measure",
    ("GP", "_measures"): "list[Measure]",
    ("GP", "kernel"): "Kernel",
    ("GP", "mean"): "Mean",
    ("Normal", "mean"): "Tensor",
    ("Normal", "var"): "AbstractMatrix",
    ("Normal", "var_diag"): "Tensor",
    ("Normal", "dtype"): "dtype",
    ("Normal", "dim"): "Int",
}

CALL_TYPES = {
    "mlkernels.ZeroKernel": "ElementKernel",
    "mlkernels.OneKernel": "ElementKernel",
    "mlkernels.ZeroMean": "Mean",
    "mlkernels.OneMean": "Mean",
    "mlkernels.TensorProductKernel": "TensorProductKernel",
    "mlkernels.PosteriorKernel": "PosteriorKernel",
    "mlkernels.SubspaceKernel": "SubspaceKernel",
    "mlkernels.PosteriorMean": "Mean",
    "mlkernels.num_elements": "Int",
    "mlkernels.pairwise": "AbstractMatrix",
    "mlkernels.elwise": "Tensor",
    "matrix.Zero": "Zero",
    "matrix.Diagonal": "Diagonal",
    "matrix.Dense": "Dense",
    "matrix.Constant": "Constant",
    "B.dtype": "dtype",
    "B.shape": "Int",
    "B.rank": "Int",
    "B.is_scalar": "bool",
    "B.all": "bool",
    "B.issubdtype": "bool",
    "B.is_nonempty": "bool",
    "B.fill_diag": "AbstractMatrix",
    "B.submatrix": "AbstractMatrix",
    "B.block_diag": "AbstractMatrix",
    "B.global_random_state": "RandomState",
}

# Types that fields have by being initialised in `__init__` (container kinds).
INIT_KINDS = {}


def field_type(cls, name):
    for c in supertypes(cls):
        if (c, name) in FIELDS:
            return FIELDS[c, name]
        if (c, name) in INIT_KINDS:
            return INIT_KINDS[c, name]
    return ANY


def elem_type(t):
    """Type of the elements of a sequence-valued term."""
    k = ty(t)
    if "[" in k:
        return k[k.index("[") + 1 : -1]
    if t.op == "sslice":
        return elem_type(t.args[0])
    if t.op == "content0":
        return elem_type(t.args[0])
    if t.op in ("filter",):
        return elem_type(t.args[0].args[0]) if t.args[0].args else ANY
    if t.op == "tuple":
        ks = {ty(x) if x.op != "splat" else elem_type(x.args[0]) for x in t.args}
        if len(ks) == 1:
            return ks.pop()
    if t.op == "map":
        return ty(t.args[1].args[1])
    if t.op in ("sortedseq", "rseq"):
        return elem_type(t.args[0])
    return ANY


def base_type(k):
    return k[: k.index("[")] if "[" in k else k


_ty_memo = {}


def ty(t):
    op = t.op
    if op == "sym":
        return t.args[1]
    if op == "const":
        v = t.args[1]
        if v is None:
            return "NoneType"
        return t.args[0]
    if op == "num":
        return "int" if t.args[0].denominator == 1 else "float"
    if op == "tuple":
        return "tuple"
    if op == "new":
        return t.args[0]
    if op == "inst":
        return t.args[0]
    if op in ("clo", "lam", "bound", "partial", "fn"):
        return "FunctionType"
    if op in ("cls",):
        return "type"
    if op == "global":
        return t.args[2]
    if op in ("sortedseq", "rseq"):
        return ty(t.args[0])
    if op == "id":
        return "int"
    if op == "len":
        return "int"
    if op in ("eq", "lt", "not", "and", "or", "in", "is", "isinst", "exists", "subset", "truth"):
        return "bool"
    if op == "fstr":
        return "str"
    if op == "lget":
        k = ty(t.args[0])
        return "Mean" if k == "LazyVector" else "Kernel" if k == "LazyMatrix" else ANY
    if op in ("attr", "field0"):
        return field_type(base_type(ty(t.args[0])), t.args[1])
    if op == "at":
        return elem_type(t.args[0])
    if op in ("content0", "sslice"):
        return ty(t.args[0])
    if op == "map":
        return "tuple"
    if op == "call":
        n = t.args[0]
        if n in ("B.cast",) and len(t.args[1]) == 2:
            return ty(t.args[1][1])
        if n in CALL_TYPES:
            return CALL_TYPES[n]
        if n.startswith("B."):
            return "Numeric?"
        return ANY
    if op == "apply":
        k = ty(t.args[0])
        if k == "Mean":
            return "Tensor"
        return ANY
    if op == "rev":
        return ty(t.args[0])
    if op == "meth":
        k = ty(t.args[1])
        if k in ("Mean", "Kernel") or "Kernel" in supertypes(k):
            if t.args[0] in ("shift", "stretch", "select", "transform", "diff", "periodic"):
                return "Mean" if k == "Mean" else "Kernel"
        return ANY
    if op == "mcall":
        n = t.args[1]
        rk = base_type(ty(t.args[0]))
        r = next((METHOD_TYPES[c, n] for c in supertypes(rk) if (c, n) in METHOD_TYPES), None)
        if r:
            if n == "__call__" and len(t.args[2]) == 1:
                a = base_type(ty(t.args[2][0]))
                return a if a in ("GP", "FDD") else ANY
            return r
        return ANY
    if op == "gcall":
        return {"infer_size": "Int", "dimensionality": "opt:Pos", "combine": "FDD", "combine.0": "FDD", "combine.1": "Tensor"}.get(t.args[0], ANY)
    if op == "add":
        ks = {kind(ty(m)) for m, c in t.args if m is not ONE}
        if any(m is ONE for m, c in t.args) and not ks:
            ks = {"Int"}
        if len(ks) == 1:
            return ks.pop()
        for k in ("GP", "Kernel", "Mean", "AbstractMatrix"):
            if k in ks:
                return k
        return ANY if ANY in ks else "Numeric?"
    if op == "mul":
        ks = [kind(ty(b)) for b, e in t.args]
        for k in ("GP", "Kernel", "Mean"):
            if k in ks:
                return k
        if all(k == "Int" for k in ks) and all(
            is_num(e) and numval(e) > 0 for b, e in t.args
        ):
            return "Int"
        return ANY if ANY in ks else "Numeric?"
    if op in ("mm",):
        return "Numeric?"
    if op in ("sum", "prefix"):
        return kind(ty(t.args[1].args[1]))
    if op == "ite":
        a, b = ty(t.args[1]), ty(t.args[2])
        if a == b:
            return a
        if a == "NoneType":
            return "opt:" + b
        if b == "NoneType":
            return "opt:" + a
        if subtype(a, b) is True:
            return b
        if subtype(b, a) is True:
            return a
        return ANY
    if op == "getitem":
        k = ty(t.args[0])
        if k == "Tensor" and t.args[1].op == "slice":
            return "Tensor"
        if k in ("Kernel",) or "Kernel" in supertypes(k):
            return "Kernel"
        return ANY
    if op == "set":
        return "set"
    return ANY


def kind(k):
    k = base_type(k)
    if "Kernel" in supertypes(k):
        return "Kernel"
    if "AbstractMatrix" in supertypes(k):
        return "AbstractMatrix"
    if "Int" in supertypes(k):
        return "Int"
    return k


METHOD_TYPES = {
    ("Measure", "__call__"): "?",
    ("Measure", "condition"): "Measure",
    ("Measure", "__or__"): "Measure",
    ("GP", "condition"): "GP",
    ("GP", "__or__"): "GP",
    ("GP", "shift"): "GP",
    ("GP", "stretch"): "GP",
    ("GP", "select"): "GP",
    ("GP", "transform"): "GP",
    ("GP", "diff"): "GP",
    ("GP", "diff_approx"): "GP",
    ("GP", "__call__"): "FDD",
    ("Measure", "sum"): "GP",
    ("Measure", "mul"): "GP",
    ("Normal", "marginals"): "tuple",
    ("Normal", "marginal_credible_bounds"): "tuple",
}


# ------------------------------------------------------------------------------- calls

# Functions that are mere spellings of arithmetic.
ARITH = {
    "B.add": lambda a, b: add(a, b),
    "B.subtract": lambda a, b: sub(a, b),
    "B.multiply": lambda a, b: mul(a, b),
    "B.divide": lambda a, b: div(a, b),
    "B.power": lambda a, b: power(a, b),
    "B.negative": lambda a: neg(a),
    "B.sqrt": lambda a: power(a, num(Fraction(1, 2))),
    "operator.add": lambda a, b: add(a, b),
    "operator.sub": lambda a, b: sub(a, b),
    "operator.mul": lambda a, b: mul(a, b),
    "operator.truediv": lambda a, b: div(a, b),
    "operator.neg": lambda a: neg(a),
    "math.sqrt": lambda a: power(a, num(Fraction(1, 2))),
}

SIG = {
    "B.sum": ("a", "axis"),
    "B.mean": ("a", "axis"),
    "B.squeeze": ("a", "axis"),
    "B.uprank": ("a", "rank"),
    "B.downrank": ("a", "rank"),
    "B.take": ("a", "indices_or_mask", "axis"),
    "B.cast": ("dtype", "a"),
    "B.iqf": ("a", "b", "c"),
    "B.iqf_diag": ("a", "b", "c"),
    "B.submatrix": ("a", "row_inds"),
    "B.expand_dims": ("a", "axis"),
    "B.concat": (None, ),
    "B.trace": ("a", "axis1", "axis2"),
    "mlkernels.PosteriorKernel": ("k_ij", "k_zi", "k_zj", "z", "K_z"),
    "mlkernels.SubspaceKernel": ("k_zi", "k_zj", "z", "A"),
    "mlkernels.PosteriorMean": ("m_i", "m_z", "k_zi", "z", "K_z", "y"),
    "mlkernels.num_elements": ("x",),
    "B.fill_diag": ("a", "diag_len"),
    "matrix.Zero": ("dtype", "rows", "cols"),
    "matrix.Constant": ("const", "rows", "cols"),
    "matrix.Diagonal": ("diag",),
    "matrix.Dense": ("mat",),
    "fdm.central_fdm": ("order", "deriv"),
    "B.logdet": ("a",),
    "B.cholesky": ("a",),
    "B.diag": ("a",),
    "B.dense": ("a",),
    "B.outer": ("a", "b"),
    "B.ratio": ("a", "b"),
    "B.root": ("a",),
    "B.set_global_random_state": ("state",),
    "B.global_random_state": ("dtype",),
    "B.jit_to_numpy": ("x",),
    "B.isnan": ("a",),
    "B.all": ("a", "axis"),
    "B.any": ("a", "axis"),
    "B.maximum": ("a", "b"),
    "B.minimum": ("a", "b"),
    "B.where": ("condition", "a", "b"),
    "B.eye": ("a",),
    "B.solve": ("a", "b"),
    "B.matmul_diag": ("a", "b"),
    "B.rank": ("a",),
    "B.is_scalar": ("a",),
}

# Values a keyword has if it is not given.
DEFAULTS = {
    ("B.uprank", "rank"): num(2),
    ("B.take", "axis"): ZERO,
    ("B.sample", "num"): ONE,
    ("B.matmul_diag", "tr_a"): FALSE,
    ("B.matmul_diag", "tr_b"): FALSE,
    ("B.concat", "axis"): ZERO,
    ("B.stack", "axis"): ZERO,
    ("B.expand_dims", "axis"): ZERO,
    ("B.squeeze", "axis"): NONE,
    ("B.sum", "axis"): NONE,
    ("B.all", "axis"): NONE,
    ("B.any", "axis"): NONE,
}

IDENTITY_1 = {"lab.shape.Dimension", "B.identity"}

# Library functions whose behaviour is known to be distinct from each other: a difference in
# one of them is a real difference. Anything else from outside is "unfamiliar".
KNOWN_B = set(
    """abs add all any argsort block block_diag broadcast_to cast cholesky cholesky_retry_factor
    concat cond cos cumsum dense diag diag_construct diag_extract divide dtype dtype_float
    epsilon equal exp expand_dims eye fill_diag fill_zeros flatten global_random_state identity iqf
    iqf_diag is_nonempty is_scalar isabstract isnan issubdtype jit_to_numpy kron linspace log log1p
    logdet logsumexp lt matmul matmul_diag max maximum mean min minimum mm multiply nan_to_num
    negative on_device one ones outer pd_inv power promote_dtypes promote_dtypes_of rand randn range
    rank ratio reg relu reshape reverse root sample schur set_global_random_state shape
    shape_matrix sign sin size softplus solve sqrt squeeze stack std stop_gradient subtract sum
    submatrix svd swapaxes t take tensordot tile to_numpy tr trace transpose triangular_solve tril
    triu uprank downrank vec_to_tril where zero zeros shape_batch_broadcast shape_batch bool logical_and
    logical_not logical_or nansum lab_to_numpy create_random_state choice randint device""".split()
)


def known_ext(name):
    if name in IDENTITY_1:
        return True
    if name.startswith("B."):
        return name[2:] in KNOWN_B
    return name.split(".")[0] in (
        "mlkernels",
        "matrix",
        "algebra",
        "fdm",
        "plum",
        "wbml",
        "builtins",
        "math",
    )


def kwd(kw, k, default=None):
    for n, v in kw:
        if n == k:
            return v
    return default


def call(name, args, kw=()):
    """Value of a call of a library function, normalised."""
    args = list(args)
    kw = dict(kw)
    # Bind keywords that have a position.
    sig = SIG.get(name)
    if sig and None not in sig:
        n = len(args)
        for k in sig[n:]:
            if k in kw and n == len(args):
                args.append(kw.pop(k))
                n += 1
            else:
                break
        # Optional trailing positional arguments are kept as keywords.
        req = {
            "B.sum": 1,
            "B.mean": 1,
            "B.squeeze": 1,
            "B.uprank": 1,
            "B.take": 2,
            "B.expand_dims": 1,
            "B.all": 1,
            "B.any": 1,
            "B.trace": 1,
        }.get(name)
        if req is not None and len(args) > req:
            for k, v in zip(sig[req:], args[req:]):
                kw[k] = v
            args = args[:req]
    for (fn, k), d in DEFAULTS.items():
        if fn == name and kw.get(k) is d:
            del kw[k]
    if name in ("B.matmul", "B.mm", "B.dot"):
        return _matmul(args, kw)
    if name in ARITH and not kw:
        try:
            return ARITH[name](*args)
        except TypeError:
            pass
    if name in ("B.transpose", "B.t", "B.T") and len(args) == 1 and not kw:
        return tr(args[0])
    if name in IDENTITY_1 and len(args) == 1:
        return args[0]
    if name == "plum.convert" and len(args) == 2:
        return args[0]
    if name == "B.cast" and len(args) == 2 and (whole(args[1]) or number(args[1]) and floating(args[0])):
        return args[1]
    if name == "B.any" and len(args) == 1 and not kw and mask_like(args[0]):
        return invert(call("B.all", [invert(args[0])]))
    if name == "B.zero":
        return ZERO
    if name == "B.one":
        return ONE
    if name == "B.squeeze" and kw.get("axis") is num(-1) and len(args) == 1:
        return getitem(args[0], T("tuple", ELL, ZERO))
    if name == "B.uprank" and not kw and len(args) == 1:
        a = args[0]
        if a.op == "call" and a.args[0] == "B.uprank":
            return a
    if name == "B.diag" and len(args) == 1 and not kw:
        return _diag(args[0])
    if name in ("B.sum",) and len(args) == 1:
        ax = kw.get("axis")
        axes = _axes(ax)
        if axes is not None:
            a = args[0]
            if a.op == "call" and a.args[0] == "B.sum" and a.args[2]:
                inner = _axes(a.args[2][0][1])
                if inner is not None:
                    merged = set(inner)
                    for k in axes:
                        # k-th axis from the right among the remaining ones
                        left, i = -k, 0
                        while left:
                            i += 1
                            if -i not in inner:
                                left -= 1
                        merged.add(-i)
                    return T(
                        "call",
                        "B.sum",
                        a.args[1],
                        (("axis", T("tuple", *[num(k) for k in sorted(merged)])),),
                    )
            return T(
                "call",
                "B.sum",
                tuple(args),
                (("axis", T("tuple", *[num(k) for k in sorted(axes)])),),
            )
    if name == "B.dense" and len(args) == 1:
        a = args[0]
        if a.op == "call" and a.args[0] == "B.dense":
            return a
    if name == "B.outer" and len(args) == 1:
        return mm(args[0], tr(args[0]))
    if name == "B.outer" and len(args) == 2:
        return mm(args[0], tr(args[1]))
    if name in ("B.iqf", "B.iqf_diag", "B.matmul_diag") and len(args) == 3:
        if args[1] is args[2] and name != "B.matmul_diag":
            args = args[:2]
    if name in ("B.iqf", "B.iqf_diag") and len(args) == 2 and not kw:
        # A quadratic form is even.
        args = [args[0], min(args[1], scale(-1, args[1]))]
    if name == "matrix.Diagonal" and len(args) == 1 and not kw:
        ms = monos(args[0])
        if len(ms) > 1 and not any(is_num(m) or base_type(ty(m)) in ("Scalar", "int", "Int", "float") for m in ms):
            # Vectors are added element by element.
            return add(*[scale(c, call(name, [m])) for m, c in ms.items()])
    if name in ("B.maximum", "B.minimum") and len(args) == 2 and not kw:
        args = sorted(args)
    if name == "B.shape" and len(args) == 2 and not kw and is_num(args[1]) and numval(args[1]) == -2:
        return T("getitem", call("B.shape_matrix", [args[0]]), ZERO)
    if name == "B.block_diag" or name == "B.block" or name == "B.concat":
        args = list(mk_tuple(args).args)
    if name == "B.block" and not kw:
        return _block(args)
    if name == "B.concat":
        flat = []
        for a in args:
            if a.op == "call" and a.args[0] == "B.concat" and dict(a.args[2]) == kw:
                flat.extend(a.args[1])
            else:
                flat.append(a)
        args = flat
        if len(args) == 1 and args[0].op != "splat" and ty(args[0]) not in ("list", "tuple"):
            return args[0]
    if name == "mlkernels.pairwise" and len(args) == 2 and not kw:
        args = [args[0], args[1], args[1]]
    if name == "mlkernels.elwise" and len(args) == 2 and not kw:
        args = [args[0], args[1], args[1]]
    if name == "mlkernels.TensorProductKernel":
        if len(args) == 1:
            args = [args[0], args[0]]
        if len(args) == 2 and args[0] is args[1]:
            return args[0]
    if name == "mlkernels.mean_var" and len(args) == 3:
        return T(
            "tuple",
            apply(args[0], args[2]),
            call("mlkernels.pairwise", [args[1], args[2]]),
        )
    if name == "mlkernels.mean_var_diag" and len(args) == 3:
        return T(
            "tuple",
            apply(args[0], args[2]),
            call("mlkernels.elwise", [args[1], args[2]]),
        )
    if name == "algebra.util.identical" and len(args) == 2:
        a, b = args
        if a is b:
            return TRUE
        if a.op == "ite":
            return ite(a.args[0], call(name, [a.args[1], b]), call(name, [a.args[2], b]))
        if is_num(b) and (
            a.op in ("num", "const")
            or base_type(ty(a)) in ("Tensor", "AbstractMatrix", "Zero", "Dense", "Diagonal")
            or (a.op == "call" and a.args[0].startswith(("B.", "matrix.")))
        ):
            return FALSE
    if name == "B.is_scalar" and len(args) == 1:
        k = base_type(ty(args[0]))
        if k in ("Scalar", "Int", "int", "float"):
            return TRUE
        if k in ("Vector", "Matrix"):
            return FALSE
        return eq(call("B.rank", args), ZERO)
    if name == "B.rank" and len(args) == 1:
        k = base_type(ty(args[0]))
        if k in ("Vector", "Matrix", "Scalar"):
            return num({"Scalar": 0, "Vector": 1, "Matrix": 2}[k])
    if name == "B.shape_matrix" and len(args) == 2 and is_num(args[1]):
        # one size of the matrix
        return getitem(T("call", name, (args[0],), ()), args[1])
    return T("call", name, tuple(args), tuple(sorted(kw.items())))


SUPER["Vector"] = "Tensor"
SUPER["Matrix"] = "Tensor"


def _block(rows):
    """Block matrices: blocks of blocks are one block, a single block is itself."""
    grid = []
    for r in rows:
        if r.op == "listv" and r.args[0].op == "tuple":
            r = r.args[0]
        if r.op != "tuple" or any(x.op == "splat" for x in r.args) or not r.args:
            return T("call", "B.block", tuple(rows), ())
        grid.append(r.args)
    if len({len(r) for r in grid}) != 1:
        return T("call", "B.block", tuple(rows), ())

    def parts(t):
        if t.op == "call" and t.args[0] == "B.block" and all(r.op == "tuple" for r in t.args[1]):
            return [r.args for r in t.args[1]]
        return [(t,)]

    cells = [[parts(t) for t in r] for r in grid]
    heights = [{len(c) for c in r} for r in cells]
    widths = [{len(r[j][0]) for r in cells} for j in range(len(cells[0]))]
    if all(len(h) == 1 for h in heights) and all(len(w) == 1 for w in widths):
        out = []
        for r in cells:
            for i in range(len(r[0])):
                out.append(sum((tuple(c[i]) for c in r), ()))
        grid = out
    if len(grid) == 1 and len(grid[0]) == 1:
        return grid[0][0]
    return T("call", "B.block", tuple(T("tuple", *r) for r in grid), ())


NUMBERS = ("Tensor", "Scalar", "Int", "int", "float")


def _diag(a):
    """The diagonal is linear; that of the variance of a distribution is known by its name."""
    out = []
    for m, c in monos(a).items():
        fs = factors(m)
        matrices = [b for b, e in fs.items() if base_type(ty(b)) not in NUMBERS] if len(fs) > 1 else list(fs)
        if len(matrices) != 1 or fs[matrices[0]] is not ONE:
            return T("call", "B.diag", (a,), ())
        b = matrices[0]
        if b.op == "attr" and b.args[1] == "var" and base_type(ty(b.args[0])) in ("Normal", "FDD"):
            d = T("attr", b.args[0], "var_diag")
        else:
            d = T("call", "B.diag", (b,), ())
        out.append(mul(num(c), d, *[power(f, e) for f, e in fs.items() if f is not b]))
    return add(*out) if out else T("call", "B.diag", (a,), ())


def _axes(ax):
    if ax is None:
        return None
    items = ax.args if ax.op == "tuple" else (ax,)
    out = []
    for i in items:
        if not is_num(i) or numval(i) >= 0:
            return None
        out.append(int(numval(i)))
    return tuple(sorted(out))


def _matmul(args, kw):
    names = ["tr_a", "tr_b", "tr_c"]
    # positional transposition flags
    mats = [a for a in args if a not in (TRUE, FALSE)]
    flags = [a for a in args if a in (TRUE, FALSE)]
    for k, v in zip(names, flags):
        kw.setdefault(k, v)
    fs = []
    for a, k in zip(mats, names):
        f = kw.pop(k, FALSE)
        if f is TRUE:
            a = tr(a)
        elif f is not FALSE:
            return T("call", "B.matmul", tuple(args), tuple(sorted(kw.items())) + ((k, f),))
        fs.append(a)
    fs.extend(mats[len(names) :])
    for k in names:
        if kw.get(k) is FALSE:
            del kw[k]
    if kw:
        return T("call", "B.matmul", tuple(args), tuple(sorted(kw.items())))
    return mm(*fs)


@rebuilder("call")
def _re_call(name, args, kw):
    flat = []
    for a in args:
        if a.op == "splat" and a.args[0].op == "tuple":
            flat.extend(a.args[0].args)
        else:
            flat.append(a)
    return call(name, flat, kw)


def apply(f, *args):
    if f.op == "lam":
        return apply_lam(f, *args)
    k = base_type(ty(f))
    if "Kernel" in supertypes(k) and len(args) in (1, 2):
        return call("mlkernels.pairwise", [f] + list(args))
    return T("apply", f, *args)


@rebuilder("apply")
def _re_apply(f, *args):
    return apply(f, *args)


def natural(t):
    """A size, a rank, or a count."""
    for m, c in monos(t).items():
        if c < 0:
            return False
        for b in factors(m):
            if b.op == "len":
                continue
            if b.op == "call" and b.args[0] in ("B.rank", "mlkernels.num_elements"):
                continue
            if b.op == "call" and b.args[0] == "B.shape" and len(b.args[1]) == 2:
                continue
            if b.op == "getitem" and b.args[0].op == "call" and b.args[0].args[0] in ("B.shape", "B.shape_matrix"):
                continue
            if b.op == "gcall" and b.args[0] == "infer_size":
                continue
            return False
    return True


def invert(a):
    """Negation of an array of truth values."""
    if a.op == "invert":
        return a.args[0]
    if a.op == "call" and a.args[0] == "B.jit_to_numpy" and len(a.args[1]) == 1:
        return T("call", a.args[0], (invert(a.args[1][0]),), a.args[2])
    return T("invert", a)


@rebuilder("invert")
def _re_invert(a):
    return invert(a)


def mask_like(t):
    """Certainly an array of truth values."""
    if t.op == "invert":
        return mask_like(t.args[0])
    if t.op == "getitem":
        return mask_like(t.args[0])
    if t.op == "call":
        return t.args[0] in ("B.isnan",) or t.args[0] == "B.jit_to_numpy" and mask_like(t.args[1][0])
    return False


def _slices(a, b):
    """The slice that taking slice `b` of slice `a` amounts to, or None."""
    if a.op != "slice" or b.op != "slice" or a.args[1:] != (NONE, NONE) or b.args[2] is not NONE:
        return None
    start = ZERO if a.args[0] is NONE else a.args[0]
    lo = ZERO if b.args[0] is NONE else b.args[0]
    if not natural(start) or not natural(lo) or b.args[1] is not NONE and not natural(b.args[1]):
        return None
    lo = add(start, lo)
    hi = NONE if b.args[1] is NONE else add(start, b.args[1])
    return T("slice", NONE if lo is ZERO else lo, hi, NONE)


def _is_scalar(m):
    """A number (without any axes)."""
    if m is ONE or is_num(m):
        return True
    for f in factors(m):
        if is_num(f) or f.op == "getitem" and f.args[0].op == "call" and f.args[0].args[0] in ("B.shape", "B.shape_matrix"):
            continue
        if f.op == "call" and f.args[0] == "B.shape" and len(f.args[1]) == 2 and is_num(f.args[1][1]):
            continue
        if f.op == "call" and f.args[0] == "B.cast" and len(f.args[1]) == 2 and _is_scalar(f.args[1][1]):
            continue
        if f.op == "call" and f.args[0] in ("B.log", "B.sqrt", "B.exp") and all(_is_scalar(x) for x in f.args[1]):
            continue
        if f.op in ("const", "len") or f.op == "global" and str(f.args[-1]) in ("float", "int"):
            continue
        if f.op in ("add", "mul") and all(_is_scalar(x) for x in monos(f)):
            continue
        if f.op == "ext" and f.args[0] == "B.pi":
            continue
        return False
    return True


COLUMNS = ("B.iqf_diag", "mlkernels.elwise")  # have a trailing axis


def getitem(c, i):
    """Index a tensor-like value."""
    if c.op == "getitem":
        j = c.args[1]
        m = _slices(j, i)
        if m is None and j.op == "tuple" and i.op == "tuple" and len(i.args) == len(j.args):
            n = [k for k in range(len(i.args)) if i.args[k] is not j.args[k]]
            rest = [x for k, x in enumerate(i.args) if k not in n]
            full = T("slice", NONE, NONE, NONE)
            if not n:
                n = [k for k in range(len(i.args)) if i.args[k] is not full and i.args[k] is not ELL]
                rest = [full]
            if len(n) == 1 and all(x is ELL or x is full for x in rest):
                m = _slices(j.args[n[0]], i.args[n[0]])
                if m is not None:
                    m = T("tuple", *[m if k == n[0] else x for k, x in enumerate(i.args)])
        if m is not None:
            return getitem(c.args[0], m)
    if i.op == "tuple":
        items = list(i.args)
        full = T("slice", NONE, NONE, NONE)
        if ELL in items:
            k = items.index(ELL)
            while k + 1 < len(items) and items[k + 1] is full:
                del items[k + 1]
            while k > 0 and items[k - 1] is full:
                del items[k - 1]
                k -= 1
            if k == len(items) - 1:
                items = items[:k]
            if not items:
                return c
        while items and items[-1] is full and ELL not in items:
            items = items[:-1]
        if not items:
            return c
        i = T("tuple", *items) if len(items) > 1 else items[0]
    if c.op == "ite":
        return ite(c.args[0], getitem(c.args[1], i), getitem(c.args[2], i))
    if c.op == "call" and c.args[0] == "B.shape" and len(c.args[1]) == 1:
        return call("B.shape", [c.args[1][0], i])
    if c.op == "call" and c.args[0] == "B.shape_matrix" and len(c.args[1]) == 1 and is_num(i) and numval(i) in (1, -1):
        return call("B.shape", [c.args[1][0], num(-1)])
    if c.op == "call" and c.args[0] == "B.shape_matrix" and len(c.args[1]) == 1 and is_num(i) and numval(i) == -2:
        return T("getitem", c, ZERO)
    if i.op == "tuple" and len(i.args) == 2 and i.args[0] is ELL and is_num(i.args[1]):
        ms = monos(c)
        if len(ms) > 1 and all(m.op == "call" and m.args[0] in COLUMNS for m in ms):
            return add(*[scale(k, getitem(m, i)) for m, k in ms.items()])
    if i.op == "tuple" and len(i.args) == 2 and i.args[0] is ELL and i.args[1] is NONE:
        # A trailing axis for every term: broadcasting then goes as before.
        ms = monos(c)
        if len(ms) > 1 and not all(_is_scalar(m) for m in ms):
            return add(*[scale(k, m if _is_scalar(m) else getitem(m, i)) for m, k in ms.items()])
    if c.op == "inst" and c.args[0] == "AmbiguousDimensionalityKernel" and i is ZERO:
        return c.args[1]
    if c.op == "attr" and c.args[1] in ("grid", "coefs") and c.args[0].op == "call" and str(c.args[0].args[0]).startswith("fdm.") and _int(i):
        return at(c, i)
    return T("getitem", c, i)


@rebuilder("getitem")
def _re_getitem(c, i):
    return getitem(c, i)


@rebuilder("splat")
def _re_splat(s):
    return T("splat", s)


@rebuilder("slice")
def _re_slice(a, b, c):
    return T("slice", a, b, c)


# ------------------------------------------------------------------------------- kernels


def rev(k):
    """Reversed kernel."""
    op = k.op
    if op == "rev":
        return k.args[0]
    if op == "num":
        return k
    if op == "add":
        return add(*[scale(c, rev(m)) for m, c in k.args])
    if op == "mul":
        return mul(*[power(rev(b), e) for b, e in k.args])
    if op == "lget" and len(k.args) == 3:
        # Covariances of a model are symmetric: established separately.
        return T("lget", k.args[0], k.args[2], k.args[1])
    if op == "meth" and k.args[0] in ("shift", "stretch", "select", "transform", "diff"):
        if len(k.args[2]) == 2:
            return kmeth(k.args[0], rev(k.args[1]), [k.args[2][1], k.args[2][0]])
    if op == "call":
        if k.args[0] == "mlkernels.TensorProductKernel" and len(k.args[1]) == 2:
            return call(k.args[0], [k.args[1][1], k.args[1][0]])
        if k.args[0] in ("mlkernels.ZeroKernel", "mlkernels.OneKernel"):
            return k
    if op == "inst" and k.args[0] == "AmbiguousDimensionalityKernel":
        return T("inst", k.args[0], rev(k.args[1]))
    if op == "ite":
        return ite(k.args[0], rev(k.args[1]), rev(k.args[2]))
    t = base_type(ty(k))
    if not ("Kernel" in supertypes(t)):
        # Numbers and functions multiply symmetrically.
        return k
    return T("rev", k)


@rebuilder("rev")
def _re_rev(k):
    return rev(k)


def kmeth(name, recv, args):
    """Algebra methods of kernels and means."""
    args = list(args)
    k = base_type(ty(recv))
    if "Kernel" in supertypes(k) and name in ("shift", "stretch", "select", "transform", "diff"):
        if len(args) == 1:
            args = args * 2
    return T("meth", name, recv, tuple(args), ())


@rebuilder("meth")
def _re_meth(name, recv, args, kw):
    if not kw and name in ("shift", "stretch", "select", "transform", "diff"):
        return kmeth(name, recv, args)
    return T("meth", name, recv, args, kw)


# ------------------------------------------------------------------------------- identity


def idstrip(t):
    if t.op == "id":
        return t.args[0]
    if t.op == "ite":
        return ite(t.args[0], idstrip(t.args[1]), idstrip(t.args[2]))
    if t.op == "tuple" and any(x.op == "id" for x in t.args):
        return T("tuple", *[idstrip(x) for x in t.args])
    return t


def is_(a, b):
    if a is b:
        return TRUE
    if a.op == "ite":
        return ite(a.args[0], is_(a.args[1], b), is_(a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], is_(a, b.args[1]), is_(a, b.args[2]))
    if a.op == "const" and b.op != "const":
        a, b = b, a
    if b.op == "const":
        if a.op in ("const", "num"):
            return const(a is b)
        k = ty(a)
        if b is NONE:
            if a.op == "dget":
                return FALSE
            if a.op in ("new", "clo", "inst", "tuple", "lam", "id", "fn", "cls", "bound", "map", "add", "mul", "mm"):
                return FALSE
            if a.op == "call" and a.args[0].startswith(("B.", "matrix.", "mlkernels.")):
                return FALSE
            if k not in (ANY, "NoneType", "Numeric?") and not k.startswith("opt:"):
                return FALSE
        elif a.op in ("eq", "lt", "not", "and", "or", "in", "is", "isinst"):
            return a if b is TRUE else neg_c(a) if b is FALSE else FALSE
    if distinct(a, b):
        return FALSE
    if b.op != "const" and b.id < a.id:
        a, b = b, a
    return T("is", a, b)


@rebuilder("is")
def _re_is(a, b):
    return is_(a, b)


@rebuilder("id")
def _re_id(a):
    return T("id", a)


# ------------------------------------------------------------------------------- membership


def member(x, c):
    """x in c, for a container content `c` (a sequence or set value)."""
    op = c.op
    if op == "ite":
        return ite(c.args[0], member(x, c.args[1]), member(x, c.args[2]))
    if op in ("set", "tuple"):
        out = FALSE
        for it in c.args:
            if it.op == "splat":
                out = disj(out, member(x, it.args[0]))
            else:
                out = disj(out, keyeq(x, it))
        return out
    if op == "setand":
        return conj(*[member(x, y) for y in c.args])
    if op == "setor":
        return disj(*[member(x, y) for y in c.args])
    if op == "setminus":
        return conj(member(x, c.args[0]), neg_c(member(x, c.args[1])))
    if op == "bigand":
        d, l = c.args
        v = fresh()
        return neg_c(exists(d, lam([v], neg_c(member(x, apply_lam(l, v))))))
    if op == "bigor":
        d, l = c.args
        v = fresh()
        return exists(d, lam([v], member(x, apply_lam(l, v))))
    if op == "map":
        d, l = c.args
        v = fresh()
        return exists(d, lam([v], keyeq(x, apply_lam(l, v))))
    if op == "filter":
        d, cl, vl = c.args
        v = fresh()
        cond, val = apply_lam(cl, v), apply_lam(vl, v)
        if d.op == "dom" and len(d.args) == 1 and val is T("at", d.args[0], v):
            y = fresh()
            cond = subst(cond, {val: y})
            if not contains(cond, v):
                return conj(member(x, d.args[0]), subst(cond, {y: idstrip(x)}))
        return exists(d, lam([v], conj(cond, keyeq(x, val))))
    if x.op == "at" and x.args[0] is c:
        return TRUE
    y = idstrip(x)
    if y.op == "new" and op in ("content0", "field0", "sym", "attr"):
        return FALSE
    return T("in", y, c)


def keyeq(a, b):
    a, b = idstrip(a), idstrip(b)
    if "raw" in (a.op, b.op):
        # An object where identities are compared.
        return const(a is b)
    if a is NONE or b is NONE:
        return is_(a, b)
    if ty(a) in ("GP", "Measure") and ty(b) in ("GP", "Measure"):
        return is_(a, b)
    if a.op == "tuple" and b.op == "tuple" and not any(x.op == "splat" for x in a.args + b.args):
        if len(a.args) != len(b.args):
            return FALSE
        return conj(*[keyeq(x, y) for x, y in zip(a.args, b.args)])
    return eq(a, b)


@rebuilder("in")
def _re_in(a, b):
    return member(a, b)


def mk_set(items):
    out = []
    for it in items:
        if it.op == "splat" and it.args[0].op in ("set", "tuple"):
            for x in it.args[0].args:
                if x not in out:
                    out.append(x)
            continue
        if it not in out:
            out.append(it)
    if len(out) == 1 and out[0].op == "splat":
        return out[0].args[0]
    return T("set", *sorted(out))


@rebuilder("set")
def _re_set(*items):
    return mk_set(items)


def exists(d, l):
    (v,), body = open_lam(l)
    if body is FALSE:
        return FALSE
    if body.op == "or":
        return disj(*[exists(d, lam([v], c)) for c in body.args])
    if d.op == "dom" and len(d.args) == 1:
        s = d.args[0]
        # Skipping the first element does not matter if the condition is false for it.
        if s.op == "sslice" and s.args[1] is ONE and s.args[2] is NONE:
            base = s.args[0]
            tmp = fresh()
            full = subst(body, {T("at", base, add(v, ONE)): T("at", base, tmp)})
            if not contains(full, v):
                if subst(full, {tmp: ZERO}) is FALSE:
                    return exists(dom(base), lam([tmp], full))
    if body.op == "is" and d.op == "dom" and len(d.args) == 1:
        # Some element is the given one: membership (processes and measures are equal only to themselves).
        base = d.args[0]
        for a, b in (body.args, body.args[::-1]):
            if a.op == "at" and a.args[0] is base and a.args[1] is v and not contains(b, v) and base_type(ty(b)) in ("GP", "Measure"):
                return member(b, base)
    if not contains(body, v) and d.op == "dom":
        return conj(body, *[neg_c(eq(seqlen(s), ZERO)) for s in d.args])
    return T("exists", d, lam([v], body))


@rebuilder("exists")
def _re_exists(d, l):
    return exists(d, l)


def mk_sum(d, l):
    (v,), body = open_lam(l)
    if body is ZERO:
        return ZERO
    if not contains(body, v) and d.op == "dom":
        if len(d.args) == 1:
            return mul(body, seqlen(d.args[0]))
    return T("sum", d, lam([v], body))


@rebuilder("sum")
def _re_sum(d, l):
    return mk_sum(d, l)


@rebuilder("bitand")
def _re_bitand(a, b):
    return T("bitand", *sorted((a, b)))


@rebuilder("prefix")
def _re_prefix(d, l, i):
    return mk_prefix(d, l, i)


def dget(c, k):
    """Look a key up in dictionary content; the key is assumed to be there."""
    if c.op == "dset":
        base, kk, v = c.args
        e = keyeq(k, kk)
        if e is TRUE:
            return v
        if e is FALSE:
            return dget(base, k)
        return ite(e, v, dget(base, k))
    if c.op == "ddel":
        return dget(c.args[0], k)
    if c.op == "ite":
        return ite(c.args[0], dget(c.args[1], k), dget(c.args[2], k))
    if c.op == "dnil":
        return T("undef", c, k)
    return T("dget", c, idstrip(k))


def dhas(c, k):
    if c.op == "dset":
        e = keyeq(k, c.args[1])
        return disj(e, dhas(c.args[0], k))
    if c.op == "ddel":
        e = keyeq(k, c.args[1])
        return conj(neg_c(e), dhas(c.args[0], k))
    if c.op == "ite":
        return ite(c.args[0], dhas(c.args[1], k), dhas(c.args[2], k))
    if c.op == "dnil":
        return FALSE
    if c.op == "content0" and c.args[0].op in ("attr", "field0") and c.args[0].args[1] == "_names_by_gp" and idstrip(k).op == "new":
        # Every process with a name existed before.
        return FALSE
    return T("dhas", c, idstrip(k))


def whole(t):
    """A whole number, which every data type represents."""
    return all(c.denominator == 1 and all(_int(b) and whole(e) for b, e in factors(m).items()) for m, c in monos(t).items())


def _int(t):
    if t.op == "call" and t.args[0] == "B.shape" and len(t.args[1]) == 2:
        return True
    if t.op == "getitem" and t.args[0].op == "call" and t.args[0].args[0] in ("B.shape", "B.shape_matrix"):
        return is_num(t.args[1])
    return t.op == "len" or kind(ty(t)) in ("Int", "int") and t.op != "num"


def number(t):
    """A number that does not depend on the data."""
    return all(
        all((_int(b) or b.op == "ext" and b.args[0] in ("B.pi",)
             or b.op == "call" and b.args[0] in ("B.log", "B.sqrt", "B.exp") and all(number(x) for x in b.args[1])) and is_num(e) for b, e in factors(m).items())
        for m in monos(t)
    )


def floating(d):
    """A data type of real numbers."""
    if d.op == "call" and d.args[0] == "B.dtype_float":
        return True
    # Variances are real.
    if d.op == "call" and d.args[0] == "B.dtype" and len(d.args[1]) == 1:
        v = d.args[1][0]
        return v.op in ("attr", "field0") and v.args[1] == "var" or any(covariance(b) for m in monos(v) for b in factors(m))
    return d.op == "attr" and d.args[1] == "dtype"


def covariance(t):
    """A matrix of covariances."""
    return t.op == "pairwise" or kind(ty(t)) == "AbstractMatrix" or t.op == "call" and t.args[0] in ("mlkernels.pairwise", "plum.convert")


@rebuilder("dget")
def _re_dget(c, k):
    return dget(c, k)


@rebuilder("dhas")
def _re_dhas(c, k):
    return dhas(c, k)


@rebuilder("attr")
def _re_attr(o, n):
    return attr(o, n)


def attr(o, n):
    if o.op == "ite":
        return ite(o.args[0], attr(o.args[1], n), attr(o.args[2], n))
    if o.op == "inst":
        cls = o.args[0]
        if cls == "FDD" and len(o.args) == 4:
            if n == "p":
                return o.args[1]
            if n == "x":
                return o.args[2]
            if n == "noise" and kind(base_type(ty(o.args[3]))) == "AbstractMatrix":
                return o.args[3]
        if cls == "Normal" and len(o.args) == 3:
            pass
    return T("attr", o, n)


def _kernel_factors(f):
    """Products of kernels: tensor products merge, unit kernels vanish."""
    from .terms import ONES

    def is_kernel(b):
        k = base_type(ty(b))
        return "Kernel" in supertypes(k) or k == "Mean" or b.op == "call" and b.args[0] in (
            ZEROK + ONES + ("mlkernels.TensorProductKernel",)
        )

    ks = [b for b in f if is_kernel(b)]
    for b in list(f):
        if b.op == "call" and b.args[0] in ONES and len(f) > 1:
            if any(k is not b for k in ks):
                del f[b]
                ks.remove(b)
    tps = [
        b
        for b in f
        if b.op == "call" and b.args[0] == "mlkernels.TensorProductKernel" and f[b] is ONE
        and len(b.args[1]) == 2
    ]
    if tps:
        left, right = ONE, ONE
        for b in list(f):
            if b in tps:
                x, y = b.args[1]
                left = left if x.op == "unitfn" else mul(left, power(x, f[b]))
                right = right if y.op == "unitfn" else mul(right, power(y, f[b]))
                del f[b]
            elif ty(b) == "FunctionType" or base_type(ty(b)) == "Mean":
                left, right = mul(left, power(b, f[b])), mul(right, power(b, f[b]))
                del f[b]
        u = T("unitfn")
        if left is right:
            for x, e in factors(left).items():
                f[x] = add(f.get(x, ZERO), e)
        else:
            t = T(
                "call",
                "mlkernels.TensorProductKernel",
                (u if left is ONE else left, u if right is ONE else right),
                (),
            )
            f[t] = add(f.get(t, ZERO), ONE)
    return f


ZEROK = ("mlkernels.ZeroKernel", "mlkernels.ZeroMean")
from . import terms as _terms  # noqa: E402

_terms.factor_hook[0] = _kernel_factors
