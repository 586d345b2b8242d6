"""Rules that hold at every point of every analysed scenario."""

import ast

from .harness import Result
from .lib import base_type, kind, ty
from .terms import NONE, show, subterms, walk

# Functions whose result does not depend on the numbers in their arguments.
STRUCTURAL = {
    "B.shape", "B.shape_matrix", "B.shape_batch", "B.shape_matrix_broadcast", "B.shape_batch_broadcast", "B.rank",
    "B.dtype", "B.dtype_float", "B.dtype_int", "B.promote_dtypes", "B.issubdtype", "B.is_scalar", "B.length", "B.size",
    "B.device", "B.isabstract", "B.jit_to_numpy", "mlkernels.num_elements", "infer_size", "dimensionality",
    "builtins.len", "builtins.isinstance", "builtins.type", "builtins.callable", "builtins.hasattr", "builtins.id",
    "algebra.util.identical", "B.global_random_state", "lab.util.is_sequence", "builtins.hash",
}
ARRAYS = ("Numeric", "Tensor", "AbstractMatrix")
# Conversions of values to Python numbers or to NumPy.
CONVERSIONS = ("item", "numpy", "tolist", "__float__", "__int__", "__bool__", "__array__", "detach")
STRUCTURAL_ATTRS = ("shape", "dtype", "ndim", "size", "device", "name", "rows", "cols")

_memo = {}


def depends(t):
    """Does the value depend on numbers the user gave?"""
    r = _memo.get(t)
    if r is None:
        _memo[t] = False
        r = _depends(t)
        _memo[t] = r
    return r


def _depends(t):
    op = t.op
    if op in ("const", "num", "cls", "fn", "ext", "gf", "opaque", "clo", "bv", "len", "isinst", "is", "typeof", "id", "dhas",
              "in", "str", "fstr", "new", "bound", "clsattr", "rng"):
        return False
    if op == "sym":
        return kind(ty(t)) in ARRAYS
    if op == "call":
        name = t.args[0]
        if name in STRUCTURAL or name.split(".")[-1] in ("infer_size", "dimensionality", "num_elements"):
            return False
        return any(depends(x) for x in subterms(t))
    if op in ("attr", "field0"):
        o, name = t.args[0], t.args[1]
        if name in STRUCTURAL_ATTRS:
            return False
        return kind(ty(t)) in ARRAYS
    if op == "apply":
        k = kind(ty(t.args[0]))
        return k in ("Kernel", "Mean") or any(depends(x) for x in t.args[1:])
    if op == "meth" and t.args[0] in STRUCTURAL_ATTRS:
        return False
    if op in ("mcall", "gcall", "callv", "inst", "method", "listv", "dictv", "setv", "lget", "lam", "map", "dom", "dget", "exists"):
        return False
    if op == "eq" and NONE in t.args:
        return False
    return any(depends(x) for x in subterms(t))


def concretise(s, base, act):
    """No value is turned into a concrete number except by the sanctioned conversion."""
    seen = set()
    n = 0
    for e in act.trace:
        if e[0] == "branch":
            n += 1
            if depends(e[1]):
                m = ("a branch is decided by", e[1], e[2])
            else:
                continue
        elif e[0] == "convert":
            n += 1
            if not depends(e[2]):
                continue
            m = (f"{e[1].args[1]}() is applied to", e[2], e[3])
        elif e[0] == "meth":
            if e[1].args[1] not in CONVERSIONS or not depends(e[2]):
                continue
            m = (f".{e[1].args[1]}() is applied to", e[2], e[3])
        elif e[0] == "ext":
            n += 1
            name = e[1].args[1]
            root = name.split(".")[0]
            if name == "B.to_numpy" or root in FOREIGN:
                if any(depends(x) for x in e[2].args):
                    m = (f"{name} is applied to", e[2], e[3])
                else:
                    continue
            else:
                continue
        else:
            continue
        k = (m[0], m[2])
        if k not in seen:
            seen.add(k)
            yield "concretise", "violation", f"{m[0]} {show(m[1])[:300]}, which depends on the user's values", m[2]
    yield "concretise", "ok", str(n), ""


FOREIGN = ("numpy", "np", "scipy", "torch", "jax", "tensorflow", "autograd", "math", "cmath", "statistics")

DATA_FIELDS = {
    "FDD": ("p", "x", "noise"),
    "Observations": ("fdd", "y"),
    "PseudoObservations": ("fdd", "y", "u"),
    "PseudoObservationsFITC": ("fdd", "y", "u"),
    "PseudoObservationsDTC": ("fdd", "y", "u"),
}


# Functions whose result may share memory with their first argument.
VIEWS = ("B.uprank", "B.dense", "B.squeeze", "B.reshape", "B.transpose", "B.expand_dims", "B.flatten", "B.broadcast_to",
         "B.cast", "B.to_active_device", "B.diag_extract", "B.T", "B.downrank")


def given(t):
    """Is the object one the user passed in, or part of one?"""
    if t.op == "sym":
        return True
    if t.op == "call" and t.args[0] in VIEWS and t.args[1]:
        return given(t.args[1][0])
    if t.op == "ite":
        return any(given(x) for x in t.args[1:])
    if t.op in ("at", "getitem"):
        return given(t.args[0])
    if t.op in ("attr", "field0"):
        k = base_type(ty(t.args[0]))
        return t.args[1] in DATA_FIELDS.get(k, ()) and given(t.args[0])
    return False


def shared(t):
    """May the array be one that something else refers to?"""
    if kind(ty(t)) == "AbstractMatrix" or t.op in ("attr", "field0") and t.args[1] == "noise":
        return False  # Structured matrices have no operations in place.
    if t.op in ("attr", "field0"):
        return kind(ty(t)) in ARRAYS
    if t.op == "call" and t.args[0] in VIEWS and t.args[1]:
        return shared(t.args[1][0])
    if t.op == "ite":
        return any(shared(x) for x in t.args[1:])
    return given(t)


def mutation(s, base, act):
    """Nothing that was handed in is modified."""
    seen = set()
    n = 0
    for e, eff_kind, args in effects(act.log):
        n += 1
        if not args:
            continue
        o = args[0]
        m = None
        if eff_kind == "inplace":
            if not shared(o):
                continue
            m = f"{show(o)[:200]} is updated in place"
        elif eff_kind == "storeitem":
            if shared(o):
                m = f"an element of {show(o)[:200]} is overwritten"
        elif eff_kind in ("mutate", "dictset", "dictdel"):
            if given(o):
                m = f"{show(o)[:200]} is modified"
        elif eff_kind == "setattr":
            k = base_type(ty(o))
            name = args[1].args[1]
            if given(o) and name in DATA_FIELDS.get(k, ()) or kind(ty(o)) in ARRAYS and (given(o) or o.op in ("attr", "field0")):
                m = f"attribute {name} of {show(o)[:200]} is replaced"
        if m and (m, e.loc) not in seen:
            seen.add((m, e.loc))
            yield "mutation", "violation", m, e.loc
    yield "mutation", "ok", str(n), ""


def effects(log):
    for e in log:
        kind_, args = e.kind, e.args
        while kind_ == "foreach":
            body = args[1].args[1]
            if body.op != "eff":
                break
            kind_, args = body.args[0], body.args[2]
        yield e, kind_, args


# Functions that draw random numbers: name -> position of the random state.
DRAWS = ("B.sample", "B.rand", "B.randn", "B.randint", "B.choice", "B.randperm", "B.randgamma", "B.randbeta", "B.randcat")


def draws(s, base, act):
    """Every draw is given a random state."""
    n = 0
    for e in act.trace:
        if e[0] != "ext":
            continue
        name = e[1].args[1]
        if name in DRAWS:
            n += 1
            a = e[2].args[0] if e[2].args else None
            k = kind(ty(a)) if a is not None else "nothing"
            if a is None or k in ARRAYS + ("Int", "int") or (a.op == "call" and a.args[0] in ("B.dtype", "B.shape")):
                yield "state", "violation", f"{name} is called without a random state", e[3]
        elif name.startswith(("numpy.random.", "random.", "torch.random.", "jax.random.")) or name in ("B.set_random_seed",):
            yield "state", "violation", f"{name} does not use the given random state", e[3]
    yield "state", "ok", str(n), ""


KEPT = ("GP", "Measure")


def identity_keys(s, base, act):
    """What is stored under an identity is stored as long as the object lives."""
    n = 0
    seen = set()
    for e, k, args in effects(act.log):
        if k != "dictset":
            continue
        o, key, v = args[:3]
        for u in walk(key):
            if u.op != "id":
                continue
            n += 1
            x = u.args[0]
            if base_type(ty(x)) in KEPT or any(w is x for w in holds(v)) or e.loc in seen:
                continue
            if ty(x) in ("?", "any", "Any") or x.op in ("bv", "opaque"):
                continue
            seen.add(e.loc)
            yield "identity key", "violation", (
                f"an entry of {show(o)[:120]} is stored under the identity of {show(x)[:120]}, which nothing keeps alive"), e.loc
    yield "identity key", "ok", str(n), ""


def holds(v):
    """Objects that a stored value refers to directly."""
    yield v
    if v.op in ("tuple", "listv"):
        for x in v.args:
            yield from holds(x)


OWNERS = ("Measure", "LazyVector", "LazyMatrix")
MUTATORS = ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "update", "discard", "setdefault",
            "popitem", "difference_update", "intersection_update")


def mutated_fields(prog):
    """Names of fields whose contents are changed somewhere in the package."""
    r = getattr(prog, "_mutated_fields", None)
    if r is None:
        r = set()
        fld = lambda n: isinstance(n, ast.Attribute) and r.add(n.attr)
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    fld(n.func.value)
                elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                    fld(n.value)
                elif isinstance(n, ast.AugAssign):
                    fld(n.target)
        prog._mutated_fields = r
    return r


def sharing(s, base, act):
    """Models and their tables do not share what their methods change."""
    n = 0
    seen = set()
    for e, k, args in effects(act.log):
        if k != "alias":
            continue
        n += 1
        o, name, x = args
        if base_type(ty(o)) not in OWNERS or base_type(ty(x)) not in OWNERS or e.loc in seen:
            continue
        if name.args[1] not in mutated_fields(s.prog):
            continue
        seen.add(e.loc)
        yield "sharing", "violation", f"field {name.args[1]} of {show(o)[:120]} is the very container {show(x)[:120]} holds", e.loc
    yield "sharing", "ok", str(n), ""


def key_kinds(s, base, act):
    """Every access of a container means the same by a key: processes themselves, or their identities."""
    for (owner, field), kinds in sorted(s.prog.keykinds.items()):
        if len(kinds) > 1 and (owner, field) not in s.prog.keyfaults:
            s.prog.keyfaults.add((owner, field))
            yield "kinds of keys", "violation", (
                f"field {field} of a {owner} is indexed by identities at {kinds['identities']} and by objects here"), kinds["objects"]
    yield "kinds of keys", "ok", str(len(s.prog.keykinds)), ""


MONITORS = {
    "P25": [concretise],
    "P27": [mutation],
    "P17": [draws],
    "P22": [identity_keys],
    "P06": [sharing],
    "P18": [key_kinds],
}
GENERAL = [mutation, identity_keys]
