"""Obligations on lazily built vectors and matrices: their own code, not their contract."""

from .harness import Ob

CFG = dict(lazy_contract=False)


def obligations():
    out = []
    E = dict(i="GP", j="GP", k="GP", l="GP", n="int", o="int", s="set", t="set", u="set", f="FunctionType", g="FunctionType",
             h="FunctionType", x="Kernel", y="Kernel", z="Kernel")

    def ob(id, setup, run, facets=None, raises="never", assume=(), **kw):
        out.append(Ob(f"lazy.{id}", ["P21"], E, setup=setup, run=run, facets=facets, raises=raises, assume=assume,
                      config=CFG, **kw))

    V = "v = LazyVector()\n"
    W = "v = LazyMatrix()\n"
    # --- explicit entries
    ob("vector.set", V, "v[i] = x\nr = v[i]", {"value": ("r", "x")})
    ob("vector.set id", V, "v[i] = x\nr = v[id(i)]", {"value": ("r", "x")})
    ob("vector.id set", V, "v[id(i)] = x\nr = v[i]", {"value": ("r", "x")})
    ob("vector.overwrite", V, "v[i] = x\nv[i] = y\nr = v[i]", {"value": ("r", "y")})
    ob("vector.two", V, "v[i] = x\nv[j] = y\na = v[i]\nb = v[j]", {"a": ("a", "x"), "b": ("b", "y")}, assume=["i != j"])
    ob("vector.unset", V, "v[i] = x\nr = v[j]", raises="always", assume=["i != j"])
    ob("vector.empty", V, "r = v[i]", raises="always")
    ob("matrix.set", W, "v[i, j] = x\nr = v[i, j]", {"value": ("r", "x")})
    ob("matrix.set id", W, "v[i, j] = x\nr = v[id(i), id(j)]", {"value": ("r", "x")})
    ob("matrix.set mixed", W, "v[id(i), j] = x\nr = v[i, id(j)]", {"value": ("r", "x")})
    ob("matrix.diag", W, "v[i] = x\nr = v[i, i]", {"value": ("r", "x")})
    ob("matrix.diag get", W, "v[i, i] = x\nr = v[i]", {"value": ("r", "x")})
    ob("matrix.order", W, "v[i, j] = x\nv[j, i] = y\na = v[i, j]\nb = v[j, i]", {"a": ("a", "x"), "b": ("b", "y")}, assume=["i != j"])
    ob("matrix.transposed", W, "v[i, j] = x\nr = v[j, i]", raises="always", assume=["i != j"])
    ob("matrix.overwrite", W, "v[i, j] = x\nv[i, j] = y\nr = v[i, j]", {"value": ("r", "y")})
    # --- rules of vectors
    ob("vector.rule", V, "v.add_rule(s, f)\nr = v[i]", {"value": ("r", "f(id(i))")}, assume=["id(i) in s"])
    ob("vector.rule outside", V, "v.add_rule(s, f)\nr = v[i]", raises="always", assume=["id(i) not in s"])
    ob("vector.rule int", V, "v.add_rule(s, f)\nr = v[n]", {"value": ("r", "f(n)")}, assume=["n in s"])
    ob("vector.set first", V, "v.add_rule(s, f)\nv[i] = x\nr = v[i]", {"value": ("r", "x")})
    ob("vector.first rule", V, "v.add_rule(s, f)\nv.add_rule(t, g)\nr = v[i]", {"value": ("r", "f(id(i)) if id(i) in s else g(id(i))")},
       raises="id(i) not in s and id(i) not in t")
    ob("vector.second rule", V, "v.add_rule(s, f)\nv.add_rule(t, g)\nr = v[i]", {"value": ("r", "g(id(i))")},
       assume=["id(i) not in s", "id(i) in t"])
    ob("vector.three rules", V, "v.add_rule(s, f)\nv.add_rule(t, g)\nv.add_rule(u, h)\nr = v[i]",
       {"value": ("r", "f(id(i)) if id(i) in s else g(id(i)) if id(i) in t else h(id(i))")},
       raises="id(i) not in s and id(i) not in t and id(i) not in u")
    ob("vector.other entry", V, "v.add_rule(s, f)\nv[j] = x\nr = v[i]", {"value": ("r", "f(id(i))")}, assume=["id(i) in s", "i != j"])
    # --- the domain of a rule is that when it was added
    ob("vector.domain", V, "d = set(s)\nv.add_rule(d, f)\nd.add(id(i))\nr = v[i]", raises="always", assume=["id(i) not in s"])
    ob("vector.domain kept", V, "d = set(s)\nv.add_rule(d, f)\nd.clear()\nr = v[i]", {"value": ("r", "f(id(i))")}, assume=["id(i) in s"])
    # --- built once
    ob("vector.once", V, "v.add_rule(s, f)\na = v[i]\nv._rules.clear()\nb = v[i]" if False else "v.add_rule(s, f)\na = v[i]\nb = v[i]",
       {"same": ("a is b", "True"), "value": ("b", "f(id(i))")}, assume=["id(i) in s"])
    ob("vector.stored", V, "v.add_rule(s, lambda q: [])\na = v[i]\nb = v[i]", {"same": ("a is b", "True")}, assume=["id(i) in s"])
    ob("vector.stored apart", V, "v.add_rule(s, lambda q: [])\na = v[i]\nb = v[j]", {"same": ("a is b", "False")},
       assume=["id(i) in s", "id(j) in s", "i != j"])
    ob("matrix.stored", W, "v.add_rule(s, lambda p, q: [])\na = v[i, j]\nb = v[i, j]", {"same": ("a is b", "True")},
       assume=["id(i) in s", "id(j) in s"])
    ob("matrix.stored apart", W, "v.add_rule(s, lambda p, q: [])\na = v[i, j]\nb = v[j, i]", {"same": ("a is b", "False")},
       assume=["id(i) in s", "id(j) in s", "i != j"])
    ob("vector.late rule", V, "v.add_rule(s, f)\na = v[i]\nv.add_rule(t, g)\nb = v[i]", {"first": ("a", "f(id(i))"), "again": ("b", "f(id(i))")},
       assume=["id(i) in s"])
    ob("vector.nothing stored", V, "try:\n    v[i]\nexcept RuntimeError:\n    pass\nv.add_rule(s, f)\nr = v[i]",
       {"value": ("r", "f(id(i))")}, assume=["id(i) in s"])
    ob("matrix.nothing stored", W, "try:\n    v[i, j]\nexcept RuntimeError:\n    pass\nv.add_rule(s, f)\nr = v[i, j]",
       {"value": ("r", "f(id(i), id(j))")}, assume=["id(i) in s", "id(j) in s"])
    ob("vector.set after", V, "v.add_rule(s, f)\na = v[i]\nv[i] = x\nb = v[i]", {"value": ("b", "x")}, assume=["id(i) in s"])
    # --- rules of matrices
    ob("matrix.rule", W, "v.add_rule(s, f)\nr = v[i, j]", {"value": ("r", "f(id(i), id(j))")}, assume=["id(i) in s", "id(j) in s"])
    ob("matrix.rule diag", W, "v.add_rule(s, f)\nr = v[i]", {"value": ("r", "f(id(i), id(i))")}, assume=["id(i) in s"])
    ob("matrix.rule half", W, "v.add_rule(s, f)\nr = v[i, j]", raises="always", assume=["id(i) in s", "id(j) not in s"])
    ob("matrix.rule other half", W, "v.add_rule(s, f)\nr = v[i, j]", raises="always", assume=["id(i) not in s", "id(j) in s"])
    ob("matrix.left", W, "v.add_left_rule(id(k), s, f)\nr = v[k, j]", {"value": ("r", "f(id(j))")}, assume=["id(j) in s"])
    ob("matrix.left other", W, "v.add_left_rule(id(k), s, f)\nr = v[i, j]", raises="always", assume=["id(j) in s", "i != k"])
    ob("matrix.left swapped", W, "v.add_left_rule(id(k), s, f)\nr = v[j, k]", raises="always", assume=["id(j) in s", "j != k"])
    ob("matrix.left outside", W, "v.add_left_rule(id(k), s, f)\nr = v[k, j]", raises="always", assume=["id(j) not in s"])
    ob("matrix.right", W, "v.add_right_rule(id(k), s, f)\nr = v[i, k]", {"value": ("r", "f(id(i))")}, assume=["id(i) in s"])
    ob("matrix.right other", W, "v.add_right_rule(id(k), s, f)\nr = v[i, j]", raises="always", assume=["id(i) in s", "j != k"])
    ob("matrix.right swapped", W, "v.add_right_rule(id(k), s, f)\nr = v[k, i]", raises="always", assume=["id(i) in s", "i != k"])
    ob("matrix.right outside", W, "v.add_right_rule(id(k), s, f)\nr = v[i, k]", raises="always", assume=["id(i) not in s"])
    # --- precedence
    A = ["id(i) in s", "id(j) in s"]
    for name, adds in (
        ("general left", ["v.add_left_rule(id(i), s, g)", "v.add_rule(s, f)"]),
        ("left general", ["v.add_rule(s, f)", "v.add_left_rule(id(i), s, g)"]),
        ("general right", ["v.add_right_rule(id(j), s, g)", "v.add_rule(s, f)"]),
        ("right general", ["v.add_rule(s, f)", "v.add_right_rule(id(j), s, g)"]),
    ):
        ob(f"matrix.{name}", W, "\n".join(adds) + "\nr = v[i, j]", {"value": ("r", "f(id(i), id(j))")}, assume=A)
    for name, adds in (
        ("left right", ["v.add_left_rule(id(i), s, f)", "v.add_right_rule(id(j), s, g)"]),
        ("right left", ["v.add_right_rule(id(j), s, g)", "v.add_left_rule(id(i), s, f)"]),
    ):
        ob(f"matrix.{name}", W, "\n".join(adds) + "\nr = v[i, j]", {"value": ("r", "f(id(j))")}, assume=A)
    ob("matrix.first left", W, "v.add_left_rule(id(i), s, f)\nv.add_left_rule(id(i), t, g)\nr = v[i, j]",
       {"value": ("r", "f(id(j)) if id(j) in s else g(id(j))")}, raises="id(j) not in s and id(j) not in t")
    ob("matrix.first right", W, "v.add_right_rule(id(i), s, f)\nv.add_right_rule(id(i), t, g)\nr = v[j, i]",
       {"value": ("r", "f(id(j)) if id(j) in s else g(id(j))")}, raises="id(j) not in s and id(j) not in t")
    ob("matrix.first general", W, "v.add_rule(s, f)\nv.add_rule(t, g)\nr = v[i, j]",
       {"value": ("r", "f(id(i), id(j)) if (id(i) in s and id(j) in s) else g(id(i), id(j))")},
       raises="not (id(i) in s and id(j) in s) and not (id(i) in t and id(j) in t)")
    ob("matrix.fallback", W, "v.add_rule(s, f)\nv.add_left_rule(id(i), t, g)\nv.add_right_rule(id(j), u, h)\nr = v[i, j]",
       {"value": ("r", "f(id(i), id(j)) if (id(i) in s and id(j) in s) else g(id(j)) if id(j) in t else h(id(i))")},
       raises="not (id(i) in s and id(j) in s) and id(j) not in t and id(i) not in u")
    ob("matrix.set first", W, "v.add_rule(s, f)\nv[i, j] = x\nr = v[i, j]", {"value": ("r", "x")})
    ob("matrix.explicit other", W, "v.add_rule(s, f)\nv[j, i] = x\nr = v[i, j]", {"value": ("r", "f(id(i), id(j))")}, assume=A + ["i != j"])
    for side, get in (("left", "v[k, i]"), ("right", "v[i, k]")):
        ob(f"matrix.{side} domain", W, f"d = set(s)\nv.add_{side}_rule(id(k), d, f)\nd.add(id(i))\nr = {get}", raises="always",
           assume=["id(i) not in s", "k != i"])
    ob("matrix.domain", W, "d = set(s)\nv.add_rule(d, f)\nd.add(id(i))\nr = v[i]", raises="always", assume=["id(i) not in s"])
    # --- two tables share nothing
    ob("vector.apart", V + "w = LazyVector()\n", "v.add_rule(s, f)\nv[i] = x\nr = w[i]", raises="always")
    ob("matrix.apart", W + "w = LazyMatrix()\n", "v.add_rule(s, f)\nv.add_left_rule(id(i), s, g)\nv.add_right_rule(id(i), s, g)\nv[i] = x\nr = w[i]",
       raises="always")
    return out
