"""Constructs that mean the same as simpler ones, expressed by those before the analysis."""

import ast


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _fix(res, node):
    for r in res:
        ast.copy_location(r, node)
        for x in ast.walk(r):
            if not hasattr(x, "lineno") and "lineno" in getattr(x, "_attributes", ()):
                ast.copy_location(x, node)
        ast.fix_missing_locations(r)
    return res


def _call_name(f):
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None


def _own(stmts, kinds):
    """Statements of the given kinds that belong to this block (not to an inner loop or function)."""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            yield n
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def _stores(nodes):
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                yield n.id


class Lower(ast.NodeTransformer):
    """`match` statements become chains of conditionals, counting `while` loops become `for` loops,
    named tuples become tuples, and data classes get their constructors."""

    def __init__(self):
        self.n = 0
        self.fields = {}

    def visit_Module(self, node):
        body = []
        for s in node.body:
            r = self._named_tuple(s)
            if r is None:
                body.append(s)
                continue
            name, fs = r
            for k, f in enumerate(fs):
                if f in self.fields and self.fields[f] != k:
                    return self.generic_visit(node)
                self.fields[f] = k
            fn = ast.FunctionDef(
                name=name,
                args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=f) for f in fs], vararg=None, kwonlyargs=[],
                                   kw_defaults=[], kwarg=None, defaults=[]),
                body=[ast.Return(value=ast.Tuple(elts=[_name(f) for f in fs], ctx=ast.Load()))],
                decorator_list=[], returns=None, type_params=[],
            )
            body += _fix([fn], s)
        # Names that are attributes of anything else keep their meaning.
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                self.fields.pop(n.attr, None)
            elif isinstance(n, ast.ClassDef):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef):
                        self.fields.pop(f.name, None)
        node.body = body
        return self.generic_visit(node)

    def _named_tuple(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                and isinstance(s.value, ast.Call) and _call_name(s.value.func) == "namedtuple" \
                and len(s.value.args) == 2 and not s.value.keywords:
            a = s.value.args[1]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                return s.targets[0].id, a.value.replace(",", " ").split()
            if isinstance(a, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in a.elts):
                return s.targets[0].id, [x.value for x in a.elts]
        if isinstance(s, ast.ClassDef) and [_call_name(b) for b in s.bases] == ["NamedTuple"]:
            fs = [x for x in s.body if isinstance(x, ast.AnnAssign)]
            rest = [x for x in s.body if x not in fs and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if not rest and all(x.value is None for x in fs):
                return s.name, [x.target.id for x in fs]
        return None

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in self.fields:
            r = ast.Subscript(value=node.value, slice=ast.Constant(value=self.fields[node.attr]), ctx=ast.Load())
            return _fix([r], node)[0]
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        decs = [_call_name(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list]
        if "dataclass" in decs and not any(isinstance(f, ast.FunctionDef) and f.name in ("__init__", "__post_init__") for f in node.body):
            fs = [x for x in node.body if isinstance(x, ast.AnnAssign)]
            if not node.bases and all(x.value is None or isinstance(x.value, ast.Constant) for x in fs):
                init = ast.FunctionDef(
                    name="__init__",
                    args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="self")] + [ast.arg(arg=x.target.id) for x in fs],
                                       vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                                       defaults=[x.value for x in fs if x.value is not None]),
                    body=[ast.Assign(targets=[ast.Attribute(value=_name("self"), attr=x.target.id, ctx=ast.Store())],
                                     value=_name(x.target.id)) for x in fs] or [ast.Pass()],
                    decorator_list=[], returns=None, type_params=[],
                )
                node.body = [x for x in node.body if x not in fs] + _fix([init], node)
                node.decorator_list = [d for d, n in zip(node.decorator_list, decs) if n != "dataclass"]
        return node

    def _block(self, stmts):
        """`i = 0; ...; while i < E: ...; i += 1` counts: `for i in range(E): ...`."""
        for k, w in enumerate(stmts):
            if not isinstance(w, ast.While) or w.orelse:
                continue
            t = w.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                continue
            l, op, r = t.left, t.ops[0], t.comparators[0]
            if isinstance(op, ast.Gt):
                l, op, r = r, ast.Lt(), l
            if not (isinstance(l, ast.Name) and isinstance(op, (ast.Lt, ast.NotEq))):
                continue
            i = l.id
            last = w.body[-1]
            if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                    and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1):
                continue
            body = w.body[:-1]
            if not body or i in _stores(body) or list(_own(body, (ast.Continue,))):
                continue
            # The bound has to stay what it is: a number, or the length or a part of what the loop leaves alone.
            names = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)}
            if names & set(_stores(body)):
                continue
            changed = set()
            for s in body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        changed.add(_root(n.func.value))
                    elif isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                        changed.add(_root(n))
            if names & changed:
                continue
            start = None
            for j in range(k - 1, -1, -1):
                p = stmts[j]
                if i in _stores([p]):
                    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) \
                            and isinstance(p.value, ast.Constant) and p.value.value == 0:
                        start = j
                    break
            if start is None:
                continue
            f = ast.For(target=_name(i, ast.Store()), body=body, orelse=[], type_comment=None,
                        iter=ast.Call(func=_name("range"), args=[r], keywords=[]))
            # After the loop the counter is the bound, unless it was left early.
            after = []
            if any(isinstance(n, ast.Name) and n.id == i for s in stmts[k + 1:] for n in ast.walk(s)):
                if list(_own(body, (ast.Break,))):
                    continue
                after = [ast.Assign(targets=[_name(i, ast.Store())], value=r)]
            return stmts[:k] + _fix([f] + after, w) + self._block(stmts[k + 1:])
        return stmts

    def visit(self, node):
        node = super().visit(node)
        if isinstance(node, ast.AST):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list):
                    setattr(node, f, self._block(b))
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        self.n += 1
        subj = f"_match_{self.n}"
        chain = []
        for c in node.cases:
            r = self._pattern(c.pattern, _name(subj))
            if r is None:
                return node
            cond, binds = r
            if c.guard is not None:
                if binds:
                    return node
                cond = c.guard if cond is None else ast.BoolOp(op=ast.And(), values=[cond, c.guard])
            body = [ast.Assign(targets=[_name(n, ast.Store())], value=v) for n, v in binds] + c.body
            chain.append((cond, body))
        out = []
        for cond, body in reversed(chain):
            out = body if cond is None else [ast.If(test=cond, body=body, orelse=out)]
        res = [ast.Assign(targets=[_name(subj, ast.Store())], value=node.subject)] + out
        return _fix(res, node)

    def _pattern(self, p, s):
        """Condition (None if always) and names bound, or None if not understood."""
        if isinstance(p, ast.MatchValue):
            return ast.Compare(left=s, ops=[ast.Eq()], comparators=[p.value]), []
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(left=s, ops=[ast.Is()], comparators=[ast.Constant(value=p.value)]), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return None, [(p.name, s)] if p.name else []
            r = self._pattern(p.pattern, s)
            return r and (r[0], r[1] + ([(p.name, s)] if p.name else []))
        if isinstance(p, ast.MatchOr):
            rs = [self._pattern(q, s) for q in p.patterns]
            if any(r is None or r[1] or r[0] is None for r in rs):
                return None
            return ast.BoolOp(op=ast.Or(), values=[r[0] for r in rs]), []
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return ast.Call(func=_name("isinstance"), args=[s, p.cls], keywords=[]), []
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            conds = [
                ast.Call(func=_name("isinstance"), args=[s, ast.Tuple(elts=[_name("tuple"), _name("list")], ctx=ast.Load())], keywords=[]),
                ast.Compare(left=ast.Call(func=_name("len"), args=[s], keywords=[]), ops=[ast.Eq()],
                            comparators=[ast.Constant(value=len(p.patterns))]),
            ]
            binds = []
            for i, q in enumerate(p.patterns):
                r = self._pattern(q, ast.Subscript(value=s, slice=ast.Constant(value=i), ctx=ast.Load()))
                if r is None:
                    return None
                if r[0] is not None:
                    conds.append(r[0])
                binds += r[1]
            return ast.BoolOp(op=ast.And(), values=conds), binds
        return None


class Rename(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == self.old:
            node.attr = self.new
        return node


def measures_field(tree_of_class):
    """Name of the field of a process that lists its measures: what `measure` looks at."""
    for f in tree_of_class.body:
        if isinstance(f, ast.FunctionDef) and f.name == "measure":
            for n in ast.walk(f):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
                    return n.value.attr
    return None


def rename_roles(modules, classes):
    """Private fields the specification refers to get the name it uses."""
    gp = classes.get("GP")
    if gp is None:
        return
    name = measures_field(gp.node)
    if name is None or name == "_measures" or not name.startswith("_"):
        return
    attrs = {n.attr for m in modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)}
    if "_measures" in attrs:
        return
    for m in modules.values():
        Rename(name, "_measures").visit(m.tree)
