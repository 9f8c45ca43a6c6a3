"""Concrete evaluation of specification text on real objects: used to check that the preconditions of a contract
hold of the tables the package ships (they are assumptions of the proofs)."""
from .spec import SPECS


class Total(list):
    """array as a total function: 0 outside"""
    def __init__(self, x):
        super().__init__(x)
        self.n = len(x)

    def __getitem__(self, k):
        return list.__getitem__(self, k) if 0 <= k < self.n else 0


class View:
    def __init__(self, obj):
        for k, v in vars(obj).items():
            setattr(self, k, Total(v) if isinstance(v, (list, tuple)) else v)


class _Lazy(dict):
    pass


def evaluate(text, env, domain=range(-1, 0x110001), domain2=None):
    """value of a requires clause; forall enumerates `domain` (or `domain2`, which the caller takes from the guard of the
    clause, for two bound variables)"""
    import ast
    tree = ast.parse(text.strip(), mode="eval")

    class T(ast.NodeTransformer):
        def visit_Call(self, node):
            self.generic_visit(node)
            if isinstance(node.func, ast.Name) and node.func.id == "implies":
                return ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), node.args[0]), node.args[1]])
            if isinstance(node.func, ast.Name) and node.func.id == "forall":
                return ast.Call(node.func, [node.args[0]], [])
            return node
    tree = ast.fix_missing_locations(T().visit(tree))

    def forall(f):
        n = f.__code__.co_argcount
        if n == 1:
            return all(f(k) for k in domain)
        if n == 2 and domain2:
            return all(f(k, t) for k in domain2[0] for t in domain2[1])
        raise NotImplementedError("two bound variables")
    ns = {k: v.fn for k, v in SPECS.fns.items()}
    ns.update(forall=forall, iff=lambda a, b: bool(a) == bool(b), is_none=lambda x: x is None)
    ns.update(env)
    return bool(eval(compile(tree, "<spec>", "eval"), ns))
