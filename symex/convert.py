"""If-conversion: load a Python source with `and`/`or`/chained comparisons over plain names and constants
evaluated without short-circuiting, so that a character-class test on a symbolic character is one branch."""
import ast
import types
from . import core


def _pure(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Compare):
        return all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in n.ops) and all(_pure(x) for x in [n.left] + n.comparators)
    if isinstance(n, ast.BoolOp):
        return all(_pure(x) and not isinstance(x, (ast.Name, ast.Constant)) for x in n.values)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return _pure(n.operand) and not isinstance(n.operand, (ast.Name, ast.Constant))
    return False


class T(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        pure = _pure(n)
        n = self.generic_visit(n)
        if not pure:
            return n
        return ast.Call(ast.Name('__land' if isinstance(n.op, ast.And) else '__lor', ast.Load()), n.values, [])

    def visit_UnaryOp(self, n):
        pure = _pure(n)
        n = self.generic_visit(n)
        return ast.Call(ast.Name('__lnot', ast.Load()), [n.operand], []) if pure and isinstance(n.op, ast.Not) else n

    def visit_Compare(self, n):
        if len(n.ops) == 1 or not _pure(n):
            return self.generic_visit(n)
        xs = [n.left] + n.comparators
        return ast.Call(ast.Name('__land', ast.Load()), [ast.Compare(xs[i], [n.ops[i]], [xs[i + 1]]) for i in range(len(n.ops))], [])


def load(src, path, name, package, conv=True):
    tree = ast.parse(src)
    if conv:
        tree = ast.fix_missing_locations(T().visit(tree))
    mod = types.ModuleType(name)
    mod.__package__ = package
    mod.__dict__.update(__land=core.land, __lor=core.lor, __lnot=core.lnot)
    exec(compile(tree, path, 'exec'), mod.__dict__)
    return mod
