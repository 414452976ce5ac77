"""Loading of the code under test: always from its source (never from cached bytecode), with two
forms of expression that choose between characters kept symbolic instead of forking:

    "1" if c else "0"  (also with the numbers 1 and 0)   and        "01"[k]

Both mean what they meant; a symbolic condition or index gives a symbolic digit."""
import ast
import builtins
import importlib.machinery
import sys

DIGITS = "0123456789ABCDEF"


def _zero_one(n):
    return isinstance(n, ast.Constant) and type(n.value) is int and n.value in (0, 1)


def _digit_char(n):
    return isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) == 1 \
        and n.value in DIGITS


class Rewrite(ast.NodeTransformer):
    def visit_IfExp(self, node):
        self.generic_visit(node)
        if _digit_char(node.body) and _digit_char(node.orelse) or \
                _zero_one(node.body) and _zero_one(node.orelse):
            return ast.copy_location(ast.Call(
                ast.copy_location(ast.Name("__symx_pick__", ast.Load()), node),
                [node.test, node.body, node.orelse], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Constant) and \
                isinstance(node.value.value, str) and not isinstance(node.slice, ast.Slice):
            return ast.copy_location(ast.Call(
                ast.copy_location(ast.Name("__symx_char__", ast.Load()), node),
                [node.value, node.slice], []), node)
        return node


def pick(c, a, b):
    from .values import Sym, truth_expr
    if isinstance(c, Sym):
        import z3
        from .strings import digit
        t = truth_expr(c)
        if not isinstance(t, bool):
            if isinstance(a, int):
                from .values import SymInt
                return SymInt(z3.If(t, z3.IntVal(a), z3.IntVal(b)), 0, 1)
            va, vb = int(a, 16), int(b, 16)
            return digit(z3.If(t, z3.IntVal(va), z3.IntVal(vb)), 2 if max(va, vb) < 2 else 16)
        c = t
    return a if c else b


def char(s, k):
    from .values import Sym, SymBool, SymInt
    if isinstance(k, SymBool):
        k = k.as_int()
    if isinstance(k, Sym) and isinstance(k, SymInt) and s and all(x in DIGITS for x in s):
        import z3
        from . import core
        from .strings import digit
        ex = core.current()
        if ex.branch(z3.And(k.e >= 0, k.e < len(s))):
            if DIGITS.startswith(s):
                return digit(k.e, 2 if len(s) == 2 else 16)
            e = z3.IntVal(int(s[-1], 16))
            for j in range(len(s) - 2, -1, -1):
                e = z3.If(k.e == j, z3.IntVal(int(s[j], 16)), e)
            return digit(e, 16)
    return s[k]


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = Rewrite().visit(ast.parse(data, path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True,
                       optimize=_optimize)


class Finder:
    def find_spec(self, name, path=None, target=None):
        if name != "pysim" and not name.startswith("pysim."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    builtins.__symx_pick__, builtins.__symx_char__ = pick, char
    sys.meta_path.insert(0, Finder())
