"""refactor.py DIR SEED: rewrite DIR/gerrychain/**.py by random behaviour-preserving edits (to test that the checks stay quiet)"""
import ast
import os
import random
import sys

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class T(ast.NodeTransformer):
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def coin(self):
        return self.rng.random() < 0.6

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and self.coin():
            self.n += 1
            return ast.Compare(left=n.comparators[0], ops=[FLIP[type(n.ops[0])]()], comparators=[n.left])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and self.coin():
            self.n += 1
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.coin():
            self.n += 1
            return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if self.coin():
            self.n += 1
            return ast.Call(func=ast.Name("list", ast.Load()), args=[ast.GeneratorExp(elt=n.elt, generators=n.generators)], keywords=[])
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and self.coin():
            self.n += 1
            return [ast.Assign(targets=[ast.Name("_result", ast.Store())], value=n.value, lineno=1), ast.Return(value=ast.Name("_result", ast.Load()))]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if self.coin():
            self.n += 1
            name = f"_seq{self.n}"
            return [ast.Assign(targets=[ast.Name(name, ast.Store())], value=n.iter, lineno=1),
                    ast.For(target=n.target, iter=ast.Name(name, ast.Load()), body=n.body, orelse=n.orelse, lineno=1)]
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n


def main():
    base, seed = sys.argv[1], int(sys.argv[2])
    tot = 0
    for d, _, fs in os.walk(os.path.join(base, "gerrychain")):
        for f in fs:
            if f.endswith(".py") and f not in ("_version.py",) and "pandas" not in open(os.path.join(d, f)).read()[:0]:
                p = os.path.join(d, f)
                t = T(random.Random(f"{seed}{f}"))
                tree = t.visit(ast.parse(open(p).read()))
                ast.fix_missing_locations(tree)
                open(p, "w").write(ast.unparse(tree) + "\n")
                tot += t.n
    print(tot, "edits")


main()
