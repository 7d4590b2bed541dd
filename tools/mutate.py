#!/usr/bin/env python3
"""Lists small changes of the code (one per line, JSON): file, start, end, new text.

Used to measure the checks, see DESIGN.md. No check uses it.
"""
import ast
import copy
import json
import sys

FILES = ["clubs/poker/engine.py", "clubs/poker/card.py", "clubs/poker/evaluator.py",
         "clubs/render/ascii_viewer.py", "clubs/render/graphic.py", "clubs/render/viewer.py"]
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult],
       ast.FloorDiv: [ast.Div], ast.Mod: [ast.Add], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
       ast.Pow: [ast.Mult]}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "sum": "max"}


def mutants(source):
    tree = ast.parse(source)
    lines = source.split("\n")
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    skip = set()
    for node in ast.walk(tree):
        # annotations, docstrings, messages of errors
        for field in ("annotation", "returns"):
            if getattr(node, field, None) is not None:
                skip.update(id(x) for x in ast.walk(getattr(node, field)))
        if isinstance(node, ast.Raise):
            skip.update(id(x) for x in ast.walk(node))
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(node))
        if isinstance(node, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(node) if x is not node)

    def variants(node):
        def change(**fields):
            new = copy.copy(node)
            for name, value in fields.items():
                setattr(new, name, value)
            return new
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for other in CMP.get(type(op), []):
                    yield change(ops=node.ops[:i] + [other()] + node.ops[i + 1:])
        elif isinstance(node, ast.BinOp):
            for other in BIN.get(type(node.op), []):
                yield change(op=other())
        elif isinstance(node, ast.AugAssign):
            for other in BIN.get(type(node.op), []):
                yield change(op=other())
            yield ast.Pass()
        elif isinstance(node, ast.BoolOp):
            yield change(op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
            for value in node.values:
                yield value
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            yield node.operand
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                yield ast.Constant(not node.value)
            elif isinstance(node.value, (int, float)):
                yield ast.Constant(node.value + 1)
                if node.value:
                    yield ast.Constant(node.value - 1)
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            pass
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Name) and node.func.id in NAMES:
                yield change(func=ast.Name(NAMES[node.func.id], ast.Load()))
            if isinstance(node.func, ast.Name) and node.func.id in ("sorted", "list", "reversed",
                                                                     "enumerate", "set") \
                    and node.func.id != "enumerate" and node.args:
                yield node.args[0]
            if isinstance(node.func, ast.Attribute) and node.func.attr in (
                    "copy", "deepcopy", "upper", "lower", "strip") and (
                    node.args or not isinstance(node.func.value, ast.Name)
                    or node.func.value.id != "copy"):
                yield node.args[0] if node.args else node.func.value
            if len(node.args) == 2:
                yield change(args=node.args[::-1])
        elif isinstance(node, (ast.Assign, ast.Expr)):
            if isinstance(node, ast.Expr) and not isinstance(node.value, ast.Call):
                return
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                return
            yield ast.Pass()
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                yield change(lower=None)
            if node.upper is not None:
                yield change(upper=None)
        elif isinstance(node, ast.Break):
            yield ast.Continue()
            yield ast.Pass()
        elif isinstance(node, ast.Continue):
            yield ast.Break()
            yield ast.Pass()

    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            if isinstance(node, ast.While) and isinstance(node.test, ast.Constant):
                continue
            a, b = span(node.test)
            old = source.encode()[a:b].decode()
            yield a, b, f"(not ({old}))", node.lineno
            if not isinstance(node, ast.While):
                yield a, b, "True", node.lineno
                yield a, b, "False", node.lineno
            continue
        if not hasattr(node, "col_offset"):
            continue
        a, b = span(node)
        old = source.encode()[a:b].decode()
        for new in variants(node):
            try:
                text = ast.unparse(ast.fix_missing_locations(new))
            except Exception:
                continue
            if isinstance(new, ast.expr) and not isinstance(node, ast.Slice):
                text = f"({text})"
            if text != old:
                yield a, b, text, node.lineno


def main():
    for name in FILES:
        with open(f"{sys.argv[1]}/{name}", newline="") as file:
            source = file.read().replace("\r\n", "\n")
        seen = set()
        for a, b, text, line in mutants(source):
            if (a, b, text) in seen:
                continue
            seen.add((a, b, text))
            print(json.dumps(dict(file=name, line=line, start=a, end=b, new=text,
                                  old=source.encode()[a:b].decode())))


if __name__ == "__main__":
    main()
