"""Turns numba.prange loops of the repository into loops over simulated workers.

The modules under test are imported with the compiler switched off
(NUMBA_DISABLE_JIT) through a loader that outlines the body of every prange
loop into a function of the loop index and hands it to `parallel`, which the
simulator provides.  Scoping follows numba: names assigned in the body are
private to an iteration, names only updated in place are reductions, a name
that the body reads before assigning it is shared.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys

FOUND = []


def _is_prange(node):
    return (isinstance(node, ast.For) and isinstance(node.iter, ast.Call) and not node.iter.keywords
            and (getattr(node.iter.func, "attr", None) or getattr(node.iter.func, "id", "")).endswith("prange"))


def _targets(node):
    """Names bound by the statements below node (not inside nested functions)."""
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
    return out


class _Order(ast.NodeVisitor):
    """First use of every name in evaluation order, and names updated in place."""

    def __init__(self):
        self.first = {}
        self.aug = {}
        self.plain = set()

    def see(self, name, how):
        self.first.setdefault(name, how)

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AugAssign(self, n):
        self.visit(n.value)
        if isinstance(n.target, ast.Name):
            self.see(n.target.id, "aug")
            self.aug.setdefault(n.target.id, type(n.op).__name__)
        else:
            self.visit(n.target)

    def visit_For(self, n):
        self.visit(n.iter)
        self.visit(n.target)
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.see(n.id, "load")
        else:
            self.see(n.id, "store")
            self.plain.add(n.id)


class _Body(ast.NodeTransformer):
    """continue of the outlined loop -> return; inner prange -> range; reductions renamed."""

    def __init__(self, red):
        self.red = red
        self.depth = 0

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def _loop(self, n):
        if _is_prange(n):
            n.iter.func = ast.copy_location(ast.Name("range", ast.Load()), n.iter)
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_For = visit_While = _loop

    def visit_Name(self, n):
        if n.id in self.red:
            return ast.copy_location(ast.Name("__qs_red_" + n.id, n.ctx), n)
        return n


class Outliner(ast.NodeTransformer):
    def __init__(self, fn):
        self.fn = fn
        self.stack = []
        self.n = 0

    def visit_FunctionDef(self, node):
        self.stack.append(node)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_For(self, node):
        if not self.stack or not _is_prange(node):
            self.generic_visit(node)
            return node
        f = self.stack[-1]
        inside = set()
        for s in node.body:
            inside |= _targets(s)
        loop = _targets(node.target)
        skip = set()
        for x in ast.walk(node):
            skip.add(id(x))
        outside = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in skip:
                outside.add(x.id)
        o = _Order()
        for s in node.body:
            o.visit(s)
        red = {n: op for n, op in o.aug.items() if n in outside and n not in o.plain and op in ("Add", "Sub", "Mult", "Div")}
        shared = {n for n in inside & outside if n not in red and o.first.get(n) in ("load", "aug")} - loop
        self.n += 1
        name = "__qs_body_%d" % self.n
        body = []
        for n in sorted(red):
            body.append(ast.parse("__qs_red_%s = %d" % (n, 0 if red[n] in ("Add", "Sub") else 1)).body[0])
        bt = _Body(red)
        inner = [bt.visit(s) for s in node.body]
        if red:
            # combine at the end of the iteration, as one step
            nonl = ast.Nonlocal(sorted(red | dict.fromkeys(shared)))
            comb = []
            for n in sorted(red):
                op = "+" if red[n] in ("Add", "Sub") else "*"
                comb.append(ast.parse("%s = %s %s __qs_red_%s" % (n, n, op, n)).body[0])
            body = [nonl] + body + [ast.Try(inner, [], [], comb)]
        else:
            body = ([ast.Nonlocal(sorted(shared))] if shared else []) + inner
        tgt = node.target
        arg = ast.arg("__qs_i")
        body.insert(1 if body and isinstance(body[0], ast.Nonlocal) else 0,
                    ast.Assign([tgt], ast.Name("__qs_i", ast.Load())))
        fd = ast.FunctionDef(name, ast.arguments([], [arg], None, [], [], None, []), body, [])
        call = ast.Expr(ast.Call(ast.Name("__qs_parallel", ast.Load()), [ast.Name(name, ast.Load())] + node.iter.args, []))
        for x in (fd, call):
            ast.copy_location(x, node)
            for y in ast.walk(x):
                if not hasattr(y, "lineno") and isinstance(y, (ast.stmt, ast.expr, ast.arg)):
                    ast.copy_location(y, node)
            ast.fix_missing_locations(x)
        FOUND.append((self.fn, f.name, node.lineno, {"reductions": sorted(red), "shared": sorted(shared)}))
        return [fd, call]


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(Outliner(path).visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if not name.startswith("quantum_systems"):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec and isinstance(spec.loader, importlib.machinery.SourceFileLoader) and spec.origin:
            try:
                if b"prange" in open(spec.origin, "rb").read():
                    spec.loader = Loader(spec.loader.name, spec.loader.path)
            except OSError:
                pass
        return spec


def install(parallel):
    builtins.__qs_parallel = parallel
    sys.meta_path.insert(0, Finder())
