"""
Loads /repo's modules with their AST rewritten so that the operations Python would execute in C
(calls of builtins, subscripts, membership and identity tests, dict displays) go through `models`.
Nothing else of the code changes: it is the current source that runs.
"""
import ast
import importlib.abc
import importlib.machinery
import sys

from . import models

SEEN = set()          # the functions of the repository that were executed

NO_WRAP = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


def _rt(name):
    return ast.Attribute(ast.Name('_sx_rt', ast.Load()), name, ast.Load())


class Rewriter(ast.NodeTransformer):
    module = None     # the name of the module, when the functions entered are noted

    def __init__(self):
        self.path = []

    texts = True      # whether texts are built out of symbolic texts

    def visit_JoinedStr(self, node):
        if not self.texts:
            self.generic_visit(node)
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ast.Load()))
        return ast.copy_location(
            ast.Call(_rt('fstring'), [ast.List(parts, ast.Load())], []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.texts and isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(_rt('mod'), [node.left, node.right], []), node)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NO_WRAP and not (
                node.func.id in ('dir', 'vars') and node.args):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(_rt('call'), [node.func, *node.args], node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            name = {ast.In: 'contains', ast.NotIn: 'not_contains',
                    ast.Is: 'is_', ast.IsNot: 'is_not'}.get(type(op))
            if name:
                return ast.copy_location(
                    ast.Call(_rt(name), [node.left, node.comparators[0]], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                ast.Call(_rt('getitem'), [node.value, self._index(node.slice)], []), node)
        return node

    @staticmethod
    def _index(sl):
        if isinstance(sl, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.copy_location(ast.Call(
                _rt('slice'), [none(sl.lower), none(sl.upper), none(sl.step)], []), sl)
        if isinstance(sl, ast.Tuple):
            return ast.copy_location(
                ast.Tuple([Rewriter._index(x) for x in sl.elts], ast.Load()), sl)
        return sl

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            call = ast.Call(_rt('setitem'), [t.value, self._index(t.slice), node.value], [])
            # keep the evaluation order value, container, index
            call = ast.Call(_rt('setitem_v'), [node.value, t.value, self._index(t.slice)], [])
            return ast.copy_location(ast.Expr(call), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(
                    ast.Call(_rt('delitem'), [t.value, self._index(t.slice)], [])), node))
            else:
                out.append(ast.copy_location(ast.Delete([t]), node))
        return out

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([ast.Constant(True), v], ast.Load()))
            else:
                items.append(ast.Tuple([ast.Constant(False), k, v], ast.Load()))
        return ast.copy_location(
            ast.Call(_rt('mkdict'), [ast.List(items, ast.Load())], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(_rt('mkset'), [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(_rt('mkset'), [ast.ListComp(node.elt, node.generators)], []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        comp = ast.ListComp(ast.Tuple([ast.Constant(False), node.key, node.value], ast.Load()),
                            node.generators)
        return ast.copy_location(ast.Call(_rt('mkdict'), [comp], []), node)

    @staticmethod
    def _decorators(node):
        node.decorator_list = [
            d if isinstance(d, ast.Call) or isinstance(d, ast.Name) and d.id in (
                'property', 'staticmethod', 'classmethod')
            else ast.copy_location(ast.Call(_rt('decorator'), [d], []), d)
            for d in node.decorator_list]
        if node.name == '__bool__':     # Python wants a bool there
            node.decorator_list.append(ast.copy_location(_rt('boolean'), node.body[0]))

    def visit_ClassDef(self, node):
        self.path.append(node.name)
        self.generic_visit(node)
        self._decorators(node)
        self.path.pop()
        if node.bases and not any(isinstance(b, ast.Starred) for b in node.bases):
            node.bases = [ast.copy_location(ast.Call(_rt('base'), [b], []), b)
                          for b in node.bases]
        return node

    def visit_AnnAssign(self, node):
        # annotations stay as they are
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            node.target = self.generic_visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        returns, node.returns = node.returns, None
        self.path.append(node.name)
        self.generic_visit(node)
        self._decorators(node)
        if self.module is not None:
            entered = ast.parse(f'_sx_seen.add({self.module + ":" + ".".join(self.path)!r})').body[0]
            for part in ast.walk(entered):
                if hasattr(part, 'lineno'):
                    ast.copy_location(part, node)
            doc = bool(node.body) and isinstance(node.body[0], ast.Expr) and isinstance(
                node.body[0].value, ast.Constant)
            node.body.insert(int(doc), entered)
        self.path.pop()
        node.returns = returns
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for case in node.cases:
            if case.guard is not None:
                case.guard = self.visit(case.guard)
            body = []
            for stmt in case.body:
                r = self.visit(stmt)
                body.extend(r if isinstance(r, list) else [r])
            case.body = body
        return node


def rewrite(source, filename, texts=True, module=None):
    tree = ast.parse(source, filename)
    rewriter = Rewriter()
    rewriter.module = module
    rewriter.texts = texts
    tree = rewriter.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        harness = fullname.startswith('harness')
        return rewrite(self.get_data(path), path, not harness, None if harness else fullname)

    def exec_module(self, module):
        module.__dict__['_sx_rt'] = models
        module.__dict__['_sx_seen'] = SEEN
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots       # package name -> directory holding it

    def find_spec(self, fullname, path, target=None):
        top = fullname.partition('.')[0]
        if top not in self.roots:
            return None
        import os
        rel = os.path.join(self.roots[top], *fullname.split('.'))
        init = os.path.join(rel, '__init__.py')
        if os.path.isfile(init):
            filename, sub = init, [rel]
        elif os.path.isfile(rel + '.py'):
            filename, sub = rel + '.py', None
        else:
            return None
        return importlib.util.spec_from_file_location(
            fullname, filename, loader=Loader(fullname, filename),
            submodule_search_locations=sub)


def install(roots):
    import importlib.util  # noqa: F401
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
