"""Source-to-source rewriting of Python modules so that calls, subscripts,
membership tests, % and f-strings reach the symbolic models, and an importer
that loads pdfme (from /repo's working tree) and the harnesses through it."""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import models

REPO = os.environ.get('VERIF_REPO', '/repo')

SKIP = {'super', 'locals', 'globals', 'eval', 'exec', '__import__', 'dir'}


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP:
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name('__sx_call__', ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) > 1:
            return node
        c = ast.Call(func=ast.Name('__sx_in__', ast.Load()),
                     args=[node.left, node.comparators[0]], keywords=[])
        if isinstance(node.ops[0], ast.NotIn):
            c = ast.UnaryOp(ast.Not(), c)
        return ast.copy_location(c, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not getattr(node, 'sx_plain', False):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(func=ast.Name('__sx_slice__', ast.Load()), args=[
                    x if x is not None else ast.Constant(None)
                    for x in (sl.lower, sl.upper, sl.step)], keywords=[])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts):
                return node
            return ast.copy_location(ast.Call(
                func=ast.Name('__sx_getitem__', ast.Load()),
                args=[node.value, sl], keywords=[]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                func=ast.Name('__sx_mod__', ast.Load()),
                args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant('')
                if v.format_spec is not None:
                    spec = self.visit_JoinedStr(v.format_spec)
                conv = ast.Constant('' if v.conversion == -1 else chr(v.conversion))
                args.append(ast.Tuple([val, conv, spec], ast.Load()))
        return ast.copy_location(ast.Call(
            func=ast.Name('__sx_fstr__', ast.Load()), args=args, keywords=[]), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = ast.copy_location(ast.Name('Exception', ast.Load()), node)
        return node

    # displays and comprehensions whose keys are computed
    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is None or isinstance(k, ast.Constant) for k in node.keys):
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name('__sx_display__', ast.Load()),
            args=[ast.Tuple([v] if k is None else [k, v], ast.Load())
                  for k, v in zip(node.keys, node.values)], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name('__sx_comprehension__', ast.Load()),
            args=[ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)],
            keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name('__sx_set__', ast.Load()),
            args=[ast.GeneratorExp(node.elt, node.generators)], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name('__sx_set__', ast.Load()),
            args=[ast.List(node.elts, ast.Load())], keywords=[]), node)

    # stores: d[k] = v, del d[k], d[k] op= v
    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and self._plain_sub(node.targets[0]):
            return self._store(node.targets[0], node.value, node)
        if any(self._plain_sub(t) for t in node.targets):
            tmp = '__sx_tmp__'
            out = [ast.copy_location(ast.Assign([ast.Name(tmp, ast.Store())], node.value), node)]
            for t in node.targets:
                v = ast.Name(tmp, ast.Load())
                if self._plain_sub(t):
                    out.append(self._store(t, v, node))
                else:
                    out.append(ast.copy_location(ast.Assign([t], v), node))
            return out
        return node

    def _plain_sub(self, t):
        return isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice)

    def _store(self, t, v, node):
        return ast.copy_location(ast.Expr(ast.Call(
            func=ast.Name('__sx_setitem__', ast.Load()),
            args=[t.value, t.slice, v], keywords=[])), node)

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            self.generic_visit(node)
            return ast.copy_location(ast.Assign([node.target], ast.Call(
                func=ast.Name('__sx_mod__', ast.Load()),
                args=[ast.Name(node.target.id, ast.Load()), node.value], keywords=[])), node)
        if self._plain_sub(node.target):
            t = node.target
            val = self.visit(t.value)
            key = self.visit(t.slice)
            rhs = self.visit(node.value)
            a, b = '__sx_o__', '__sx_k__'
            st = [
                ast.Assign([ast.Name(a, ast.Store())], val),
                ast.Assign([ast.Name(b, ast.Store())], key),
            ]
            old = ast.Call(func=ast.Name('__sx_getitem__', ast.Load()),
                           args=[ast.Name(a, ast.Load()), ast.Name(b, ast.Load())], keywords=[])
            # the right side may contain nested augmented temporaries: evaluate last
            new = ast.Name('__sx_v__', ast.Load())
            st.append(ast.Assign([ast.Name('__sx_v__', ast.Store())], old))
            st.append(ast.AugAssign(ast.Name('__sx_v__', ast.Store()), node.op, rhs))
            st.append(ast.Expr(ast.Call(func=ast.Name('__sx_setitem__', ast.Load()),
                      args=[ast.Name(a, ast.Load()), ast.Name(b, ast.Load()), new], keywords=[])))
            return [ast.copy_location(s, node) for s in st]
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and self._plain_sub(node.targets[0]):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(ast.Call(
                func=ast.Name('__sx_delitem__', ast.Load()),
                args=[t.value, t.slice], keywords=[])), node)
        return node

    def visit_AnnAssign(self, node):
        # annotations are left alone
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        self.generic_visit(node)
        return node
    visit_AsyncFunctionDef = visit_FunctionDef


def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


HOOKS = {
    '__sx_call__': models.call, '__sx_in__': models.contains,
    '__sx_getitem__': models.getitem, '__sx_setitem__': models.setitem,
    '__sx_delitem__': models.delitem, '__sx_mod__': models.mod,
    '__sx_display__': models.display, '__sx_comprehension__': models.comprehension,
    '__sx_set__': models.m_set, '__sx_fstr__': models.fstr, '__sx_slice__': slice,
}

_CODE = {}

# oracles written so that they run on symbolic units without rewriting
NATIVE = {'verif_o.pdfread', 'verif_o.content', 'verif_o.draw', 'verif_o.para'}


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _CODE.get(self.path)
        if code is None:
            with open(self.path, encoding='utf-8') as f:
                src = f.read()
            if module.__name__ in NATIVE:
                code = compile(src, self.path, 'exec', dont_inherit=True)
            else:
                code = rewrite(src, self.path)
            _CODE[self.path] = code
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """pdfme.* from the working tree; verif_* from /verif."""

    def __init__(self, roots):
        self.roots = roots            # {top-level name: directory containing it}

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        p = os.path.join(root, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, f, loader=Loader(f), submodule_search_locations=[p])
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f))
        return None


_MODS = {}


def fresh_pdfme():
    """Execute the pdfme modules again: every path starts from the state of a
    new process."""
    for n in [m for m in sys.modules if m == 'pdfme' or m.startswith('pdfme.')]:
        del sys.modules[n]
    import pdfme
    return pdfme


def install(verif):
    sys.meta_path.insert(0, Finder({'pdfme': REPO, 'verif_h': verif, 'verif_o': verif}))
