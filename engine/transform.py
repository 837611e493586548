"""source-to-source instrumentation of the real code and the importer"""
import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from . import shims, models

PURE_CALLS = {'ord', 'len', 'int', 'bool', 'isinstance', 'abs', 'min', 'max', 'is_null', 'is_explicit',
              'is_commitment', 'is_valid', 'is_unspendable', 'is_sym', 'startswith', 'endswith', 'any', 'all',
              'implies', 'both', 'either', 'is_small_int', 'is_compressed', 'is_fullyvalid', 'is_nonnull',
              'is_fee', 'to_amount'}


BOUND = {'__getitem__', '__contains__', 'find', 'index', 'rfind', 'rindex', 'get', 'join', 'format', 'startswith', 'endswith',
         'to_bytes'}


class PureCheck(ast.NodeVisitor):
    def __init__(self):
        self.ok = True

    def generic_visit(self, node):
        if not self.ok:
            return
        if isinstance(node, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.ListComp,
                             ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Starred, ast.JoinedStr)):
            self.ok = False
            return
        if isinstance(node, ast.Call):
            f = node.func
            n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if n not in PURE_CALLS:
                self.ok = False
                return
        super().generic_visit(node)


def is_pure(node):
    c = PureCheck()
    c.visit(node)
    return c.ok


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def call(fn, *args):
    return ast.Call(func=name(fn), args=list(args), keywords=[])


def thunk(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                      body=e)


class T(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0        # function nesting; lambdas are only introduced inside functions
        self.noann = 0
        self.tmp = 0
        self.nonlocals = set()

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.depth += 1
        node.body = self.stmts(node.body)
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arg(self, node):
        return node             # annotations stay

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ClassDef(self, node):
        d = self.depth
        self.depth = 0
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        node.body = self.stmts(node.body)
        self.depth = d
        return node

    def visit_Lambda(self, node):
        node.args = self.visit(node.args)
        d = self.depth
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth = d
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, bytes):
            return ast.copy_location(call('__v_pb__', node), node)
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_UnaryOp(self, node):
        node.operand = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(call('__v_not__', node.operand), node)
        return node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        if isinstance(node.ctx, ast.Load) and self.depth and not isinstance(node.slice, (ast.Slice, ast.Tuple)):
            if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, (int, str)):
                return node
            return ast.copy_location(call('__v_getitem__', node.value, node.slice), node)
        return node

    def visit_Attribute(self, node):
        # a method of a built-in object that is passed around instead of being called at once
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load) and node.attr in BOUND:
            return ast.copy_location(call('__v_cm__', node), node)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'type' and len(node.args) == 1 and not node.keywords:
            return ast.copy_location(call('__v_type1__', self.visit(node.args[0])), node)
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'vars', 'globals'):
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute):
            node.func = ast.copy_location(call('__v_cm__', node.func), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = node.ops
        if len(ops) == 1:
            if isinstance(ops[0], ast.In):
                return ast.copy_location(call('__v_in__', node.left, node.comparators[0]), node)
            if isinstance(ops[0], ast.NotIn):
                return ast.copy_location(call('__v_notin__', node.left, node.comparators[0]), node)
            return node
        if not self.depth or any(not is_pure_t(c) for c in node.comparators[1:]):
            # plain evaluation forks at every comparison
            return node
        args = [node.left]
        for o, c in zip(ops, node.comparators):
            args.append(ast.Constant(value=type(o).__name__))
            args.append(thunk(c))
        return ast.copy_location(call('__v_chain__', *args), node)

    def visit_BoolOp(self, node):
        pure = self.depth > 0 and all(is_pure(v) for v in node.values[1:])
        self.generic_visit(node)
        if not pure:
            return node
        fn = '__v_and__' if isinstance(node.op, ast.And) else '__v_or__'
        return ast.copy_location(call(fn, *[thunk(v) for v in node.values]), node)

    def visit_IfExp(self, node):
        pure = self.depth > 0 and is_pure(node.body) and is_pure(node.orelse) and not _has_walrus(node.test)
        self.generic_visit(node)
        if not pure:
            return node
        return ast.copy_location(call('__v_ifexp__', thunk(node.test), thunk(node.body), thunk(node.orelse)), node)

    def visit_If(self, node):
        plan = self.merge_plan(node)
        self.generic_visit(node)
        if plan is None:
            return node
        # a conditional update of one local integer: merged into one value when the condition is symbolic
        var, val, other = plan
        self.tmp += 1
        t = '__v_t%d__' % self.tmp

        def value(stmts):
            if not stmts:
                return name(var)
            st = stmts[0]
            if isinstance(st, ast.AugAssign):
                if isinstance(st.op, ast.Mod):
                    return call('__v_mod__', name(var), st.value)
                return ast.BinOp(left=name(var), op=st.op, right=st.value)
            return st.value
        reads = not node.orelse or isinstance(node.body[0], ast.AugAssign) or isinstance(node.orelse[0], ast.AugAssign)
        test = call('__v_mergeable__', name(t), thunk(name(var) if reads else ast.Constant(value=0)))
        a, b = copy.deepcopy(value(node.body)), copy.deepcopy(value(node.orelse))
        merged = ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())],
                            value=call('__v_ifexp__', thunk(name(t)), thunk(a), thunk(b)))
        plain = ast.If(test=name(t), body=node.body, orelse=node.orelse)
        out = [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=node.test),
               ast.If(test=test, body=[merged], orelse=[plain])]
        return [ast.copy_location(x, node) for x in out]

    def merge_plan(self, node):
        if not self.depth or len(node.body) != 1 or len(node.orelse) > 1 or _has_walrus(node.test):
            return None
        var = None
        for st in node.body + node.orelse:
            if isinstance(st, ast.AugAssign):
                tgt = st.target
            elif isinstance(st, ast.Assign) and len(st.targets) == 1:
                tgt = st.targets[0]
            else:
                return None
            if not isinstance(tgt, ast.Name) or (var is not None and tgt.id != var) or not is_pure(st.value):
                return None
            if isinstance(st.value, (ast.List, ast.Dict, ast.Set, ast.Tuple)) or \
                    isinstance(st.value, ast.Constant) and not isinstance(st.value.value, (int, bool)):
                return None
            var = tgt.id
        if var in self.nonlocals:
            return None
        return var, None, None

    def visit_Global(self, node):
        self.nonlocals.update(node.names)
        return node

    visit_Nonlocal = visit_Global

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(call('__v_mod__', node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                parts.append(call('__v_fval__', self.visit(v.value), ast.Constant(value=v.conversion), spec))
        return ast.copy_location(call('__v_fstr__', *parts), node)


class _Pure2(PureCheck):
    """pure after transformation (helper calls allowed)"""
    def generic_visit(self, node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id.startswith('__v_'):
            for a in node.args:
                self.visit(a)
            return
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Call) and \
                isinstance(node.func.func, ast.Name) and node.func.func.id == '__v_cm__':
            f = node.func.args[0]
            if not (isinstance(f, ast.Attribute) and f.attr in PURE_CALLS):
                self.ok = False
                return
            self.visit(f.value)
            for a in node.args:
                self.visit(a)
            return
        super().generic_visit(node)


def is_pure_t(node):
    c = _Pure2()
    c.visit(node)
    return c.ok


def _has_walrus(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))


def transform_source(src, filename):
    tree = ast.parse(src, filename)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = transform_source(src, self.path)
        module.__dict__['__builtins__'] = shims.BUILTINS
        exec(code, module.__dict__)
        fn = models.PATCHES.get(module.__name__)
        if fn is not None:
            fn(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # top package -> directory containing it

    def find_spec(self, fullname, path, target=None):
        top = fullname.split('.')[0]
        d = self.roots.get(top)
        if d is None:
            return None
        base = os.path.join(d, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(fullname, Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        if os.path.isfile(base + '.py'):
            spec = importlib.machinery.ModuleSpec(fullname, Loader(base + '.py'), origin=base + '.py')
            spec.has_location = True
            return spec
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
