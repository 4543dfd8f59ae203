"""Import hook: loads packages from source with the AST transformed so that symbolic values survive."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import rt
from .engine import E

_NOCALL = {"super", "globals", "locals", "vars", "dir", "eval", "exec", "isinstance", "issubclass",
           "len", "type", "id", "range", "enumerate", "zip", "callable",
           "open", "exit", "bool", "list", "tuple", "iter", "next", "__sx_call__"}


class T(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []

    def _call(self, fn, args, keywords=()):
        return ast.Call(ast.Name("__sx_%s__" % fn, ast.Load()), args, list(keywords))

    def _scoped(self, node, fn):
        self.stack.append(node.name)
        self.generic_visit(node)
        if fn:
            q = ast.Expr(self._call("enter", [ast.Constant(self.mod + ":" + ".".join(self.stack))]))
            body = node.body
            i = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                      and isinstance(body[0].value.value, str)) else 0
            # keep "global"/"nonlocal" first
            while i < len(body) and isinstance(body[i], (ast.Global, ast.Nonlocal)):
                i += 1
            body.insert(i, q)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._scoped(node, True)

    def visit_AsyncFunctionDef(self, node):
        return self._scoped(node, True)

    def visit_ClassDef(self, node):
        return self._scoped(node, False)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            if f.attr.startswith("__") and not f.attr.endswith("__"):
                return node
            return ast.copy_location(self._call("call", [f.value, ast.Constant(f.attr)] + node.args, node.keywords), node)
        if isinstance(f, ast.Name):
            if f.id in _NOCALL or f.id.startswith("__sx_"):
                return node
            return ast.copy_location(self._call("ncall", [f] + node.args, node.keywords), node)
        return ast.copy_location(self._call("ncall", [f] + node.args, node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return ast.copy_location(self._call(type(node.ops[0]).__name__, [node.left, node.comparators[0]]), node)
        # a < b < c  ->  (a < (t := b)) and (t < c): names are unique per chain
        parts = []
        left = node.left
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1:
                name = "__sx_t%d_%d_%d" % (node.lineno, node.col_offset, i)
                r = ast.NamedExpr(ast.Name(name, ast.Store()), right)
                nleft = ast.Name(name, ast.Load())
            else:
                r, nleft = right, None
            parts.append(self._call(type(op).__name__, [left, r]))
            left = nleft
        return ast.copy_location(ast.BoolOp(ast.And(), parts), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        node.value = ast.copy_location(self._call("w", [node.value]), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("mkset", [ast.List(node.elts, ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("mkset", [ast.ListComp(node.elt, node.generators)]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys) or len(node.keys) < 2 and None not in node.keys:
            return node
        return ast.copy_location(self._call("mkdict", [ast.List([
            ast.Starred(self._call("items", [v]), ast.Load()) if k is None else ast.Tuple([k, v], ast.Load())
            for k, v in zip(node.keys, node.values)], ast.Load())]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = type(node.op).__name__
        if n in rt.BINOPS:
            return ast.copy_location(self._call("b" + n, [node.left, node.right]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        n, t = type(node.op).__name__, node.target
        if n in rt.BINOPS and (isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)):
            old = ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else ast.Attribute(ast.Name(t.value.id, ast.Load()), t.attr, ast.Load())
            return ast.copy_location(ast.Assign([t], self._call("i" + n, [old, node.value])), node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("mkdict", [ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators)]), node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.conversion in (114, 97):
            node.value = self._call("ncall", [ast.Name("__sx_repr__", ast.Load()), node.value])
            node.conversion = -1
        elif node.conversion == 115 or node.format_spec is None:
            node.value = self._call("fmt", [node.value])
        return node

    # match -> if
    def visit_Match(self, node):
        self.generic_visit(node)
        name = "__sx_m%d_%d__" % (node.lineno, node.col_offset)
        self.tmp = 0
        self.pre = name[:-2]
        top = out = []
        for c in node.cases:
            t = self._pat(c.pattern, name)
            if c.guard is not None:
                t = ast.BoolOp(ast.And(), [t, c.guard])
            i = ast.copy_location(ast.If(t, c.body, []), c.body[0])
            out.append(i)
            out = i.orelse
        return [ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], node.subject), node)] + top

    def _bind(self, name, value):
        return self._call("true", [ast.NamedExpr(ast.Name(name, ast.Store()), value)])

    def _pat(self, p, name):
        subj = ast.Name(name, ast.Load())
        if isinstance(p, ast.MatchValue):
            return self._call("Eq", [subj, p.value])
        if isinstance(p, ast.MatchSingleton):
            return self._call("Is", [subj, ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self._pat(x, name) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            parts = [self._pat(p.pattern, name)] if p.pattern is not None else []
            if p.name is not None:
                parts.append(self._bind(p.name, subj))
            return self._all(parts)
        self.tmp += 1
        tmp = "%s_%d__" % (self.pre, self.tmp)
        subs = []
        if isinstance(p, ast.MatchSequence):
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            n = len(p.patterns)
            call = self._call("mseq", [subj, ast.Constant(star[0] if star else n), ast.Constant(n - star[0] - 1 if star else -1)])
            subs = p.patterns
        elif isinstance(p, ast.MatchMapping):
            call = self._call("mmap", [subj, ast.List(p.keys, ast.Load()), ast.Constant(p.rest is not None)])
            subs = list(p.patterns)
            if p.rest is not None:
                subs.append(ast.MatchStar(p.rest))
        elif isinstance(p, ast.MatchClass):
            call = self._call("mcls", [subj, p.cls, ast.Constant(len(p.patterns)), ast.Constant(tuple(p.kwd_attrs))])
            subs = list(p.patterns) + list(p.kwd_patterns)
        parts = [ast.Compare(ast.NamedExpr(ast.Name(tmp, ast.Store()), call), [ast.IsNot()], [ast.Constant(None)])]
        for i, x in enumerate(subs):
            item = ast.Subscript(ast.Name(tmp, ast.Load()), ast.Constant(i), ast.Load())
            if isinstance(x, ast.MatchStar):
                if x.name is not None:
                    parts.append(self._bind(x.name, item))
                continue
            if isinstance(x, ast.MatchAs) and x.pattern is None and x.name is None:
                continue
            self.tmp += 1
            sub = "%s_%d__" % (self.pre, self.tmp)
            parts += [self._bind(sub, item), self._pat(x, sub)]
        return self._all(parts)

    def _all(self, parts):
        if not parts:
            return ast.Constant(True)
        return parts[0] if len(parts) == 1 else ast.BoolOp(ast.And(), parts)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node


def namespace():
    ns = {"__sx_call__": rt.call, "__sx_ncall__": rt.ncall, "__sx_w__": rt.w, "__sx_mkset__": rt.mkset,
          "__sx_mkdict__": rt.mkdict, "__sx_enter__": rt.enter, "__sx_items__": rt.items,
          "__sx_repr__": repr, "__sx_fmt__": rt.fmt, "__sx_true__": rt.true, "__sx_mseq__": rt.mseq, "__sx_mmap__": rt.mmap,
          "__sx_mcls__": rt.mcls}
    for k, (a, b) in rt.BINOPS.items():
        ns["__sx_b%s__" % k] = a
        ns["__sx_i%s__" % k] = b
    for k, v in rt.OPS.items():
        ns["__sx_%s__" % k] = v
    return ns


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


_code = {}


class Order:
    """Iteration order of sets of objects: by number instead of by address, ascending or descending."""
    objs = {}
    flip = False

    @classmethod
    def reset(cls):
        cls.objs = {}
        cls.flip = False

    @classmethod
    def hash(cls, o):
        k = cls.objs.get(id(o))
        if k is None:
            k = cls.objs[id(o)] = (len(cls.objs), o)
        return (1 << 20) - 1 - k[0] if cls.flip else k[0]


def _hash(self):
    return Order.hash(self)


def fix_hashes(module):
    for c in list(vars(module).values()):
        if isinstance(c, type) and c.__module__ == module.__name__ and c.__hash__ is object.__hash__:
            c.__hash__ = _hash


class Loader(importlib.abc.Loader):
    def __init__(self, path, name, instrument):
        self.path, self.name, self.instrument = path, name, instrument

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        key = (self.path, self.instrument)
        if self.instrument:
            module.__dict__.update(namespace())
        exec(_code[key], module.__dict__)
        fix_hashes(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, pkg, instrument):
        self.root, self.pkg, self.instrument = root, pkg, instrument

    def find_spec(self, name, path=None, target=None):
        if name != self.pkg and not name.startswith(self.pkg + "."):
            return None
        base = self.root + "/" + name.replace(".", "/")
        p = base + "/__init__.py"
        if (p, self.instrument) in _code:
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, name, self.instrument),
                                                          submodule_search_locations=[base])
        p = base + ".py"
        if (p, self.instrument) in _code:
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, name, self.instrument))
        return None


def precompile(root, pkg, instrument=True):
    """compile all modules once in the parent so that forked paths can re-import cheaply"""
    base = os.path.join(root, pkg)
    for dp, dn, fn in os.walk(base):
        for f in fn:
            if f.endswith(".py"):
                p = os.path.join(dp, f)
                name = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(p, encoding="utf-8") as h:
                    src = h.read()
                _code[(p, instrument)] = transform(src, p, name) if instrument else compile(src, p, "exec")


def install(root, pkg, instrument=True):
    sys.meta_path.insert(0, Finder(root, pkg, instrument))


def purge(pkg):
    for m in list(sys.modules):
        if m == pkg or m.startswith(pkg + "."):
            del sys.modules[m]


class _NoPosix(ast.NodeTransformer):
    """from posix import _path_normpath  ->  the Python fallback"""

    def visit_Try(self, node):
        if (node.body and isinstance(node.body[0], ast.ImportFrom) and node.body[0].module == "posix"
                and any(a.name.startswith("_path") for a in node.body[0].names)):
            return node.handlers[0].body
        return self.generic_visit(node)


def instrument_stdlib():
    """Replace the functions of pure-Python path modules by instrumented ones."""
    import fnmatch
    import genericpath
    import glob
    import posixpath
    import shlex
    import textwrap
    for m in (genericpath, posixpath, fnmatch, shlex, glob, textwrap):
        with open(m.__file__) as f:
            tree = ast.parse(f.read(), m.__file__)
        tree = _NoPosix().visit(tree)
        tree = T(m.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        ns = dict(namespace())
        ns["__name__"] = m.__name__
        ns["__sx_enter__"] = lambda name: None
        ns["__builtins__"] = __builtins__
        exec(compile(tree, m.__file__, "exec"), ns)
        for k, v in ns.items():
            if isinstance(v, types.FunctionType) and v.__module__ in (m.__name__, "genericpath") or k in ("normpath", "_compile_pattern"):
                setattr(m, k, v)
    import pathlib
    new = types.ModuleType("pathlib")
    new.__file__ = pathlib.__file__
    new.__dict__.update(namespace(), __sx_enter__=lambda name: None)
    with open(pathlib.__file__) as f:
        exec(transform(f.read(), pathlib.__file__, "pathlib"), new.__dict__)
    sys.modules["pathlib"] = new
    patch_stdlib()


def patch_stdlib():
    """generated or compiled code that compares texts"""
    import dataclasses
    import functools
    if getattr(dataclasses._process_class, "sx", False):
        return
    orig = dataclasses._process_class

    def process(cls, init, repr, eq, order, unsafe_hash, frozen, *rest):
        c = orig(cls, init, repr, eq, order, unsafe_hash, frozen, *rest)
        names = [f.name for f in dataclasses.fields(c) if f.compare]

        def key(o):
            return tuple(getattr(o, n) for n in names)

        def cmp(op):
            def f(self, other):
                if other.__class__ is not self.__class__:
                    return NotImplemented
                return op(key(self), key(other))
            return f
        if eq and "__eq__" not in cls.__dict__ or eq and cls is c:
            c.__eq__ = cmp(rt.eq)
        if order:
            for n, o in (("__lt__", "Lt"), ("__le__", "LtE"), ("__gt__", "Gt"), ("__ge__", "GtE")):
                setattr(c, n, cmp(rt.OPS[o]))
        if eq and frozen or unsafe_hash:
            hs = [f.name for f in dataclasses.fields(c) if (f.compare if f.hash is None else f.hash)]
            c.__hash__ = lambda self: rt.ncall(hash, tuple(getattr(self, n) for n in hs))
        return c
    process.sx = True
    dataclasses._process_class = process
    functools.lru_cache = rt.lru_cache
    functools.cache = lambda f: rt.lru_cache(None)(f)


