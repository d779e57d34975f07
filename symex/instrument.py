"""Loads the product's modules from the source tree with hooks at the places
where native Python would not accept symbolic values."""
from __future__ import annotations

import ast
import builtins
import functools
import importlib.abc
import importlib.util
import os
import re
import string
import sys

from . import rx
from .core import Unsupported, f_mask
from .values import (LazyStr, SymBytes, SymStr, chars, concretize, contains_sym, cur, decide, deep_concretize,
                     is_str, is_sym, mk, percent, register, register_static, sx_hash, sx_join, sx_repr, sx_str)

STR_METHODS = {
    "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "partition", "rpartition",
    "startswith", "endswith", "find", "rfind", "index", "rindex", "count", "replace", "join",
    "lower", "upper", "casefold", "title", "capitalize", "swapcase", "isdigit", "isalpha", "isalnum",
    "isspace", "isdecimal", "isnumeric", "isidentifier", "isascii", "isprintable", "islower",
    "isupper", "encode", "decode", "format", "removeprefix", "removesuffix", "ljust", "rjust",
    "center", "zfill", "translate", "format_map", "expandtabs", "istitle",
}
RX_METHODS = set(rx.METHODS)
METHODS = STR_METHODS | RX_METHODS
BUILTINS = {
    "type", "str", "repr", "hash", "bytes", "int", "float", "ord", "format", "list", "tuple",
    "sorted", "enumerate", "zip", "map", "filter", "iter", "reversed", "min", "max", "dict", "set",
    "frozenset", "print", "issubclass", "sum", "any", "all", "ascii", "vars", "getattr",
}


def made(x):
    """Plain strings computed while a path runs may meet symbolic ones in a hash table."""
    if cur.eng is not None:
        t = type(x)
        if t is str:
            if 0 < len(x) <= 80:
                register(x)
        elif t is list or t is tuple:
            for i in x:
                if type(i) is str and 0 < len(i) <= 80:
                    register(i)
    return x


class SX:
    """Hook functions reachable from instrumented code as __sx__."""

    # -- strings
    @staticmethod
    def fstr(*parts):
        out = []
        sym = False
        for p in parts:
            if type(p) is str:
                out.append(p)
                continue
            v, conv, spec = p
            if conv == 114:
                v = sx_repr(v)
            elif conv == 115:
                v = sx_str(v)
            elif conv == 97:
                v = ascii(deep_concretize(v))
            if type(v) is SymStr or type(v) is LazyStr:
                if spec:
                    v = format(concretize(v), spec if type(spec) is str else concretize(spec))
            elif spec:
                v = format(v, spec if type(spec) is str else concretize(spec))
            elif type(v) is not str:
                v = sx_str(v) if type(v).__format__ is object.__format__ or isinstance(
                    v, (BaseException, dict, list, tuple, set)) else format(v)
            if type(v) is SymStr or type(v) is LazyStr:
                sym = True
            out.append(v)
        if not sym:
            return made("".join(out))
        return sx_join("", out)

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            return percent(a, b)
        return a % b

    @staticmethod
    def isin(a, b):
        if type(b) is LazyStr:
            b = b.force()
        if type(a) is LazyStr:
            a = a.force()
        if type(b) is str and type(a) is SymStr:
            return SymStr(chars(b))._contains(a.c)
        if isinstance(b, (bytes, bytearray)) and type(b) is not SymBytes and type(a) is SymBytes:
            return SymStr(tuple(b))._contains(a.c)
        return a in b

    # -- method calls
    @staticmethod
    def mc(obj, name, /, *args, **kw):
        t = type(obj)
        if t is str:
            if name == "join":
                items = list(SX.it(args[0]))
                if any(type(x) is SymStr or type(x) is LazyStr for x in items):
                    for k, x in enumerate(items):
                        if not is_str(x):
                            raise TypeError(f"sequence item {k}: expected str instance")
                    return sx_join(obj, items)
                return made(obj.join(items))
            if name == "format":
                if any(contains_sym(a) for a in args) or any(contains_sym(a) for a in kw.values()):
                    return sx_format(obj, args, kw)
                return made(obj.format(*args, **kw))
            args = [a.force() if type(a) is LazyStr else a for a in args]
            for a in args:
                if type(a) is SymStr or (type(a) is tuple and any(type(x) is SymStr for x in a)):
                    return getattr(SymStr(tuple(map(ord, obj))), name)(*args, **kw)
            if name == "format_map" or (name == "translate" and False):
                return obj.format_map(*args)
            return made(getattr(obj, name)(*args, **kw))
        if t is bytes:
            if name == "join":
                items = list(SX.it(args[0]))
                if any(type(x) is SymBytes for x in items):
                    return SymBytes(tuple(obj)).join(items)
                return obj.join(items)
            for a in args:
                if type(a) is SymBytes:
                    return getattr(SymBytes(tuple(obj)), name)(*args, **kw)
            return getattr(obj, name)(*args, **kw)
        if t is re.Pattern and name in RX_METHODS:
            return rx.pattern_call(obj, name, args, kw)
        if obj is str or obj is bytes:
            if args and (is_sym(args[0]) or is_str(args[0])) and not (obj is bytes and is_str(args[0])):
                return SX.mc(args[0], name, *args[1:], **kw)
        return getattr(obj, name)(*args, **kw)

    @staticmethod
    def ga(obj, name):
        t = type(obj)
        if t is str or t is bytes or obj is str or obj is bytes or (t is re.Pattern and name in RX_METHODS):
            return functools.partial(SX.mc, obj, name)
        return getattr(obj, name)

    # -- iteration
    @staticmethod
    def it(x):
        t = type(x)
        if t is set or t is frozenset:
            if cur.setorder and len(x) > 1 and cur.eng is not None:
                if any(is_str(i) or isinstance(i, tuple) or hasattr(i, "__dataclass_fields__") for i in x):
                    eng = cur.eng
                    k = eng.path_state.get("setorder", 0)
                    eng.path_state["setorder"] = k + 1
                    if eng.decide(f_mask(eng.var(f"setorder#{k}", 3), 2)):
                        return list(x)[::-1]
        return x

    # -- builtins
    @staticmethod
    def bc(fn, name, /, *args, **kw):
        if fn is not getattr(builtins, name):
            return fn(*args, **kw)
        h = _BC.get(name)
        return h(*args, **kw) if h is not None else fn(*args, **kw)


def sx_format(fmt, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            v, _ = string.Formatter().get_field(field, args, kw)
        out.append(SX.fstr((v, ord(conv) if conv else -1, spec)))
    return sx_join("", out)


def _type(*a, **k):
    if len(a) == 1:
        t = type(a[0])
        if t is SymStr:
            return str
        if t is SymBytes:
            return bytes
        jt = getattr(t, "_sx_type", None)
        return t if jt is None else jt
    return type(*a, **k)


def _str(*a, **k):
    if len(a) == 1 and not k:
        return sx_str(a[0])
    if a and type(a[0]) is SymBytes:
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def _bytes(*a, **k):
    if len(a) >= 1 and type(a[0]) is SymStr:
        return a[0].encode(*a[1:], **k)
    if len(a) == 1 and type(a[0]) is SymBytes:
        return a[0]
    return bytes(*a, **k)


def _conc(fn):
    def f(*a, **k):
        return fn(*[deep_concretize(x) for x in a], **k)
    return f


def _ord(c):
    if type(c) in (SymStr, SymBytes):
        x = c.c[0]
        if len(c.c) != 1:
            return ord("ab")
        return x if type(x) is int else cur.eng.pick_value(x)
    return ord(c)


def _iterfirst(fn):
    def f(*a, **k):
        return fn(*[SX.it(x) for x in a], **k)
    return f


def _min(fn):
    def f(*a, **k):
        if len(a) == 1:
            return fn(SX.it(a[0]), **k)
        return fn(*a, **k)
    return f


def _map(fn, *its):
    if fn is str:
        fn = sx_str
    elif fn is repr:
        fn = sx_repr
    elif fn is type:
        fn = _type
    elif fn is hash:
        fn = sx_hash
    return map(fn, *[SX.it(x) for x in its])


def _filter(fn, x):
    return filter(fn, SX.it(x))


def _format(v, spec=""):
    return SX.fstr((v, -1, spec))


def _sorted(x, **k):
    return sorted(SX.it(x), **k)


def _print(*a, sep=" ", end="\n", file=None, flush=False):
    f = file or sys.stdout
    f.write(sx_join(sep if sep is not None else " ", [sx_str(i) for i in a]))
    f.write("\n" if end is None else end)


def _getattr(o, name, *d):
    if type(name) is SymStr:
        name = concretize(name)
    if type(name) is str and name in METHODS:
        return SX.ga(o, name)
    return getattr(o, name, *d)


_BC = {
    "type": _type, "str": _str, "repr": sx_repr, "hash": sx_hash, "bytes": _bytes,
    "int": _conc(int), "float": _conc(float), "ord": _ord, "format": _format, "ascii": _conc(ascii),
    "list": _iterfirst(list), "tuple": _iterfirst(tuple), "sorted": _sorted,
    "enumerate": lambda x, *a, **k: enumerate(SX.it(x), *a, **k), "zip": _iterfirst(zip), "map": _map,
    "filter": _filter, "iter": lambda *a: iter(SX.it(a[0]), *a[1:]),
    "dict": lambda *a, **k: dict(*[SX.it(x) for x in a], **k),
    "print": _print, "getattr": _getattr, "min": _min(min), "max": _min(max),
    "issubclass": issubclass,
}


class Rewriter(ast.NodeTransformer):
    def _hook(self, name, args, keywords=()):
        return ast.Call(
            func=ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr=name, ctx=ast.Load()),
            args=list(args), keywords=list(keywords))

    # annotations stay as written
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        node.body = [y for x in node.body for y in self._many(x)]
        return node

    def _many(self, x):
        r = self.visit(x)
        return r if isinstance(r, list) else [r]

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value=None)
                parts.append(ast.Tuple(
                    elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(self._hook("fstr", parts), node)

    def visit_Call(self, node):
        func = node.func
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        if isinstance(func, ast.Name) and func.id in BUILTINS:
            return ast.copy_location(
                self._hook("bc", [func, ast.Constant(value=func.id), *node.args], node.keywords), node)
        if isinstance(func, ast.Attribute) and func.attr in METHODS:
            return ast.copy_location(
                self._hook("mc", [self.visit(func.value), ast.Constant(value=func.attr), *node.args],
                           node.keywords), node)
        node.func = self.visit(func)
        return node

    def visit_Attribute(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.ctx, ast.Load) and node.attr in METHODS:
            return ast.copy_location(self._hook("ga", [node.value, ast.Constant(value=node.attr)]), node)
        return node

    def visit_Starred(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.ctx, ast.Load):
            node.value = self._hook("it", [node.value])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self._hook("isin", [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._hook("mod", [node.left, node.right]), node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self._hook("it", [node.iter])
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self._hook("it", [node.iter])
        return node

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        node.value = self._hook("it", [node.value])
        return node


# calls that never use a literal argument as a dictionary key or set member
_NO_KEY_CALLS = {
    "open", "ZipFile", "add_argument", "add_parser", "ArgumentParser", "join", "strip", "lstrip", "rstrip",
    "split", "rsplit", "partition", "rpartition", "replace", "startswith", "endswith", "encode", "decode",
    "find", "index", "removeprefix", "removesuffix", "TypeVar", "group", "debug", "info", "warning", "error",
    "exception", "critical", "log", "write", "compile", "fullmatch", "match", "search", "sub", "print",
    "getLogger", "DefaultIsolatedEnv", "ValidationError", "RuntimeError", "TypeError", "ValueError", "PluginError",
    "FileNotFoundError", "FileExistsError", "NotADirectoryError", "NoPluginFoundError", "KeyError", "namedtuple",
    "TypedDict", "getattr", "hasattr", "setattr", "open_text", "joinpath", "with_suffix", "glob", "rglob",
}


def collect_constants(tree):
    """Literals that may meet symbolic strings in a hash table."""
    skip = set()

    def mark(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Constant):
                skip.add(id(x))

    def name(f):
        return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)

    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
        elif isinstance(n, ast.JoinedStr):
            for v in n.values:
                if isinstance(v, ast.Constant):
                    skip.add(id(v))
        elif isinstance(n, ast.Call) and name(n.func) in _NO_KEY_CALLS:
            for a in [*n.args, *[k.value for k in n.keywords]]:
                if isinstance(a, ast.Constant):
                    skip.add(id(a))
                elif isinstance(a, (ast.Tuple, ast.List)) and name(n.func) == "add_argument":
                    mark(a)
                elif isinstance(a, ast.Dict) and name(n.func) in ("debug", "info", "warning", "error", "exception"):
                    mark(a)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Constant):
                skip.add(id(n.func.value))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            for a in (n.left, n.right):
                if isinstance(a, ast.Constant):
                    skip.add(id(a))
        elif isinstance(n, ast.Compare) and all(isinstance(o, (ast.Eq, ast.NotEq)) for o in n.ops):
            for a in [n.left, *n.comparators]:
                if isinstance(a, ast.Constant):
                    skip.add(id(a))
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in [*n.args.args, *n.args.kwonlyargs, *n.args.posonlyargs]:
                if a.annotation is not None:
                    mark(a.annotation)
            if n.returns is not None:
                mark(n.returns)
        elif isinstance(n, ast.AnnAssign):
            mark(n.annotation)
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ("__all__", "__match_args__")
                                               for t in n.targets):
            mark(n.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in skip:
            register_static(n.value)


FUNCS = {}  # qualified name -> (file, line) of every function encoded


def _collect_funcs(tree, modname):
    def walk(node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                FUNCS[f"{modname}:{prefix}{n.name}"] = n.lineno
                walk(n, f"{prefix}{n.name}.")
            elif isinstance(n, ast.ClassDef):
                walk(n, f"{prefix}{n.name}.")
            else:
                walk(n, prefix)
    walk(tree, "")


def instrument_source(src, filename, modname):
    tree = ast.parse(src, filename)
    # harness modules keep literals out of symbolic hash tables, or list them in CONSTANTS
    if modname.split(".")[0] not in ("harness", "checks_sx"):
        collect_constants(tree)
    _collect_funcs(tree, modname)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__["__sx__"] = SX
        exec(instrument_source(src, self.path, self.name), module.__dict__)

    # importlib.resources
    def get_resource_reader(self, name):
        from importlib.readers import FileReader

        return FileReader(self)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, extra=()):
        self.roots = roots  # package name -> directory
        self.extra = dict(extra)  # module name -> file

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            p = self.extra.get(name)
            if p is None:
                return None
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(name, p, False))
        base = os.path.join(root, *name.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                ld = _Loader(name, p, pkg)
                return importlib.util.spec_from_file_location(
                    name, p, loader=ld, submodule_search_locations=[base] if pkg else None)
        if os.path.isdir(base):
            spec = importlib.util.spec_from_loader(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


_caches = []
_real_lru = functools.lru_cache


def _lru(*a, **k):
    r = _real_lru(*a, **k)
    if hasattr(r, "cache_clear"):
        _caches.append(r)
        return r

    def deco(fn):
        w = r(fn)
        _caches.append(w)
        return w

    return deco


class StateSnapshot:
    """Module- and class-level state of the product, restored before every path."""

    def __init__(self, tops):
        self.ns = []
        self.containers = []
        seen = set()
        for name, mod in sorted(sys.modules.items()):
            if name.split(".")[0] not in tops or mod is None:
                continue
            self._add_ns(mod, vars(mod), seen)
            for v in list(vars(mod).values()):
                if isinstance(v, type) and getattr(v, "__module__", "").split(".")[0] in tops and id(v) not in seen:
                    seen.add(id(v))
                    self._add_ns(v, vars(v), seen)

    def _add_ns(self, owner, d, seen):
        self.ns.append((owner, {k: v for k, v in d.items() if not k.startswith("__")}))
        for k, v in d.items():
            if k.startswith("__") or k == "_abc_impl":
                continue
            if type(v) in (dict, list, set) or (isinstance(v, (dict, list, set)) and not isinstance(v, type)):
                if id(v) not in seen and k not in ("__dataclass_fields__",):
                    seen.add(id(v))
                    self.containers.append((v, v.copy()))

    def restore(self):
        for owner, d in self.ns:
            now = vars(owner)
            for k, v in d.items():
                if now.get(k, None) is not v:
                    setattr(owner, k, v)
            if len(now) != len(d):
                for k in [k for k in now if k not in d and not k.startswith("_")]:
                    try:
                        delattr(owner, k)
                    except (AttributeError, TypeError):
                        pass
        for obj, copy in self.containers:
            if type(obj) is list:
                if obj != copy:
                    obj[:] = copy
            elif len(obj) or len(copy):
                obj.clear()
                obj.update(copy)
        for c in _caches:
            w = getattr(c, "__wrapped__", None)
            if w is not None and getattr(w, "__module__", "").split(".")[0] in ("variantlib", "checks_sx"):
                c.cache_clear()


def install(roots, extra=()):
    rx.install()
    functools.lru_cache = _lru
    sys.meta_path.insert(0, Finder(roots, extra))
