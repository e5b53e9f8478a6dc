"""Loads modules from source with every operation the engine must see rerouted.

Only semantics-preserving rewrites are made: calls, subscripts, f-strings,
`in`/`is`, `%` and `*` go through helpers that behave like the original
operation and, in addition, keep the symbolic tags.
"""
from __future__ import annotations

import ast
import base64
import binascii
import builtins
import datetime as _real_dt
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import operator
import os
import re
import string
import struct
import sys
import types
import xml.etree.ElementTree as _ET

from . import core, shims, symre
from . import values as V
from .values import is_sym, is_symdeep, realise, tag


def isinstance(o, c):  # type(o) only: never runs user __getattribute__
    return issubclass(type(o), c)


HERE = os.path.dirname(os.path.abspath(__file__))
INSTRUMENTED = set()
FUNCS_SEEN = {}
PASS_MODULES = ("functools", "enum", "abc", "weakref", "collections", "contextlib", "copy", "dataclasses", "inspect", "typing", "types", "queue",
                "threading", "itertools", "operator", "logging", "xml", "_weakref", "_weakrefset", "vx", "traceback", "warnings", "_collections_abc", "reprlib")

_F = types.FunctionType
_M = types.MethodType
_B = types.BuiltinFunctionType
_NONCALL = {"len", "isinstance", "issubclass", "getattr", "hasattr", "setattr", "super", "ord", "chr", "range", "hex", "format", "repr", "locals", "globals", "vars", "dir", "id", "callable", "iter", "next", "print"}


class Rewriter(ast.NodeTransformer):
    def _n(self, name, node):
        return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node)

    def _call(self, name, args, node, keywords=()):
        return ast.copy_location(ast.Call(func=self._n(name, node), args=args, keywords=list(keywords)), node)

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        self.generic_visit(node)
        if node.name == "__bool__":
            for n in ast.walk(node):
                if isinstance(n, ast.Return) and n.value is not None:
                    n.value = self._call("__vx_truth__", [n.value], n)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        # keep annotations (dataclasses, NamedTuple) untouched
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name):
            if f.id == "super" and not node.args:
                return node
            if f.id == "type" and len(node.args) == 1 and not node.keywords:
                return self._call("__vx_type__", [self.visit(node.args[0])], node)
            if f.id in _NONCALL:
                self.generic_visit(node)
                return node
        self.generic_visit(node)
        return self._call("__vx_call__", [node.func] + node.args, node, node.keywords)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            self.generic_visit(node)
            return self._call("__vx_getitem__", [node.value, self._slice(node.slice)], node)
        node.value = self.visit(node.value)
        sl = node.slice
        if isinstance(sl, ast.Slice):
            node.slice = self._call("__vx_key__", [self._slice(self.generic_visit(sl) or sl)], node)
        else:
            node.slice = self._call("__vx_key__", [self.visit(sl)], node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            call = self._call("__vx_setitem__", [self.visit(node.value), self.visit(t.value), self.visit(t.slice)], node)
            return ast.copy_location(ast.Expr(value=call), node)
        self.generic_visit(node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pair = lambda k, x: ast.copy_location(ast.Tuple(elts=[k, x], ctx=ast.Load()), k)
        return self._call("__vx_dict__", [pair(k, x) for k, x in zip(node.keys, node.values)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node)
        gen = ast.copy_location(ast.GeneratorExp(elt=pair, generators=node.generators), node)
        return self._call("__vx_dict__", [ast.copy_location(ast.Starred(value=gen, ctx=ast.Load()), node)], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return self._call("__vx_set__", [ast.copy_location(ast.Tuple(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call("__vx_set__", [ast.copy_location(ast.GeneratorExp(elt=node.elt, generators=node.generators), node)], node)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.copy_location(ast.Constant(None), s)
            return self._call("__vx_slice__", [none(s.lower), none(s.upper), none(s.step)], s)
        if isinstance(s, ast.Tuple):
            s.elts = [self._slice(e) for e in s.elts]
        return s

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.copy_location(ast.Constant(""), node)
                parts.append(ast.copy_location(ast.Tuple(elts=[val, ast.copy_location(ast.Constant(v.conversion), node), spec], ctx=ast.Load()), node))
        return self._call("__vx_fstr__", parts, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__vx_mod__", [node.left, node.right], node)
        if isinstance(node.op, ast.Mult):
            return self._call("__vx_mul__", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            nm = {ast.In: "__vx_in__", ast.NotIn: "__vx_notin__", ast.Is: "__vx_is__", ast.IsNot: "__vx_isnot__"}.get(type(op))
            if nm:
                if nm in ("__vx_is__", "__vx_isnot__") and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
                    return node
                return self._call(nm, [node.left, node.comparators[0]], node)
        return node


# ------------------------------------------------------------------ helpers
def vx_slice(a, b, c):
    return slice(a, b, c)


def real_slice(k):
    return slice(*[V.iconc(realise(x)) if is_sym(x) else x for x in (k.start, k.stop, k.step)])


def split_bound(x, n):
    """A slice bound over n items: split by where it falls, so that any number outside is one case."""
    if not is_sym(x):
        return x
    if x < 0:
        x = x + n
        if x < 0:
            return 0
    if x >= n:
        return n
    return V.iconc(realise(x)) if is_sym(x) else x


def vx_key(k):
    return realise(k) if is_sym(k) else k


_MISSING = object()


def _same_kind(a, b):
    return type(a) is type(b) or (isinstance(a, str) and isinstance(b, str)) or (isinstance(a, int) and isinstance(b, int)) or (isinstance(a, bytes) and isinstance(b, bytes))


def dict_find(d, k):
    """The key of d that equals k, by case split over the keys present (at least one side is symbolic), or _MISSING."""
    if is_sym(k):
        if len(d) > 64:
            k = realise(k)
        for kk in list(dict.keys(d)):
            if kk is k or (_same_kind(kk, k) and kk == k):
                return kk
        return _MISSING
    for kk in list(dict.keys(d)):
        if is_sym(kk) and _same_kind(kk, k) and kk == k:
            return kk
    return _MISSING


def dict_lookup(d, k):
    """d's value for a key, which or one of d's own is symbolic."""
    if isinstance(k, V.SymEnum):
        k = k.realise()
        return d.get(k, _MISSING) if type(d).__getitem__ is dict.__getitem__ else _raw(d, k)
    if not is_sym(k):
        r = _raw(d, k)
        if r is not _MISSING:
            return r
    kk = dict_find(d, k)
    return _MISSING if kk is _MISSING else dict.__getitem__(d, kk)


def symkeys():
    return core.CTX is not None and core.CTX.hashed


def dict_store(d, k, v):
    """d[k] = v; a symbolic key that equals none of those present is stored as it is"""
    if isinstance(k, V.SymEnum):
        k = k.realise()
    if isinstance(k, (str, int, bytes)) and (is_sym(k) or symkeys()):
        if is_sym(k) or not dict.__contains__(d, k):
            kk = dict_find(d, k)
            if kk is not _MISSING:
                return dict.__setitem__(d, kk, v)
        if is_sym(k) and type(k).__hash__ is not None and id(k) not in core.CTX.hashed:
            core.CTX.hashed[id(k)] = (k, 1000003 + 7919 * len(core.CTX.hashed))
    return dict.__setitem__(d, k, v)


def vx_setitem(v, o, k):
    if isinstance(o, dict) and type(o).__setitem__ is dict.__setitem__ and (is_sym(k) or symkeys()):
        return dict_store(o, k, v)
    if is_sym(k) and not (isinstance(o, dict) and isinstance(k, (str, int, bytes))):
        k = realise(k)
    o[k] = v


def vx_dict(*items):
    d = {}
    for k, v in items:
        if is_sym(k) or symkeys():
            dict_store(d, k, v)
        else:
            d[k] = v
    return d


def _raw(d, k):
    try:
        return dict.__getitem__(d, k)
    except KeyError:
        return _MISSING


def table_lookup(o, k):
    """o[k] for a table of integers as one expression; entries that are not integers are forked off."""
    n = len(o)
    if k < -n or k >= n:
        raise IndexError("index out of range")
    if k < 0:
        k = k + n
    odd = [i for i, x in enumerate(o) if type(x) not in (int, V.VxInt)]
    if len(odd) > 2:
        return None
    for i in odd:
        if k == i:
            return o[i]
    if not is_sym(k):
        return o[V.iconc(k)]
    e = V.iexpr(k)
    r = None
    for i, x in enumerate(o):
        if i in odd:
            continue
        xe = V.iexpr(x)
        r = xe if r is None else V.z3.If(e == i, xe, r)
    return V.mkint(r, V.iconc(o[V.iconc(k)]))


def vx_getitem(o, k):
    if type(k) is slice and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)):
        if type(o) is bytes:
            return V.lift(o)[k]
        if isinstance(o, (str, list, tuple)) and k.step is None and not (isinstance(o, str) and is_sym(o) and V.is_rope(o)):
            k = slice(split_bound(k.start, len(o)), split_bound(k.stop, len(o)))
        elif not isinstance(o, (bytes, bytearray)):
            k = real_slice(k)
    if is_sym(k):
        if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
            r = dict_lookup(o, k)
            if r is _MISSING:
                raise KeyError(V.plain(k))
            return r
        if type(o) in (list, tuple) and isinstance(k, int) and type(k) is not V.VxBool and len(o) <= 64:
            r = table_lookup(o, k)
            if r is not None:
                return r
        if isinstance(o, (list, tuple, str, bytes, bytearray)) and isinstance(k, int):
            k = V.iconc(realise(k))
        elif isinstance(o, type) and isinstance(o, type(V._enum.Enum)):
            for n in o.__members__:
                if k == n:
                    return o[n]
            raise KeyError(V.plain(k))
    elif isinstance(o, dict) and symkeys() and type(o).__getitem__ is dict.__getitem__:
        r = dict_lookup(o, k)
        if r is not _MISSING:
            return r
    return o[k]


def vx_in(a, b):
    if type(b) is V.VxSet:
        return b._has(a)
    if is_sym(a):
        if isinstance(b, dict) or type(b) in (type({}.keys()), set, frozenset):
            if isinstance(a, V.SymEnum):
                return a.realise() in b
            for kk in list(b):
                if kk == a:
                    return True
            return False
        if isinstance(b, (list, tuple)):
            return V.vx_any([(x is a) or (x == a) for x in b])
        if isinstance(b, (str, bytes, bytearray)):
            return V.lift(b).__contains__(a) if not is_sym(b) else (a in b)
        if isinstance(b, type) and isinstance(b, type(V._enum.Enum)):
            return realise(a) in b
    elif isinstance(b, (list, tuple)) and any(is_sym(x) for x in b):
        return V.vx_any([(x is a) or (x == a) for x in b])
    elif symkeys() and (isinstance(b, dict) or type(b) is type({}.keys())):
        if a in b:
            return True
        return any(is_sym(kk) and _same_kind(kk, a) and kk == a for kk in list(b))
    return a in b


def vx_notin(a, b):
    return V.vx_not(vx_in(a, b))


def vx_is(a, b):
    if type(a) is V.VxBool and (b is True or b is False):
        return a == b
    if type(b) is V.VxBool and (a is True or a is False):
        return b == a
    if type(a) is V.SymEnum or type(b) is V.SymEnum:
        return (a == b) if type(a) is V.SymEnum else (b == a)
    if a is b:
        return True
    # int/str/... named by an instrumented module vs. by the real type
    try:
        if isinstance(a, type) and isinstance(b, type) and V.TYPEMAP.get(a, a) is V.TYPEMAP.get(b, b):
            return True
    except TypeError:
        pass
    return False


def vx_truth(x):
    return True if x else False


def vx_isnot(a, b):
    return V.vx_not(vx_is(a, b))


def vx_mod(a, b):
    if isinstance(a, str) and not isinstance(a, V.VxStr):
        return V.percent(a, b)
    if isinstance(a, (bytes,)) and is_symdeep(b):
        return a % realise(b)
    return a % b


def vx_mul(a, b):
    if is_sym(b) and isinstance(b, int) and isinstance(a, (str, bytes, bytearray, list, tuple)):
        b = V.iconc(realise(b))
    elif is_sym(a) and isinstance(a, int) and isinstance(b, (str, bytes, bytearray, list, tuple)):
        a = V.iconc(realise(a))
    return a * b


def vx_fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = V.vx_repr(v)
            elif conv == 115:
                v = V.vx_str(v)
            elif conv == 97:
                v = ascii(realise(v))
            r = V.format_any(v, spec)
            if is_sym(r):
                sym = True
            out.append(r)
        else:
            out.append(p)
    if not sym:
        return "".join([V.sconc(x) for x in out])
    return V.concat(str, out)


_FIELD = re.compile(r"(\d*|[A-Za-z_]\w*)((?:\.[A-Za-z_]\w*|\[[^\]]+\])*)$")


def vx_format(fmt, a, k):
    """str.format with symbolic arguments"""
    parts, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(fmt):
        if text:
            parts.append(text)
        if field is None:
            continue
        m = _FIELD.match(field)
        if not m:
            return fmt.format(*[realise(x) for x in a], **{n: realise(x) for n, x in k.items()})
        name, rest = m.groups()
        if name == "":
            v, auto = a[auto], auto + 1
        else:
            v = a[int(name)] if name.isdigit() else k[name]
        for attr, item in re.findall(r"\.(\w+)|\[([^\]]+)\]", rest):
            v = getattr(v, attr) if attr else v[int(item) if item.isdigit() else item]
        if "{" in spec:
            sub = list(string.Formatter().parse(spec))
            n = auto + sum(1 for x in sub if x[1] == "")
            spec, auto = vx_format(spec, a[auto:] if n > auto else a, k), n
        parts.append((v, ord(conv) if conv else -1, spec))
    return vx_fstr(*parts)


# ------------------------------------------------------------------ calls
_FOREIGN = {}


def foreign(f):
    def deco(g):
        _FOREIGN[f] = g
        return g

    return deco


def _any_sym(a, k):
    for x in a:
        t = type(x)
        if t is list or t is tuple:
            if is_symdeep(x):
                return True
        elif V._kind(t) and is_sym(x):
            return True
    for x in k.values():
        if is_symdeep(x):
            return True
    return False


def vx_call(f, /, *a, **k):
    t = type(f)
    if t is _F:
        fn = f.__code__.co_filename
        if fn in INSTRUMENTED or fn.startswith(HERE):
            return f(*a, **k)
        return call_foreign(f, a, k)
    if t is _M:
        g = f.__func__
        if type(g) is _F:
            fn = g.__code__.co_filename
            if fn in INSTRUMENTED or fn.startswith(HERE):
                return f(*a, **k)
            if isinstance(f.__self__, logging.Logger):
                return None
            return call_foreign(f, a, k, g)
        return f(*a, **k)
    if isinstance(f, type):
        return call_class(f, a, k)
    return call_builtin(f, a, k)


def call_class(c, a, k):
    if c in V.REVMAP or c is V.VxBool:
        return c(*a, **k)
    m = c.__module__
    mod = sys.modules.get(m)
    if isinstance(c, type(V._enum.Enum)) and len(a) == 1 and not k and (is_sym(a[0])):
        return call_enum(c, a[0])
    if mod is not None and getattr(mod, "__vx__", False):
        return c(*a, **k)
    if issubclass(c, BaseException) or c in (list, tuple, dict, set, frozenset, enumerate, zip, map, filter, reversed, slice, property, staticmethod, classmethod, object, super):
        if c in (set, frozenset) and a and not k:
            r = V.vx_set(a[0])
            return r if type(r) is V.VxSet else c(r)
        return c(*a, **k)
    if c is range:
        return V.vx_range(*a)
    if m.split(".")[0] in PASS_MODULES:
        return c(*a, **k)
    if _any_sym(a, k):
        core.CTX.stats.setdefault("foreign", {})[c.__name__] = core.CTX.stats.get("foreign", {}).get(c.__name__, 0) + 1
        a = [realise(x) for x in a]
        k = {n: realise(x) for n, x in k.items()}
    return c(*a, **k)


def call_enum(c, v):
    """EnumClass(value) by case split over the members."""
    if isinstance(v, V.SymEnum):
        return c(v.realise())
    if issubclass(c, V._enum.Flag):
        return c(realise(v))
    for m in c.__members__.values():
        if m.value == v:
            return m
    if getattr(c._missing_, "__func__", None) is V._enum.Enum._missing_.__func__ and isinstance(v, (int, str)):
        raise ValueError("no such %s" % c.__qualname__)
    return c(realise(v))


def call_foreign(f, a, k, g=None):
    h = _FOREIGN.get(g or f)
    if h is not None:
        return h(*a, **k)
    mod = (g or f).__module__ or ""
    if mod.split(".")[0] in PASS_MODULES or not _any_sym(a, k):
        return f(*a, **k)
    fs = core.CTX.stats.setdefault("foreign", {})
    n = "%s.%s" % (mod, (g or f).__name__)
    fs[n] = fs.get(n, 0) + 1
    return f(*[realise(x) for x in a], **{n: realise(x) for n, x in k.items()})


_LISTISH = (list, tuple, set, frozenset, dict)


def call_builtin(f, a, k):
    try:
        h = _FOREIGN.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    s = getattr(f, "__self__", None)
    if s is None or isinstance(s, types.ModuleType):
        if type(f) is not _B and not isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType, types.MethodWrapperType, types.ClassMethodDescriptorType, types.BuiltinMethodType)):
            return f(*a, **k)  # callable object
        # unbound descriptor such as dict.__getitem__ / list.__init__, or a module-level C function
        if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            oc = f.__objclass__
            if oc in (str, bytes, int, float) and _any_sym(a, k):
                return getattr(V.TYPEMAP[oc], f.__name__)(*a, **k)
            if oc is dict and f.__name__ == "__setitem__" and len(a) == 3 and (is_sym(a[1]) or symkeys()):
                return dict_store(*a)
            if oc is dict and f.__name__ == "__getitem__" and len(a) == 2 and (is_sym(a[1]) or symkeys()):
                r = dict_lookup(a[0], a[1])
                if r is _MISSING:
                    raise KeyError(V.plain(a[1]))
                return r
            if oc in (list, tuple) and f.__name__ in ("__getitem__", "__setitem__", "__delitem__") and len(a) > 1 and is_sym(a[1]):
                a = (a[0], V.iconc(realise(a[1])) if isinstance(a[1], int) else realise(a[1])) + tuple(a[2:])
            return f(*a, **k)
        mod = getattr(f, "__module__", None) or ""
        if mod in ("builtins", "_operator", "itertools", "_functools", "_weakref", "_collections"):
            return call_builtin_fn(f, a, k)
        if _any_sym(a, k):
            fs = core.CTX.stats.setdefault("foreign", {})
            n = "%s.%s" % (mod, f.__name__)
            fs[n] = fs.get(n, 0) + 1
            a = [realise(x) for x in a]
            k = {n: realise(x) for n, x in k.items()}
        return f(*a, **k)
    name = f.__name__
    if isinstance(s, (str, bytes, bytearray)) and not isinstance(s, (V.VxStr, V.VxBytes, V.VxByteArray)):
        if name in ("join",) or _any_sym(a, k):
            if name == "join":
                a = (list(a[0]),)
                if not is_symdeep(a[0]):
                    return f([V.sconc(x) if isinstance(x, str) else x for x in a[0]]) if isinstance(s, str) else f([bytes(memoryview(x)) if isinstance(x, (bytes, bytearray)) else x for x in a[0]])
            if name == "format" and isinstance(s, str):
                return vx_format(s, a, k)
            m = getattr(V.VxBytes if isinstance(s, (bytes, bytearray)) else V.VxStr, name, None)
            if m is None:
                return f(*[realise(x) for x in a], **k)
            return m(V.lift(s) if True else s, *a, **k)
        return f(*a, **k)
    if isinstance(s, _LISTISH):
        if isinstance(s, dict):
            if name in ("get", "pop", "setdefault", "__getitem__", "__contains__") and a and (is_sym(a[0]) or symkeys()):
                if name == "__contains__":
                    return vx_in(a[0], s)
                if name == "pop" and isinstance(a[0], (str, int, bytes)) and not isinstance(a[0], V.SymEnum):
                    kk = a[0] if not is_sym(a[0]) and dict.__contains__(s, a[0]) else dict_find(s, a[0])
                    if kk is not _MISSING:
                        return f(kk)
                r = dict_lookup(s, a[0])
                if r is not _MISSING:
                    if name == "pop":
                        return f(realise(a[0]), *a[1:])
                    return r
                if name in ("get",):
                    return a[1] if len(a) > 1 else None
                if name in ("pop",) and len(a) > 1:
                    return a[1]
                if name == "setdefault":
                    dict_store(s, a[0], a[1] if len(a) > 1 else None)
                    return a[1] if len(a) > 1 else None
                raise KeyError(V.plain(a[0]))
        elif name in ("pop", "insert", "__getitem__", "__setitem__", "__delitem__") and a and is_sym(a[0]):
            a = (realise(a[0]),) + tuple(a[1:])
        return f(*a, **k)
    if isinstance(s, type):
        if s is object or name in ("__new__", "__init_subclass__", "__prepare__", "mro", "fromkeys"):
            return f(*a, **k)
        if _any_sym(a, k):
            return f(*[realise(x) for x in a], **{n: realise(x) for n, x in k.items()})
        return f(*a, **k)
    tm = type(s).__module__.split(".")[0]
    if isinstance(s, _ET.Element) or tm in PASS_MODULES or (sys.modules.get(type(s).__module__) is not None and getattr(sys.modules.get(type(s).__module__), "__vx__", False)):
        return f(*a, **k)
    if isinstance(s, (int, float)) and _any_sym(a, k):
        m = getattr(V.TYPEMAP.get(type(s), type(s)), name)
        return m(s, *a, **k)
    if name in ("__init__", "__new__", "__setattr__", "__getattribute__", "__delattr__"):
        return f(*a, **k)
    if _any_sym(a, k):
        fs = core.CTX.stats.setdefault("foreign", {})
        n = "%s.%s" % (type(s).__name__, name)
        fs[n] = fs.get(n, 0) + 1
        a = [realise(x) for x in a]
        k = {n: realise(x) for n, x in k.items()}
    return f(*a, **k)


def call_builtin_fn(f, a, k):
    n = f.__name__
    if n == "sum" and a and is_symdeep(a[0] if isinstance(a[0], (list, tuple)) else []):
        r = a[1] if len(a) > 1 else 0
        for x in a[0]:
            r = r + x
        return r
    if f.__module__ == "_operator":
        h = _OPERATOR.get(n)
        if h is not None:
            return h(*a, **k)
    if n in ("bin", "oct", "ascii", "pow") and _any_sym(a, k):
        return f(*[realise(x) for x in a], **{n: realise(x) for n, x in k.items()})
    if n == "all":
        return all(a[0])
    return f(*a, **k)


def op_index(x):
    if is_sym(x) and isinstance(x, int):
        return V.VxInt(x) if type(x) is not V.VxInt else x
    return operator.index(x)


_OPERATOR = {
    "index": op_index,
    "contains": lambda a, b: vx_in(b, a),
    "truth": lambda a: V.VxBool(a),
    "not_": V.vx_not,
    "is_": vx_is,
    "is_not": vx_isnot,
    "getitem": vx_getitem,
    "mod": vx_mod,
    "mul": vx_mul,
}


def _getbool(x):
    return V.VxBool(x)


def vx_all_builtin(it):
    for x in it:
        if not x:
            return False
    return True


# ------------------------------------------------------------------ module replacement
REPLACED = {}
_ALIASES = {}


def vx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in REPLACED:
            m = REPLACED[name]
            if fromlist or "." not in name:
                return m
        if name == "xml.etree" and fromlist and "ElementTree" in fromlist:
            ns = types.SimpleNamespace(ElementTree=REPLACED["xml.etree.ElementTree"])
            return ns
        if name == "xml.etree.ElementTree" and not fromlist:
            return types.SimpleNamespace(etree=types.SimpleNamespace(ElementTree=REPLACED["xml.etree.ElementTree"]))
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d.update(
        int=V.VxInt, str=V.VxStr, bytes=V.VxBytes, bytearray=V.VxByteArray, float=V.VxFloat, bool=V.VxBool,
        len=V.vx_len, isinstance=V.vx_isinstance, issubclass=V.vx_issubclass, ord=V.vx_ord, chr=V.vx_chr, range=range, hex=V.vx_hex,
        format=V.vx_format, repr=V.vx_repr, hash=V.vx_hash, __vx_setitem__=vx_setitem, __vx_dict__=vx_dict, __vx_set__=V.vx_set, getattr=V.vx_getattr,
        __vx_call__=vx_call, __vx_getitem__=vx_getitem, __vx_key__=vx_key, __vx_slice__=vx_slice, __vx_fstr__=vx_fstr, __vx_mod__=vx_mod, __vx_mul__=vx_mul,
        __vx_in__=vx_in, __vx_notin__=vx_notin, __vx_is__=vx_is, __vx_truth__=vx_truth, __vx_isnot__=vx_isnot, __vx_type__=V.vx_type,
        __import__=vx_import,
    )
    return d


BUILTINS = make_builtins()


def _range(*a):
    return V.vx_range(*a)


BUILTINS["range"] = _range


def compile_source(path, source=None):
    if source is None:
        with open(path, "rb") as fh:
            source = fh.read()
    tree = ast.parse(source, path)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


def exec_module(mod, path):
    INSTRUMENTED.add(path)
    mod.__dict__["__builtins__"] = BUILTINS
    mod.__dict__["__vx__"] = True
    code = compile_source(path)
    exec(code, mod.__dict__)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        exec_module(mod, self.path)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package):
        self.root = root
        self.package = package

    def find_spec(self, name, path, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        base = os.path.join(self.root, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.util.spec_from_file_location(name, init, loader=Loader(init), submodule_search_locations=[base])
            return spec
        py = base + ".py"
        if os.path.isfile(py):
            return importlib.util.spec_from_file_location(name, py, loader=Loader(py))
        return None


def load_stdlib(name, alias):
    """Instrumented copy of a pure-Python standard library module."""
    spec = importlib.util.find_spec(name)
    mod = types.ModuleType(alias)
    mod.__file__ = spec.origin
    mod.__name__ = alias
    sys.modules[alias] = mod
    exec_module(mod, spec.origin)
    return mod


def install(root="/repo/src", package="psrpcore"):
    """Make `import psrpcore` load the instrumented working tree."""
    rem = symre.ReModule()
    REPLACED["re"] = rem
    REPLACED["struct"] = shims.module_like(struct, pack=shims.pack, unpack=shims.unpack, unpack_from=shims.unpack_from, Struct=shims.VxStruct)
    REPLACED["binascii"] = shims.module_like(binascii, hexlify=shims.hexlify, unhexlify=shims.unhexlify, b2a_hex=shims.hexlify, a2b_hex=shims.unhexlify)
    REPLACED["base64"] = shims.module_like(base64, b64encode=shims.b64encode, b64decode=shims.b64decode, b16encode=shims.b16encode, b16decode=shims.b16decode, standard_b64encode=shims.b64encode, standard_b64decode=shims.b64decode)
    et = shims.module_like(_ET, tostring=shims.tostring, fromstring=shims.fromstring, XML=shims.fromstring)
    REPLACED["xml.etree.ElementTree"] = et
    REPLACED["time"] = shims.module_like(__import__("time"), strftime=shims.strftime, struct_time=shims.StructTime)
    # the standard library's own pure-Python datetime / uuid / _strptime, instrumented
    dt = load_stdlib("_pydatetime", "_vx_datetime")
    REPLACED["datetime"] = dt
    REPLACED["_pydatetime"] = dt
    st = load_stdlib("_strptime", "_vx_strptime")
    REPLACED["_strptime"] = st
    uu = load_stdlib("uuid", "_vx_uuid")
    REPLACED["uuid"] = uu
    from . import cryptomodel

    cryptomodel.install(REPLACED)
    sys.meta_path.insert(0, Finder(root, package))
    for m in list(sys.modules):
        if m == package or m.startswith(package + "."):
            del sys.modules[m]


def load_harness(path, name):
    mod = types.ModuleType(name)
    mod.__file__ = path
    sys.modules[name] = mod
    exec_module(mod, path)
    return mod
