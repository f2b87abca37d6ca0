"""Import seam: loads phasor.* from the working tree with unordered containers under scheduler control.

No file of /repo is changed.  Modules are compiled from source with
 * `set`, `frozenset`, `id` rebound in the module's globals to simulator versions,
 * set displays and set comprehensions building simulator sets,
 * `&`, `|`, `-`, `^` whose result is a plain set (dict views) wrapped.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys

from . import sched as S

CUR = S.CUR
_set = builtins.set
_frozenset = builtins.frozenset


class _SetMeta(type):
    def __instancecheck__(cls, inst):
        return type.__instancecheck__(cls, inst) or (cls is SimSet and isinstance(inst, _set))

    def __subclasscheck__(cls, sub):
        return type.__subclasscheck__(cls, sub) or (cls is SimSet and issubclass(sub, _set))


def _iter(o):
    if type(o) is SimSet or type(o) is SimFrozenSet:
        return o._o
    return o


class SimSet(_set, metaclass=_SetMeta):
    __slots__ = ('_o',)

    def __init__(self, it=()):
        o = dict.fromkeys(_iter(it))
        _set.__init__(self, o)
        self._o = o

    def __iter__(self):
        o = self._o
        s = CUR.sched
        n = len(o)
        if s is None or n < 2:
            return iter(o)
        return _guarded(o, s.order(list(o)), n)

    def add(self, e):
        _set.add(self, e)
        if e not in self._o:
            self._o[e] = None

    def discard(self, e):
        _set.discard(self, e)
        self._o.pop(e, None)

    def remove(self, e):
        _set.remove(self, e)
        del self._o[e]

    def pop(self):
        o = self._o
        if not o:
            raise KeyError('pop from an empty set')
        s = CUR.sched
        if s is None or len(o) < 2:
            e = next(iter(o))
        else:
            e = s.pick(list(o))
        del o[e]
        _set.discard(self, e)
        return e

    def clear(self):
        _set.clear(self)
        self._o.clear()

    def update(self, *its):
        for it in its:
            for e in list(_iter(it)):
                self.add(e)

    def difference_update(self, *its):
        for it in its:
            for e in list(_iter(it)):
                self.discard(e)

    def intersection_update(self, *its):
        keep = _set(self._o)
        for it in its:
            keep = keep & _set(_iter(it))
        for e in list(self._o):
            if e not in keep:
                self.discard(e)

    def symmetric_difference_update(self, it):
        for e in list(dict.fromkeys(_iter(it))):
            if e in self._o:
                self.discard(e)
            else:
                self.add(e)

    def __ior__(self, o):
        if not isinstance(o, (_set, _frozenset)) and not hasattr(o, 'isdisjoint'):
            return NotImplemented
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def copy(self):
        return SimSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SimSet([copy.deepcopy(e, memo) for e in self._o])

    def __reduce__(self):
        return (SimSet, (list(self._o),))

    def union(self, *its):
        r = SimSet(self)
        r.update(*its)
        return r

    def difference(self, *its):
        r = SimSet(self)
        r.difference_update(*its)
        return r

    def intersection(self, *its):
        r = SimSet(self)
        r.intersection_update(*its)
        return r

    def symmetric_difference(self, it):
        r = SimSet(self)
        r.symmetric_difference_update(it)
        return r

    def _bin(name):
        def f(self, o):
            if not isinstance(o, (_set, _frozenset)) and not hasattr(o, 'isdisjoint'):
                return NotImplemented
            return getattr(self, name)(o)
        return f

    __or__ = _bin('union')
    __sub__ = _bin('difference')
    __and__ = _bin('intersection')
    __xor__ = _bin('symmetric_difference')

    def _rbin(name):
        def f(self, o):
            if not isinstance(o, (_set, _frozenset)) and not hasattr(o, 'isdisjoint'):
                return NotImplemented
            return getattr(SimSet(o), name)(self)
        return f

    __ror__ = _rbin('union')
    __rsub__ = _rbin('difference')
    __rand__ = _rbin('intersection')
    __rxor__ = _rbin('symmetric_difference')

    def __repr__(self):
        return '{' + ', '.join(repr(e) for e in self._o) + '}' if self._o else 'set()'

    __hash__ = None


def _guarded(o, order, n):
    for e in order:
        yield e
        if len(o) != n:
            raise RuntimeError('Set changed size during iteration')


class _FSetMeta(type):
    def __instancecheck__(cls, inst):
        return type.__instancecheck__(cls, inst) or (cls is SimFrozenSet and isinstance(inst, _frozenset))


class SimFrozenSet(_frozenset, metaclass=_FSetMeta):
    def __new__(cls, it=()):
        o = dict.fromkeys(_iter(it))
        self = _frozenset.__new__(cls, o)
        self._o = o
        return self

    def __init__(self, it=()):
        pass

    def __iter__(self):
        o = self._o
        s = CUR.sched
        if s is None or len(o) < 2:
            return iter(o)
        return iter(s.order(list(o)))

    def copy(self):
        return self

    def __reduce__(self):
        return (SimFrozenSet, (list(self._o),))

    def __deepcopy__(self, memo):
        return self

    def _op(name):
        def f(self, *o):
            return SimFrozenSet(getattr(SimSet(self), name)(*o))
        return f

    union = _op('union')
    difference = _op('difference')
    intersection = _op('intersection')
    symmetric_difference = _op('symmetric_difference')

    def _bin(name):
        def f(self, o):
            if not isinstance(o, (_set, _frozenset)) and not hasattr(o, 'isdisjoint'):
                return NotImplemented
            return SimFrozenSet(getattr(SimSet(self), name)(o))
        return f

    __or__ = _bin('union')
    __sub__ = _bin('difference')
    __and__ = _bin('intersection')
    __xor__ = _bin('symmetric_difference')
    __hash__ = _frozenset.__hash__
    __eq__ = _frozenset.__eq__


def _wrap(r, a, b):
    if type(r) is _set:
        out = SimSet()
        for src in (a, b):
            try:
                it = list(_iter(src))
            except TypeError:
                continue
            for e in it:
                if e in r:
                    out.add(e)
        return out
    return r


def _and(a, b):
    return _wrap(a & b, a, b)


def _or(a, b):
    return _wrap(a | b, a, b)


def _sub(a, b):
    r = a - b
    return _wrap(r, a, b) if type(r) is _set else r


def _xor(a, b):
    return _wrap(a ^ b, a, b)


_OPS = {ast.BitAnd: '__sim_and__', ast.BitOr: '__sim_or__', ast.Sub: '__sim_sub__', ast.BitXor: '__sim_xor__'}


SHIMS = {}      # module name -> callable returning the simulator's stand-in


def _import_shim(name):
    return SHIMS[name]()


class _Tx(ast.NodeTransformer):
    def visit_Import(self, node):
        out, rest = [], []
        for a in node.names:
            if a.name in SHIMS:
                out.append(ast.copy_location(ast.Assign(
                    targets=[ast.Name(a.asname or a.name, ast.Store())],
                    value=ast.Call(func=ast.Name('__sim_import__', ast.Load()), args=[ast.Constant(a.name)], keywords=[])), node))
            else:
                rest.append(a)
        if not out:
            return node
        if rest:
            out.append(ast.copy_location(ast.Import(names=rest), node))
        return out

    def visit_ImportFrom(self, node):
        if node.level or node.module not in SHIMS or any(a.name == '*' for a in node.names):
            return node
        return [ast.copy_location(ast.Assign(
            targets=[ast.Name(a.asname or a.name, ast.Store())],
            value=ast.Attribute(value=ast.Call(func=ast.Name('__sim_import__', ast.Load()), args=[ast.Constant(node.module)], keywords=[]),
                                attr=a.name, ctx=ast.Load())), node) for a in node.names]

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name('__sim_set__', ast.Load()),
            args=[ast.List(node.elts, ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name('__sim_set__', ast.Load()),
            args=[ast.ListComp(node.elt, node.generators)], keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        name = _OPS.get(type(node.op))
        if name is None:
            return node
        if isinstance(node.op, ast.Sub) and (isinstance(node.left, ast.Constant) or isinstance(node.right, ast.Constant)):
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name(name, ast.Load()), args=[node.left, node.right], keywords=[]), node)


def _open(*a, **k):
    from . import osim
    return osim.inject_open(*a, **k)


INJECT = dict(
    open=_open, set=SimSet, frozenset=SimFrozenSet, id=S.sim_id,
    __sim_import__=_import_shim, __sim_set__=SimSet, __sim_and__=_and, __sim_or__=_or, __sim_sub__=_sub, __sim_xor__=_xor,
)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            data = f.read()
        tree = ast.parse(data, path)
        tree = _Tx().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(INJECT)
        return super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'phasor' and not fullname.startswith('phasor.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def _threading():
    from . import threads
    return threads.shim


SHIMS['threading'] = _threading


def install():
    assert 'phasor' not in sys.modules
    sys.meta_path.insert(0, _Finder())
