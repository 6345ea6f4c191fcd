"""Control over the iteration order of sets inside the brel package.

Every module of brel is compiled with a small rewriting: set displays, set comprehensions and
set-valued operators build `CSet`s, and the names `set` and `frozenset` mean `CSet` and
`CFrozenSet`.  These are ordinary sets, except that each iteration over more than one item is
a choice point: `CTRL` decides about the order.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import sys


class Controller:
    def __init__(self):
        self.reset()

    def reset(self, plan=None, default=None):
        self.plan = plan or {}  # choice point -> name of the order
        self.default = default
        self.sizes = []

    def order(self, items):
        n = len(items)
        if n < 2:
            return items
        i = len(self.sizes)
        self.sizes.append(n)
        how = self.plan.get(i, self.default)
        return items if how is None else permuted(items, how)


def alternatives(n):
    """names of the orders that are explored for n items: all of them up to 3 items, for more
    the reverse order, every item first, every item last"""
    if n == 2:
        return ["rev"]
    if n == 3:
        return ["rev", "p102", "p120", "p201", "p021"]
    return ["rev"] + [f"first{i}" for i in range(1, n)] + [f"last{i}" for i in range(n - 1)]


def permuted(items, how):
    n = len(items)
    if how == "rev":
        return items[::-1]
    if how == "rot":
        return items[1:] + items[:1]
    if how[0] == "p":
        return [items[int(c)] for c in how[1:]]
    if how.startswith("first"):
        i = int(how[5:])
        return [items[i]] + items[:i] + items[i + 1 :] if i < n else items
    i = int(how[4:])
    return items[:i] + items[i + 1 :] + [items[i]] if i < n else items


CTRL = Controller()
_set, _frozenset = builtins.set, builtins.frozenset


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)


def _make(base, name):
    def keys(x):
        return list(x._o) if hasattr(x, "_o") else list(x)

    class C(base, metaclass=_Meta):
        _base = base
        __slots__ = ("_o",)

        if base is _frozenset:

            def __new__(cls, it=()):
                items = list(it) if not isinstance(it, (_set, _frozenset)) else keys(it)
                self = base.__new__(cls, items)
                self._o = dict.fromkeys(items)
                return self

            def __init__(self, it=()):
                pass

            def __hash__(self):
                return base.__hash__(self)

        else:

            def __init__(self, it=()):
                items = list(it) if not isinstance(it, (_set, _frozenset)) else keys(it)
                base.__init__(self, items)
                self._o = dict.fromkeys(items)

            __hash__ = None

            def add(self, x):
                base.add(self, x)
                self._o.setdefault(x)

            def discard(self, x):
                base.discard(self, x)
                self._o.pop(x, None)

            def remove(self, x):
                base.remove(self, x)
                self._o.pop(x, None)

            def pop(self):
                if not self._o:
                    raise KeyError("pop from an empty set")
                x = CTRL.order(list(self._o))[0]
                self.remove(x)
                return x

            def clear(self):
                base.clear(self)
                self._o.clear()

            def update(self, *its):
                for it in its:
                    for x in keys(it) if isinstance(it, (_set, _frozenset)) else list(it):
                        self.add(x)

            def difference_update(self, *its):
                for it in its:
                    for x in list(it):
                        self.discard(x)

            def intersection_update(self, *its):
                for it in its:
                    k = _set(it)
                    for x in list(self._o):
                        if x not in k:
                            self.discard(x)

            def symmetric_difference_update(self, it):
                for x in list(C(it)._o):
                    self.discard(x) if x in self else self.add(x)

            def __ior__(self, o):
                self.update(o)
                return self

            def __isub__(self, o):
                self.difference_update(o)
                return self

            def __iand__(self, o):
                self.intersection_update(o)
                return self

            def __ixor__(self, o):
                self.symmetric_difference_update(o)
                return self

        def __iter__(self):
            return iter(CTRL.order(list(self._o)))

        def copy(self):
            return C(self)

        def union(self, *its):
            r = keys(self)
            for it in its:
                r += keys(it) if isinstance(it, (_set, _frozenset)) else list(it)
            return C(r)

        def intersection(self, *its):
            ks = [_set(keys(it) if isinstance(it, (_set, _frozenset)) else it) for it in its]
            return C([x for x in keys(self) if all(x in k for k in ks)])

        def difference(self, *its):
            ks = [_set(keys(it) if isinstance(it, (_set, _frozenset)) else it) for it in its]
            return C([x for x in keys(self) if not any(x in k for k in ks)])

        def symmetric_difference(self, it):
            o = keys(it) if isinstance(it, (_set, _frozenset)) else list(it)
            return C([x for x in keys(self) if x not in o] + [x for x in o if x not in self])

        def _op(f):
            def g(self, o):
                if not isinstance(o, (_set, _frozenset, type({}.keys()), type({}.items()))):
                    return NotImplemented
                return f(self, o)

            return g

        __or__ = _op(union)
        __and__ = _op(intersection)
        __sub__ = _op(difference)
        __xor__ = _op(symmetric_difference)
        __ror__ = _op(lambda self, o: C(o).union(self))
        __rand__ = _op(lambda self, o: C(o).intersection(self))
        __rsub__ = _op(lambda self, o: C(o).difference(self))
        __rxor__ = _op(lambda self, o: C(o).symmetric_difference(self))

        def __repr__(self):
            return "{" + ", ".join(map(repr, self)) + "}"

        __str__ = __repr__

        def __reduce__(self):
            return (C, (list(self._o),))

    C.__name__ = C.__qualname__ = name
    return C


CSet = _make(_set, "set")
CFrozenSet = _make(_frozenset, "frozenset")


def wrap(x):
    """results of operators: plain sets become controlled ones"""
    if type(x) is _set:
        return CSet(x)
    if type(x) is _frozenset:
        return CFrozenSet(x)
    return x


class Rewrite(ast.NodeTransformer):
    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("brelmc_set", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("brelmc_set", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return ast.copy_location(ast.Call(ast.Name("brelmc_wrap", ast.Load()), [n], []), n)
        return n

    # annotations are left alone
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def visit_FunctionDef(self, n):
        r, n.returns = n.returns, None
        self.generic_visit(n)
        n.returns = r
        return n


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        # generic functions (PEP 695) keep their parameters
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):  # never from cached bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__.update({"set": CSet, "frozenset": CFrozenSet, "brelmc_set": CSet, "brelmc_wrap": wrap})
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "brel" and not name.startswith("brel."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    assert not any(m == "brel" or m.startswith("brel.") for m in sys.modules)
    sys.meta_path.insert(0, Finder())
