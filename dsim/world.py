"""Nodes: private instances of the package, run from the repository's source.

A node is what a process is in a deployment: its own module globals, its own
hash salt, its own set iteration order.  Dropping the node is the crash of the
process.  The seams are put in by the loader (the repository is not changed):
the names set, frozenset and hash, set displays and set comprehensions.
"""
import ast
import builtins
import hashlib
import importlib
import importlib.machinery
import importlib.util
import os
import sys
import types

from .core import PKG, SRC, mix

_CODE = {}


class _SetSeam(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name(id='__sim_set__', ctx=ast.Load()),
            args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name(id='__sim_set__', ctx=ast.Load()),
            args=[ast.ListComp(elt=node.elt, generators=node.generators)],
            keywords=[]), node)


def _compile(path):
    code = _CODE.get(path)
    if code is None:
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_SetSeam().visit(tree))
        code = _CODE[path] = compile(tree, path, 'exec', dont_inherit=True)
    return code


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        return _compile(self.path)

    def exec_module(self, module):
        node = Node.importing
        module.__dict__.update(node.seams)
        exec(self.get_code(module.__name__), module.__dict__)


class _Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split('.', 1)[0] != PKG or Node.importing is None:
            return None
        base = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, f, loader=_Loader(name, f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None


if not any(isinstance(f, type) and f is _Finder for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder)


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.set)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.set)


class _FrozenMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.frozenset)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.frozenset)


def _permute(items, mode, seed, key):
    n = len(items)
    if n < 2 or mode == 'insertion':
        return items
    if mode == 'reverse':
        return items[::-1]
    x = (seed * 0x9E3779B97F4A7C15 + key * 0xBF58476D1CE4E5B9 + n) & 0xFFFFFFFFFFFFFFFF
    for i in range(n - 1, 0, -1):
        x = (x * 6364136223846793005 + 1442695040888963407) & 0xFFFFFFFFFFFFFFFF
        j = (x >> 33) % (i + 1)
        items[i], items[j] = items[j], items[i]
    return items


def make_set_types(seed, mode):
    counter = [0]
    bset = builtins.set
    bfrozen = builtins.frozenset

    class SimSet(bset, metaclass=_SetMeta):
        __slots__ = ('_seq', '_perm', '_key')

        def __new__(cls, *a):
            self = bset.__new__(cls)
            counter[0] += 1
            self._key = counter[0]
            self._seq = {}
            self._perm = None
            return self

        def __init__(self, iterable=()):
            bset.__init__(self)
            self._seq.clear()
            self._perm = None
            self.update(iterable)

        def add(self, x):
            if x not in self:
                bset.add(self, x)
                self._seq[x] = None
                self._perm = None

        def update(self, *others):
            for o in others:
                for x in list(o):
                    self.add(x)

        def discard(self, x):
            if x in self:
                bset.discard(self, x)
                del self._seq[x]
                self._perm = None

        def remove(self, x):
            if x not in self:
                raise KeyError(x)
            self.discard(x)

        def clear(self):
            bset.clear(self)
            self._seq.clear()
            self._perm = None

        def _order(self):
            if self._perm is None:
                self._perm = _permute(list(self._seq), mode, seed, self._key)
            return self._perm

        def __iter__(self):
            n = len(self)
            for x in self._order():
                yield x
                if len(self) != n:
                    raise RuntimeError('Set changed size during iteration')

        def pop(self):
            if not self._seq:
                raise KeyError('pop from an empty set')
            x = self._order()[0]
            self.discard(x)
            return x

        def copy(self):
            return SimSet(self)
        __copy__ = copy

        def union(self, *others):
            r = SimSet(self)
            r.update(*others)
            return r

        def intersection(self, *others):
            r = list(self)
            for o in others:
                o = o if isinstance(o, (bset, bfrozen, dict)) else bset(o)
                r = [x for x in r if x in o]
            return SimSet(r)

        def difference(self, *others):
            r = list(self)
            for o in others:
                o = o if isinstance(o, (bset, bfrozen, dict)) else bset(o)
                r = [x for x in r if x not in o]
            return SimSet(r)

        def symmetric_difference(self, o):
            o = list(o)
            return SimSet([x for x in self if x not in o] +
                          [x for x in o if x not in self])

        def difference_update(self, *others):
            for o in others:
                for x in list(o):
                    self.discard(x)

        def intersection_update(self, *others):
            keep = self.intersection(*others)
            for x in list(self):
                if x not in keep:
                    self.discard(x)

        def symmetric_difference_update(self, o):
            r = self.symmetric_difference(o)
            self.clear()
            self.update(r)

        def __or__(self, o):
            return self.union(o) if isinstance(o, (bset, bfrozen)) else NotImplemented

        def __and__(self, o):
            return self.intersection(o) if isinstance(o, (bset, bfrozen)) else NotImplemented

        def __sub__(self, o):
            return self.difference(o) if isinstance(o, (bset, bfrozen)) else NotImplemented

        def __xor__(self, o):
            return self.symmetric_difference(o) if isinstance(o, (bset, bfrozen)) else NotImplemented

        def __ror__(self, o):
            return SimSet(o).union(self)

        def __rand__(self, o):
            return SimSet(o).intersection(self)

        def __rsub__(self, o):
            return SimSet(o).difference(self)

        def __rxor__(self, o):
            return SimSet(o).symmetric_difference(self)

        def __ior__(self, o):
            self.update(o)
            return self

        def __iand__(self, o):
            self.intersection_update(o)
            return self

        def __isub__(self, o):
            self.difference_update(o)
            return self

        def __ixor__(self, o):
            self.symmetric_difference_update(o)
            return self

        def __repr__(self):
            return 'set(%r)' % (list(self),)

        def __reduce__(self):
            return (bset, (list(self._seq),))

    class SimFrozenSet(bfrozen, metaclass=_FrozenMeta):
        __slots__ = ('_perm',)

        def __new__(cls, iterable=()):
            seq = list(dict.fromkeys(iterable))
            self = bfrozen.__new__(cls, seq)
            counter[0] += 1
            self._perm = _permute(seq, mode, seed, counter[0])
            return self

        def __iter__(self):
            return iter(self._perm)

        def union(self, *others):
            r = list(self)
            for o in others:
                r.extend(o)
            return SimFrozenSet(r)

        def intersection(self, *others):
            r = list(self)
            for o in others:
                o = bset(o)
                r = [x for x in r if x in o]
            return SimFrozenSet(r)

        def difference(self, *others):
            r = list(self)
            for o in others:
                o = bset(o)
                r = [x for x in r if x not in o]
            return SimFrozenSet(r)

        def symmetric_difference(self, o):
            o = list(o)
            return SimFrozenSet([x for x in self if x not in o] +
                                [x for x in o if x not in self])

        def copy(self):
            return self

        def __or__(self, o):
            return self.union(o) if isinstance(o, (bset, bfrozen)) else NotImplemented

        def __and__(self, o):
            return self.intersection(o) if isinstance(o, (bset, bfrozen)) else NotImplemented

        def __sub__(self, o):
            return self.difference(o) if isinstance(o, (bset, bfrozen)) else NotImplemented

        def __xor__(self, o):
            return self.symmetric_difference(o) if isinstance(o, (bset, bfrozen)) else NotImplemented

        def __repr__(self):
            return 'frozenset(%r)' % (list(self),)

        def __reduce__(self):
            return (bfrozen, (list(self._perm),))

    SimSet.__name__ = 'set'
    SimFrozenSet.__name__ = 'frozenset'
    return SimSet, SimFrozenSet


_memo = {}


def _stable(x, bhash=builtins.hash):
    """Like hash(), but the same whatever PYTHONHASHSEED is."""
    t = type(x)
    if t is str:
        h = _memo.get(x)
        if h is None:
            if len(_memo) > 200000:
                _memo.clear()
            h = _memo[x] = int.from_bytes(hashlib.blake2b(x.encode('utf-8', 'surrogatepass'),
                                                          digest_size=7).digest(), 'big')
        return h
    if t is bytes:
        return _stable(x.decode('latin-1')) + 1
    if isinstance(x, tuple):
        return bhash(tuple([_stable(y) for y in x]))
    return bhash(x)         # numbers; objects, whose __hash__ comes here again


def make_hash(salt, bits):
    bhash = builtins.hash
    mask = (1 << bits) - 1 if bits else -1

    def sim_hash(x):
        return bhash((salt, _stable(x))) & mask
    sim_hash.__name__ = 'hash'
    return sim_hash


SET_MODES = ('insertion', 'reverse', 'shuffle', 'shuffle', 'shuffle')


class Node(object):
    importing = None
    created = 0

    def __init__(self, seed=0, set_mode='shuffle', hash_bits=0, threading=None):
        self.seed = seed
        sset, sfrozen = make_set_types(mix(seed, 'set'), set_mode)
        self.seams = {'set': sset, 'frozenset': sfrozen, '__sim_set__': sset,
                      'hash': make_hash(mix(seed, 'hash'), hash_bits)}
        self.mods = {}
        self.stack = []
        self.threading = threading
        Node.created += 1

    @classmethod
    def of(cls, rng_or_seed, **kw):
        s = rng_or_seed if isinstance(rng_or_seed, int) else rng_or_seed.getrandbits(32)
        return cls(s, SET_MODES[mix(s, 'mode') % len(SET_MODES)],
                   (3 if mix(s, 'bits') % 7 == 0 else 0), **kw)

    # -- becoming the current process -------------------------------------
    def __enter__(self):
        mods = sys.modules
        outer = {k: mods[k] for k in list(mods) if k == PKG or k.startswith(PKG + '.')}
        for k in outer:
            del mods[k]
        mods.update(self.mods)
        thr = mods.get('threading')
        if self.threading is not None:
            mods['threading'] = self.threading
        self.stack.append((outer, Node.importing, thr))
        Node.importing = self
        return self

    def __exit__(self, *exc):
        mods = sys.modules
        outer, prev, thr = self.stack.pop()
        self.mods = {k: mods[k] for k in list(mods) if k == PKG or k.startswith(PKG + '.')}
        for k in self.mods:
            del mods[k]
        mods.update(outer)
        mods['threading'] = thr
        Node.importing = prev
        return False

    def imp(self, name):
        """Module of this node; only inside `with node`."""
        full = PKG + ('.' + name if name else '')
        m = sys.modules.get(full)
        return m if m is not None else importlib.import_module(full)

    @property
    def PatternMaker(self):
        return self.imp('pattern_maker').PatternMaker

    @property
    def Maker(self):
        return self.imp('pattern_maker').Maker

    @property
    def PatternMatcher(self):
        return self.imp('pattern_matcher').PatternMatcher

    @property
    def Matcher(self):
        return self.imp('pattern_matcher').Matcher

    @property
    def parse(self):
        return self.imp('parser').parse

    @property
    def fuzzy_digest(self):
        return self.imp('parser').fuzzy_digest

    @property
    def pformat(self):
        return self.imp('formatter').pformat

    @property
    def dump_tree(self):
        return self.imp('utils').dump_tree

    def config(self, mcn=None):
        cfg = self.imp('config').get_default_config()
        if mcn is not None:
            cfg.set('make', 'min_cluster_num', str(mcn))
        return cfg
