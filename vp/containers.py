"""dict/set replacements whose key comparison goes through == (and so through
the solver) whenever a key is not a plain concrete value."""
import types

from . import symb
from .symb import (C, Mem, SymBool, SymInt, SymStr, DigestTok, bits, mk_or, mk_str,
                   norm, refold, sbool, seq_eq, snot, U, is_sym, terms, by_value)

_PLAIN = (str, int, bool, type(None), bytes, float, type)
_plain_types = {}


def is_plain(k):
    """Hashable natively with concrete, content-complete equality."""
    t = type(k)
    if t in _PLAIN:
        return True
    if t is tuple or t is frozenset:
        for x in k:
            if not is_plain(x):
                return False
        return True
    if t is HashTok:
        return is_plain(k.x)
    p = _plain_types.get(t)
    if p is None:
        if t in (SymStr, SymInt, symb.SymBytes, SymBool, DigestTok):
            p = False
        elif issubclass(t, tuple):
            p = 'tuple' if t.__eq__ is tuple.__eq__ else False
        else:
            p = t.__eq__ is object.__eq__ and t.__hash__ is object.__hash__
        _plain_types[t] = p
    if p == 'tuple':
        for x in k:
            if not is_plain(x):
                return False
        return True
    return p


_MISSING = object()
HashTok = None      # set by models
_pyhash = {}


def _objhash(k):
    """The value of a hash method defined by the executed code, else None."""
    t = type(k)
    p = _pyhash.get(t)
    if p is None:
        h = t.__hash__
        p = _pyhash[t] = isinstance(h, types.FunctionType) and '_vp' in h.__globals__
    return t.__hash__(k) if p else None


def _hashable(k):
    if isinstance(k, (list, SDict)) or (isinstance(k, SSet) and not isinstance(k, SFrozenSet)) or isinstance(k, (dict, set)):
        raise TypeError("unhashable type: '%s'" % type(k).__name__)
    if type(k).__hash__ is None:
        raise TypeError("unhashable type: '%s'" % type(k).__name__)


class DView(object):
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def _list(self):
        es = self.d._entries()
        if self.kind == 'k':
            return [e[0] for e in es]
        if self.kind == 'v':
            return [e[1] for e in es]
        return [(e[0], e[1]) for e in es]

    def __iter__(self):
        return self.d._iter(self.kind)

    def __reversed__(self):
        return iter(self._list()[::-1])

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        if self.kind == 'k':
            return x in self.d
        return x in self._list()

    def __repr__(self):
        return 'DView(%r)' % self._list()

    def _set(self):
        return SSet(self._list())

    def __and__(self, o):
        return self._set() & SSet(o)

    def __or__(self, o):
        return self._set() | SSet(o)

    def __sub__(self, o):
        return self._set() - SSet(o)

    def __rsub__(self, o):
        return SSet(o) - self._set()

    def __xor__(self, o):
        return self._set() ^ SSet(o)

    def __eq__(self, o):
        return self._set() == SSet(o)

    __hash__ = None


class SDict(object):
    __slots__ = ('_p', '_x', '_n', '__weakref__', '__dict__')

    def __init__(self, *a, **k):
        self._p = {}
        self._x = []
        self._n = 0
        self._fill(a, k)

    def _fill(self, a, k):
        if a:
            if len(a) > 1:
                raise TypeError('dict expected at most 1 argument')
            self.update(a[0])
        if k:
            self.update(k)

    # -- internals
    def _entries(self):
        es = list(self._p.values())
        if self._x:
            es += self._x
            es.sort(key=lambda e: e[2])
        return es

    def _iter(self, kind):
        n = len(self)
        for e in self._entries():
            if len(self) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield e[0] if kind == 'k' else e[1] if kind == 'v' else (e[0], e[1])

    def _find(self, k):
        if is_plain(k):
            e = self._p.get(k, None)
            if e is not None:
                return e
            for e in self._x:
                if e[0] == k:
                    return e
            return None
        _hashable(k)
        for e in self._x:
            if e[0] is k:
                return e
        h = _objhash(k)
        if h is not None:
            for e in self._x:
                if e[3] is not None and h == e[3] and e[0] == k:
                    return e
            return None
        if self._p and not (type(k) not in (SymStr, symb.SymBytes, SymInt, DigestTok, SymBool)
                            and not isinstance(k, tuple) and all(type(q) in _PLAIN for q in self._p)
                            and not _compares_with_plain(k)):
            for e in list(self._p.values()):
                if e[0] == k:
                    return e
        for e in self._x:
            if e[0] == k:
                return e
        return None

    def _contains(self, k):
        """bool or SymBool (no fork when that can be avoided)."""
        if is_plain(k):
            if k in self._p:
                return True
            if not self._x:
                return False
        if type(k) in (SymStr, symb.SymBytes):
            keys = list(self._p) + [e[0] for e in self._x]
            t = k.c
            out = []
            for q in keys:
                o = k._other(q)
                if o is None:
                    if type(q) not in _PLAIN:
                        return self._find(k) is not None
                    continue
                if len(o) == len(t):
                    out.append(seq_eq(t, o))
            return sbool(mk_or(out))
        return self._find(k) is not None

    # -- mapping protocol
    def __contains__(self, k):
        return bool(self._contains(k))

    def __getitem__(self, k):
        if type(k) is SymStr and len(k.c) == 1 and not self._x and len(self._p) > 4:
            r = self._table(k)
            if r is not _MISSING:
                return r
        e = self._find(k)
        if e is None:
            return self.__missing__(k)
        return e[1]

    def __missing__(self, k):
        raise KeyError(k)

    def _table(self, k):
        """Lookup of a symbolic character in a constant table: one branch per
        group of equally shaped string values instead of one per key."""
        c = norm(k.c[0])
        if type(c) is int:
            return _MISSING
        vals = {}
        inside = 0
        for code, m in by_value(c).items():
            e = self._p.get(chr(code))
            if e is not None:
                vals[code] = e[1]
                inside |= m
        if not bool(sbool(refold(Mem(c.v, inside)))):
            return self.__missing__(k)
        groups = {}
        bv = by_value(c)
        for code, m in bv.items():
            v = vals[code]
            g = ('s', len(v)) if type(v) is str else ('o', id(v))
            groups.setdefault(g, []).append((code, m, v))
        items = list(groups.items())
        for n, (g, xs) in enumerate(items):
            gm = 0
            for _, m, _v in xs:
                gm |= m
            if n < len(items) - 1 and not bool(sbool(refold(Mem(c.v, gm)))):
                continue
            if g[0] == 'o' or all(v == xs[0][2] for _, _, v in xs):
                return xs[0][2]
            tabs = [dict() for _ in range(g[1])]
            for _, m, v in xs:
                for i in bits(m):
                    for j, ch in enumerate(v):
                        tabs[j][i] = ord(ch)
            return mk_str([C(c.v, t) for t in tabs])
        raise symb.Unsupported('table lookup')

    def __setitem__(self, k, v):
        e = self._find(k)
        if e is not None:
            e[1] = v
            return
        self._n += 1
        e = [k, v, self._n, None]
        if is_plain(k):
            self._p[k] = e
        else:
            e[3] = _objhash(k)
            self._x.append(e)

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        self._drop(e)

    def _drop(self, e):
        if is_plain(e[0]):
            del self._p[e[0]]
        else:
            self._x = [x for x in self._x if x is not e]

    def __len__(self):
        return len(self._p) + len(self._x)

    def __iter__(self):
        return self._iter('k')

    def __reversed__(self):
        return iter([e[0] for e in self._entries()][::-1])

    def __eq__(self, o):
        if not isinstance(o, (SDict, dict)):
            return False
        if len(o) != len(self):
            return False
        for k, v in self.items():
            if isinstance(o, SDict):
                e = o._find(k)
                if e is None or not (e[1] == v):
                    return False
            else:
                for k2, v2 in o.items():
                    if k2 == k:
                        if not (v2 == v):
                            return False
                        break
                else:
                    return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def get(self, k, default=None):
        if type(k) is SymStr and len(k.c) == 1 and not self._x and len(self._p) > 4:
            if not self.__contains__(k):
                return default
            return self[k]
        e = self._find(k)
        return default if e is None else e[1]

    def keys(self):
        return DView(self, 'k')

    def values(self):
        return DView(self, 'v')

    def items(self):
        return DView(self, 'i')

    iteritems = None
    itervalues = None

    def setdefault(self, k, d=None):
        e = self._find(k)
        if e is None:
            self[k] = d
            return d
        return e[1]

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, (SDict, dict)) or hasattr(o, 'keys'):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def pop(self, k, *d):
        e = self._find(k)
        if e is None:
            if d:
                return d[0]
            raise KeyError(k)
        self._drop(e)
        return e[1]

    def popitem(self, last=True):
        es = self._entries()
        if not es:
            raise KeyError('dictionary is empty')
        e = es[-1] if last else es[0]
        self._drop(e)
        return e[0], e[1]

    def clear(self):
        self._p = {}
        self._x = []

    def copy(self):
        r = self.__class__.__new__(self.__class__)
        SDict.__init__(r)
        for k, v in self.items():
            SDict.__setitem__(r, k, v)
        return r

    __copy__ = copy

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % (e[0], e[1]) for e in self._entries())

    def move_to_end(self, k, last=True):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        if last:
            self._n += 1
            e[2] = self._n
        else:
            e[2] = min(x[2] for x in self._entries()) - 1
        es = self._entries()
        es.sort(key=lambda x: x[2])
        self._p = {x[0]: x for x in es if is_plain(x[0])}


del SDict.iteritems, SDict.itervalues


def _compares_with_plain(k):
    """Could an object with its own __eq__ equal a str/int?  Only subclasses can."""
    return isinstance(k, (str, int, bytes, float))


class SOrderedDict(SDict):
    pass


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super(SDefaultDict, self).__init__(*a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self[k] = self.default_factory()
        return v

    def copy(self):
        return SDefaultDict(self.default_factory, self)


class SCounter(SDict):
    def __init__(self, *a, **k):
        SDict.__init__(self)
        self.update(*a, **k)

    def __missing__(self, k):
        return 0

    def __getitem__(self, k):
        e = self._find(k)
        return 0 if e is None else e[1]

    def update(self, *a, **kw):
        for o in a:
            if o is None:
                continue
            if isinstance(o, (SDict, dict)):
                for k, v in o.items():
                    self[k] = self[k] + v
            else:
                for k in o:
                    self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def subtract(self, *a, **kw):
        for o in a:
            if isinstance(o, (SDict, dict)):
                for k, v in o.items():
                    self[k] = self[k] - v
            else:
                for k in o:
                    self[k] = self[k] - 1
        for k, v in kw.items():
            self[k] = self[k] - v

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda e: -e[1])
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())

    def copy(self):
        return SCounter(self)

    def __add__(self, o):
        r = SCounter(self)
        r.update(o)
        for k, v in list(r.items()):
            if v <= 0:
                del r[k]
        return r

    def __sub__(self, o):
        r = SCounter(self)
        r.subtract(o)
        for k, v in list(r.items()):
            if v <= 0:
                del r[k]
        return r

    def __delitem__(self, k):
        if self._find(k) is not None:
            SDict.__delitem__(self, k)


class SSet(object):
    """Iterates in insertion order, or reversed when the path asks for it: the
    real order of a set is arbitrary."""
    __slots__ = ('_d', '__weakref__', '__dict__')

    def __init__(self, it=()):
        self._d = SDict()
        for x in it:
            self._d[x] = None

    @classmethod
    def _from(cls, it):
        r = SSet.__new__(cls)
        SSet.__init__(r, it)
        return r

    def _list(self):
        l = [e[0] for e in self._d._entries()]
        if symb.cur is not None and getattr(symb.cur, 'set_reversed', False):
            l.reverse()
        return l

    def __iter__(self):
        n = len(self._d)
        for x in self._list():
            if len(self._d) != n:
                raise RuntimeError('Set changed size during iteration')
            yield x

    def __len__(self):
        return len(self._d)

    def _contains(self, k):
        return self._d._contains(k)

    def __contains__(self, k):
        return bool(self._d._contains(k))

    def add(self, x):
        if self._d._find(x) is None:
            self._d[x] = None

    def remove(self, x):
        del self._d[x]

    def discard(self, x):
        self._d.pop(x, None)

    def pop(self):
        l = self._list()
        if not l:
            raise KeyError('pop from an empty set')
        self._d.pop(l[0])
        return l[0]

    def clear(self):
        self._d = SDict()

    def copy(self):
        return self._from(self)

    __copy__ = copy

    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)

    def union(self, *os):
        r = self._from(self)
        for o in os:
            for x in o:
                SSet.add(r, x)
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            o = o if isinstance(o, SSet) else SSet(o)
            r = self._from([x for x in r if x in o])
        return self._from(r)

    def difference(self, *os):
        r = self
        for o in os:
            o = o if isinstance(o, SSet) else SSet(o)
            r = self._from([x for x in r if x not in o])
        return self._from(r)

    def symmetric_difference(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return self._from([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, *os):
        self._d = self.difference(*os)._d

    def intersection_update(self, *os):
        self._d = self.intersection(*os)._d

    def _chk(self, o):
        return isinstance(o, (SSet, set, frozenset, DView))

    def __or__(self, o):
        return self.union(o) if self._chk(o) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if self._chk(o) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if self._chk(o) else NotImplemented

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._chk(o) else NotImplemented

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self._d = self.intersection(o)._d
        return self

    def __isub__(self, o):
        self._d = self.difference(o)._d
        return self

    def issubset(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        for x in self:
            if x not in o:
                return False
        return True

    def issuperset(self, o):
        for x in o:
            if x not in self:
                return False
        return True

    def isdisjoint(self, o):
        for x in o:
            if x in self:
                return False
        return True

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not self._chk(o):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return 'SSet(%r)' % self._list()


class SFrozenSet(SSet):
    __slots__ = ()

    def __hash__(self):
        return 0
