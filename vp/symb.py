"""Symbolic values and the path context.

Every symbolic input is a sequence (str or bytes) of concrete length whose
elements are *character terms*.  A character term is an int (known) or C(var,
tab): the value of a solver variable, optionally mapped through a finite table.
Solver variables are z3 integers ranging over a finite universe of code points
(all of ASCII and a list of representatives beyond it, see EXTRA).

A branch of the executed Python code on a symbolic truth value is a *decision*;
the explorer (explore.py) re-executes the code once per feasible decision
sequence.  Feasibility and every assertion is decided by z3; a per-variable
domain (bit mask) in front of it answers questions about variables that are in
no relation with any other variable.
"""
import time

import z3

# Code points beyond ASCII that stand for the rest of Unicode / of the bytes.
EXTRA = [0x80, 0x85, 0xA0, 0xA9, 0xB2, 0xC3, 0xDF, 0xE9, 0xFF, 0x130, 0x660,
         0x2003, 0x2100, 0x3000, 0x4E2D, 0xD800, 0xFF10, 0x1F600]
U = list(range(128)) + EXTRA
IDX = {c: i for i, c in enumerate(U)}
NU = len(U)
FULL = (1 << NU) - 1
ASCII_MASK = (1 << 128) - 1


def mask_of(codes):
    m = 0
    for c in codes:
        i = IDX.get(c)
        if i is not None:
            m |= 1 << i
    return m


def mask_of_str(s):
    return mask_of(map(ord, s))


_bits_cache = {}


def bits(mask):
    r = _bits_cache.get(mask)
    if r is None:
        r, m, i = [], mask, 0
        while m:
            low = m & -m
            r.append(low.bit_length() - 1)
            m ^= low
        r = tuple(r)
        if len(_bits_cache) < 20000:
            _bits_cache[mask] = r
    return r


def mask_pred(pred):
    return mask_of([c for c in U if pred(c)])


class PathAbort(BaseException):
    """The rest of this path is outside the assumptions."""


class PathTimeout(BaseException):
    """The code under test did not finish on this path."""


class Unsupported(BaseException):
    """The engine met something it cannot encode."""


cur = None  # the Ctx of the running path


def set_cur(ctx):
    global cur
    cur = ctx


# ------------------------------------------------------------------ terms

class Var(object):
    __slots__ = ('name', 'dom0', 'z')

    def __init__(self, name, dom0):
        self.name = name
        self.dom0 = dom0
        self.z = z3.Int(name)

    def __repr__(self):
        return 'Var(%s)' % self.name


class C(object):
    """Character term: var, optionally mapped through tab {universe index: code}."""
    __slots__ = ('v', 'tab')

    def __init__(self, v, tab=None):
        self.v = v
        self.tab = tab

    def __repr__(self):
        return '<%s%s>' % (self.v.name, '*' if self.tab else '')

    def ev(self, model):
        x = model[self.v]
        return x if self.tab is None else self.tab[IDX[x]]


def norm(c):
    """Fold a term whose value is determined on this path."""
    if type(c) is int:
        return c
    d = cur.dom[c.v]
    if c.tab is None:
        if d & (d - 1) == 0 and d:
            return U[d.bit_length() - 1]
        return c
    vals = {c.tab[i] for i in bits(d)}
    if len(vals) == 1:
        return vals.pop()
    if all(c.tab[i] == U[i] for i in bits(d)):
        return C(c.v)
    return c


def by_value(c):
    """{code: mask of universe indices} for a term on the current domain."""
    r = {}
    for i in bits(cur.dom[c.v]):
        code = U[i] if c.tab is None else c.tab[i]
        r[code] = r.get(code, 0) | (1 << i)
    return r


# ------------------------------------------------------------------ formulas

_mem_z3 = {}


class Mem(object):
    __slots__ = ('v', 'm')

    def __init__(self, v, m):
        self.v = v
        self.m = m

    def ev(self, model):
        return bool(self.m >> IDX[model[self.v]] & 1)

    def z(self):
        key = (self.v.name, self.m)
        e = _mem_z3.get(key)
        if e is None:
            x = self.v.z
            parts = []
            codes = [U[i] for i in bits(self.m)]
            j = 0
            while j < len(codes):
                k = j
                while k + 1 < len(codes) and codes[k + 1] == codes[k] + 1:
                    k += 1
                if j == k:
                    parts.append(x == codes[j])
                else:
                    parts.append(z3.And(x >= codes[j], x <= codes[k]))
                j = k + 1
            e = z3.Or(*parts) if len(parts) != 1 else parts[0]
            if not parts:
                e = z3.BoolVal(False)
            if len(_mem_z3) < 50000:
                _mem_z3[key] = e
        return e

    def vars(self, acc):
        acc.add(self.v)

    def key(self):
        return ('m', self.v.name, self.m)


class Rel(object):
    """x == y or x < y over two plain variables."""
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b):
        self.op = op
        self.a = a
        self.b = b

    def ev(self, model):
        x, y = model[self.a], model[self.b]
        return x == y if self.op == '=' else x < y

    def z(self):
        return self.a.z == self.b.z if self.op == '=' else self.a.z < self.b.z

    def vars(self, acc):
        acc.add(self.a)
        acc.add(self.b)

    def key(self):
        return (self.op, self.a.name, self.b.name)


class Lin(object):
    """sum(coef*var) + const  op  0, op in '=', '<', '<='."""
    __slots__ = ('lin', 'k', 'op')

    def __init__(self, lin, k, op):
        self.lin = lin
        self.k = k
        self.op = op

    def _val(self, model):
        return self.k + sum(c * model[v] for v, c in self.lin.items())

    def ev(self, model):
        x = self._val(model)
        return x == 0 if self.op == '=' else x < 0 if self.op == '<' else x <= 0

    def z(self):
        e = z3.Sum([c * v.z for v, c in self.lin.items()]) + self.k
        return e == 0 if self.op == '=' else e < 0 if self.op == '<' else e <= 0

    def vars(self, acc):
        acc.update(self.lin)

    def key(self):
        return ('l', self.op, self.k, tuple(sorted((v.name, c) for v, c in self.lin.items())))


class Not(object):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def ev(self, model):
        return not self.a.ev(model)

    def z(self):
        return z3.Not(self.a.z())

    def vars(self, acc):
        self.a.vars(acc)

    def key(self):
        return ('n', self.a.key())


class And(object):
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs

    def ev(self, model):
        for x in self.xs:
            if not x.ev(model):
                return False
        return True

    def z(self):
        return z3.And(*[x.z() for x in self.xs])

    def vars(self, acc):
        for x in self.xs:
            x.vars(acc)

    def key(self):
        return ('a',) + tuple(x.key() for x in self.xs)


class Or(object):
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = xs

    def ev(self, model):
        for x in self.xs:
            if x.ev(model):
                return True
        return False

    def z(self):
        return z3.Or(*[x.z() for x in self.xs])

    def vars(self, acc):
        for x in self.xs:
            x.vars(acc)

    def key(self):
        return ('o',) + tuple(x.key() for x in self.xs)


def node_of(x):
    """bool | node | SymBool -> bool | node."""
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x.n
    if isinstance(x, (Mem, Rel, Lin, Not, And, Or)):
        return x
    return bool(x)


def refold(n):
    """Simplify a formula with the domains of the current path."""
    t = type(n)
    if t is bool:
        return n
    if t is Mem:
        d = cur.dom[n.v]
        k = d & n.m
        if k == 0:
            return False
        if k == d:
            return True
        return n
    if t is Rel:
        da, db = cur.dom[n.a], cur.dom[n.b]
        if n.op == '=':
            if da & db == 0:
                return False
            if da & (da - 1) == 0:
                return refold(Mem(n.b, da))
            if db & (db - 1) == 0:
                return refold(Mem(n.a, db))
        else:
            return refold_lt(n, da, db)
        return n
    if t is Not:
        return mk_not(refold(n.a))
    if t is And:
        return mk_and([refold(x) for x in n.xs])
    if t is Or:
        return mk_or([refold(x) for x in n.xs])
    return n


def _low(d):
    return (d & -d).bit_length() - 1


def _high(d):
    return d.bit_length() - 1


def refold_lt(n, da, db):
    if _high(da) < _low(db):
        return True
    if _low(da) >= _high(db):
        return False
    if da & (da - 1) == 0:
        i = _low(da)
        return refold(Mem(n.b, FULL & ~((1 << (i + 1)) - 1)))
    if db & (db - 1) == 0:
        i = _low(db)
        return refold(Mem(n.a, (1 << i) - 1))
    return n


def mk_not(n):
    if n is True:
        return False
    if n is False:
        return True
    if type(n) is Not:
        return n.a
    if type(n) is Mem:
        return Mem(n.v, FULL & ~n.m)
    return Not(n)


def mk_and(xs):
    out, seen = [], set()
    for x in xs:
        x = node_of(x)
        if x is True:
            continue
        if x is False:
            return False
        for y in (x.xs if type(x) is And else (x,)):
            k = y.key()
            if k not in seen:
                seen.add(k)
                out.append(y)
    if not out:
        return True
    return out[0] if len(out) == 1 else And(tuple(out))


def mk_or(xs):
    out, seen = [], set()
    mems = {}
    for x in xs:
        x = node_of(x)
        if x is False:
            continue
        if x is True:
            return True
        for y in (x.xs if type(x) is Or else (x,)):
            if type(y) is Mem:
                if y.v in mems:
                    i = mems[y.v]
                    out[i] = Mem(y.v, out[i].m | y.m)
                else:
                    mems[y.v] = len(out)
                    out.append(y)
                continue
            k = y.key()
            if k not in seen:
                seen.add(k)
                out.append(y)
    if mems:
        out2 = []
        for y in out:
            if type(y) is Mem:
                y = refold(y)
                if y is True:
                    return True
                if y is False:
                    continue
            out2.append(y)
        out = out2
    if not out:
        return False
    return out[0] if len(out) == 1 else Or(tuple(out))


class SymBool(object):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return cur.branch(self.n)

    def __and__(self, o):
        return sbool(mk_and([self.n, node_of(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return sbool(mk_or([self.n, node_of(o)]))

    __ror__ = __or__

    def __invert__(self):
        return sbool(mk_not(self.n))

    def __eq__(self, o):
        o = node_of(o)
        if o is True:
            return self
        if o is False:
            return ~self
        return sbool(mk_or([mk_and([self.n, o]), mk_and([mk_not(self.n), mk_not(o)])]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return snot(r)

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __repr__(self):
        return 'SymBool'


def sbool(n):
    return n if n is True or n is False else SymBool(n)


def snot(x):
    if type(x) is SymBool:
        return sbool(mk_not(x.n))
    return not x


# ------------------------------------------------------------------ char ops

def mem(c, mask):
    """c in {codes of mask} -> bool | node."""
    if type(c) is int:
        i = IDX.get(c)
        return i is not None and bool(mask >> i & 1)
    d = cur.dom[c.v]
    if c.tab is None:
        m = mask
    else:
        m = 0
        for i in bits(d):
            j = IDX.get(c.tab[i])
            if j is not None and mask >> j & 1:
                m |= 1 << i
    k = d & m
    if k == 0:
        return False
    if k == d:
        return True
    return Mem(c.v, k)


def mem_pred(c, pred):
    if type(c) is int:
        return bool(pred(c))
    m = 0
    d = cur.dom[c.v]
    for i in bits(d):
        if pred(U[i] if c.tab is None else c.tab[i]):
            m |= 1 << i
    if m == 0:
        return False
    if m == d:
        return True
    return Mem(c.v, m)


def ceq(a, b):
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        return mem_pred(a, lambda x: x == b) if a.tab is not None else \
            (mem(a, 1 << IDX[b]) if b in IDX else False)
    if a.v is b.v:
        if a.tab is None and b.tab is None:
            return True
        m = 0
        d = cur.dom[a.v]
        for i in bits(d):
            x = U[i] if a.tab is None else a.tab[i]
            y = U[i] if b.tab is None else b.tab[i]
            if x == y:
                m |= 1 << i
        return refold(Mem(a.v, m))
    if a.tab is None and b.tab is None:
        return refold(Rel('=', a.v, b.v))
    va, vb = by_value(a), by_value(b)
    return mk_or([mk_and([refold(Mem(a.v, va[x])), refold(Mem(b.v, vb[x]))])
                  for x in va if x in vb])


def clt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(a) is int:
        return mem_pred(b, lambda x: a < x)
    if type(b) is int:
        return mem_pred(a, lambda x: x < b)
    if a.tab is None and b.tab is None:
        if a.v is b.v:
            return False
        return refold(Rel('<', a.v, b.v))
    va = by_value(a)
    return mk_or([mk_and([refold(Mem(a.v, m)), mem_pred(b, lambda y, x=x: x < y)])
                  for x, m in va.items()])


def seq_eq(a, b):
    """a, b: equal-length tuples of terms."""
    out = []
    for x, y in zip(a, b):
        e = ceq(x, y)
        if e is False:
            return False
        if e is not True:
            out.append(e)
    return mk_and(out)


def seq_lt(a, b, or_equal=False):
    n = min(len(a), len(b))
    # build from the end
    if len(a) < len(b):
        r = True
    elif len(a) > len(b):
        r = False
    else:
        r = or_equal
    for i in range(n - 1, -1, -1):
        l = clt(a[i], b[i])
        if l is True:
            r = True
            continue
        e = ceq(a[i], b[i])
        if e is False:
            r = l
        else:
            r = mk_or([l, mk_and([e, r])])
    return r


# ------------------------------------------------------------------ ints

class SymInt(object):
    __slots__ = ('lin', 'k')

    def __init__(self, lin, k):
        self.lin = lin
        self.k = k

    def _ev(self, model):
        return self.k + sum(c * model[v] for v, c in self.lin.items())

    def conc(self):
        return cur.conc(self._ev, lambda v: int_cmp(self, v, '='))

    __int__ = __index__ = __trunc__ = conc

    def __bool__(self):
        n = int_cmp(self, 0, '=')
        return not (n if type(n) is bool else cur.branch(n))

    def __eq__(self, o):
        if type(o) in (int, bool, SymInt):
            return sbool(int_cmp(self, o, '='))
        if isinstance(o, float):
            return self.conc() == o
        return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        return self._c(o, '<')

    def __le__(self, o):
        return self._c(o, '<=')

    def __gt__(self, o):
        return snot(self._c(o, '<='))

    def __ge__(self, o):
        return snot(self._c(o, '<'))

    def _c(self, o, op):
        if type(o) in (int, bool, SymInt):
            return sbool(int_cmp(self, o, op))
        c = self.conc()
        return c < o if op == '<' else c <= o

    def __add__(self, o):
        if type(o) in (int, bool):
            return mk_int(self.lin, self.k + o)
        if type(o) is SymInt:
            l = dict(self.lin)
            for v, c in o.lin.items():
                l[v] = l.get(v, 0) + c
            return mk_int(l, self.k + o.k)
        return self.conc() + o

    __radd__ = __add__

    def __neg__(self):
        return mk_int({v: -c for v, c in self.lin.items()}, -self.k)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) in (int, bool):
            return mk_int({v: c * o for v, c in self.lin.items()}, self.k * o)
        return self.conc() * o

    def __rmul__(self, o):
        if type(o) in (int, bool):
            return self * o
        return o * self.conc()

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        return self.conc() // o

    def __rfloordiv__(self, o):
        return o // self.conc()

    def __truediv__(self, o):
        return self.conc() / o

    def __rtruediv__(self, o):
        return o / self.conc()

    def __mod__(self, o):
        return self.conc() % o

    def __rmod__(self, o):
        return o % self.conc()

    def __pow__(self, o):
        return self.conc() ** o

    def __rpow__(self, o):
        return o ** self.conc()

    def __hash__(self):
        raise Unsupported('hash of symbolic int')

    def __repr__(self):
        return '<symint>'

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __str__(self):
        return str(self.conc())


def mk_int(lin, k):
    l = {}
    for v, c in lin.items():
        if c == 0:
            continue
        d = cur.dom[v]
        if d & (d - 1) == 0:
            k += c * U[_low(d)]
        else:
            l[v] = c
    if not l:
        return k
    return SymInt(l, k)


def int_cmp(a, o, op):
    d = a - o
    if type(d) is int:
        return d == 0 if op == '=' else d < 0 if op == '<' else d <= 0
    if len(d.lin) == 1:
        (v, c), = d.lin.items()
        m = 0
        for i in bits(cur.dom[v]):
            x = c * U[i] + d.k
            if (x == 0 if op == '=' else x < 0 if op == '<' else x <= 0):
                m |= 1 << i
        return refold(Mem(v, m))
    return Lin(d.lin, d.k, op)


# ------------------------------------------------------------------ sequences

def _pm(fn):
    return mask_pred(lambda c: fn(chr(c)))


MASKS = {n: _pm(getattr(str, n)) for n in
         ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isascii', 'isdecimal',
          'isnumeric', 'isprintable', 'isupper', 'islower', 'istitle')}
BMASKS = {n: mask_pred(lambda c, n=n: c < 256 and getattr(bytes([c]), n)()) for n in
          ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isascii', 'isupper', 'islower')}


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymBytes or t is SymInt or t is SymBool or t is DigestTok


def terms(x):
    t = type(x)
    if t is SymStr or t is SymBytes:
        return x.c
    if isinstance(x, str):
        return tuple(map(ord, x))
    if isinstance(x, (bytes, bytearray)):
        return tuple(x)
    return None


def mk_str(cs):
    cs = tuple([c if type(c) is int else norm(c) for c in cs])
    for c in cs:
        if type(c) is not int:
            return SymStr(cs)
    return ''.join(map(chr, cs))


def mk_bytes(cs):
    cs = tuple([c if type(c) is int else norm(c) for c in cs])
    for c in cs:
        if type(c) is not int:
            return SymBytes(cs)
    return bytes(cs)


class SymSeq(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    # -- conversions
    def ev(self, model):
        return [x if type(x) is int else x.ev(model) for x in self.c]

    def conc(self):
        """Concretise: one branch per value (every value is explored)."""
        return self._nat(cur.conc(lambda m: tuple(self.ev(m)), lambda v: seq_eq(self.c, v)))

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __hash__(self):
        raise Unsupported('native hash of a symbolic string')

    def _other(self, o):
        """Terms of o when it is of the same kind, else None."""
        if type(o) is type(self):
            return o.c
        if isinstance(o, self.NATIVE):
            return terms(o)
        return None

    def _need(self, o):
        t = self._other(o)
        if t is None:
            raise TypeError('expected %s, got %s' % (self.NATIVE.__name__, type(o).__name__))
        return t

    def __eq__(self, o):
        t = self._other(o)
        if t is None or len(t) != len(self.c):
            return False
        return sbool(seq_eq(self.c, t))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        t = self._other(o)
        return NotImplemented if t is None else sbool(seq_lt(self.c, t))

    def __le__(self, o):
        t = self._other(o)
        return NotImplemented if t is None else sbool(seq_lt(self.c, t, True))

    def __gt__(self, o):
        t = self._other(o)
        return NotImplemented if t is None else sbool(seq_lt(t, self.c))

    def __ge__(self, o):
        t = self._other(o)
        return NotImplemented if t is None else sbool(seq_lt(t, self.c, True))

    def __add__(self, o):
        t = self._other(o)
        if t is None:
            return NotImplemented
        return self._mk(self.c + t)

    def __radd__(self, o):
        t = self._other(o)
        if t is None:
            return NotImplemented
        return self._mk(t + self.c)

    def __mul__(self, n):
        return self._mk(self.c * int(n))

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[x.conc() if type(x) is SymInt else x for x in (i.start, i.stop, i.step)])
            return self._mk(self.c[i])
        if type(i) is SymInt:
            i = i.conc()
        return self._elem(self.c[i])

    def __iter__(self):
        for c in self.c:
            yield self._elem(c)

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        t = self._need(o)
        k = len(t)
        return sbool(mk_or([seq_eq(self.c[i:i + k], t) for i in range(len(self.c) - k + 1)]))

    def _range(self, start, end):
        s, e, _ = slice(start, end).indices(len(self.c))
        return s, e

    def find(self, sub, start=None, end=None):
        t = self._needi(sub)
        n = len(self.c)
        if start is not None and int(start) > n:
            return -1
        s, e = self._range(start, end)
        k = len(t)
        for i in range(s, e - k + 1):
            if sbool(seq_eq(self.c[i:i + k], t)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        t = self._needi(sub)
        if start is not None and int(start) > len(self.c):
            return -1
        s, e = self._range(start, end)
        k = len(t)
        for i in range(e - k, s - 1, -1):
            if sbool(seq_eq(self.c[i:i + k], t)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        t = self._needi(sub)
        s, e = self._range(start, end)
        k = len(t)
        if k == 0:
            return max(e - s + 1, 0)
        n = 0
        while s <= e - k:
            if sbool(seq_eq(self.c[s:s + k], t)):
                n += 1
                s += k
            else:
                s += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sbool(mk_or([node_of(self.startswith(x, start, end)) for x in p]))
        t = self._need(p)
        s, e = self._range(start, end)
        seg = self.c[s:e]
        if len(t) > len(seg):
            return False
        return sbool(seq_eq(seg[:len(t)], t))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sbool(mk_or([node_of(self.endswith(x, start, end)) for x in p]))
        t = self._need(p)
        s, e = self._range(start, end)
        seg = self.c[s:e]
        if len(t) > len(seg):
            return False
        return sbool(seq_eq(seg[len(seg) - len(t):], t))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if len(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            c, i, n = self.c, 0, len(self.c)
            while True:
                while i < n and self._isspace(c[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and self._isspace(c[j - 1]):
                        j -= 1
                    out.append(self._mk(c[i:j]))
                    break
                j = i
                while j < n and not self._isspace(c[j]):
                    j += 1
                out.append(self._mk(c[i:j]))
                i = j
            return out
        k = len(sep)
        if k == 0:
            raise ValueError('empty separator')
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(self._mk(self.c[i:j]))
            i = j + k
        out.append(self._mk(self.c[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            r = self._mk(self.c[::-1])
            if maxsplit < 0:
                return self.split()
            parts = r.split(None, maxsplit) if is_sym(r) else r.split(None, maxsplit)
            return [p[::-1] for p in reversed(parts)]
        k = len(sep)
        out = []
        e = len(self.c)
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.rfind(sep, 0, e)
            if j < 0:
                break
            out.append(self._mk(self.c[j + k:e]))
            e = j
        out.append(self._mk(self.c[:e]))
        out.reverse()
        return out

    def partition(self, sep):
        j = self.find(sep)
        if j < 0:
            return self, self.EMPTY, self.EMPTY
        return self._mk(self.c[:j]), sep, self._mk(self.c[j + len(sep):])

    def rpartition(self, sep):
        j = self.rfind(sep)
        if j < 0:
            return self.EMPTY, self.EMPTY, self
        return self._mk(self.c[:j]), sep, self._mk(self.c[j + len(sep):])

    def _strip_pred(self, chars):
        if chars is None:
            return self._isspace
        t = self._need(chars)
        return lambda c: bool(sbool(mk_or([ceq(c, x) for x in t])))

    def lstrip(self, chars=None):
        p = self._strip_pred(chars)
        i = 0
        while i < len(self.c) and p(self.c[i]):
            i += 1
        return self._mk(self.c[i:])

    def rstrip(self, chars=None):
        p = self._strip_pred(chars)
        j = len(self.c)
        while j > 0 and p(self.c[j - 1]):
            j -= 1
        return self._mk(self.c[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, old, new, count=-1):
        t, r = self._need(old), self._need(new)
        k = len(t)
        if k == 0:
            return getattr(self.conc(), 'replace')(old, new, count)
        out = []
        i = 0
        done = 0
        while i <= len(self.c) - k and (count < 0 or done < count):
            if sbool(seq_eq(self.c[i:i + k], t)):
                out.extend(r)
                i += k
                done += 1
            else:
                out.append(self.c[i])
                i += 1
        out.extend(self.c[i:])
        return self._mk(out)

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            t = self._other(x)
            if t is None:
                raise TypeError('sequence item %d: expected %s instance, %s found'
                                % (i, self.NATIVE.__name__, type(x).__name__))
            if i:
                out.extend(self.c)
            out.extend(t)
        return self._mk(out)

    def _all(self, name):
        if not self.c:
            return name == 'isascii'
        return sbool(mk_and([mem(c, self.PM[name]) for c in self.c]))

    def isdigit(self):
        return self._all('isdigit')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isascii(self):
        return self._all('isascii')

    def isupper(self):
        return sbool(mk_and([mk_not(mem(c, self.PM['islower'])) for c in self.c] +
                            [mk_or([mem(c, self.PM['isupper']) for c in self.c])]))

    def islower(self):
        return sbool(mk_and([mk_not(mem(c, self.PM['isupper'])) for c in self.c] +
                            [mk_or([mem(c, self.PM['islower']) for c in self.c])]))

    def _map(self, fn):
        out = []
        for c in self.c:
            c = norm(c)
            if type(c) is int:
                out.extend(fn(c))
                continue
            tab = {}
            ok = True
            for i in bits(cur.dom[c.v]):
                r = fn(U[i] if c.tab is None else c.tab[i])
                if len(r) != 1:
                    ok = False
                    break
                tab[i] = r[0]
            if ok:
                out.append(C(c.v, tab))
            else:
                v = self._mk((c,))
                out.extend(fn(terms(v.conc() if is_sym(v) else v)[0]))
        return self._mk(out)

    def lower(self):
        return self._map(lambda c: terms(self._nat((c,)).lower()))

    def upper(self):
        return self._map(lambda c: terms(self._nat((c,)).upper()))

    def swapcase(self):
        return self._map(lambda c: terms(self._nat((c,)).swapcase()))

    def splitlines(self, keepends=False):
        out, last = [], 0
        n = len(self.c)
        i = 0
        eol = [10, 13] if self.NATIVE is bytes else [10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029]
        m = mask_of(eol)
        while i < n:
            if sbool(mem(self.c[i], m)):
                j = i + 1
                if j < n and sbool(mk_and([ceq(self.c[i], 13), ceq(self.c[j], 10)])):
                    j += 1
                out.append(self._mk(self.c[last:j if keepends else i]))
                last = i = j
            else:
                i += 1
        if last < n:
            out.append(self._mk(self.c[last:]))
        return out

    def ljust(self, w, f=None):
        f = terms(f) if f is not None else (32,)
        return self._mk(self.c + f * (int(w) - len(self.c)))

    def rjust(self, w, f=None):
        f = terms(f) if f is not None else (32,)
        return self._mk(f * (int(w) - len(self.c)) + self.c)

    def __getattr__(self, name):
        # Any other method: concretise and delegate.
        if name.startswith('__') or not hasattr(self.NATIVE, name):
            raise AttributeError(name)

        def call(*a, **k):
            cur.stats['fallback:' + name] += 1
            a = [x.conc() if is_sym(x) and hasattr(x, 'conc') else x for x in a]
            return getattr(self.conc(), name)(*a, **k)
        return call

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymStr(SymSeq):
    __slots__ = ()
    __class__ = property(lambda self: str)
    NATIVE = str
    EMPTY = ''
    PM = MASKS

    @staticmethod
    def _mk(cs):
        return mk_str(cs)

    @staticmethod
    def _nat(vals):
        return ''.join(map(chr, vals))

    @staticmethod
    def _elem(c):
        return mk_str((c,))

    _needi = SymSeq._need

    def _isspace(self, c):
        return bool(sbool(mem(c, MASKS['isspace'])))

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isprintable(self):
        if not self.c:
            return True
        return self._all('isprintable')

    def casefold(self):
        return self._map(lambda c: terms(chr(c).casefold()))

    def translate(self, table):
        def fn(c):
            try:
                r = table[c]
            except LookupError:
                return (c,)
            if r is None:
                return ()
            return (r,) if isinstance(r, int) else terms(r)
        return self._map(fn)

    def encode(self, encoding='utf-8', errors='strict'):
        e = encoding.lower().replace('_', '-')
        out = []
        for c in self.c:
            if type(c) is int or not (e in ('utf-8', 'utf8', 'ascii', 'latin-1') and
                                      bool(sbool(mem(c, ASCII_MASK)))):
                v = c if type(c) is int else ord(mk_str((c,)).conc() if type(norm(c)) is not int else chr(norm(c)))
                out.extend(chr(v).encode(encoding, errors))
            else:
                out.append(c)
        return mk_bytes(out)

    def __mod__(self, args):
        from .models import mod_format
        return mod_format(self, args)

    def format(self, *a, **k):
        from .models import str_format
        return str_format(self.conc(), a, k)

    def __repr__(self):
        return '<symstr %s>' % ''.join(chr(c) if type(c) is int else '\u25a1' for c in self.c)

    def __str__(self):
        if cur is not None:
            cur.stats['str_leak'] += 1
        return repr(self)

    def __format__(self, spec):
        if cur is not None:
            cur.stats['str_leak'] += 1
        return repr(self)


class SymBytes(SymSeq):
    __slots__ = ()
    __class__ = property(lambda self: bytes)
    NATIVE = bytes
    EMPTY = b''
    PM = BMASKS

    @staticmethod
    def _mk(cs):
        return mk_bytes(cs)

    @staticmethod
    def _nat(vals):
        return bytes(vals)

    @staticmethod
    def _elem(c):
        c = norm(c)
        if type(c) is int:
            return c
        return char_int(c)

    def _needi(self, o):
        if type(o) is int:
            return (o,)
        return self._need(o)

    def _isspace(self, c):
        return bool(sbool(mem(c, BMASKS['isspace'])))

    def decode(self, encoding='utf-8', errors='strict'):
        e = encoding.lower().replace('_', '-')
        if e not in ('utf-8', 'utf8', 'ascii'):
            return self.conc().decode(encoding, errors)
        out = []
        i, n = 0, len(self.c)
        while i < n:
            c = norm(self.c[i])
            if sbool(mem(c, ASCII_MASK)):
                out.append(c)
                i += 1
                continue
            # a maximal run of non-ASCII bytes is concretised
            j = i + 1
            while j < n and not sbool(mem(norm(self.c[j]), ASCII_MASK)):
                j += 1
            b = mk_bytes(self.c[i:j])
            b = b if type(b) is bytes else b.conc()
            out.extend(map(ord, b.decode(encoding, errors)))
            i = j
        return mk_str(out)

    def __repr__(self):
        return '<symbytes %d>' % len(self.c)


def char_int(c):
    """Term -> int value (ord)."""
    if type(c) is int:
        return c
    if c.tab is None:
        return mk_int({c.v: 1}, 0)
    ds = {c.tab[i] - U[i] for i in bits(cur.dom[c.v])}
    if len(ds) == 1:
        return mk_int({c.v: 1}, ds.pop())
    for code, m in by_value(c).items():
        n = refold(Mem(c.v, m))
        if n is True or (n is not False and cur.branch(n)):
            return code
    raise Unsupported('char_int')


DIGITS = mask_of_str('0123456789')


def str_to_int(s, base=10):
    """int(symbolic str)."""
    if base != 10:
        return int(s.conc(), base)
    if len(s.c) == 0 or not sbool(mk_and([mem(c, DIGITS) for c in s.c])):
        return int(s.conc())
    r = 0
    for c in s.c:
        r = r * 10 + (char_int(norm(c)) - 48)
    return r


class DigestTok(object):
    """Result of a cryptographic hash over symbolic data: equal iff data equal."""
    __slots__ = ('algo', 'data', 'form')

    def __init__(self, algo, data, form):
        self.algo = algo
        self.data = data
        self.form = form

    def __eq__(self, o):
        if type(o) is not DigestTok or o.algo != self.algo or o.form != self.form:
            return False
        return self.data == o.data

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('native hash of a digest')

    def conc(self):
        import hashlib
        d = self.data if type(self.data) is bytes else self.data.conc()
        h = getattr(hashlib, self.algo)(d)
        return h.hexdigest() if self.form == 'hex' else h.digest()

    def __len__(self):
        import hashlib
        n = getattr(hashlib, self.algo)().digest_size
        return n * 2 if self.form == 'hex' else n

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(name)
        return lambda *a, **k: getattr(self.conc(), name)(*a, **k)

    def __getitem__(self, i):
        return self.conc()[i]

    def __iter__(self):
        return iter(self.conc())

    def __repr__(self):
        return '<digest>'

    def __str__(self):
        return self.conc()
