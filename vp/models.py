"""Runtime called by instrumented code: dispatch of calls on symbolic values,
and the models of the library surface the code uses (string formatting,
StringIO, hashlib, json, re, logging, argparse.FileType, ...)."""
import builtins
import functools
import io as _io
import json as _json
import re
import string as _string
import sys as _sys
import types

from . import symb
from .containers import (DView, SCounter, SDefaultDict, SDict, SFrozenSet, SOrderedDict, SSet,
                         is_plain)
from . import containers
from .symb import (C, DigestTok, SymBool, SymBytes, SymInt, SymSeq, SymStr, Unsupported, ceq,
                   char_int, is_sym, mem, mk_and, mk_bytes, mk_not, mk_or, mk_str, node_of, norm,
                   sbool, seq_eq, snot, terms)

SYM = (SymStr, SymBytes, SymInt, SymBool, DigestTok)


class LazyStr(object):
    """A string nobody has looked into yet (messages)."""
    __slots__ = ('fn', 'val')

    def __init__(self, fn):
        self.fn = fn
        self.val = None

    def conc(self):
        if self.val is None:
            self.val = self.fn()
        return self.val

    @property
    def __class__(self):
        return str

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.conc(), name)

    def __str__(self):
        return self.val or '<message>'

    __repr__ = __str__

    def __len__(self):
        return len(self.conc())

    def __bool__(self):
        return bool(self.conc())

    def __eq__(self, o):
        return self.conc() == o

    def __ne__(self, o):
        return self.conc() != o

    def __hash__(self):
        return hash(self.conc())

    def __iter__(self):
        return iter(self.conc())

    def __getitem__(self, i):
        return self.conc()[i]

    def __add__(self, o):
        return LazyStr(lambda: self.conc() + deep_conc(o))

    def __radd__(self, o):
        return LazyStr(lambda: deep_conc(o) + self.conc())

    def __mod__(self, o):
        return LazyStr(lambda: self.conc() % deep_conc(o))

    def __lt__(self, o):
        return self.conc() < o

    def __contains__(self, o):
        return o in self.conc()


class HashTok(object):
    """hash(x): equal iff the hashed contents are equal (no collisions)."""
    __slots__ = ('x', 'ops')

    def __init__(self, x, ops=()):
        self.x = x
        self.ops = ops

    def __eq__(self, o):
        if type(o) is not HashTok or self.ops != o.ops:
            return False
        return self.x == o.x

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        return hash(('H', self.x))

    def _op(self, name, o):
        return HashTok((self.x, o.x if type(o) is HashTok else o), self.ops + (name,))

    def __xor__(self, o):
        return self._op('^', o)

    def __add__(self, o):
        return self._op('+', o)

    def __mul__(self, o):
        return self._op('*', o)

    __rmul__ = __mul__
    __radd__ = __add__
    __rxor__ = __xor__

    def __mod__(self, o):
        return hash(deep_conc(self.x)) % o

    def __index__(self):
        return hash(deep_conc(self.x))

    __int__ = __index__

    def __and__(self, o):
        return self.__index__() & o

    def __str__(self):
        return str(self.__index__())

    def __repr__(self):
        return 'H(%r)' % (self.x,)


containers.HashTok = HashTok


def deep_conc(x):
    """Concretise everything inside x (one branch per value)."""
    t = type(x)
    if t in (SymStr, SymBytes, SymInt, DigestTok, LazyStr):
        return x.conc()
    if t is SymBool:
        return bool(x)
    if t is HashTok:
        return int(x)
    if t in (str, int, float, bytes, bool, type(None)):
        return x
    if t is tuple:
        return tuple([deep_conc(v) for v in x])
    if t is list:
        return [deep_conc(v) for v in x]
    if isinstance(x, (SDict, dict)) and t in (SDict, SOrderedDict, SCounter, SDefaultDict, dict):
        return {deep_conc(k): deep_conc(v) for k, v in list(x.items())}
    if t is SSet:
        return {deep_conc(v) for v in x}
    if t is SFrozenSet:
        return frozenset(deep_conc(v) for v in x)
    if isinstance(x, DView):
        return [deep_conc(v) for v in x]
    return x


def has_sym(x, depth=0):
    t = type(x)
    if t in SYM or t is LazyStr or t is HashTok:
        return True
    if t in (str, int, float, bytes, bool, type(None)):
        return False
    if depth > 4:
        return False
    if t in (tuple, list) or isinstance(x, tuple):
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return any(has_sym(k, depth + 1) or has_sym(v, depth + 1) for k, v in x.items())
    if isinstance(x, (SDict, SSet)):
        return True
    return False


# ------------------------------------------------------------------ str()

def to_str(x):
    t = type(x)
    if t is str or t is SymStr or t is LazyStr:
        return x
    if t in (int, float, bool, type(None), bytes):
        return str(x)
    if t is SymInt:
        return str(x.conc())
    if t is SymBool:
        return str(bool(x))
    if t is SymBytes:
        return str(x.conc())
    if t is DigestTok:
        return x
    if isinstance(x, BaseException) and t.__str__ in (BaseException.__str__, Exception.__str__, KeyError.__str__):
        if len(x.args) == 0:
            return ''
        if len(x.args) == 1 and t.__str__ is not KeyError.__str__:
            return to_str(x.args[0])
        if has_sym(x.args):
            return LazyStr(lambda: str(deep_conc(x.args)))
        return str(x)
    s = t.__str__
    if isinstance(s, types.FunctionType):
        r = s(x)
        if type(r) not in (str, SymStr, LazyStr) and not isinstance(r, str):
            raise TypeError('__str__ returned non-string (type %s)' % t.__name__)
        return r
    if s is object.__str__ and isinstance(t.__repr__, types.FunctionType):
        return t.__repr__(x)
    if has_sym(x):
        return LazyStr(lambda: str(deep_conc(x)))
    return str(x)


def to_repr(x):
    t = type(x)
    if t in (str, int, float, bool, type(None), bytes):
        return repr(x)
    r = t.__repr__
    if isinstance(r, types.FunctionType) and t not in SYM and not isinstance(x, (SDict, SSet, DView, LazyStr)):
        return r(x)
    if has_sym(x):
        return LazyStr(lambda: repr(deep_conc(x)))
    return repr(x)


def cat(parts):
    """Concatenate str | SymStr | LazyStr."""
    parts = list(parts)
    if any(type(p) is LazyStr and p.val is None for p in parts):
        return LazyStr(lambda: ''.join(deep_conc(p) for p in parts))
    out = []
    for p in parts:
        if type(p) is LazyStr:
            p = p.conc()
        elif type(p) is DigestTok:
            p = p.conc()
        out.extend(terms(p))
    return mk_str(out)


def _fmt(x, spec):
    if spec is None or (type(spec) is str and spec == ''):
        f = type(x).__format__
        if type(x) in SYM or type(x) is LazyStr or f is object.__format__ or type(x) in (str, int, float):
            return to_str(x)
        return format(x, '')
    spec = deep_conc(spec)
    if has_sym(x):
        x = deep_conc(x)
    if isinstance(type(x).__format__, types.FunctionType):
        return type(x).__format__(x, spec)
    return format(x, spec)


_FLAGS = set('#0- +')


def bytes_format(tpl, args):
    """bytes % args; %s and %b of bytes stay symbolic."""
    tup = args if isinstance(args, tuple) else (args,)
    if type(tpl) is bytes:
        parts = re.split(rb'(%.)', tpl, flags=re.S)
        conv = [p for p in parts[1::2] if p != b'%%']
        if len(conv) == len(tup) and all([(p in (b'%s', b'%b') and (type(x) is SymBytes or isinstance(x, bytes))) or
                                          (p == b'%d' and type(x) is int) for p, x in zip(conv, tup)]):
            out, k = [], 0
            for n, p in enumerate(parts):
                if n % 2 == 0 or p == b'%%':
                    out.extend(terms(p if n % 2 == 0 else b'%'))
                elif p == b'%d':
                    out.extend(terms(b'%d' % tup[k]))
                    k += 1
                else:
                    out.extend(terms(tup[k]))
                    k += 1
            return mk_bytes(out)
    return deep_conc(tpl) % deep_conc(args)


def mod_format(tpl, args):
    if type(tpl) in (SymBytes, bytes) or isinstance(tpl, bytes):
        if not has_sym(args) and type(tpl) is not SymBytes:
            return tpl % args
        return bytes_format(tpl, args)
    if type(tpl) is SymStr:
        tpl = tpl.conc()
    named = isinstance(args, (SDict, dict))
    tup = args if isinstance(args, tuple) else (args,)
    used = 0
    out = []
    i, n = 0, len(tpl)
    while i < n:
        j = tpl.find('%', i)
        if j < 0:
            out.append(tpl[i:])
            break
        if j > i:
            out.append(tpl[i:j])
        j += 1
        if j >= n:
            raise ValueError('incomplete format')
        key = None
        if tpl[j] == '(':
            k = tpl.index(')', j)
            key = tpl[j + 1:k]
            j = k + 1
        s = j
        while j < n and (tpl[j] in _FLAGS or tpl[j].isdigit() or tpl[j] in '.*hlL'):
            j += 1
        flags = tpl[s:j]
        conv = tpl[j]
        i = j + 1
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            if not named:
                raise TypeError('format requires a mapping')
            v = args[key]
        else:
            if used >= len(tup):
                raise TypeError('not enough arguments for format string')
            v = tup[used]
            used += 1
        if not flags and conv == 's':
            out.append(to_str(v))
        elif not flags and conv == 'r':
            out.append(to_repr(v))
        elif '*' in flags:
            return deep_conc(tpl) % deep_conc(args)
        else:
            if conv in 'sra':
                v = to_str(v) if conv == 's' else to_repr(v)
            out.append(('%' + flags + conv.replace('r', 's')) % deep_conc(v))
    if used < len(tup) and not (named and isinstance(args, (SDict, dict))) and not (len(tup) == 1 and used == 0 and named):
        raise TypeError('not all arguments converted during string formatting')
    return cat(out)


class _F(_string.Formatter):
    def get_value(self, key, args, kw):
        return args[key] if isinstance(key, int) else kw[key]


_formatter = _F()


def str_format(tpl, a, k):
    if not has_sym(a) and not has_sym(k) and not any(
            isinstance(type(x).__str__, types.FunctionType) for x in list(a) + list(k.values())):
        return tpl.format(*a, **k)
    out = []
    auto = 0
    for lit, field, spec, conv in _formatter.parse(tpl):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        v, _ = _formatter.get_field(field, a, k)
        if conv == 'r':
            v = to_repr(v)
        elif conv == 's':
            v = to_str(v)
        if spec and '{' in spec:
            spec = str_format(spec, a, k)
        out.append(_fmt(v, spec))
    return cat(out)


# ------------------------------------------------------------------ io

class SymIO(object):
    """StringIO / BytesIO over terms."""

    def __init__(self, initial=None, newline='\n', text=True):
        self.text = text
        self.b = list(terms(initial)) if initial is not None and len(initial) else []
        self.pos = 0
        self.closed = False

    def _mk(self, cs):
        return mk_str(cs) if self.text else mk_bytes(cs)

    def write(self, s):
        t = terms(deep_conc(s) if type(s) in (LazyStr, DigestTok) else s)
        if t is None or (type(s) is SymBytes or isinstance(s, bytes)) == self.text:
            raise TypeError("string argument expected, got %r" % type(s).__name__)
        n = len(self.b)
        if self.pos == n:
            self.b.extend(t)
        else:
            if self.pos > n:
                self.b.extend([0] * (self.pos - n))
            self.b[self.pos:self.pos + len(t)] = t
        self.pos += len(t)
        return len(t)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def read(self, n=-1):
        if n is None or n < 0:
            r = self.b[self.pos:]
        else:
            r = self.b[self.pos:self.pos + n]
        self.pos += len(r)
        return self._mk(r)

    def getvalue(self):
        return self._mk(self.b)

    def seek(self, p, whence=0):
        if whence == 1:
            p += self.pos
        elif whence == 2:
            p += len(self.b)
        self.pos = int(p)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else int(n)
        del self.b[n:]
        return n

    def readline(self, size=-1):
        if self.pos >= len(self.b):
            return self._mk(())
        i = self.pos
        while i < len(self.b):
            i += 1
            if sbool(ceq(self.b[i - 1], 10)):
                break
        r = self.b[self.pos:i]
        self.pos = i
        return self._mk(r)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(l):
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not len(l):
            raise StopIteration
        return l

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class StringIO(SymIO):
    def __init__(self, initial_value='', newline='\n'):
        SymIO.__init__(self, initial_value, newline, True)


class BytesIO(SymIO):
    def __init__(self, initial_bytes=b''):
        SymIO.__init__(self, initial_bytes, None, False)


class LineFile(object):
    """A binary file given as a list of lines."""

    def __init__(self, lines, name):
        self.lines = list(lines)
        self.name = name
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.lines):
            raise StopIteration
        self.i += 1
        return self.lines[self.i - 1]

    def readline(self):
        return next(self, b'')

    def readlines(self):
        return list(self)

    def read(self, n=-1):
        out = []
        for l in self:
            out.extend(terms(l))
        return mk_bytes(out)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class OutBuf(object):
    """sys.stdout and its .buffer: everything written, as bytes terms."""

    def __init__(self):
        self.b = []
        self.buffer = types.SimpleNamespace(write=self.bwrite, flush=self.flush,
                                            writelines=lambda it: [self.bwrite(x) for x in it])
        self.encoding = 'utf-8'

    def bwrite(self, s):
        t = terms(deep_conc(s) if type(s) is LazyStr else s)
        if t is None or not (type(s) is SymBytes or isinstance(s, (bytes, bytearray))):
            raise TypeError("a bytes-like object is required, not '%s'" % type(s).__name__)
        self.b.extend(t)
        return len(t)

    def write(self, s):
        if type(s) in (LazyStr, DigestTok):
            s = s.conc()
        if not (type(s) is SymStr or isinstance(s, str)):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        self.b.extend(terms(RT.callm(s, 'encode', 'utf-8')))
        return len(s)

    def flush(self):
        pass

    def value(self):
        return mk_bytes(self.b)


class FakeSys(types.ModuleType):
    def __init__(self, world):
        types.ModuleType.__init__(self, 'sys')
        d = self.__dict__
        d.update({k: v for k, v in _sys.__dict__.items() if not k.startswith('_vp')})
        d['modules'] = ModulesView(world)
        d['stdin'] = types.SimpleNamespace(buffer=None)
        d['stdout'] = OutBuf()
        d['stderr'] = OutBuf()
        d['stdin'].buffer = StdinBuf(self)
        d['exit'] = _sys.exit


class StdinBuf(object):
    """Reads the lines of the current path's stdin."""
    name = '<stdin>'

    def __init__(self, fsys):
        self.it = LineFile([], '<stdin>')

    def set(self, lines):
        self.it = LineFile(lines, '<stdin>')

    def __iter__(self):
        return iter(self.it)

    def __next__(self):
        return next(self.it)

    def readline(self):
        return self.it.readline()

    def readlines(self):
        return self.it.readlines()

    def read(self, n=-1):
        return self.it.read()

    def close(self):
        pass


class ModulesView(object):
    def __init__(self, world):
        self.w = world

    def __getitem__(self, k):
        m = self.w.modules.get(k)
        return m if m is not None else _sys.modules[k]

    def get(self, k, d=None):
        m = self.w.modules.get(k)
        return m if m is not None else _sys.modules.get(k, d)

    def __contains__(self, k):
        return k in self.w.modules or k in _sys.modules


# ------------------------------------------------------------------ hashlib

class HashObj(object):
    def __init__(self, algo, data=b''):
        self.algo = algo
        self.name = algo
        self.d = []
        self.update(data)

    def update(self, data):
        if type(data) is SymStr or isinstance(data, str):
            raise TypeError('Strings must be encoded before hashing')
        self.d.extend(terms(data))

    def copy(self):
        h = HashObj(self.algo)
        h.d = list(self.d)
        return h

    def _res(self, form):
        data = mk_bytes(self.d)
        if symb.cur is None:
            import hashlib
            h = hashlib.new(self.algo, data)
            return h.hexdigest() if form == 'hex' else h.digest()
        return DigestTok(self.algo, data, form)

    def hexdigest(self):
        return self._res('hex')

    def digest(self):
        return self._res('raw')


def _mk_hash(algo):
    def h(data=b'', **kw):
        return HashObj(algo, data)
    h.__name__ = algo
    h._vp_ok = True
    return h


def _plain_digest(d):
    return is_plain(d.data)


# ------------------------------------------------------------------ json

_ESC = {i: '\\u%04x' % i for i in range(32)}
_ESC.update({8: '\\b', 9: '\\t', 10: '\\n', 12: '\\f', 13: '\\r', 34: '\\"', 92: '\\\\'})
_JSPECIAL = symb.mask_of([c for c in symb.U if c in _ESC or c > 126])


def _jstr(s, ensure_ascii):
    if type(s) is not SymStr:
        return _json.dumps(s, ensure_ascii=ensure_ascii)
    out = [34]
    for c in s.c:
        if bool(sbool(mem(c, _JSPECIAL))):
            v = mk_str((c,))
            v = v if isinstance(v, str) and type(v) is str else v.conc()
            out.extend(map(ord, _json.dumps(v, ensure_ascii=ensure_ascii)[1:-1]))
        else:
            out.append(norm(c))
    out.append(34)
    return mk_str(out)


def _jdump(x, ea, isep, ksep, sort, default):
    t = type(x)
    if t is SymStr or isinstance(x, str):
        return _jstr(x if t is SymStr else deep_conc(x), ea)
    if x is None or t in (bool, int, float):
        return _json.dumps(x)
    if t is SymInt:
        return str(x.conc())
    if t is SymBool:
        return 'true' if x else 'false'
    if isinstance(x, (SDict, dict)):
        items = list(x.items())
        if sort:
            items.sort(key=lambda e: e[0])
        parts = ['{']
        for i, (k, v) in enumerate(items):
            if i:
                parts.append(isep)
            if type(k) is not SymStr and not isinstance(k, str):
                k = _json.dumps(k)
            parts += [_jstr(k, ea), ksep, _jdump(v, ea, isep, ksep, sort, default)]
        parts.append('}')
        return cat(parts)
    if isinstance(x, (list, tuple)):
        parts = ['[']
        for i, v in enumerate(x):
            if i:
                parts.append(isep)
            parts.append(_jdump(v, ea, isep, ksep, sort, default))
        parts.append(']')
        return cat(parts)
    if default is not None:
        return _jdump(default(x), ea, isep, ksep, sort, default)
    raise TypeError('Object of type %s is not JSON serializable' % t.__name__)


def json_dumps(obj, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None,
               indent=None, separators=None, default=None, sort_keys=False, **kw):
    if indent is not None or cls is not None or kw:
        return _json.dumps(deep_conc(obj), ensure_ascii=ensure_ascii, indent=indent, cls=cls,
                           separators=separators, default=default, sort_keys=sort_keys, **kw)
    isep, ksep = separators or (', ', ': ')
    return _jdump(obj, ensure_ascii, isep, ksep, sort_keys, default)


def json_dump(obj, fp, **kw):
    fp.write(json_dumps(obj, **kw))


# ------------------------------------------------------------------ logging

class _Logger(object):
    def __init__(self, name='x'):
        self.name = name
        self.handlers = []

    def _none(self, *a, **k):
        return None

    debug = info = warning = warn = error = exception = critical = fatal = log = _none
    setLevel = addHandler = removeHandler = _none

    def isEnabledFor(self, level):
        return True

    def getEffectiveLevel(self):
        return 0


class _LoggerAdapter(object):
    def __init__(self, logger, extra=None):
        self.logger = logger
        self.extra = extra

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(self.__dict__['logger'], name)

    def process(self, msg, kw):
        return msg, kw


class _Handler(object):
    def __init__(self, *a, **k):
        pass

    def setFormatter(self, f):
        pass

    setLevel = setFormatter


class _Formatter(object):
    def __init__(self, fmt=None, datefmt=None, *a, **k):
        pass

    def format(self, record):
        return ''


def _logging_module():
    import logging
    m = types.ModuleType('logging')
    for k in ('NOTSET', 'DEBUG', 'INFO', 'WARN', 'WARNING', 'ERROR', 'FATAL', 'CRITICAL', 'getLevelName'):
        setattr(m, k, getattr(logging, k))
    m.getLogger = lambda name=None: _Logger(name)
    m.Logger = _Logger
    m.LoggerAdapter = _LoggerAdapter
    m.Handler = m.NullHandler = m.StreamHandler = m.FileHandler = _Handler
    m.Formatter = _Formatter
    m.root = _Logger('root')
    m.basicConfig = lambda *a, **k: None
    for k in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn'):
        setattr(m, k, lambda *a, **k: None)
    c = types.ModuleType('logging.config')
    c.dictConfig = lambda *a, **k: None
    c.fileConfig = lambda *a, **k: None
    m.config = c
    for o in list(m.__dict__.values()) + [c.dictConfig]:
        if isinstance(o, types.FunctionType):
            o._vp_ok = True
    return m, c


# ------------------------------------------------------------------ functools

CACHES = []


def _lru_cache(maxsize=128, typed=False):
    def deco(fn):
        memo = SDict()
        CACHES.append(memo)
        world_reset.append(memo)

        @functools.wraps(fn)
        def wrapper(*a, **k):
            key = (a, tuple(sorted(k.items()))) if k else (a,)
            e = memo._find(key)
            if e is not None:
                return e[1]
            v = fn(*a, **k)
            if maxsize is not None and len(memo) >= max(maxsize, 1):
                memo.popitem(last=False)
            if maxsize != 0:
                memo[key] = v
            return v
        wrapper.cache_clear = memo.clear
        wrapper._vp_ok = True
        wrapper.__wrapped__ = fn
        return wrapper
    if callable(maxsize):
        fn, maxsize = maxsize, 128
        return deco(fn)
    return deco


world_reset = []


def _identity_cache(maxsize=128, typed=False):
    def deco(fn):
        return fn
    if callable(maxsize):
        return maxsize
    return deco


# ------------------------------------------------------------------ modules

_static = {}


def _clone(name):
    real = __import__(name, None, None, ['*'], 0)
    m = types.ModuleType(name)
    m.__dict__.update({k: v for k, v in real.__dict__.items()
                       if k not in ('__builtins__', '__loader__', '__spec__')})
    return m


def _build_static():
    m = _clone('io')
    m.StringIO, m.BytesIO = StringIO, BytesIO
    _static['io'] = m
    m = _clone('collections')
    m.Counter, m.OrderedDict, m.defaultdict = SCounter, SOrderedDict, SDefaultDict
    _static['collections'] = m
    m = _clone('hashlib')
    for a in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'blake2b', 'blake2s'):
        setattr(m, a, _mk_hash(a))
    m.new = lambda algo, data=b'', **k: HashObj(algo, data)
    m.new._vp_ok = True
    _static['hashlib'] = m
    m = _clone('json')
    m.dumps, m.dump = json_dumps, json_dump
    json_dumps._vp_ok = json_dump._vp_ok = True
    _static['json'] = m
    m = _clone('functools')
    m.lru_cache = _lru_cache
    m.cache = lambda fn: _lru_cache(None)(fn)
    _lru_cache._vp_ok = m.cache._vp_ok = True
    _static['functools'] = m
    m, c = _logging_module()
    _static['logging'], _static['logging.config'] = m, c
    from . import sre
    _static['re'] = sre.module()
    m = _clone('time')
    m.time = _Clock()
    _static['time'] = m
    m = _clone('pkgutil')
    m.get_data = _get_data
    _get_data._vp_ok = True
    _static['pkgutil'] = m
    m = _clone('argparse')
    m.FileType = FileType
    _static['argparse'] = m
    m = types.ModuleType('ete3')
    m.Tree = EteTree
    _static['ete3'] = m
    m = _clone('copy')
    m.copy = lambda x: x if is_sym(x) else __import__('copy').copy(x)
    m.copy._vp_ok = True
    _static['copy'] = m


class _Clock(object):
    _vp_ok = True
    t = 1.0

    def __call__(self):
        _Clock.t += 1.0
        return _Clock.t


_world = None


def _get_data(package, resource):
    import os
    with open(os.path.join(_world.repo_src, *(package.split('.') + [resource])), 'rb') as f:
        return f.read()


class FileType(object):
    """argparse.FileType over the path's virtual files (ctx.files)."""
    _vp_ok = True

    def __init__(self, mode='r', *a, **k):
        self.mode = mode

    def __call__(self, name):
        files = getattr(symb.cur, 'files', None) or {}
        if name not in files:
            import argparse
            raise argparse.ArgumentTypeError("can't open %r" % name)
        c = files[name]
        if 'b' in self.mode:
            return LineFile(c, name)
        f = _io.StringIO(c)
        f.name = name
        return f


class EteTree(object):
    """Records the tree given to ete3."""

    def __init__(self, newick=None, name='', **k):
        self.name = name
        self.children = []

    def add_child(self, child=None, name=None, **k):
        c = child if child is not None else EteTree(name=name)
        self.children.append(c)
        return c

    def dump(self):
        return (self.name, [c.dump() for c in self.children])

    def get_ascii(self, show_internal=True, **k):
        symb.cur.ete = self.dump() if show_internal else None
        return self.draw() if show_internal else '<leaves>'

    def draw(self):
        out = '(' + self.name
        for c in self.children:
            out = out + c.draw()
        return out + ')'


def module_for(name, world):
    if not _static:
        _build_static()
    if name == 'sys':
        m = world.natives.get('sys')
        if m is None:
            m = world.natives['sys'] = FakeSys(world)
        return m
    if name == 'functools' and not any(k.startswith('os_urlpattern') for k in world.modules):
        pass
    return _static.get(name)


def wrap_toplevel(full, mod, world):
    if full == 'logging.config':
        return _static['logging']
    return mod


def fresh_world(world):
    world.natives = {}
    del world_reset[:]


def path_start():
    for m in world_reset:
        m.clear()


# ------------------------------------------------------------------ runtime

def _native_seq(obj):
    return SymStr(terms(obj)) if isinstance(obj, str) else SymBytes(terms(obj))


_TRANSPARENT_TYPES = (list, tuple, SDict, SSet, DView, dict, set, frozenset, SymIO, LineFile, OutBuf, StdinBuf)
_TRANSPARENT_CALLS = {
    list, tuple, enumerate, zip, reversed, iter, next, len, bool, any, all, min, max, sum, getattr,
    setattr, hasattr, delattr, callable, id, object, super, property, staticmethod, classmethod,
    slice, abs, issubclass, SDict, SSet, SFrozenSet, SCounter, SOrderedDict, SDefaultDict, StringIO,
    BytesIO, AttributeError, StopIteration, memoryview, type(iter([])),
}


def _is_exc(f):
    return isinstance(f, type) and issubclass(f, BaseException)


def _wrap_arg(a):
    try:
        return _WRAP.get(a, a)
    except TypeError:
        return a


def _wrap_fn(a):
    """A callable handed to native code, made symbolic-aware."""
    t = type(a)
    if t is types.BuiltinFunctionType or t is type or t is types.MethodDescriptorType:
        try:
            w = _DISPATCH.get(a)
        except TypeError:
            return a
        if w is not None:
            return w
        if t is types.MethodDescriptorType and a.__objclass__ in (str, bytes):
            return lambda s, *r, **k: RT.callm(s, a.__name__, *r, **k)
        if t is types.BuiltinFunctionType and type(a.__self__) in (str, bytes):
            return lambda *r, **k: RT.callm(a.__self__, a.__name__, *r, **k)
    return a


_CLS = {SDict: (SDict, dict), SSet: (SSet, set), SFrozenSet: (SFrozenSet, frozenset),
        SCounter: SCounter, str: str}


def _isinstance(x, cls):
    if isinstance(cls, tuple):
        for c in cls:
            if _isinstance(x, c):
                return True
        return False
    t = type(x)
    if t is SymInt:
        return cls in (int, object) or isinstance(1, cls)
    if t is SymBool:
        return isinstance(True, cls)
    if t is DigestTok:
        return isinstance('' if x.form == 'hex' else b'', cls)
    if t is SymStr or t is LazyStr:
        return isinstance('', cls)
    if t is SymBytes:
        return isinstance(b'', cls)
    if cls is SSet and t is SFrozenSet:
        return False
    if cls is dict:
        cls = SDict
    return isinstance(x, _CLS.get(cls, cls))


def _type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    if t is SymStr or t is LazyStr:
        return str
    if t is SymBytes:
        return bytes
    if t is SymInt:
        return int
    if t is SymBool:
        return bool
    if t is DigestTok:
        return str if x.form == 'hex' else bytes
    return t


def _int(x=0, *a, **k):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymStr:
        return symb.str_to_int(x, *a, **k)
    if t is SymBool:
        return int(bool(x))
    if t is HashTok:
        return x
    return int(deep_conc(x), *a, **k)


def _hash(x):
    t = type(x)
    if t in SYM or is_plain(x):
        return HashTok(x)
    h = t.__hash__
    if h is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if isinstance(h, types.FunctionType):
        return h(x)
    if isinstance(x, tuple):
        return HashTok(tuple([_hash(v) for v in x]))
    if isinstance(x, (SSet, LazyStr)):
        return HashTok(deep_conc(x))
    return hash(x)


def _ord(c):
    if is_sym(c):
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return char_int(norm(c.c[0]))
    return ord(c)


def _chr(i):
    if type(i) is SymInt:
        if len(i.lin) == 1:
            (v, k), = i.lin.items()
            if k == 1:
                tab = {j: symb.U[j] + i.k for j in symb.bits(symb.cur.dom[v])}
                if all(0 <= x < 0x110000 for x in tab.values()):
                    return mk_str((C(v, tab),))
        i = i.conc()
    return chr(i)


def _print(*a, **k):
    f = k.get('file')
    if f is None:
        f = module_for('sys', _world).stdout
    sep = k.get('sep')
    end = k.get('end')
    sep = ' ' if sep is None else sep
    end = '\n' if end is None else end
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(sep)
        parts.append(to_str(x))
    parts.append(end)
    f.write(cat(parts))


def _bytes(x=b'', *a, **k):
    if type(x) is SymStr:
        return x.encode(*a, **k)
    if type(x) is SymBytes:
        return x
    if isinstance(x, (list, tuple)) and any(type(v) is SymInt for v in x):
        return bytes([int(v) for v in x])
    return bytes(deep_conc(x), *a, **k)


def _str(x='', *a, **k):
    if a or k:
        return RT.callm(x, 'decode', *a, **k)
    return to_str(x)


def _repr(x):
    return to_repr(x)


def _format(x, spec=''):
    return _fmt(x, spec)


def _sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_wrap_fn(key), reverse=bool(reverse))


def _map(f, *its):
    return map(_wrap_fn(f), *its)


def _filter(f, it):
    return filter(_wrap_fn(f), it)


def _minmax(native):
    def f(*a, **k):
        if k.get('key') is not None:
            k['key'] = _wrap_fn(k['key'])
        return native(*a, **k)
    return f


def _range(*a):
    return range(*[int(x) for x in a])


def _list(*a):
    return list(*a)


def _round(x, *a):
    return round(deep_conc(x), *a)


def _open(*a, **k):
    raise Unsupported('open() in symbolic execution')


def _sum(it, *a):
    return sum(it, *a)


def _float(x=0.0):
    return float(deep_conc(x))


def _import(*a, **k):
    return __import__(*a, **k)


_DISPATCH = {
    isinstance: _isinstance, type: _type, int: _int, hash: _hash, ord: _ord, chr: _chr,
    print: _print, bytes: _bytes, str: _str, repr: _repr, format: _format, sorted: _sorted,
    map: _map, filter: _filter, min: _minmax(min), max: _minmax(max), range: _range,
    round: _round, open: _open, float: _float, ascii: lambda x: LazyStr(lambda: ascii(deep_conc(x))),
}
_WRAP = {}

BUILTINS = {'set': SSet, 'frozenset': SFrozenSet, 'dict': SDict}

_STR_JOIN = ('join',)


class RT(object):
    """Operations of instrumented code."""

    @staticmethod
    def call(*a, **k):
        f = a[0]
        a = a[1:]
        t = type(f)
        if t is types.FunctionType:
            g = f.__globals__
            if '_vp' in g or getattr(f, '_vp_ok', False):
                return f(*a, **k)
        elif t is types.MethodType:
            fn = f.__func__
            if isinstance(fn, types.FunctionType) and '_vp' in fn.__globals__:
                return f(*a, **k)
        try:
            d = _DISPATCH.get(f)
        except TypeError:
            d = None
        if d is not None:
            return d(*a, **k)
        return _generic(f, a, k)

    @staticmethod
    def callm(*a, **k):
        obj, name = a[0], a[1]
        a = a[2:]
        t = type(obj)
        if t is str or t is bytes:
            if name == 'join' and len(a) == 1:
                xs = a[0] if type(a[0]) in (list, tuple) else list(a[0])
                for x in xs:
                    if type(x) is not str and type(x) is not bytes:
                        break
                else:
                    return obj.join(xs)
                if any(type(x) is LazyStr for x in xs):
                    xs2 = []
                    for i, x in enumerate(xs):
                        if i:
                            xs2.append(obj)
                        xs2.append(x)
                    return cat(xs2)
                xs = [x.conc() if type(x) is DigestTok else x for x in xs]
                return _native_seq(obj).join(xs)
            if name == 'format':
                return str_format(obj, a, k)
            if name == 'format_map':
                return str_format(obj, (), a[0])
            for x in a:
                if type(x) in SYM or type(x) is LazyStr or (type(x) is tuple and has_sym(x)):
                    break
            else:
                if any(isinstance(x, (SDict,)) for x in a):
                    a = [deep_conc(x) if isinstance(x, SDict) else x for x in a]
                return getattr(obj, name)(*a, **k)
            a = [x.conc() if type(x) in (LazyStr, DigestTok) else int(x) if type(x) is SymInt else x for x in a]
            return getattr(_native_seq(obj), name)(*a, **k)
        if t is SymStr or t is SymBytes:
            if name == 'format':
                return str_format(obj.conc(), a, k)
            a = [x.conc() if type(x) in (LazyStr, DigestTok) else x for x in a]
            return getattr(obj, name)(*a, **k)
        if t is list:
            if name == 'sort' and k.get('key') is not None:
                k['key'] = _wrap_fn(k['key'])
            return getattr(obj, name)(*a, **k)
        if obj is str or obj is bytes:
            if name in ('maketrans', 'fromhex'):
                if name == 'maketrans':
                    a = [deep_conc(x) for x in a]
                return getattr(obj, name)(*a, **k)
            if a and not name.startswith('__'):
                return RT.callm(*((a[0], name) + a[1:]), **k)
        if t is super:
            return getattr(obj, name)(*a, **k)
        f = getattr(obj, name)
        if isinstance(obj, _TRANSPARENT_TYPES):
            return f(*a, **k)
        return RT.call(f, *a, **k)

    @staticmethod
    def in_(x, c):
        t = type(c)
        if isinstance(c, (SDict, SSet)):
            if type(c).__contains__ in (SDict.__contains__, SSet.__contains__):
                return c._contains(x)
            return x in c
        if t is SymStr or t is SymBytes:
            if type(x) is SymInt or type(x) is int:
                return sbool(mk_or([node_of(char_int(norm(q)) == x) for q in c.c]))
            return c.contains(x)
        if t is str or t is bytes:
            if type(x) in SYM:
                if type(x) is SymInt:
                    return sbool(mk_or([node_of(x == q) for q in c]))
                return _native_seq(c).contains(x)
            return x in c
        if t is list or t is tuple:
            if type(x) in SYM or any(type(q) in SYM for q in c):
                out = []
                for q in c:
                    if q is x:
                        return True
                    out.append(node_of(q == x))
                return sbool(mk_or(out))
            return x in c
        if t in (dict, set, frozenset) and not is_plain(x):
            for q in c:
                if q == x:
                    return True
            return False
        cm = t.__dict__.get('__contains__') if isinstance(t, type) else None
        if cm is None:
            for b in t.__mro__:
                if '__contains__' in b.__dict__:
                    cm = b.__dict__['__contains__']
                    break
        if isinstance(cm, types.FunctionType) and '_vp' in cm.__globals__:
            r = cm(c, x)
            return r if type(r) is SymBool else bool(r)
        return x in c

    @staticmethod
    def notin(x, c):
        return snot(RT.in_(x, c))

    @staticmethod
    def getitem(o, i):
        if type(o) is dict and not is_plain(i):
            for k, v in o.items():
                if k == i:
                    return v
            raise KeyError(i)
        return o[i]

    @staticmethod
    def mod(a, b):
        t = type(a)
        if t is str or t is SymStr or t is bytes or t is SymBytes:
            return mod_format(a, b)
        return a % b

    @staticmethod
    def fstr(*parts):
        out = []
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if conv == 114:
                    v = to_repr(v)
                elif conv == 115:
                    v = to_str(v)
                elif conv == 97:
                    v = ascii(deep_conc(v))
                out.append(_fmt(v, spec))
            else:
                out.append(p)
        return cat(out)

    @staticmethod
    def mkdict(items):
        d = SDict()
        for it in items:
            if len(it) == 1:
                d.update(it[0])
            else:
                d[it[0]] = it[1]
        return d

    @staticmethod
    def mkset(items):
        return SSet(items)


def _generic(f, a, k):
    try:
        if f in _TRANSPARENT_CALLS:
            return f(*[_wrap_fn(x) for x in a], **k)
    except TypeError:
        pass
    if isinstance(f, type):
        if _is_exc(f) or '_vp_ok' in f.__dict__ or f.__module__ in _OWN or \
                '_vp' in _mod_dict(f):
            return f(*a, **k)
        if issubclass(f, tuple) and hasattr(f, '_fields'):
            return f(*a, **k)
        if f.__module__ in ('functools', 'itertools', 'operator', 'collections'):
            return f(*[_wrap_fn(x) for x in a], **k)
        for b in f.__mro__:
            if '_vp' in _mod_dict(b) or b.__module__ in _OWN:
                return f(*a, **k)
    elif getattr(f, '_vp_ok', False):
        return f(*a, **k)
    else:
        m = getattr(f, '__module__', None)
        if m in _OWN or m in ('operator', '_operator', 'itertools', 'functools', '_functools', 'collections',
                              '_collections', 'inspect', 'namedtuple'):
            return f(*[_wrap_fn(x) for x in a], **{q: _wrap_fn(v) for q, v in k.items()})
        s = getattr(f, '__self__', None)
        if s is not None and not isinstance(s, types.ModuleType):
            ts = s if isinstance(s, type) else type(s)
            if ts in (str, bytes) and not isinstance(s, type):
                return RT.callm(s, f.__name__, *a, **k)
            if ts in (list, tuple, set, dict) or issubclass(ts, (SymSeq, SDict, SSet, SymIO, LineFile, OutBuf)):
                return f(*a, **k)
            if type(f) is types.MethodType and '_vp' in getattr(f.__func__, '__globals__', {}):
                return f(*a, **k)
            if ts.__module__ in ('collections', '_collections', 'itertools', 'functools', 'types') or ts is types.GeneratorType:
                return f(*a, **k)
            if type(f) is types.MethodType and type(f.__func__) is not types.FunctionType:
                return f(*a, **k)
        if isinstance(f, types.MethodDescriptorType) and f.__objclass__ in (str, bytes):
            return RT.callm(a[0], f.__name__, *a[1:], **k)
        ct = type(f)
        call = ct.__dict__.get('__call__') if ct is not types.FunctionType else None
        if isinstance(call, types.FunctionType) and ('_vp' in call.__globals__ or getattr(ct, '_vp_ok', False)):
            return f(*a, **k)
        if isinstance(f, functools.partial):
            return RT.call(f.func, *(f.args + a), **dict(f.keywords, **k))
    if has_sym(a) or has_sym(k):
        if symb.cur is not None:
            n = getattr(f, '__qualname__', None) or type(f).__name__
            symb.cur.stats['native:' + n] += 1
        a = [deep_conc(x) for x in a]
        k = {q: deep_conc(v) for q, v in k.items()}
    return f(*[_wrap_fn(x) for x in a], **{q: _wrap_fn(v) for q, v in k.items()})


_OWN = {'vp.models', 'vp.symb', 'vp.containers', 'vp.sre', 'vp.harness', 'vp.explore'}
_mdicts = {}


def _mod_dict(cls):
    """Marker dict for classes defined by instrumented code."""
    for v in cls.__dict__.values():
        if isinstance(v, types.FunctionType):
            return v.__globals__
        if isinstance(v, property) and isinstance(v.fget, types.FunctionType):
            return v.fget.__globals__
        if isinstance(v, (staticmethod, classmethod)) and isinstance(v.__func__, types.FunctionType):
            return v.__func__.__globals__
    m = cls.__module__
    if _world is not None and m in _world.modules:
        return {'_vp': 1}
    return {}


def set_world(w):
    global _world
    _world = w
