"""Regular expressions over symbolic strings: a backtracking matcher over the
parse tree of the interpreter's own regex parser."""
import re as _re
import types
from re import _parser, _constants as K

from . import symb
from .symb import (SymBytes, SymStr, ceq, clt, mem, mem_pred, mk_and, mk_not, mk_or, mk_str, mk_bytes, norm,
                   sbool, terms)

SPECIAL = symb.mask_of_str('.^$*+?{}[]\\|()-&~#') | symb.MASKS['isspace']
DIGIT = symb.mask_of_str('0123456789')
PUA = 0xF0000


def _parse(pattern, flags):
    """-> (tree, {placeholder: term})."""
    if type(pattern) not in (SymStr, SymBytes):
        return _parser.parse(pattern, flags), {}
    if type(pattern) is SymBytes:
        return _parser.parse(pattern.conc(), flags), {}
    out, ph = [], {}
    prev_bs = False
    in_brace = False
    for c in pattern.c:
        c = norm(c)
        if type(c) is not int:
            if prev_bs or in_brace or bool(sbool(mem(c, SPECIAL))):
                c = norm(c)
                if type(c) is not int:
                    c = ord(mk_str((c,)).conc())
        if type(c) is int:
            prev_bs = c == 92 and not prev_bs
            if c == 123:
                in_brace = True
            elif c == 125:
                in_brace = False
            out.append(chr(c))
        else:
            prev_bs = False
            code = PUA + len(ph)
            ph[code] = c
            out.append(chr(code))
    return _parser.parse(''.join(out), flags), ph


class Rx(object):
    _vp_ok = True

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = int(flags)
        self.tree, self.ph = _parse(pattern, self.flags)
        self.native = _re.compile(pattern, flags) if type(pattern) not in (SymStr, SymBytes) else None
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        self.ic = bool(self.tree.state.flags & _re.IGNORECASE)
        self.ml = bool(self.tree.state.flags & _re.MULTILINE)
        self.dotall = bool(self.tree.state.flags & _re.DOTALL)

    # -- API
    def match(self, s, pos=0, endpos=None):
        return self._run(s, pos, endpos, 'match')

    def fullmatch(self, s, pos=0, endpos=None):
        return self._run(s, pos, endpos, 'fullmatch')

    def search(self, s, pos=0, endpos=None):
        return self._run(s, pos, endpos, 'search')

    def _run(self, s, pos, endpos, kind):
        if type(s) not in (SymStr, SymBytes):
            if not isinstance(s, (str, bytes)) or type(s).__name__ == 'LazyStr':
                s = s.conc() if hasattr(s, 'conc') else s
            if self.native is not None:
                return getattr(self.native, kind)(s, pos) if endpos is None else getattr(self.native, kind)(s, pos, endpos)
        text = terms(s)
        if endpos is not None:
            text = text[:endpos]
        for st in range(pos, len(text) + 1):
            m = M(self, s, text, kind == 'fullmatch').go(st)
            if m is not None:
                return m
            if kind != 'search':
                return None
        return None

    def finditer(self, s, pos=0):
        n = len(s)
        while pos <= n:
            m = self.search(s, pos)
            if m is None:
                return
            yield m
            a, b = m.span()
            pos = b if b > a else b + 1

    def findall(self, s, pos=0):
        out = []
        for m in self.finditer(s, pos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else s[0:0])
            else:
                out.append(tuple(g if g is not None else s[0:0] for g in m.groups()))
        return out

    def split(self, s, maxsplit=0):
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(s[last:a])
            out.extend(m.groups())
            last = b
            n += 1
        out.append(s[last:])
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        from .models import cat
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            a, b = m.span()
            out.append(s[last:a])
            if callable(repl):
                out.append(repl(m))
            else:
                out.append(_expand(m, repl))
            last = b
            n += 1
        out.append(s[last:])
        if isinstance(s, bytes) and type(s) is bytes or type(s) is SymBytes:
            r = []
            for o in out:
                r.extend(terms(o))
            return mk_bytes(r), n
        return cat(out), n


def _expand(m, repl):
    if type(repl) is SymStr:
        repl = repl.conc()
    if '\\' not in repl:
        return repl
    from .models import cat
    out, i = [], 0
    while i < len(repl):
        c = repl[i]
        if c == '\\' and i + 1 < len(repl):
            d = repl[i + 1]
            if d.isdigit():
                out.append(m.group(int(d)) or '')
                i += 2
                continue
            if d == 'g':
                j = repl.index('>', i)
                nme = repl[i + 3:j]
                out.append(m.group(int(nme) if nme.isdigit() else nme) or '')
                i = j + 1
                continue
            out.append({'n': '\n', 't': '\t', 'r': '\r', '\\': '\\'}.get(d, '\\' + d))
            i += 2
            continue
        out.append(c)
        i += 1
    return cat(out)


class SMatch(object):
    _vp_ok = True

    def __init__(self, rx, s, start, end, groups):
        self.re = rx
        self.string = s
        self._s, self._e, self._g = start, end, groups
        self.pos = 0
        self.lastindex = max(groups) if groups else None

    def span(self, g=0):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return self._s, self._e
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            a, b = self.span(g)
            r.append(None if a < 0 else self.string[a:b])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.span(i)[0] < 0 else self.group(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (default if self.span(v)[0] < 0 else self.group(v)) for k, v in self.re.groupindex.items()}

    def expand(self, t):
        return _expand(self, t)

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def __bool__(self):
        return True


class M(object):
    def __init__(self, rx, s, text, full):
        self.rx, self.s, self.t, self.full = rx, s, text, full
        self.ph = rx.ph
        self.isb = type(s) is SymBytes or isinstance(s, bytes) and type(s) is bytes

    def go(self, st):
        res = []

        def done(i, g):
            if self.full and i != len(self.t):
                return False
            res.append((i, g))
            return True
        if self.seq(list(self.rx.tree), 0, st, {}, done):
            i, g = res[0]
            return SMatch(self.rx, self.s, st, i, g)
        return None

    def seq(self, items, k, i, g, cont):
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        nxt = lambda j, gg: self.seq(items, k + 1, j, gg, cont)
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN, K.CATEGORY):
            if i < len(self.t) and sbool(self.one(op, av, self.t[i])):
                return nxt(i + 1, g)
            return False
        if op is K.AT:
            return nxt(i, g) if self.at(av, i) else False
        if op is K.SUBPATTERN:
            grp, add, rem, p = av
            if grp is None:
                return self.seq(list(p), 0, i, g, nxt)
            return self.seq(list(p), 0, i, g, lambda j, gg: nxt(j, dict(gg, **{'': 0}) if False else _with(gg, grp, (i, j))))
        if op is K.BRANCH:
            for p in av[1]:
                if self.seq(list(p), 0, i, g, nxt):
                    return True
            return False
        if op is K.MAX_REPEAT or op is K.MIN_REPEAT or op is K.POSSESSIVE_REPEAT:
            lo, hi, p = av
            hi = len(self.t) + 1 if hi is K.MAXREPEAT else int(hi)
            body = list(p)
            greedy = op is not K.MIN_REPEAT
            if len(body) == 1 and body[0][0] in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
                return self.rep1(body[0], int(lo), hi, i, g, nxt, greedy)
            return self.rep(body, int(lo), hi, 0, i, g, nxt, greedy, -1)
        if op is K.ASSERT or op is K.ASSERT_NOT:
            d, p = av
            if d < 0:
                raise symb.Unsupported('lookbehind')
            r = self.seq(list(p), 0, i, g, lambda j, gg: True)
            return nxt(i, g) if r == (op is K.ASSERT) else False
        if op is K.GROUPREF:
            a, b = g.get(av, (-1, -1))
            if a < 0:
                return False
            w = self.t[a:b]
            if i + len(w) <= len(self.t) and sbool(symb.seq_eq(self.t[i:i + len(w)], w)):
                return nxt(i + len(w), g)
            return False
        raise symb.Unsupported('regex op %s' % op)

    def rep1(self, item, lo, hi, i, g, nxt, greedy):
        op, av = item
        n = 0
        if greedy:
            while n < hi and i + n < len(self.t) and sbool(self.one(op, av, self.t[i + n])):
                n += 1
            while n >= lo:
                if nxt(i + n, g):
                    return True
                n -= 1
            return False
        while n < lo:
            if i + n < len(self.t) and sbool(self.one(op, av, self.t[i + n])):
                n += 1
            else:
                return False
        while True:
            if nxt(i + n, g):
                return True
            if n < hi and i + n < len(self.t) and sbool(self.one(op, av, self.t[i + n])):
                n += 1
            else:
                return False

    def rep(self, body, lo, hi, n, i, g, nxt, greedy, last):
        def more():
            if n >= hi or i == last:
                return False
            return self.seq(body, 0, i, g, lambda j, gg: self.rep(body, lo, hi, n + 1, j, gg, nxt, greedy, i if n >= lo else -1))
        if n < lo:
            return more()
        if greedy:
            return more() or nxt(i, g)
        return nxt(i, g) or more()

    def at(self, av, i):
        n = len(self.t)
        if av is K.AT_BEGINNING_STRING:
            return i == 0
        if av is K.AT_BEGINNING:
            return i == 0 or (self.rx.ml and bool(sbool(ceq(self.t[i - 1], 10))))
        if av is K.AT_END_STRING:
            return i == n
        if av is K.AT_END:
            if i == n:
                return True
            if self.rx.ml:
                return bool(sbool(ceq(self.t[i], 10)))
            return i == n - 1 and bool(sbool(ceq(self.t[i], 10)))
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = lambda j: 0 <= j < n and bool(sbool(self.cat(K.CATEGORY_WORD, self.t[j])))
            return (w(i - 1) != w(i)) == (av is K.AT_BOUNDARY)
        raise symb.Unsupported('regex at %s' % av)

    def lit(self, code, c):
        q = self.ph.get(code, code)
        if self.rx.ic:
            if type(q) is int:
                ch = chr(q)
                return mem_pred(c, lambda x: chr(x).lower() == ch.lower())
            raise symb.Unsupported('IGNORECASE with symbolic pattern')
        return ceq(c, q)

    def cat(self, av, c):
        neg = 'NOT' in str(av)
        k = str(av)
        if 'DIGIT' in k:
            p = (lambda x: 48 <= x < 58) if self.isb else (lambda x: chr(x).isdecimal())
        elif 'SPACE' in k:
            p = (lambda x: x in b' \t\n\r\f\v') if self.isb else (lambda x: chr(x).isspace())
        elif 'WORD' in k:
            p = (lambda x: x < 128 and (chr(x).isalnum() or x == 95)) if self.isb else (lambda x: chr(x).isalnum() or x == 95)
        else:
            raise symb.Unsupported('regex category %s' % k)
        r = mem_pred(c, p)
        return mk_not(r) if neg else r

    def one(self, op, av, c):
        if op is K.LITERAL:
            return self.lit(av, c)
        if op is K.NOT_LITERAL:
            return mk_not(self.lit(av, c))
        if op is K.ANY:
            return True if self.rx.dotall else mk_not(ceq(c, 10))
        if op is K.IN:
            neg = False
            out = []
            for o, a in av:
                if o is K.NEGATE:
                    neg = True
                elif o is K.LITERAL:
                    out.append(self.lit(a, c))
                elif o is K.RANGE:
                    lo, hi = (self.ph.get(x, x) for x in a)
                    if type(lo) is int and type(hi) is int:
                        if self.rx.ic:
                            out.append(mem_pred(c, lambda x: lo <= x <= hi or lo <= ord(chr(x).swapcase()[0]) <= hi))
                        else:
                            out.append(mem_pred(c, lambda x: lo <= x <= hi))
                    else:
                        if sbool(clt(hi, lo)):
                            raise _re.error('bad character range')
                        out.append(mk_and([mk_not(clt(c, lo)), mk_not(clt(hi, c))]))
                elif o is K.CATEGORY:
                    out.append(self.cat(a, c))
                else:
                    raise symb.Unsupported('regex class item %s' % o)
            r = mk_or(out)
            return mk_not(r) if neg else r
        raise symb.Unsupported('regex op %s' % op)


def _with(g, k, v):
    r = dict(g)
    r[k] = v
    return r


def compile(pattern, flags=0):
    if isinstance(pattern, Rx):
        return pattern
    if isinstance(pattern, _re.Pattern):
        return Rx(pattern.pattern, pattern.flags)
    if type(pattern).__name__ == 'LazyStr':
        pattern = pattern.conc()
    return Rx(pattern, flags)


def _fn(name):
    def f(pattern, *a, flags=0, **k):
        a = list(a)
        return getattr(compile(pattern, flags), name)(*a, **k)

    def f2(pattern, string, flags=0):
        return getattr(compile(pattern, flags), name)(string)
    r = f2 if name in ('match', 'fullmatch', 'search', 'findall', 'finditer') else f
    r._vp_ok = True
    r.__name__ = name
    return r


ESC = symb.mask_of([c for c in symb.U if _re.escape(chr(c)) != chr(c)])


def escape(p):
    if type(p) is not SymStr:
        return _re.escape(p)
    out = []
    for c in p.c:
        if sbool(mem(c, ESC)):
            out.append(92)
        out.append(norm(c))
    return mk_str(out)


def module():
    m = types.ModuleType('re')
    m.__dict__.update({k: v for k, v in _re.__dict__.items() if k not in ('__builtins__', '__spec__', '__loader__', '__path__')})
    for n in ('match', 'fullmatch', 'search', 'sub', 'subn', 'split', 'findall', 'finditer'):
        setattr(m, n, _fn(n))
    compile._vp_ok = True
    escape._vp_ok = True
    m.compile = compile
    m.escape = escape
    m.Pattern = Rx
    return m
