"""The harness interface, symbolic side.  concrete.py is its twin for replay."""
import types

from . import models, spec, sre, symb
from .explore import Violation
from .symb import (C, PathAbort, SymBool, SymInt, SymStr, mask_of, mask_of_str, mk_and, mk_bytes, mk_int, mk_or,
                   mk_not, mk_str, node_of, sbool, snot)


class Sym(object):
    symbolic = True

    def __init__(self, ctx, world, fix):
        self.ctx = ctx
        self.world = world
        self.fix = fix or {}
        self.notes = []
        self.spec = spec

    # -- inputs
    def _in(self, name, value):
        if name in self.ctx.inputs:
            raise RuntimeError('input %s declared twice' % name)
        self.ctx.inputs[name] = value
        return value

    def string(self, name, sets):
        """A string whose i-th character is any of the i-th set."""
        cs = []
        for i, s in enumerate(sets):
            if len(s) == 1:
                cs.append(ord(s))
            else:
                cs.append(C(self.ctx.new_var('%s[%d]' % (name, i), mask_of_str(s))))
        return self._in(name, mk_str(cs))

    def text(self, name, n, alphabet):
        return self.string(name, [alphabet] * n)

    def data(self, name, n, alphabet):
        m = mask_of(alphabet)
        cs = [C(self.ctx.new_var('%s[%d]' % (name, i), m)) for i in range(n)]
        return self._in(name, mk_bytes(cs))

    def raw(self, name, sets):
        """A byte string whose i-th byte is any of the i-th set (an int, or a list of ints)."""
        cs = []
        for i, b in enumerate(sets):
            if isinstance(b, int):
                cs.append(b)
            else:
                cs.append(C(self.ctx.new_var('%s[%d]' % (name, i), mask_of(b))))
        return self._in(name, mk_bytes(cs))

    def drawing(self, text):
        """The part of a tree drawing that does not depend on the order of siblings."""
        return text

    def choice(self, name, n):
        if name in self.fix:
            v = self.fix[name]
            if v >= n:
                raise PathAbort()
            return self._in(name, v)
        if n == 1:
            return self._in(name, 0)
        var = self.ctx.new_var(name, (1 << n) - 1)
        v = mk_int({var: 1}, 0)
        v = v if type(v) is int else v.conc()
        return self._in(name, v)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    # -- obligations
    def assume(self, cond):
        self.ctx.assume(cond)

    def check(self, cond, label):
        self.ctx.check(cond, label)

    def fail(self, label):
        self.ctx.check(False, label)

    def reach(self, label):
        self.ctx.ex.reached.add(label)

    def note(self, key, value):
        """Observable compared with the real code in sampled replays."""
        self.notes.append((key, value, False))

    def notes_of(self, key, values):
        """Like note for a collection whose order is not observable."""
        self.notes.append((key, values, True))

    # -- formulas that do not fork
    def all(self, xs):
        return sbool(mk_and([node_of(x) for x in xs]))

    def any(self, xs):
        return sbool(mk_or([node_of(x) for x in xs]))

    def neg(self, x):
        return snot(x)

    def iff(self, a, b):
        a, b = node_of(a), node_of(b)
        return sbool(mk_or([mk_and([a, b]), mk_and([mk_not(a), mk_not(b)])]))

    def same(self, a, b):
        """a == b for strings / nested tuples and lists, without forking."""
        if isinstance(a, (list, tuple)):
            if not isinstance(b, (list, tuple)) or len(a) != len(b):
                return False
            return self.all([self.same(x, y) for x, y in zip(a, b)])
        return a == b

    def member(self, c, chars):
        """one-character string c is among the (constant) characters"""
        if type(c) is SymStr:
            return sbool(symb.mem(c.c[0], mask_of_str(chars)))
        return c in chars

    def fullmatch(self, pattern, text):
        """The text is in the language of the regular expression."""
        if type(pattern) is str and type(text) is str:
            return sre._re.fullmatch(pattern, text) is not None
        return sbool(formula(sre.compile(pattern), symb.terms(text)))

    def rx(self, pattern):
        """The text compiles as a regular expression."""
        try:
            sre.compile(pattern)
        except sre._re.error:
            self.check(False, 'not a regular expression')

    def plain(self, x):
        """Concretise (one branch per value)."""
        return models.deep_conc(x)

    # -- the code
    def lib(self, name):
        return self.world.load(name)

    def set_order(self, name):
        """The iteration order of sets is arbitrary: insertion order or its reverse."""
        self.ctx.set_reversed = bool(self.choice(name, 2))

    def reverse_sets(self, on):
        self.ctx.set_reversed = on

    def config(self, mcn):
        from configparser import ConfigParser
        cfg = ConfigParser()
        cfg.add_section('make')
        cfg.set('make', 'min_cluster_num', str(mcn))
        return cfg

    def cli(self, which, argv, files=None, stdin=None):
        """Run pattern-make / pattern-match; -> bytes written to stdout.
        files: {name: list of byte lines | text}."""
        self.ctx.files = files or {}
        cmd = self.world.load('os_urlpattern.cmdline')
        fsys = models.module_for('sys', self.world)
        fsys.stdout.b = []
        fsys.stdin.buffer.set(stdin or [])
        getattr(cmd, which)(['prog'] + list(argv))
        out = fsys.stdout.value()
        fsys.stdout.b = []
        return out

    def ete_tree(self, url_meta, root):
        """(name, children) tree shown by the ETE formatter."""
        fmt = self.world.load('os_urlpattern.formatter')
        self.ctx.ete = None
        res = list(fmt.pformat('ete', url_meta, root))
        return (len(res), self.ctx.ete)


def formula(rx, text):
    """Membership of text (terms) in the regex, as one formula."""
    n = len(text)
    m = sre.M(rx, SymStr(text), text, True)
    K = sre.K
    ONE = (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN)

    def step(op, av, v):
        out = [False] * (n + 1)
        for i in range(n):
            if v[i] is not False:
                out[i + 1] = mk_and([v[i], m.one(op, av, text[i])])
        return out

    def run(items, v):
        for op, av in items:
            if op in ONE:
                v = step(op, av, v)
            elif op is K.AT:
                if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                    v = [v[0]] + [False] * n
                else:
                    v = [False] * n + [v[n]]
            elif op is K.SUBPATTERN:
                v = run(av[3], v)
            elif op is K.BRANCH:
                vs = [run(p, v) for p in av[1]]
                v = [mk_or([x[i] for x in vs]) for i in range(n + 1)]
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                lo, hi, p = av
                hi = n + int(lo) if hi is K.MAXREPEAT else int(hi)
                cur, acc = v, None
                for k in range(0, hi + 1):
                    if k >= lo:
                        acc = cur if acc is None else [mk_or([a, b]) for a, b in zip(acc, cur)]
                    if k == hi or all(x is False for x in cur):
                        break
                    cur = run(p, cur)
                v = acc if acc is not None else [False] * (n + 1)
            else:
                raise symb.Unsupported('regex op %s in oracle' % op)
        return v
    return run(list(rx.tree), [True] + [False] * n)[n]
