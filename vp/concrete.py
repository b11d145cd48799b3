"""The harness interface, concrete side: runs a harness on given inputs against
the real package.  Plain Python, no solver, nothing instrumented."""
import importlib
import io
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


class Assumed(Exception):
    pass


class Violated(Exception):
    pass


class Conc(object):
    symbolic = False

    def __init__(self, inputs, fix=None):
        self.inputs = inputs
        self.notes = []
        from . import spec
        self.spec = spec

    def _get(self, name):
        if name not in self.inputs:
            raise Assumed('input %s not part of the counterexample' % name)
        return self.inputs[name]

    def string(self, name, sets):
        v = self._get(name)
        if len(v) != len(sets):
            raise Assumed(name)
        for c, s in zip(v, sets):
            if c not in s:
                raise Assumed('input %s outside its set' % name)
        return v

    def text(self, name, n, alphabet):
        return self.string(name, [alphabet] * n)

    def data(self, name, n, alphabet):
        return self._get(name)

    def raw(self, name, sets):
        return self._get(name)

    def drawing(self, text):
        return ''.join(sorted([c for c in text if c not in '/\\|-:+ \n']))

    def choice(self, name, n):
        return self._get(name)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def assume(self, cond):
        if not cond:
            raise Assumed('assumption')

    def check(self, cond, label):
        if not cond:
            raise Violated(label)

    def fail(self, label):
        raise Violated(label)

    def reach(self, label):
        pass

    def note(self, key, value):
        self.notes.append((key, value))

    def notes_of(self, key, values):
        self.notes.append((key, sorted(values)))

    all = staticmethod(lambda xs: all(list(xs)))
    any = staticmethod(lambda xs: any(list(xs)))

    def neg(self, x):
        return not x

    def iff(self, a, b):
        return bool(a) == bool(b)

    def same(self, a, b):
        if isinstance(a, (list, tuple)):
            return isinstance(b, (list, tuple)) and len(a) == len(b) and \
                all(self.same(x, y) for x, y in zip(a, b))
        return a == b

    def member(self, c, chars):
        return c in chars

    def fullmatch(self, pattern, text):
        return re.fullmatch(pattern, text) is not None

    def rx(self, pattern):
        try:
            re.compile(pattern)
        except re.error:
            raise Violated('not a regular expression')

    def plain(self, x):
        return x

    def lib(self, name):
        return importlib.import_module(name)

    def set_order(self, name):
        self.choice(name, 2)

    def reverse_sets(self, on):
        pass

    def config(self, mcn):
        from configparser import ConfigParser
        cfg = ConfigParser()
        cfg.add_section('make')
        cfg.set('make', 'min_cluster_num', str(mcn))
        return cfg

    def cli(self, which, argv, files=None, stdin=None):
        d = tempfile.mkdtemp(prefix='vpcli')
        try:
            names = {}
            for n, content in (files or {}).items():
                p = os.path.join(d, n)
                with open(p, 'wb') as f:
                    f.write(content.encode('utf-8') if isinstance(content, str) else b''.join(content))
                names[n] = p
            argv = [names.get(a, a) for a in argv]
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                                'import sys\nfrom os_urlpattern.cmdline import %s as f\nf(["prog"]+sys.argv[1:])' % which] + argv,
                               input=b''.join(stdin or []), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=60, cwd=d)
            if r.returncode != 0:
                raise RuntimeError('exit %s: %s' % (r.returncode, r.stderr[-300:].decode('utf-8', 'replace')))
            return r.stdout
        finally:
            for n in os.listdir(d):
                os.unlink(os.path.join(d, n))
            os.rmdir(d)

    def ete_tree(self, url_meta, root):
        fmt = importlib.import_module('os_urlpattern.formatter')
        import ete3
        got = {}

        def get_ascii(tree, show_internal=True, **k):
            def dump(n):
                return (n.name, [dump(c) for c in n.children])
            got['t'] = dump(tree) if show_internal else None
            return '<ete>'
        old = ete3.Tree.get_ascii
        ete3.Tree.get_ascii = get_ascii
        try:
            res = list(fmt.pformat('ete', url_meta, root))
        finally:
            ete3.Tree.get_ascii = old
        return (len(res), got.get('t'))
