"""Pattern forms, strict matching and specificity, independent of the package's code.

A pattern is a list of alternating separators and segments, ['/', 'l+', '/', '=l1 d{2}', '?k=', 'd+', '#', '=l1'].
A segment is a blank separated list of parts:
  =SKELETON   literal text (any characters of the skeleton's classes)
  CLASSES+    one or more characters of the classes, l u d or signs
  CLASSES{n}  exactly n of them
A first part M: or L: marks the forms that split at signs only, or at the last dot only."""
from props.common import *

RULES = {'l': 'a-z', 'u': 'A-Z', 'd': '0-9'}
MIXED = ('a-z', 'A-Z', '0-9', '%')


class Part(object):
    def __init__(self, kind, rules, num, text):
        self.kind = kind        # 0 literal, 1 fixed length, 2 wildcard
        self.rules = rules
        self.num = num
        self.text = text

    def regex(self):
        if self.kind == 0:
            return spec_literal(self.text)
        if self.kind == 1:
            return spec_unit(''.join(sorted(self.rules)), self.num)
        return '[' + ''.join(sorted(self.rules)) + ']+'


class Segment(object):
    def __init__(self, form, parts):
        self.form = form        # piece, multi, mixed, ldsf, length, fuzzy
        self.parts = parts
        self.text = ''.join([p.regex() for p in parts])
        rules = set()
        for p in parts:
            rules.update(p.rules)
        self.rules = rules

    def strict(self, h, piece):
        """The segment strictly matches the piece, each part covering whole runs (a formula)."""
        chunks = split(self.form, spec_runs(piece))
        if chunks is None or len(chunks) != len(self.parts):
            return False
        out = []
        for p, (rules, t) in zip(self.parts, chunks):
            if set(p.rules) != set(rules):
                return False
            if p.kind == 0:
                out.append(p.text == t)
            elif p.kind == 1 and p.num != len(t):
                return False
        return h.all(out)

    def rank(self):
        """Smaller is more specific."""
        return (['piece', 'multi', 'mixed', 'ldsf', 'length', 'fuzzy'].index(self.form),
                [p.kind for p in reversed(self.parts)])


def join(runs):
    rules = []
    for r, _ in runs:
        if r not in rules:
            rules.append(r)
    return rules, ''.join([t for _, t in runs])


def mixed(runs):
    out = []
    cur = []
    for r, t in runs:
        if r in MIXED:
            cur.append((r, t))
            continue
        if cur:
            out.append(join(cur))
        cur = []
        out.append(([r], t))
    if cur:
        out.append(join(cur))
    return out


def split(form, runs):
    """The chunks that the parts of a form have to cover."""
    if form in ('piece', 'length', 'fuzzy'):
        return [join(runs)]
    if form == 'multi':
        return [([r], t) for r, t in runs]
    if form == 'mixed':
        return mixed(runs)
    dots = [i for i, (r, _) in enumerate(runs) if r == '\\.']
    if not dots or dots[-1] == 0:
        return None
    i = dots[-1]
    return [join(runs[:i]), ([runs[i][0]], runs[i][1])] + mixed(runs[i + 1:])


def part(h, name, spec):
    if spec[0] == '=':
        t = text(h, name, spec[1:])
        return Part(0, join(spec_runs(t))[0], len(t), t)
    i = spec.rfind('{') if spec[-1] == '}' else -1
    classes = spec[:i] if i > 0 else spec[:-1]
    rules = [RULES[c] if c in RULES else rule_of(c) for c in classes]
    if i > 0:
        return Part(1, rules, int(spec[i + 1:-1]), None)
    return Part(2, rules, None, None)


def segment(h, name, spec):
    parts = spec.split(' ')
    form = None
    if parts[0] in ('M:', 'L:'):
        form = 'mixed' if parts[0] == 'M:' else 'ldsf'
        parts = parts[1:]
    parts = [part(h, '%s.%d' % (name, k), p) for k, p in enumerate(parts)]
    if form is None:
        if all([p.kind == 0 for p in parts]):
            form = 'piece'
            t = ''.join([p.text for p in parts])
            parts = [Part(0, join(spec_runs(t))[0], len(t), t)]
        elif len(parts) == 1:
            form = 'length' if parts[0].kind == 1 else 'fuzzy'
        else:
            form = 'multi'
    return Segment(form, parts)


class Pat(object):
    def __init__(self, h, name, spec):
        self.seps = spec[0::2]
        self.segments = [segment(h, '%s.%d' % (name, k), s) if s else Segment('piece', [Part(0, [], 0, '')])
                         for k, s in enumerate(spec[1::2])]
        # path separators are '/', query separators '?key=' / '&key=', the fragment separator '#'
        self.text = ''.join([('[\\?]' + s[1:] if s[0] == '?' else s) + g.text for s, g in zip(self.seps, self.segments)])
        keys = []
        for s in self.seps:
            if s[0] in '?&':
                keys.append(s[1:])
        self.meta = (len([s for s in self.seps if s == '/']), tuple(keys), '#' in self.seps)

    def strict(self, h, u):
        """u: (depth, keys, fragment, pieces)"""
        if self.meta != u[:3]:
            return False
        return h.all([g.strict(h, p) for g, p in zip(self.segments, u[3])])

    def strict_regex(self, h, u):
        """Structure, regular expressions and class sets per segment."""
        if self.meta != u[:3]:
            return False
        out = []
        for g, p in zip(self.segments, u[3]):
            if g.rules != set(join(spec_runs(p))[0]):
                return False
            out.append(h.fullmatch(g.text, p))
        return h.all(out)

    def rank(self):
        return [g.rank() for g in reversed(self.segments)]


def patterns(h, pool, n):
    """n patterns of the pool; all of them for n = 0 (from any one on) or None, forwards or backwards."""
    if n:
        which = [h.choice('p%d' % i, len(pool)) for i in range(n)]
    else:
        k = h.choice('from', min(len(pool), 12)) if n == 0 else 0
        which = list(range(len(pool)))
        which = which[k:] + which[:k]
        if h.choice('back', 2):
            which.reverse()
    return [Pat(h, 'p%d' % i, pool[k]) for i, k in enumerate(which)]


class Scene(object):
    """Patterns loaded one after the other, and one URL matched."""

    def __init__(self, h, pool, urls, n):
        pm = h.lib('os_urlpattern.pattern_matcher')
        self.matcher = pm.PatternMatcher()
        self.pats = patterns(h, pool, n)
        k = h.choice('url', len(urls))
        self.suffix = '/' + text(h, 'u', urls[k])
        self.u = spec_url(self.suffix)
        for i, p in enumerate(self.pats):
            self.matcher.load(p.text, meta=i)
        self.results = list(self.matcher.match(HOST + self.suffix))
        self.got = [r.meta for r in self.results]
        h.notes_of('patterns', [p.text for p in self.pats])
        h.notes_of('got', self.got)


# name, pool, URLs.  Every load takes any pattern of the pool.
def one(*segs):
    return [['/', s] for s in segs]


POOLS = [
    ('word', one('=l1', '=l2', 'l{1}', 'l{2}', 'l+'), ['l1', 'l2', 'l3']),
    ('num', one('=d12', 'd{12}', 'd{1}', 'd{2}', 'd+', '=d1'), ['d12', 'd1', 'd2']),
    ('sign', one('=-1', '=-2', '-+', '=-12'), ['-1', '-2', '-12']),
    ('ld', one('=l1d1', '=l1 d{1}', 'l{1} =d1', 'l+ d{1}', '=l1 d+', 'l+ d+', 'dl{2}', 'dl+', 'd+ l+', 'l{2} d+'), ['l1d1', 'l1d2', 'd1l1', 'l2d1']),
    ('ldl', one('=l1 d{1} =l1', 'l+ d+ l+', 'l{1} =d1 l+', 'dl{3}', 'dl+', 'l+ d+'), ['l1d1l1', 'd1l1d1', 'l1d1']),
    ('dash', one('=l1-1l1', 'l+ =-1 l+', '=l1 =-1 l+', 'l+ =-2 l{1}', 'l+ -+ l+', '-l{3}', '-l+', '-l{4}'), ['l1-1l1', 'l1-2l1', '-1l2']),
    ('mix', one('M: dl+ =-1 =x1', 'M: dl{2} =-1 l+', '=l1 =d1 =-1 l+', 'M: =l1d1 =-1 dl+', 'M: dl+ =-1 dl+', 'l+ d+ =-1 =x1', '=l1 d{1} =-1 l+', '-dl+', '-dl{4}'),
     ['l1d1-1l1', 'd1l1-1x1', 'l1d1-1d1']),
    ('mixmix', one('M: dl+ =_1 dl+', 'M: dl{2} =_1 dl{2}', 'M: =l1d1 =_1 dl+', 'M: dl+ =_1 =l1d1', '_dl{5}'), ['l1d1_1l1d1', 'l1d1_1d1l1']),
    ('mix3', one('M: dl{2} =-1', 'M: dl+ =-1', 'l+ d+ =-1', '=l1 d{1} =-1', 'M: dl{2} -+', '-dl+', '-dl{3}'), ['l1d1-1', 'd1l1-1', 'l1-1d1']),
    ('mix2', one('M: =-1 dl+', 'M: =-1 dl{2}', '=-1 l+ d+', 'M: -+ dl+', 'M: dl+ =-1 =l1'), ['-1l1d1', '-1d1l1', 'd1l1-1l1']),
    ('mixlen', one('M: dl{12} =_1 =x1', 'M: dl{3} =_1 =x1', 'l{1} d{11} =_1 =x1', 'M: dl+ =_1 l{1}', '_dl{14}'), ['l1d11_1x1', 'l2d1_1x1', 'd1l11_1l1']),
    ('pct', one('M: d%l+ =-1 =x1', '=%1 d{1} l{1} =-1 =x1', '%+ d+ l+ =-1 l+', '-d%l+'), ['%1d1l1-1l1', 'l1%1d1-1l1']),
    ('ext', one('L: l+ =.1 =h1t1m1', 'L: l{2} =.1 =h1t1m1', '=l1.1h1t1m1', 'L: l{1} =.1 l+', 'l.{5}', 'l.+', 'L: l+ =.1 =l3'),
     ['l1.1h1t1m1', 'l2.1h1t1m1', 'l1.1l3', 'l1.2h1t1m1']),
    ('extld', one('L: dl+ =.1 =h1', 'L: dl{2} =.1 =l1', 'l+ d+ =.1 =h1', 'M: dl+ =.1 dl+', 'dl.+', 'dl.{4}', 'L: dl{2} =.1 l+'),
     ['l1d1.1h1', 'd1l1.1l1', 'l1d1.1d1']),
    ('mp3', one('L: dl+ =.1 =m1p1`31', 'l+ d+ =.1 =m1p1 =31', 'M: dl{2} =.1 dl+', 'L: dl{2} =.1 =l1d1', 'dl.+', 'L: dl{2} =.1 =l1'),
     ['l1d1.1m1p1`31', 'l1d1.1l1d1', 'l1d1.1l1']),
    ('extsign', one('L: -l+ =.1 =h1', 'L: -l{3} =.1 =h1', 'l+ =-1 l+ =.1 =h1', 'L: -l+ =.2 =h1', '.-l+', '.-l{5}', 'L: -l+ .+ =h1'),
     ['l1-1l1.1h1', 'l1-1l1.2h1', 'l1-1l1.1l1', '-1l2.1h1']),
    ('dots', one('L: .l+ =.1 =h1', 'L: .l{3} =.1 =h1', 'l+ =.1 l+ =.1 =h1', 'l.+', 'l+ =.1 =l1', '=.1 l+', '=.1l1'), ['l1.1l1.1h1', 'l1.1l1', '.1l1', 'l1.2l1']),
    ('brk', one('=[1 l+ =]1', '=[1 =l1 =]1', '][l+', '][l{3}', '=[1 l{1} =]1'), ['[1l1]1', ']1l1[1', '[1l2]1']),
    ('esc', one('l+ =\\1', '=l1 =\\1', 'l\\+', 'l\\{2}', '=\\1 l+'), ['l1\\1', '\\1l1', 'l1\\2']),
    ('brace', one('={1 d+ =}1', '={1 =d1 =}1', '{}d+', '{}d{3}', '=d1 ={1'), ['{1d1}1', 'd1{1}1', 'd1{1']),
    ('path', [['/', a, '/', b] for a in ('=l1', 'l{1}', 'l+') for b in ('=d1', 'd{1}', 'd+')], ['l1/1d1', 'l2/1d1']),
    ('path3', [['/', a, '/', b, '/', c] for a, b, c in (('=l1', 'd+', 'l+'), ('l+', 'd+', 'l+'), ('l+', '=d1', 'l+'), ('l{1}', 'd{1}', '=l1'), ('=l1', 'd+', '=l1'))],
     ['l1/1d1/1l1']),
    ('split', [['/', a, '/', b] for a, b in (('=l1 d+', 'l+'), ('l+ d+', 'l+'), ('l+ =d1', '=l1'), ('dl+', '=l1'), ('dl{2}', 'l{1}'), ('L: l+ =.1 l+', 'l+'))],
     ['l1d1/1l1', 'd1l1/1l1']),
    ('slash', [['/', 'l+', '/', ''], ['/', '=l1', '/', ''], ['/', 'l+'], ['/', 'l{1}', '/', ''], ['/', 'l{1}']], ['l1/1', 'l1', 'l2/1']),
    ('key', [['/', 'l+', '?k=', 'd+'], ['/', '=l1', '?k=', '=d1'], ['/', 'l{1}', '?k=', 'd{1}'], ['/', 'l+', '?j=', 'd+'], ['/', 'l+', '?', 'd+'],
             ['/', 'l+', '?k=', 'd+', '&j=', '']],
     ['l1?1k1=1d1', 'l1?1j1=1d1', 'l1?1d1', 'l1?1k1=1d1&1j1=1']),
    ('frag', [['/', 'l+', '#', 'd+'], ['/', '=l1', '#', '=d1'], ['/', 'l{1}', '#', ''], ['/', 'l+', '?k=', 'd+'], ['/', 'l{1}', '#', '/+ d+'],
              ['/', 'l+', '?k=', '', '#', 'd{1}']],
     ['l1#1d1', 'l1#1', 'l1#1/1d1', 'l1?1k1=1d1', 'l1?1k1=1#1d1']),
    ('upper', one('=u1l1', 'u+ l+', 'u{1} =l1', 'ul+', 'ul{2}', 'l+ u+', 'udl+', 'u+ l+ d+'), ['u1l1', 'l1u1', 'u1l1d1']),
]
# every legal sign next to letters
SIGN_POOLS = []
for _c in SIGNS:
    if _c in PATH_SIGNS:
        SIGN_POOLS.append(('sign' + _c, one('l+ =' + _c + '1', '=l1' + _c + '1', 'l' + _c + '{2}', '=' + _c + '1 l+', 'l' + _c + '+'), ['l1' + _c + '1', _c + '1l1', _c + '2']))
    else:
        SIGN_POOLS.append(('sign' + _c, [['/', '=a1', '#', s] for s in ('l+ =' + _c + '1', '=l1' + _c + '1', 'l' + _c + '{2}', '=' + _c + '1 l+', 'l' + _c + '+')], ['a1#1l1' + _c + '1', 'a1#1' + _c + '1l1']))
# larger ones: constant literals, any URL
def frozen(spec):
    """The pattern with a constant of its class in place of every free position of its literals."""
    out = []
    for s in spec:
        parts = []
        for p in s.split(' '):
            if p[:1] == '=' and s is not spec[0]:
                p = '=' + ''.join([{'l': 'h', 'u': 'H', 'd': '`1'}.get(c, c) + str(n) for c, n in runs_of(p[1:])])
            parts.append(p)
        out.append(' '.join(parts))
    return [a if k % 2 == 0 else b for k, (a, b) in enumerate(zip(spec, out))]


def dedup(pats):
    out = []
    for p in pats:
        if p not in out:
            out.append(p)
    return out


LITERALS = one(*['=%s1%s1' % (a, b) for a in 'ab' for b in 'abcefghijk']) + one(*['=`%s1' % c for c in DIGIT]) + one(*['=h1-1%s1' % c for c in 'abcefghijk']) + one(*['l+ =-1 =%s1' % c for c in 'abcefghijk'])
ALL = dedup([frozen(p) for _, pool, _ in POOLS for p in pool] + LITERALS)
ALL_URLS = dedup([u for _, _, urls in POOLS for u in urls])
TOWER = [['/', '=a1', '/', a, '/', '=c1', '/', '=e1', '/', b, '/', '=f1', '?k=', c, '&j=', d, '#', '=z1']
         for a, b, c, d in (('=l1', 'd+', 'l+', 'd{1}'), ('l+', 'd+', 'l+', 'd+'), ('l+', '=d1', 'l{1}', 'd+'), ('l{1}', 'd{1}', '=l1', '=d1'), ('l{1}', 'd{1}', '=l1', 'd+'))]
ZIGZAG = ' '.join(['l+', 'd+'] * 7)
BIG_POOLS = [
    ('tower', TOWER, ['a1/1l1/1c1/1e1/1d1/1f1?1k1=1l1&1j1=1d1#1z1']),
    ('zigzag', one(ZIGZAG + ' =x1', ZIGZAG + ' l+', 'dl+', 'dl{15}', ZIGZAG.replace('l+', 'l{1}') + ' l+', '=h1 ' + ZIGZAG[3:] + ' l+'), ['l1d1' * 7 + 'l1', 'l1d1h1`11' * 3 + 'h1`12x1']),
    ('hundred', one('l{100}', 'l{10}', 'l{1}', 'l{101}', 'l+', '=h100', '=h10'), ['l1h98l1', 'l1h9', 'l1h100', 'l10', 'l1']),
    ('hundredq', [['/', '=a1', '?k=', s] for s in ('d{100}', 'd{10}', 'd{1}', 'd+', '=`1100', '=`110 =-1', 'd{10} =-1', 'd{10} -+')], ['a1?1k1=1d1`198d1', 'a1?1k1=1d1`19', 'a1?1k1=1d1`19-1', 'a1?1k1=1d1`19-12']),
]
CUBE = [['/', a, '/', b, '?k=', c] for a in ('=h1', 'l{1}', 'l+') for b in ('=h1', 'l{1}', 'l+') for c in ('=`11', 'd{1}', 'd+')]
ABYSS = [
    ('levels', [['/', s] + ['/', '=x1'] * 1600 for s in ('l+', 'l{1}', '=l1')], ['l1' + '/1x1' * 1600]),
    ('parts', one('l+ ' + '-+ =x1 ' * 800 + '=-1', 'l{1} ' + '-+ =x1 ' * 800 + '=-1', 'l+ ' + '-+ =x1 ' * 800 + '-+'), ['l1' + '-1x1' * 800 + '-1']),
]
POOL_BOUNDS = {
    'quick': '27 pools of 4-10 patterns of all emitted forms (literal, per-run, mixed, last-dot, one class; 1-3 levels, query, fragment); '
             '3 loads (4 from one-level pools of at most 5) in every order and combination with repetition, any characters in literals, '
             'any URL of 1-5 shapes per pool; all patterns of each pool and of 4 pools of large patterns (lengths 100, 15 parts, 9 levels) loaded one after the other, from any of them on, '
             'forwards and backwards; 27 patterns that may all match; all %d patterns with constant literals together, any URL of all %d shapes' % (len(ALL), len(ALL_URLS)),
    'thorough': 'the same pools with one more load each',
}
WITH_SIGN_POOLS = dict([(k, v + '; pools of 5 patterns for every legal sign, two loads') for k, v in POOL_BOUNDS.items()])
POOL_OUTSIDE = 'larger sets of patterns, other run lengths than those of the pools in props/matching.py'


def abyss_instances(fn):
    """More levels or parts than the interpreter allows nested calls."""
    return [{'name': 'abyss %s' % name, 'fn': fn, 'params': {'pool': pool, 'urls': urls, 'n': None}, 'weight': 10 ** 7, 'path_timeout': 60} for name, pool, urls in ABYSS]


def all_instances(fn, tier, big=True):
    out = []
    for name, pool, urls in BIG_POOLS + POOLS:
        for k in range(len(urls)):
            out.append({'name': 'all %s u%d' % (name, k), 'fn': fn, 'params': {'pool': pool, 'urls': urls, 'n': 0}, 'fix': {'url': k}, 'weight': 10 ** len(pool)})
    out.append({'name': 'all cube', 'fn': fn, 'params': {'pool': CUBE, 'urls': ['l1/1l1?1k1=1d1'], 'n': None}, 'weight': 10 ** 7})
    for k in range(len(ALL_URLS)) if big else ():
        out.append({'name': 'everything u%d' % k, 'fn': fn, 'params': {'pool': ALL, 'urls': ALL_URLS, 'n': None}, 'fix': {'url': k}, 'weight': 10 ** 5})
    return out


def sign_pool_instances(fn, tier):
    out = []
    for name, pool, urls in SIGN_POOLS:
        out.append({'name': name, 'fn': fn, 'params': {'pool': pool, 'urls': urls, 'n': 2 if tier == 'quick' else 3}, 'weight': 100, 'samples': 1})
    return out


def pool_instances(fn, tier, pools=POOLS, skip=(), small=5):
    out = []
    for name, pool, urls in pools:
        if name in skip:
            continue
        n = 4 if len(pool) <= small and len(pool[0]) == 2 else 3
        if tier == 'thorough':
            n += 1
        for k in range(len(urls)):
            out.append({'name': '%s n%d u%d' % (name, n, k), 'fn': fn, 'params': {'pool': pool, 'urls': urls, 'n': n},
                        'fix': {'url': k}, 'weight': len(pool) ** n})
    return out
