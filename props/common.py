"""Shared by harnesses; runs both under symbolic execution and natively."""
LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
DIGIT = '0123456789'
ALNUM = DIGIT + LOWER + UPPER
SYMBOL = '%&_@#;:,=<>~/'
ESCAPE = '.+\\"\'()[]{}*$^?|!-'
SIGNS = SYMBOL + ESCAPE
LEGAL = ALNUM + SIGNS
EXTRA = ''.join(map(chr, [0x80, 0x85, 0xA0, 0xA9, 0xB2, 0xC3, 0xDF, 0xE9, 0xFF, 0x130, 0x660,
                          0x2003, 0x2100, 0x3000, 0x4E2D, 0xD800, 0xFF10, 0x1F600]))
ANY = ''.join(map(chr, range(128))) + EXTRA
CLASSES = {'l': LOWER, 'u': UPPER, 'd': DIGIT}
HOST = 'http://h'


def rule_of(c):
    """The class of a legal character, as written in patterns."""
    if c in LOWER:
        return 'a-z'
    if c in UPPER:
        return 'A-Z'
    if c in DIGIT:
        return '0-9'
    if c in ESCAPE:
        return '\\' + c
    return c


# ---- skeletons: 'l3.1d12' = three lower case letters, one dot, twelve digits

def runs_of(skel):
    out = []
    i = 0
    while i < len(skel):
        c = skel[i]
        if c == '`':
            i += 1
            c = '`' + skel[i]
        j = i + 1
        while j < len(skel) and skel[j] in DIGIT:
            j += 1
        out.append((c, int(skel[i + 1:j])))
        i = j
    return out


def sets_of(skel):
    """Character sets of a URL suffix skeleton; the class letters l, u, d stand for
    any character of the class, every other character for itself ('`' before l, u, d)."""
    out = []
    for c, n in runs_of(skel):
        out.extend([CLASSES.get(c, c[-1])] * n)
    return out


def text(h, name, skel):
    return h.string(name, sets_of(skel))


def choose(h, name, options):
    """One text of one of the skeletons."""
    k = h.choice(name + '.skel', len(options))
    return text(h, name, options[k])


def window(h, base, n, alpha, drop=0):
    """A constant text with n free characters at any place, in place of drop characters."""
    k = h.choice('at', len(base) - drop + 1)
    return base[:k] + h.text('w', n, alpha) + base[k + drop:]


# ---- clustering

class Cluster(object):
    def __init__(self, pattern, metas, count, leaves, meta, root, paths):
        self.pattern = pattern      # pattern text
        self.metas = metas          # bound objects of all leaves, in order found
        self.count = count          # count of the root
        self.leaves = leaves        # number of distinct URLs (leaves)
        self.url_meta = meta
        self.root = root
        self.paths = paths          # (patterns from the first to the last level, bound objects) per leaf


def load_all(h, urls, mcn, metas=None):
    pm = h.lib('os_urlpattern.pattern_maker')
    maker = pm.PatternMaker(h.config(mcn))
    for i, u in enumerate(urls):
        maker.load(u, i if metas is None else metas[i])
    return maker


def clusters(h, maker):
    fmt = h.lib('os_urlpattern.formatter')
    ut = h.lib('os_urlpattern.utils')
    out = []
    for url_meta, root in maker.make():
        pats = list(fmt.pformat('pattern', url_meta, root))
        h.check(len(pats) == 1, 'one pattern per cluster')
        metas = []
        paths = []
        for nodes in ut.dump_tree(root):
            bound = list(nodes[-1].meta or ())
            paths.append(([str(n.pattern) for n in nodes[1:]], bound))
            metas.extend(bound)
        out.append(Cluster(pats[0], metas, root.count, len(paths), url_meta, root, paths))
    return out


# ---- what the documentation says about URL structure (oracle)

def spec_query(q):
    """(keys, values) or None when the query must be rejected."""
    if q is None:
        return (), ()
    if q == '':
        return ('',), ('',)
    items = q.split('&')
    keys, values = [], []
    for item in items:
        if item == '':
            return None
        i = item.find('=')
        if i < 0:
            keys.append(item)
            values.append('')
        else:
            keys.append(item[:i + 1])
            values.append(item[i + 1:])
    if len(keys) == 1 and keys[0][-1] != '=':
        return (values[0],), (keys[0],)
    return tuple(keys), tuple(values)


def spec_runs(s):
    """Maximal runs of the same class: [(rule, text)], None with an illegal character."""
    out = []
    for c in s:
        if c not in LEGAL:
            return None
        r = rule_of(c)
        if out and out[-1][0] == r:
            out[-1] = (r, out[-1][1] + c)
        else:
            out.append((r, c))
    return out


def spec_unit(rule, n):
    return '[' + rule + ']' + ('' if n == 1 else '{' + str(n) + '}')


def spec_literal(s, keep=''):
    """The pattern text of a literal: sign runs bracketed, the rest (and keep) as it is."""
    runs = spec_runs(s)
    if runs is None:
        return None
    out = []
    for r, t in runs:
        if r in ('a-z', 'A-Z', '0-9') or t[0] in keep:
            out.append(t)
        else:
            out.append(spec_unit(r, len(t)))
    return ''.join(out)


def spec_split(suffix):
    """URL text after the authority -> (segments, query, fragment), None when it has no path."""
    query = fragment = None
    i = suffix.find('#')
    if i >= 0:
        fragment = suffix[i + 1:]
        suffix = suffix[:i]
    i = suffix.find('?')
    if i >= 0:
        query = suffix[i + 1:]
        suffix = suffix[:i]
    if suffix == '':
        return None
    i = suffix.rfind('/')
    j = suffix.find(';', i)
    if j >= 0:
        suffix = suffix[:j]
    parts = suffix.split('/')[1:]
    segs = []
    for k, p in enumerate(parts):
        if p != '' or k == len(parts) - 1:
            segs.append(p)
    return segs, query, fragment


def spec_url(suffix):
    """-> (depth, normalised keys, has fragment, pieces) or None when unacceptable."""
    st = spec_split(suffix)
    if st is None:
        return None
    segs, query, fragment = st
    kv = spec_query(query)
    if kv is None:
        return None
    keys = []
    for k in kv[0]:
        n = spec_literal(k, '=')
        if n is None:
            return None
        keys.append(n)
    pieces = list(segs) + list(kv[1])
    if fragment is not None:
        pieces.append(fragment)
    return len(segs), tuple(keys), fragment is not None, tuple(pieces)


def spec_pattern(suffix):
    """The literal pattern text of an acceptable URL."""
    depth, keys, frag, pieces = spec_url(suffix)
    lits = [spec_literal(p) for p in pieces]
    out = '/' + '/'.join(lits[:depth])
    if keys:
        out += '[\\?]' + '&'.join([k + v for k, v in zip(keys, lits[depth:])])
    if frag:
        out += '#' + lits[-1]
    return out


# ---- clustering plans: (name, min_cluster_num, one list of skeletons per URL)

def multi(h, plan, sort=True):
    """The URL suffixes of a plan; skeletons of consecutive equal lists are chosen in order."""
    out = []
    last = (None, 0)
    for i, options in enumerate(plan):
        k = h.choice('k%d' % i, len(options))
        if sort and last[0] == options:
            h.assume(k >= last[1])
        last = (options, k)
        out.append('/' + text(h, 'u%d' % i, options[k]))
    return out


def P(k, *options):
    return [list(options)] * k


def T(skeletons, tails):
    if isinstance(skeletons, str):
        skeletons = (skeletons,)
    return [[s % t for s in skeletons] for t in tails]


PLANS = [
    # letters only: equal and different lengths
    ('len', 2, P(4, 'l1', 'l2', 'l3')), ('len5', 3, P(5, 'l1', 'l2')), ('len4', 4, P(4, 'l1', 'l12')), ('sign', 2, P(4, '-1', '-2', '-3', '-12')),
    # runs
    ('runs', 2, P(3, 'l1d1', 'l2d1', 'l1d2')), ('runs4', 3, P(4, 'l1d1')), ('perm', 2, P(3, 'l1d1', 'd1l1', 'l1d1l1')),
    ('signs', 2, P(3, 'l1_1l1', 'l1_2l1')), ('esc', 2, P(3, 'l1\\1', 'l1\\2', '\\1l1')), ('brk', 2, P(3, '[1l1]1', '[1l2]1')),
    ('brace', 2, P(3, '{1d1}1', '{1d2}1', '{2d1}1')), ('pct', 2, P(3, '%1d1l1', '%1l1d1', 'l1%1d1')),
    # file names
    ('ext', 2, P(3, 'l1.1l1', 'l2.1l1')), ('ext4', 3, P(4, 'l1.1h1t1m1')), ('mp3', 2, P(3, 'l1-1l1.1m1p1`31', 'l2-1l1.1m1p1`31')),
    ('dash', 2, P(3, 'l1-1l1.1h1', '-1l2.1h1')), ('dot', 2, P(3, 'l1-1l1.1', 'l1-1.1')), ('lead', 2, P(3, '.1l1', '.2l1', '.1l2')),
    ('two', 2, P(3, 'l1.1l1.1h1', 'l1.1h1')),
    # mixed letters and digits
    ('mix', 2, P(3, 'l1d1l1-1x1', 'd1l1-1x1')), ('mixe', 2, P(3, 'l1d1l1.1h1', 'l2d1.1h1')), ('mixx', 2, P(3, 'm1.1l1d1l1', 'm1.1d1l1d1')),
    ('long', 2, P(3, 'l1d1l1d1-1h1')), ('up', 2, P(3, 'u1l1d1', 'l1u1d1')),
    ('alt', 2, P(3, 'l1d1l1d1')), ('alte', 2, P(3, '-1l1d1l1d1')), ('altp', 2, P(3, 'l1d1l1d1-1h1/1')), ('altm', 3, P(3, 'l1d1-1', 'd1l1-1')),
    ('mixp', 2, P(3, 'l1d1-1/1', 'd1l1-1/1')), ('dashp', 2, P(3, 'l1-1h1/1', '-1l1/1')), ('mixq', 2, P(3, 'a1?1k1=1l1d1-1h1', 'a1?1k1=1d1l1-1h1')),
    ('mixd', 2, P(3, '-1l1d1.1h1', '-1d1l1.1h1')), ('mixd3', 2, P(3, 'l1-1h1d1.1h1', 'h1d1-1l1.1h1')), ('dots', 2, P(3, 'l1.1-1', 'l1.1h1-1')),
    ('ext3', 2, P(3, 'l1-1h1.1m1`11n1', '-1l1.1m1`11n1', 'h1-1l1d1.1m1`11n1', 'd1-1l1h1.1m1`11n1')), ('ext2', 2, P(3, 'l1-1h1.1d1h1', '-1l1.1d1h1')),
    ('adj', 2, P(3, '-1_1l1d1', 'l1d1-1_1')), ('adjq', 2, P(3, 'a1?1k1=1-1_1l1d1', 'a1?1k1=1d1l1-1_1')),
    # several levels
    ('path', 2, P(3, 'l1/1d1', 'l2/1d1')), ('path4', 2, P(4, 'l1/1a1')), ('deep', 3, P(4, 'a1/1l1/1b1')), ('slash', 2, P(3, 'l1/1', 'l2/1')),
    ('key', 2, P(3, 'a1?1k1=1l1', 'a1?1k1=1l2')), ('keys', 2, P(3, 'l1?1k1=1d1&1j1=1')), ('nokey', 2, P(3, 'a1?1l1', 'a1?1l2')),
    ('frag', 2, P(3, 'a1#1l1', 'a1#1l2')), ('pf', 2, P(3, 'l1#1d1')), ('kf', 2, P(3, 'l1?1k1=1d1#1l1')), ('quote', 2, P(3, '"1l1', '"1l2')), ('fslash', 2, P(3, 'a1#1/1l1', 'a1#1/1l2')),
    ('first', 3, P(4, 'l1/1a1/1b1?1k1=1c1#1z1')), ('mid', 3, P(4, 'a1/1l1/1b1/1c1')), ('ends', 2, P(3, 'l1/1a1/1l1')), ('path2', 3, P(4, 'l1/1l1')),
    ('kk', 2, P(3, 'a1?1k1=1l1&1j1=1l1')), ('len3', 4, [['l2'], ['l1'], ['l1'], ['l1'], ['l3']]),
    # first level with any multiplicities: the rest tells the URLs apart
    ('w3', 3, T('l1/1%s1', 'abcef')), ('w4', 4, T('l1/1%s1', 'abcef')), ('wl', 4, T(('l1/1%s1', 'l2/1%s1'), 'abce')), ('wr', 3, T('l1-1h1/1%s1', 'abce')),
    ('we', 3, T('l1.1h1?1k1=1%s1', 'abce')), ('wf', 4, T('a1?1k1=1l1#1%s1', 'abce')), ('wm', 3, T(('m1l1d1-1h1?1%s1', 'm1d1l1-1h1?1%s1'), 'abe')),
    # a later level splits off what made an earlier level general
    ('re', 3, P(4, 'l1/1x1') + [['l2/1y1'], ['l3/1y1']]), ('rer', 3, P(4, 'l1-1h1/1x1') + [['l2-1h1/1y1'], ['l3-1h1/1y1']]), ('rei', 3, P(4, 'l1-1x1') + [['l2-1y1'], ['l3-1y1']]),
    # different structures side by side
    ('diff', 2, [['l1', 'd1']] * 2 + [['l1/1', 'd1', 'l1#1']] * 2),
]


def K(*texts):
    """Constant texts."""
    return [[''.join(['`%s1' % c if c in 'lud' + DIGIT else c + '1' for c in t])] for t in texts]


WORDS = [a + b for a in 'abc' for b in LOWER]
CROWD = ['home', 'about', '10', '11', '12', '234', 'a-b', 'c-d', 'e-fg', 'h-ij', 'x1-y', 'y22-y', '3z-y', 'i.html', 'j.html', 'kk.html', 'm_1.htm', 'n_2.htm', 'p_33.htm',
         'a1b2', 'c3d4', 'e5f6', 'Q1', 'W22', 'x.y.z', '-', '--']
ZIG = '`11a1' * 7        # runs: 1a1a1a1a1a1a1a
# larger ones, constant except for a few positions
SCALE = [
    ('huge', 2, P(3, 'l1a118l1', 'l1a9', 'd1`1119')), ('many', 11, T('%s1', 'abcefghijk') + P(2, 'l1')), ('manyp', 10, T('%s1/1a1', 'abcefghij') + P(2, 'l1/1a1', 'l1/1b1')),
    ('manyl', 3, [['a%d' % n] for n in range(3, 13)] + P(2, 'l1', 'l2')), ('manys', 9, T('l1/1%s1', 'abcefghijk')[:2] + T('%s1/1x1', 'abcefghijk')),
    ('tower', 2, P(3, 'a1/1b1/1c1/1l1/1e1/1f1/1g1/1i1/1j1/1d1', 'a1/1b1/1c1/1l1/1e1/1f1/1g1/1i1/1j1/1d2')), ('keys5', 2, P(3, 'a1?1a1=1l1&1b1=1x1&1c1=1&1e1&1f1=1d1')),
    ('zig', 2, P(3, 'l1' + ZIG + 'd1', 'l1' + ZIG + 'd2')), ('zigp', 2, P(3, 'l1' + ZIG + 'd1/1', 'd1l1' + ZIG[3:] + '/1')), ('zigs', 2, P(3, 'l1' + ZIG + '-1h1', 'd1' + ZIG[3:] + '-1h1')),
    ('zige', 2, P(3, 'l1' + ZIG + '.1h1t1m1`15', 'd1' + ZIG[3:] + '.1h1t1m1`15')), ('bars', 2, P(3, 'l1-11h1', 'l1-10h1', 'l2-11h1')), ('dup', 3, [['x1/1y1']] * 10 + P(2, 'l1/1y1', 'l1/1d1')),
    ('crowd', 3, K(*CROWD) + P(1, 'l2', 'd2', 'l1-1l1', 'l1.1h1t1m1`l1', 'l1_1d1.1h1t1m1', 'l1d1l1d1', 'l1d1-1y1', 'u1d1', '-3')), ('crowdp', 4, K(*['a/' + c for c in CROWD[:14]]) + K(*['b/' + c for c in CROWD[10:]]) + P(1, 'l1/1l1-1l1', 'l1/1l1.1h1t1m1`l1')),
    ('sixty', 60, K(*WORDS[:59]) + P(1, 'l2', 'l3')), ('levels', 5, K(*['%s/%s/%s' % (a, b, c) for a in 'ab' for b in 'cef' for c in ('g', 'h1', 'i2')]) + P(1, 'l1/1l1/1l1', 'l1/1l1/1l1d1')),
    ('shapes', 2, K('a', 'a/', 'a?k=1', 'a?k=1#1', 'a#1', 'a/b', 'a?k', 'a?k=&j=1') + P(2, 'l1', 'l1?1k1=1d1', 'l1#1d1', 'l1?1l1', 'a1?1k1=1d1&1j1=11', 'l1/1l1')),
]


PATH_SIGNS = [c for c in SIGNS if c not in '/?#;']
SIGN_PLANS = []
for _c in SIGNS:
    if _c in PATH_SIGNS:
        SIGN_PLANS.append(('path' + _c, 2, P(3, 'l1' + _c + '1', _c + '1l1')))
        SIGN_PLANS.append(('file' + _c, 2, P(3, 'l1' + _c + '1h1.1h1', _c + '2l1.1h1')))
    elif _c == ';':
        SIGN_PLANS.append(('path;', 2, P(3, 'l1;1/1', ';1l1/1')))
    if _c not in '&#':
        SIGN_PLANS.append(('query' + _c, 2, P(3, 'a1?1k1=1l1' + _c + '1')))
        if _c != '=':
            SIGN_PLANS.append(('key' + _c, 2, P(3, 'a1?1' + _c + '1k1=1l1')))
    SIGN_PLANS.append(('frag' + _c, 2, P(3, 'a1#1l1' + _c + '1', 'a1#1' + _c + '1')))


def sign_instances(fn, **extra):
    return [dict({'name': 'sign %s' % n, 'fn': fn, 'params': {'mcn': m, 'plan': plan}, 'weight': 50, 'samples': 1}, **extra) for n, m, plan in SIGN_PLANS]


def plans(names=None, skip=()):
    return [p for p in PLANS if (names is None or p[0] in names) and p[0] not in skip]


def plan_instances(fn, names=None, skip=(), more=0, mcns=None, **extra):
    """more: additional URLs like the last one; mcns: other minimal cluster sizes."""
    out = []
    for n, mcn, plan in plans(names, skip):
        plan = plan + [plan[-1]] * more
        for m in mcns or [mcn]:
            out.append(dict({'name': '%s m%d k%d' % (n, m, len(plan)), 'fn': fn, 'params': {'mcn': m, 'plan': plan},
                             'weight': 10 ** len(plan) * sum([len(o) for o in plan])}, **extra))
    return out


HEAVY = ('perm', 'up', 'runs4', 'path2')
SLOW = ('len', 'len5', 'ext3', 'ext2', 'mixd3', 'mixq', 'mixd', 'mixp', 'altm', 'adj', 'adjq', 'kk', 'wm')      # slow with one more URL and several runs per path
MEDIUM = ('signs', 'runs', 'ext', 'mp3', 'pct', 'path', 'brace', 'kf')


def scale_instances(fn, tier, skip=(), **extra):
    out = []
    for n, mcn, plan in SCALE:
        if n in skip:
            continue
        if tier == 'thorough':
            plan = plan + [plan[-1]]
        out.append(dict({'name': 'scale %s m%d k%d' % (n, mcn, len(plan)), 'fn': fn, 'params': {'mcn': mcn, 'plan': plan}, 'weight': 10 ** 6}, **extra))
    return out


def std_instances(fn, tier, **extra):
    return base_instances(fn, tier, **extra) + scale_instances(fn, tier, **extra)


def base_instances(fn, tier, **extra):
    if tier == 'thorough':
        return plan_instances(fn, more=1, **extra) + plan_instances(fn, skip=HEAVY + MEDIUM, more=2, mcns=[2, 3], **extra)
    return plan_instances(fn, names=HEAVY, **extra) + plan_instances(fn, skip=HEAVY, more=1, **extra)


PLAN_BOUNDS = {
    'quick': '67 plans of 3-7 URLs (single segments of 1-6 runs with run lengths 1, 2, 3, 12; file names; mixed runs; several path levels, '
             'query values, fragments), any character of its class at every position, min_cluster_num 2, 3 or 4; '
             '18 larger plans with constant text except for 1-6 positions: up to 60 URLs, 10 path levels, 5 query items, segments of 120 characters or 16 runs, min_cluster_num up to 60',
    'thorough': 'the plans with up to two more URLs each (4-7 URLs) and min_cluster_num 2 and 3',
}
PLAN_OUTSIDE = 'more URLs, more runs or levels, other run lengths than those of the plans in props/common.py'
WITH_SIGNS = dict([(k, v + '; every legal sign in segments, file names, query keys, query values and fragments (3 URLs)') for k, v in PLAN_BOUNDS.items()])
