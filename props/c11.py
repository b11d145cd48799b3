"""C11 Fuzzy digests are equal exactly for equal structure and character spaces."""
from props.common import *

REACH = ['equal', 'different', 'pattern equal', 'pattern different']
BOUNDS = {
    'quick': 'all pairs of acceptable URL suffixes of up to 3 characters over / ? # & = . a A 0 [ (pairs of lengths up to 2+3), '
             'and of 14 longer structures with any characters of the class at each position and any sign in 1-2 positions; '
             'URL and pattern pairs over 12 pattern forms; three long URLs (up to 12 levels, 7 query items) against themselves with any legal character inserted or replaced anywhere, '
             'and with any two of 12 characters at the same place',
    'thorough': 'pairs of lengths up to 3+3 and more structures',
}
OUTSIDE = 'longer URLs; md5 is taken to be collision free'


def classes(s):
    out = []
    for c in s:
        r = rule_of(c)
        if r not in out:
            out.append(r)
    return ''.join(sorted(out))


def shape(u):
    """What the digest may depend on."""
    depth, keys, frag, pieces = u
    return depth, frag, keys, [classes(p) for p in pieces]


def compare(h, s, t):
    pr = h.lib('os_urlpattern.parser')
    a, b = spec_url(s), spec_url(t)
    if a is None or b is None:
        return
    da, db = pr.fuzzy_digest(HOST + s), pr.fuzzy_digest(HOST + t)
    x, y = shape(a), shape(b)
    same = x[0] == y[0] and x[1] == y[1] and len(x[2]) == len(y[2]) and len(x[3]) == len(y[3])
    if same:
        same = h.all([h.same(list(x[2]), list(y[2])), h.same(x[3], y[3])])
    if da == db:
        h.reach('equal')
        h.check(same, 'equal digests: equal structure and character spaces')
    else:
        h.reach('different')
        h.check(h.neg(same), 'different digests: different structure or character spaces')


def short(h, n, m, alpha):
    compare(h, '/' + h.text('s', n, alpha), '/' + h.text('t', m, alpha))


def shaped(h, a, b):
    compare(h, '/' + h.string('s', sets2(a)), '/' + h.string('t', sets2(b)))


def sets2(skel):
    out = []
    for c, n in runs_of(skel):
        if c == 'x':
            out.extend(['.-_%[]\\{}!,'] * n)
        elif c == 'y':
            out.extend([LOWER + DIGIT] * n)
        else:
            out.extend([CLASSES.get(c, c[-1])] * n)
    return out


def long(h, base, n, drop, alpha):
    """A long URL against itself with one more or one other character, anywhere."""
    t = window(h, base, n, alpha, drop)
    h.assume(t[0] == '/')
    compare(h, base, t)


def longs(h, base, alpha):
    """Two different characters at the same place."""
    k = h.choice('at', len(base) - 1) + 1
    compare(h, base[:k] + h.text('s', 1, alpha) + base[k + 1:], base[:k] + h.text('t', 1, alpha) + base[k + 1:])


LONG = ['/aa/b-1/c.d/e%20f/g/h?a=1&bb=22&c=&d&e-g=[1]#frag/1?x', '/a/b/c/d/e/f/g/h/i/j/k/1', '/a?a=1&b=2&c=3&d=4&e=5&f=6&g=7']

FORMS = [
    # pattern template ({x} sign class of s), URL skeleton with x the same sign, must be equal?
    ('/[a-z]+', 'l2', True), ('/[a-z]{2}', 'l2', True), ('/[0-9a-z]+', 'l1d1', True), ('/[0-9a-z]+', 'l2', False),
    ('/ab', 'l2', True), ('/[{x}]+', 'x2', True), ('/[{x}]', 'x1', True), ('/a[{x}]b', 'l1x1l1', True), ('/[{x}a-z]+', 'l1x1l1', True),
    ('/[a-z{x}]+', 'l1x1l1', True), ('/[{x}a-z]+', 'l2', False), ('/[a-z]+/', 'l2/1', True), ('/[a-z]+/', 'l2', False),
    ('/a[\\?]k=[0-9]+', 'l1?1k1=1d2', True), ('/a[\\?]k=[0-9]+', 'l1?1j1=1d2', False), ('/a[\\?][0-9]+', 'l1?1d2', True),
    ('/a[\\?]', 'l1?1', True), ('/a#', 'l1#1', True), ('/a#[a-z]+', 'l1#1l2', True), ('/a#[{x}a-z]{3}', 'l1#1l1x1l1', True),
    ('/a[\\?]k{k}=[0-9]', 'l1?1k1x1=1d1', True), ('/a', 'l1#1', False), ('/a', 'l1?1', False),
]


def pattern(h, form, skel, want):
    pr = h.lib('os_urlpattern.parser')
    c = h.text('c', 1, '.-_%[]\\{}!,')
    r = rule_of(c)
    text = form.replace('{x}', r).replace('{k}', '[' + r + ']')
    s = ''
    for i, (k, n) in enumerate(runs_of(skel)):
        if k == 'x':
            s = s + c * n
        else:
            s = s + h.text('s%d' % i, n, CLASSES.get(k, k[-1]))
    same = pr.fuzzy_digest(text) == pr.fuzzy_digest(HOST + '/' + s)
    h.reach('pattern equal' if want else 'pattern different')
    h.check(same == want, 'digest of a pattern and a URL')


SHAPES = ['l1', 'l2', 'l1/1', 'l1/1l1', 'x1', 'l1x1', 'x1l1', 'l1?1l1', 'l1?1', 'l1#1', 'l1?1#1', 'l1?1y1=1d1', 'l1?1y1=1l1&1y1=1d1', 'l1?1y1&1y1',
          'l1?1y1=1', 'l1?1y1x1=1', 'd1?1=1l1', 'l1/1?1x1', 'l1#1x1', 'l1#1x1l1', 'l1#1/1', 'l1?1/1#1', 'l1?1y1=1=1', 'l1?1=1=1', 'y1x1y1', 'l1?1#1#1']


def instances(tier):
    big = tier == 'thorough'
    al = '/?#&=.aA0['
    out = []
    for n in range(0, 4):
        for m in range(0, 4 if big else (3 if n < 3 else 2)):
            if m <= n:
                out.append({'name': 'short %d %d' % (n, m), 'fn': 'short', 'params': {'n': n, 'm': m, 'alpha': al}, 'weight': 8 ** (n + m)})
    for i, a in enumerate(SHAPES):
        for b in SHAPES[i:]:
            out.append({'name': 'shape %s %s' % (a, b), 'fn': 'shaped', 'params': {'a': a, 'b': b}, 'weight': 5, 'samples': 1})
    for i, b in enumerate(LONG):
        out.append({'name': 'long%d' % i, 'fn': 'long', 'params': {'base': b, 'n': 1, 'drop': 0, 'alpha': LEGAL}, 'weight': 10 ** 5})
        out.append({'name': 'long%d replaced' % i, 'fn': 'long', 'params': {'base': b, 'n': 1, 'drop': 1, 'alpha': LEGAL}, 'weight': 10 ** 5})
        out.append({'name': 'long%d both' % i, 'fn': 'longs', 'params': {'base': b, 'alpha': al + '-%'}, 'weight': 10 ** 5})
    for i, (f, s, w) in enumerate(FORMS):
        out.append({'name': 'pattern %d' % i, 'fn': 'pattern', 'params': {'form': f, 'skel': s, 'want': w}, 'weight': 10, 'samples': 1})
    return out
