"""C10 Query key normalisation is an injective regex form of the key."""
from props.common import *

REACH = ['normalised', 'rejected', 'sign run', 'reserved']
BOUNDS = {
    'quick': 'every string of up to 5 characters over 128 ASCII and 18 other code points, reserved set {=} and none; '
             'two and three runs of any sign, letter or digit with run lengths 1, 2, 10, 11; pairs of up to 2 characters; '
             'keys of whole URLs of up to 3 characters; four long keys (up to 40 characters) with any legal character inserted or replaced anywhere; runs of 100',
    'thorough': 'as quick with strings of up to 6 characters and pairs of up to 3',
}
OUTSIDE = 'longer keys with more than three distinct runs'


def judge(h, s, got, keep):
    want = spec_literal(s, keep)
    h.check(want is not None, 'illegal characters are rejected')
    h.check(h.same(got, want), 'normalised form')
    if len(s) <= 2:
        h.check(h.fullmatch(got, s), 'as a regular expression it matches the key')
    h.note('norm', got)


def norm(h, n, reserved):
    pu = h.lib('os_urlpattern.parse_utils')
    ex = h.lib('os_urlpattern.exceptions')
    s = h.text('s', n, ANY)
    legal = h.all([h.member(c, LEGAL) for c in s])
    try:
        got = pu.normalize(s, frozenset('=')) if reserved else pu.normalize(s)
    except ex.InvalidCharException:
        h.reach('rejected')
        h.check(h.neg(legal), 'only illegal characters are rejected')
        return
    h.check(legal, 'illegal characters are rejected')
    h.reach('normalised')
    judge(h, s, got, '=' if reserved else '')


def runs(h, lens, alpha):
    pu = h.lib('os_urlpattern.parse_utils')
    s = ''
    last = None
    for i, n in enumerate(lens):
        c = h.text('c%d' % i, 1, alpha)
        if last is not None:
            h.assume(c != last)
        last = c
        s = s + c * n
    h.reach('sign run')
    judge(h, s, pu.normalize(s, frozenset('=')), '=')


def long(h, base, n, drop):
    pu = h.lib('os_urlpattern.parse_utils')
    s = window(h, base, n, LEGAL, drop)
    judge(h, s, pu.normalize(s, frozenset('=')), '=')


LONG = ['a-b_c..d[0]==e--f' * 2, '=' * 12 + '-' * 12, 'user[profile][name]', 'x' * 40]


def pair(h, n, m, alpha):
    pu = h.lib('os_urlpattern.parse_utils')
    s = h.text('s', n, alpha)
    t = h.text('t', m, alpha)
    if pu.normalize(s, frozenset('=')) == pu.normalize(t, frozenset('=')):
        h.check(s == t, 'different keys have different forms')


def url(h, n, tail):
    pu = h.lib('os_urlpattern.parse_utils')
    ex = h.lib('os_urlpattern.exceptions')
    s = h.text('s', n, ANY)
    for c in s:
        h.assume(h.neg(h.member(c, '&=#\t\r\n')))
    try:
        meta, _ = pu.analyze_url('http://h/a?' + s + '=' + tail)
    except ex.InvalidCharException:
        h.check(h.neg(h.all([h.member(c, LEGAL) for c in s])), 'only illegal characters are rejected')
        return
    h.reach('reserved')
    h.check(len(meta.query_keys) >= 1, 'key found')
    judge(h, s + '=', meta.query_keys[0], '=')


def instances(tier):
    big = tier == 'thorough'
    out = []
    for n in range(0, 7 if big else 6):
        for r in (0, 1):
            out.append({'name': 'norm%d,%d' % (n, r), 'fn': 'norm', 'params': {'n': n, 'reserved': r}, 'weight': 10 ** n})
    for a in (1, 2, 10, 11):
        for b in (1, 2, 10, 11):
            out.append({'name': 'run %d,%d' % (a, b), 'fn': 'runs', 'params': {'lens': [a, b], 'alpha': '[]\\.-%=a0'}, 'weight': 50})
    out.append({'name': 'run 2,11,1', 'fn': 'runs', 'params': {'lens': [2, 11, 1], 'alpha': '[\\-%=a0'}, 'weight': 80})
    out.append({'name': 'run 1,1,12', 'fn': 'runs', 'params': {'lens': [1, 1, 12], 'alpha': '[\\-%=a0'}, 'weight': 80})
    for i, b in enumerate(LONG):
        for n, drop in ((1, 0), (1, 1)):
            out.append({'name': 'long%d %d-%d' % (i, n, drop), 'fn': 'long', 'params': {'base': b, 'n': n, 'drop': drop}, 'weight': 10 ** 3})
    for r in ([100], [1000], [101, 1], [1, 100], [12, 12, 1]):
        out.append({'name': 'run %s' % r, 'fn': 'runs', 'params': {'lens': r, 'alpha': '[\\-%=a0'}, 'weight': 80})
    m = 4 if big else 3
    for n in range(1, m):
        for k in range(1, n + 1):
            out.append({'name': 'pair%d,%d' % (n, k), 'fn': 'pair', 'params': {'n': n, 'm': k, 'alpha': LEGAL if n + k < 4 else '=-[]{}\\.1aZ'},
                        'weight': 10 ** (n + k)})
    for n in range(0, 4):
        for t in ('', '1&b=2#f'):
            out.append({'name': 'url%d%s' % (n, t), 'fn': 'url', 'params': {'n': n, 'tail': t}, 'weight': 10 ** n})
    return out
