"""C07 URL structure depends only on path, query and fragment, and is read exactly."""
from props.common import *

REACH = ['accepted', 'rejected', 'query', 'fragment', 'empty fragment', 'empty query', 'trailing slash', 'params', 'same']
BOUNDS = {
    'quick': 'http://h followed by any suffix of up to 6 characters over 128 ASCII and 18 other code points; suffixes '
             'of 7 characters over / ? # ; & = . a; three forms of scheme, user info, host and port with suffixes of up to 4; '
             'four long suffixes (up to 134 characters, 25 levels, 21 query items) with one (any) or two (structural) characters inserted anywhere or one replaced by any',
    'thorough': 'any suffix of up to 7 characters; 8 over / ? # ; & = . a; 11 forms of scheme and authority',
}
OUTSIDE = 'tab, CR and LF inside a URL (removed by urllib before the package sees them); suffixes longer than the bounds'
PREFIXES = ['http://h', 'https://u:p@x.org:8080', '//x', 'h', 'ftp://h', 'http:', 'HTTP://H.ORG', 'svn+ssh://x.y', '', 'http://[::1]', 'javascript:']


def judge(h, prefix, s):
    pu = h.lib('os_urlpattern.parse_utils')
    ex = h.lib('os_urlpattern.exceptions')
    for c in s:
        h.assume(h.neg(h.member(c, '\t\r\n')))
    want = spec_url(s)
    try:
        meta, pieces = pu.analyze_url(prefix + s)
    except (ex.IrregularURLException, ex.InvalidCharException):
        h.reach('rejected')
        h.check(want is None, 'only URLs without a path, with an empty query item or an illegal key are rejected')
        return None
    h.check(want is not None, 'URLs without a path, with an empty query item or an illegal key are rejected')
    h.reach('accepted')
    depth, keys, frag, texts = want
    if keys == ('',) and texts[depth] == '':
        h.reach('empty query')
    if keys:
        h.reach('query')
    if frag:
        h.reach('fragment')
        if texts[-1] == '':
            h.reach('empty fragment')
    if texts[depth - 1] == '':
        h.reach('trailing slash')
    h.check(meta.path_depth == depth, 'path levels')
    h.check(h.same(tuple(meta.query_keys), keys), 'query keys')
    h.check(meta.has_fragment == frag, 'fragment presence')
    h.check(len(pieces) == len(texts), 'number of segments')
    h.check(h.same(tuple(pieces), texts), 'segments')
    h.check(meta.depth == len(texts), 'depth')
    h.note('meta', (meta.path_depth, tuple(meta.query_keys), meta.has_fragment, tuple(pieces)))
    return meta, pieces


def whole(h, n, alpha, prefix, first='/?#'):
    s = '' if n == 0 else h.text('f', 1, first) + h.text('s', n - 1, alpha)
    if n > 1 and s.find(';') >= 0:
        h.reach('params')
    judge(h, prefix, s)


def long(h, base, n, drop):
    s = window(h, base, n, ANY if n == 1 else '/?#;&=.a ', drop)
    h.assume(s[0] == '/')
    judge(h, HOST, s)


LONG = ['/aa/b-1/c.d/e%20f/g/h/i/j/k/index.html;p=1?a=1&bb=22&c=&d&e=x.y&f-g=[1]#frag/1?x=#y', '/a//b///c/d/?q;r=1&=2&s==3#;', '/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa?xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx', '/a' * 25 + '?' + 'k=v&' * 20 + 'j#f']


def meta_eq(h, n, alpha, prefixes):
    """The authority has no influence on what parse() makes of a URL."""
    pr = h.lib('os_urlpattern.parser')
    s = '/' + h.text('s', n, alpha)
    for c in s:
        h.assume(h.neg(h.member(c, '\t\r\n')))
    got = []
    for p in prefixes:
        try:
            meta, pieces = pr.parse(p + s)
            got.append((tuple(meta), tuple([x.pieces for x in pieces])))
        except ValueError as e:
            got.append(type(e).__name__)
        except Exception as e:
            got.append(type(e).__name__)
    for g in got[1:]:
        h.reach('same')
        if isinstance(g, str) or isinstance(got[0], str):
            h.check(isinstance(g, str) and isinstance(got[0], str) and g == got[0], 'same verdict')
        else:
            h.check(h.same(g[0], got[0][0]), 'same structure')
            h.check(h.same(g[1], got[0][1]), 'same segments')


def instances(tier):
    big = tier == 'thorough'
    out = [{'name': 'any%d' % n, 'fn': 'whole', 'params': {'n': n, 'alpha': ANY, 'prefix': HOST}, 'weight': 5 ** n, 'coverage': n < 4}
           for n in range(0, 8 if big else 7)]
    for n in range(7, 9 if big else 8):
        out.append({'name': 'struct%d' % n, 'fn': 'whole', 'params': {'n': n, 'alpha': '/?#;&=.a', 'prefix': HOST}, 'weight': 4 ** n})
    for i, b in enumerate(LONG):
        for n, drop in ((1, 0), (1, 1), (2, 0)) if i < 2 or big else ((1, 0), (1, 1)):
            out.append({'name': 'long%d %d-%d' % (i, n, drop), 'fn': 'long', 'params': {'base': b, 'n': n, 'drop': drop}, 'weight': 10 ** 3})
    for p in PREFIXES[1:] if big else PREFIXES[1:4]:
        for n in range(0, 5):
            out.append({'name': 'prefix %s %d' % (p, n), 'fn': 'whole',
                        'params': {'n': n, 'alpha': '/?#;&=.a[', 'prefix': p, 'first': '/?#' if p and p != 'http:' and '//' in p else '/'},
                        'weight': 3 ** n})
    out.append({'name': 'authority', 'fn': 'meta_eq', 'params': {'n': 3, 'alpha': '/?#;&=.a[ ', 'prefixes': ['http://h', 'https://u:p@x.org:8080', '//', 'x://[::1]:2'][:2]}, 'weight': 50})
    return out
