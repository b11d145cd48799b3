"""C21 Unacceptable URLs are rejected with the documented exceptions only."""
from props.common import *

REACH = ['accepted', 'rejected', 'match accepted', 'match rejected', 'pattern given']
BOUNDS = {
    'quick': 'every string of up to 3 characters and http://h + any suffix of up to 5 characters over 128 ASCII and 18 other '
             'code points, given to PatternMaker.load and PatternMatcher.match; two long URLs (up to 10 levels, 6 query items) with any of these inserted or replaced anywhere',
    'thorough': 'every string of up to 4 characters; suffixes of up to 6 characters',
}
OUTSIDE = 'the accept criterion for URLs containing tab, CR or LF (removed by urllib); which documented exception is raised'


def errors(h):
    ex = h.lib('os_urlpattern.exceptions')
    return (ex.IrregularURLException, ex.InvalidCharException, ex.InvalidPatternException, ValueError)


def attempt(h, what, s):
    if what == 'make':
        obj = h.lib('os_urlpattern.pattern_maker').PatternMaker(h.config(2))
        f = obj.load
    else:
        obj = h.lib('os_urlpattern.pattern_matcher').PatternMatcher()
        obj.load('/[a-z]+')
        f = obj.match
    try:
        f(s)
    except errors(h):
        return False
    return True


def free(h, what, n, alpha):
    s = h.text('s', n, alpha)
    ok = attempt(h, what, s)
    if n and s[0] == '/':
        h.reach('pattern given')
        h.check(not ok, 'a pattern is not accepted as URL')
    h.note('ok', ok)


def long(h, what, base, n, drop):
    judge(h, what, window(h, base, n, ANY, drop))


LONG = ['/aa/b-1/c.d/e%20f/g/h/i/j/k/index.html;p=1?a=1&bb=22&c=&d&e=x.y&f-g=[1]#frag/1?x=#y', '/a//b///c/d/?q;r=1&=2&s==3#;']


def suffix(h, what, n, alpha):
    judge(h, what, h.text('s', n, alpha))


def judge(h, what, s):
    for c in s:
        h.assume(h.neg(h.member(c, '\t\r\n')))
    if len(s):
        h.assume(h.member(s[0], '/?#'))
    want = spec_url(s)
    legal = want is not None
    if legal:
        for p in want[3]:
            for c in p:
                if c not in LEGAL:
                    legal = False
    ok = attempt(h, what, HOST + s)
    h.reach(('' if what == 'make' else 'match ') + ('accepted' if ok else 'rejected'))
    h.check(ok == legal, 'accepted exactly when it has a path, no empty query item and only legal characters')
    h.note('ok', ok)


def instances(tier):
    big = tier == 'thorough'
    out = []
    for what in ('make', 'match'):
        for n in range(0, 5 if big else 4):
            out.append({'name': '%s free %d' % (what, n), 'fn': 'free', 'params': {'what': what, 'n': n, 'alpha': ANY}, 'weight': 10 ** n})
        for n in range(0, 7 if big else 6):
            out.append({'name': '%s suffix %d' % (what, n), 'fn': 'suffix', 'params': {'what': what, 'n': n, 'alpha': ANY}, 'weight': 8 ** n})
        for i, b in enumerate(LONG):
            for n, drop in ((1, 0), (1, 1)):
                out.append({'name': '%s long%d %d-%d' % (what, i, n, drop), 'fn': 'long', 'params': {'what': what, 'base': b, 'n': n, 'drop': drop}, 'weight': 10 ** 3})
        for n in range(6, 7) if big else ():
            out.append({'name': '%s struct %d' % (what, n), 'fn': 'suffix', 'params': {'what': what, 'n': n, 'alpha': '/?#;&=.a[ '}, 'weight': 5 ** n})
    return out
