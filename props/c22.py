"""C22 Malformed patterns are rejected, accepted ones are valid regular expressions."""
from props.common import *

REACH = ['accepted', 'rejected', 'class', 'number', 'wildcard', 'query', 'fragment']
BOUNDS = {
    'quick': '"/" + every string of up to 5 characters over 128 ASCII and 18 other code points; up to 7 characters '
             '(6 inside brackets or as a count) over [ ] { } \\ + - . a z 0 9 2 #; three long patterns (up to 9 segments, 25 units) with any '
             'character inserted or replaced, or one or two left out, anywhere',
    'thorough': 'up to 6 characters over the full universe; up to 9 characters (7 inside brackets) over the structural alphabet',
}
OUTSIDE = 'longer malformed texts; the text of query keys (kept as they are)'
RULES = ['a-z', 'A-Z', '0-9'] + [rule_of(c) for c in SIGNS]


def valid(h, s):
    """The segment grammar: literal alphanumerics, or [rules] with an optional {n} or +.
    Everything in it is a regular expression that matches some legal text."""
    i = 0
    n = len(s)
    while i < n:
        if s[i] != '[':
            if s[i] not in ALNUM:
                return 'literal sign outside brackets'
            i += 1
            continue
        h.reach('class')
        i += 1
        rules = []
        while True:
            if i >= n:
                return 'class not closed'
            if s[i] == ']':
                break
            if s[i] == '\\':
                w = 2
            elif s[i] in ALNUM:
                w = 3
            else:
                w = 1
            r = s[i:i + w]
            if r not in RULES:
                return 'unknown rule'
            if r not in rules:
                rules.append(r)
            i += w
        i += 1
        if not rules:
            return 'empty class'
        if i < n and s[i] == '+':
            h.reach('wildcard')
            i += 1
        elif i < n and s[i] == '{':
            j = s.find('}', i)
            if j < 0:
                return 'count not closed'
            d = s[i + 1:j]
            if d == '':
                return 'empty count'
            for c in d:
                if c not in DIGIT:
                    return 'count is not a number'
            h.reach('number')
            if int(d) < len(rules):
                return 'count too small for the classes'
            i = j + 1
        elif len(rules) > 1:
            return 'one character of several classes'
    return None


def load(h, text, rx):
    pm = h.lib('os_urlpattern.pattern_matcher')
    pu = h.lib('os_urlpattern.parse_utils')
    ex = h.lib('os_urlpattern.exceptions')
    m = pm.PatternMatcher()
    try:
        node, new = m.load(text, meta=1)
    except (ex.InvalidPatternException, ex.IrregularURLException, ValueError):
        h.reach('rejected')
        h.note('ok', False)
        return False
    h.reach('accepted')
    h.check(new, 'a first load is new')
    meta, strings = pu.analyze_url_pattern_string(text)
    if meta.query_keys:
        h.reach('query')
    if meta.has_fragment:
        h.reach('fragment')
    for s in strings:
        why = valid(h, s)
        h.check(why is None, 'accepted pattern is malformed')
        if rx:
            h.rx(s)
    h.note('ok', True)
    return True


def whole(h, n, alpha, rx=False):
    load(h, '/' + h.text('s', n, alpha), rx)


def long(h, base, n, drop, alpha):
    t = window(h, base, n, alpha, drop)
    h.assume(len(t) > 0 and t[0] == '/')
    load(h, t, False)


LONG = ['/a/[a-z]{12}[\\-][0-9]+/[\\.0-9a-z]+/x[\\-]{3}y.'[:-1] + '[\\?]k=[0-9]&j=[%a-z]{10}#[a-z]+[\\[\\]]{2}', '/' + 'ab[_]' * 12 + '[A-Z]{100}', '/' + '[a-z]+/' * 8]


def inner(h, n, alpha, pre, post):
    load(h, '/' + pre + h.text('s', n, alpha) + post, False)


def well_formed(h, kind):
    """What the grammar allows is accepted."""
    c = h.text('c', 1, SIGNS)
    h.assume(h.neg(h.member(c, '#?/')))
    r = rule_of(c)
    d = h.text('d', 2, DIGIT)
    h.assume(int(d) > 1)
    t = {'one': '[' + r + ']', 'num': '[' + r + ']{' + d + '}', 'wild': '[' + r + ']+', 'two': '[a-z' + r + ']{' + d + '}',
         'mix': 'ab[' + r + ']+12[' + r + 'A-Z]+[' + r + ']'}[kind]
    h.check(load(h, '/' + t, False), 'a well-formed pattern is accepted')


def instances(tier):
    big = tier == 'thorough'
    out = [{'name': 'any%d' % n, 'fn': 'whole', 'params': {'n': n, 'alpha': ANY, 'rx': n <= 2}, 'weight': 8 ** n} for n in range(0, 7 if big else 6)]
    al = '[]{}\\+-.az092#?'
    for n in range(5, 10 if big else 8):
        for f in '[a':
            out.append({'name': 'text%d %s' % (n, f), 'fn': 'inner', 'params': {'n': n - 1, 'alpha': al, 'pre': f, 'post': ''}, 'weight': 4 ** n})
    for n in range(3, 8 if big else 7):
        out.append({'name': 'class%d' % n, 'fn': 'inner', 'params': {'n': n, 'alpha': '[]\\-.az09A+', 'pre': '[', 'post': ']'}, 'weight': 4 ** n})
        out.append({'name': 'class%d+' % n, 'fn': 'inner', 'params': {'n': n, 'alpha': '[]\\-.az09A+%', 'pre': '[', 'post': ']+'}, 'weight': 4 ** n})
        out.append({'name': 'num%d' % n, 'fn': 'inner', 'params': {'n': n, 'alpha': ANY if n < 4 else '{}0129a+[]-\u0660', 'pre': '[a-z]{', 'post': '}'}, 'weight': 4 ** n})
        out.append({'name': 'num2 %d' % n, 'fn': 'inner', 'params': {'n': n, 'alpha': '{}0129+[]-', 'pre': '[0-9a-z]', 'post': ''}, 'weight': 4 ** n})
    for i, b in enumerate(LONG):
        for n, drop in ((1, 0), (1, 1), (0, 1), (0, 2)):
            out.append({'name': 'long%d %d-%d' % (i, n, drop), 'fn': 'long', 'params': {'base': b, 'n': n, 'drop': drop, 'alpha': ANY}, 'weight': 10 ** 3})
    for n in (1, 2, 3):
        out.append({'name': 'query%d' % n, 'fn': 'inner', 'params': {'n': n, 'alpha': ANY, 'pre': 'a[\\?]k=', 'post': ''}, 'weight': 20})
        out.append({'name': 'frag%d' % n, 'fn': 'inner', 'params': {'n': n, 'alpha': ANY, 'pre': 'a#', 'post': ''}, 'weight': 20})
    for k in ('one', 'num', 'wild', 'two', 'mix'):
        out.append({'name': 'well %s' % k, 'fn': 'well_formed', 'params': {'kind': k}, 'weight': 20})
    return out
