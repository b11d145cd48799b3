"""C20 A rejected load leaves no trace in a maker or matcher."""
from props.matching import *

REACH = ['rejected', 'accepted tail', 'generalised', 'matched', 'rejected match', 'rejected pattern']
BOUNDS = {
    'quick': 'makers: 3-4 accepted URLs (any characters of 5 skeletons) and 1-2 loads at any position of URLs with any illegal character in any '
             'place (first or last segment, query key or value, fragment), without path, with an empty query item, or a legal prefix followed by '
             'any character; matchers: 2 patterns of 4 pools, 1-2 malformed patterns or rejected match calls at any position, then matching; '
             'every kind of rejected URL or pattern before each of 3-12 accepted loads of 10 plans and of all patterns of the pools of up to 7',
    'thorough': 'up to 5 accepted and 2 rejected loads; tails of two arbitrary characters',
}
OUTSIDE = 'longer histories, other URL shapes'
REJECT = (Exception,)
ILLEGAL = ''.join([c for c in ANY if c not in LEGAL and c not in '\t\r\n'])

# texts around an illegal character
WRONG = [('http://h/', ''), ('http://h/a', 'b'), ('http://h/a/', '/b'), ('http://h/a/b', ''), ('http://h/a?', '=1'), ('http://h/a?k=1', ''), ('http://h/a?k=1&j', '=2'),
         ('http://h/a#', 'b'), ('http://h/a?k=1#b', '')]
PLAIN = ['http://h', '', '/a', '/[a-z]', 'http://h/a?&', 'http://h/a?k=1&&j=2', 'http://h/a?&k=1', '#', '?', 'http://[/a', 'http://h/a?k=1&#f']
BADPAT = ['/[a-z', '/a/[a-z]{x}', '/[a-z]+/[]', '/[0-9]{3', '/a{', '', '#', 'http://h/a', '/]', '/a#[a-z', '/a[\\?]k=[a-z', '/a[\\?]&&', '/a\\']


def wrong(h, name, tail):
    k = h.choice(name + '.k', len(WRONG) + len(PLAIN) + (1 if tail else 0))
    if k < len(WRONG):
        a, b = WRONG[k]
        c = h.string(name + '.c', [ILLEGAL])
        return a + c + b
    k -= len(WRONG)
    if k < len(PLAIN):
        return PLAIN[k]
    return 'http://h/a' + h.text(name + '.t', tail, ''.join([c for c in ANY if c not in '\t\r\n']))


def attempt(f, *a, **k):
    try:
        return True, f(*a, **k)
    except REJECT:
        return False, None


def summary(h, cl):
    out = []
    for c in cl:
        out.append((c.pattern, c.count, sorted(c.metas)))
    return out


NOISE = PLAIN + [a + '\xe9' + b for a, b in WRONG]


def noise(h, mcn, plan):
    """Every kind of rejected URL between any two accepted ones."""
    pm = h.lib('os_urlpattern.pattern_maker')
    texts = [HOST + u for u in multi(h, plan)]
    m, clean = pm.PatternMaker(h.config(mcn)), pm.PatternMaker(h.config(mcn))
    for i, t in enumerate(texts):
        for w in NOISE:
            h.check(not attempt(m.load, w, meta='bad')[0], 'an unacceptable URL is rejected')
        h.check(m.load(t, meta=i)[1] == clean.load(t, meta=i)[1], 'the same URLs are new')
    h.reach('rejected')
    got, want = summary(h, clusters(h, m)), summary(h, clusters(h, clean))
    h.check(len(got) == len(want), 'the same number of clusters')
    for g in got:
        h.check(any([g == w for w in want]), 'the same clusters')


def noisy(h, pool, urls, n):
    """Every kind of rejected pattern and match between any two loads."""
    pm = h.lib('os_urlpattern.pattern_matcher')
    pats = patterns(h, pool, n)
    url = HOST + '/' + choose(h, 'u', urls)
    m, clean = pm.PatternMatcher(), pm.PatternMatcher()
    for i, p in enumerate(pats):
        for w in BADPAT:
            h.check(not attempt(m.load, w, meta='bad')[0], 'a malformed pattern is rejected')
        for w in NOISE:
            h.check(not attempt(m.match, w)[0], 'an unacceptable URL is not matched')
        m.load(p.text, meta=i)
        clean.load(p.text, meta=i)
    got, want = [sorted([r.meta for r in x.match(url)]) for x in (m, clean)]
    if got:
        h.reach('matched')
    h.check(got == want, 'the same matches')


def maker(h, mcn, urls, bad, tail):
    pm = h.lib('os_urlpattern.pattern_maker')
    n = len(urls)
    texts = [HOST + '/' + choose(h, 'u%d' % i, o) for i, o in enumerate(urls)]
    wrongs = []
    for i in range(bad):
        wrongs.append((h.choice('at%d' % i, n + 1), wrong(h, 'w%d' % i, tail)))
    # the history with the rejected loads, and which of them were accepted after all
    m = pm.PatternMaker(h.config(mcn))
    news = []
    accepted = []
    for i in range(n + 1):
        for k, (at, w) in enumerate(wrongs):
            if at == i:
                ok, r = attempt(m.load, w, meta=100 + k)
                if ok:
                    h.reach('accepted tail')
                    accepted.append(k)
                    news.append(r[1])
                else:
                    h.reach('rejected')
        if i < n:
            news.append(m.load(texts[i], meta=i)[1])
    got = summary(h, clusters(h, m))
    # the same without them
    m = pm.PatternMaker(h.config(mcn))
    want_new = []
    for i in range(n + 1):
        for k, (at, w) in enumerate(wrongs):
            if at == i and k in accepted:
                want_new.append(m.load(w, meta=100 + k)[1])
        if i < n:
            want_new.append(m.load(texts[i], meta=i)[1])
    want = summary(h, clusters(h, m))
    h.check(news == want_new, 'the same URLs are new')
    h.check(len(got) == len(want), 'the same number of clusters')
    left = list(got)
    for w in want:
        if w[1] > 1:
            h.reach('generalised')
        for k, g in enumerate(left):
            if g[2] == w[2]:
                h.check(g[1] == w[1], 'the same count')
                h.check(h.same(g[0], w[0]), 'the same pattern')
                del left[k]
                break
        else:
            h.fail('the same members')


def matcher(h, pool, urls, bad):
    pm = h.lib('os_urlpattern.pattern_matcher')
    n = 2
    pats = [Pat(h, 'p%d' % i, pool[h.choice('p%d' % i, len(pool))]) for i in range(n)]
    url = HOST + '/' + choose(h, 'u', urls)
    steps = []
    for i in range(bad):
        at = h.choice('at%d' % i, n + 1)
        if h.choice('kind%d' % i, 2):
            steps.append((at, 'match', wrong(h, 'w%d' % i, 0)))
        else:
            steps.append((at, 'load', BADPAT[h.choice('b%d' % i, len(BADPAT))]))
    m = pm.PatternMatcher()
    clean = pm.PatternMatcher()
    for i in range(n + 1):
        for at, kind, t in steps:
            if at == i:
                if kind == 'load':
                    ok, _ = attempt(m.load, t, meta='bad')
                    if not ok:
                        h.reach('rejected pattern')
                    h.check(not ok, 'a malformed pattern is rejected')
                else:
                    ok, _ = attempt(m.match, t)
                    if not ok:
                        h.reach('rejected match')
        if i < n:
            m.load(pats[i].text, meta=i)
    got = sorted([r.meta for r in m.match(url)])
    for i in range(n):
        clean.load(pats[i].text, meta=i)
    want = sorted([r.meta for r in clean.match(url)])
    if got:
        h.reach('matched')
    h.check(got == want, 'the same matches')
    st = spec_url(url[len(HOST):])
    for i, p in enumerate(pats):
        h.check(h.any([i in got, h.neg(p.strict(h, st)), h.any([h.same(p.text, pats[j].text) for j in got])]), 'a matching pattern is returned')
    h.note('got', got)


PLAN = [('l', ['l1', 'l2']), ('runs', ['l1d1']), ('deep', ['a1/1l1']), ('query', ['a1?1k1=1l1']), ('frag', ['a1#1l1'])]
MP = [('word', one('=l1', 'l{1}', 'l+'), ['l1', 'l2']), ('runs', one('=l1 d+', 'l+ d+', 'dl+'), ['l1d1']),
      ('path', [['/', '=a1', '/', 'l+'], ['/', 'l+', '/', '=l1'], ['/', 'l{1}', '/', 'l{1}']], ['a1/1l1']),
      ('query', [['/', '=a1', '?k=', 'l+'], ['/', 'l+', '?k=', '=l1'], ['/', 'l+', '#', 'l+']], ['a1?1k1=1l1', 'a1#1l1'])]


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for name, o in PLAN:
        for k, bad, tail in ((3, 1, 1),) + (((2, 2, 0),) if name in ('deep', 'query') else ()) if not deep else ((4, 1, 1), (3, 2, 0), (2, 1, 2)):
            out.append({'name': 'maker %s %d %d %d' % (name, k, bad, tail), 'fn': 'maker',
                        'params': {'mcn': 2, 'urls': [o] * k, 'bad': bad, 'tail': tail}, 'weight': 20 ** (k + bad)})
    for name, mcn, plan in plans(names=('path', 'diff', 'key', 'len', 'frag', 'runs')) + [p for p in SCALE if p[0] in ('many', 'manyl', 'dup', 'keys5')]:
        out.append({'name': 'noise %s' % name, 'fn': 'noise', 'params': {'mcn': mcn, 'plan': plan}, 'weight': 10 ** 4})
    for name, pool, urls in POOLS:
        if len(pool) <= 7:
            out.append({'name': 'noisy %s' % name, 'fn': 'noisy', 'params': {'pool': pool, 'urls': urls, 'n': 0 if deep else None}, 'weight': 10 ** 4})
    for name, pool, urls in MP:
        for bad in (1, 2) if deep else (1,):
            out.append({'name': 'matcher %s %d' % (name, bad), 'fn': 'matcher', 'params': {'pool': pool, 'urls': urls, 'bad': bad}, 'weight': 100 ** bad})
    return out
