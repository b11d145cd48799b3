"""C23 Makers and matchers can be used incrementally: making and matching disturb nothing."""
from props.matching import *

REACH = ['made before', 'combined before', 'broken off', 'made again', 'generalised', 'matched between', 'matched']
BOUNDS = {
    'quick': PLAN_BOUNDS['quick'].replace('67 plans of 3-7 URLs', 'the smaller plans of 3-6 URLs') + '; before the last two loads clusters are made (separately, combined, '
             'or only the first one is taken), after them made twice. Matchers: 3 loads from pools of 3-8 patterns, each followed by a match; all patterns of the pools of up to 7 and of large patterns, likewise',
    'thorough': 'all plans; one more load for matchers',
}
OUTSIDE = PLAN_OUTSIDE
HOW = ['separate', 'combined', 'first only']


def compare(h, got, want, label):
    h.check(len(got) == len(want), label + ': number of clusters')
    left = list(got)
    for w in want:
        for k, g in enumerate(left):
            if sorted(g.metas) == sorted(w.metas):
                h.check(g.count == w.count and g.leaves == w.leaves, label + ': count')
                h.check(h.same(g.pattern, w.pattern), label + ': pattern')
                del left[k]
                break
        else:
            h.fail(label + ': members')


def run(h, mcn, plan, back):
    urls = [HOST + u for u in multi(h, plan, sort=False)]
    pm = h.lib('os_urlpattern.pattern_maker')
    n = len(urls)
    m = pm.PatternMaker(h.config(mcn))
    for i in range(n - back):
        m.load(urls[i], i)
    how = HOW[h.choice('how', 3)]
    if how == 'first only':
        h.reach('broken off')
        for _ in m.make():
            break
    else:
        h.reach('made before' if how == 'separate' else 'combined before')
        list(m.make(how == 'combined'))
    for i in range(n - back, n):
        m.load(urls[i], i)
    got = clusters(h, m)
    want = clusters(h, load_all(h, urls, mcn))
    if any([c.count > 1 for c in want]):
        h.reach('generalised')
    compare(h, got, want, 'loaded in two steps')
    h.reach('made again')
    list(m.make(True))
    compare(h, clusters(h, m), want, 'made again')
    h.notes_of('clusters', [(c.pattern, c.count) for c in got])


def match(h, pool, urls, n):
    pm = h.lib('os_urlpattern.pattern_matcher')
    pats = patterns(h, pool, n)
    n = len(pats)
    url = HOST + '/' + text(h, 'u', urls[h.choice('url', len(urls))])
    m = pm.PatternMatcher()
    clean = pm.PatternMatcher()
    for i in range(n):
        m.load(pats[i].text, meta=i)
        r = m.match(url)
        if r and i < n - 1:
            h.reach('matched between')
    got = sorted([r.meta for r in m.match(url)])
    again = sorted([r.meta for r in m.match(url)])
    for i in range(n):
        clean.load(pats[i].text, meta=i)
    want = sorted([r.meta for r in clean.match(url)])
    if want:
        h.reach('matched')
    h.check(got == want and again == want, 'the same matches')
    h.note('got', got)


def instances(tier):
    out = []
    for i in all_instances('match', tier, big=False):
        if len(i['params']['pool']) <= 7:
            out.append(i)
    if tier == 'thorough':
        l = std_instances('run', tier)
    else:
        l = plan_instances('run', skip=HEAVY + MEDIUM + ('len5',)) + plan_instances('run', names=('runs', 'ext', 'path', 'mp3', 'kf')) + scale_instances('run', tier)
    for i in l:
        i['params']['back'] = 1 + len(out) % 2
        out.append(i)
    return out + pool_instances('match', tier, skip=('path',) if tier == 'quick' else (), small=0)
