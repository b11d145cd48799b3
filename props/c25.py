"""C25 Match results carry the data last bound to exactly that pattern; load reports new patterns once."""
from props.matching import *

REACH = ['loaded again', 'rebound', 'kept', 'never bound', 'falsy', 'several', 'matched']
BOUNDS = {
    'quick': 'the first four patterns of 17 pools of all emitted forms; 3 loads in every order and combination, each with no data, a falsy object or '
             'its own object (6 of 27 combinations); any characters in literals, so that loads are of equal or of different texts; any URL of two shapes; all patterns of the pools of up to 6 (and of large patterns) loaded three times over',
    'thorough': 'all 27 pools with all their patterns and URL shapes, 3 loads',
}
OUTSIDE = POOL_OUTSIDE
QUICK = ('word', 'num', 'sign', 'dash', 'mix3', 'mixmix', 'pct', 'mp3', 'brk', 'esc', 'brace', 'path', 'path3', 'slash', 'key', 'frag', 'ldl')
# what the loads bind: 0 nothing, 1 a falsy object, 2 an object of their own
KINDS = [(2, 2, 2), (2, 0, 1), (2, 2, 0), (1, 2, 0), (0, 1, 0), (0, 0, 2)]


def run(h, pool, urls, n):
    pm = h.lib('os_urlpattern.pattern_matcher')
    m = pm.PatternMatcher()
    if n:
        pats = [Pat(h, 'p%d' % i, pool[h.choice('p%d' % i, len(pool))]) for i in range(n)]
    else:       # all of them, three times
        pats = patterns(h, pool, 0)
        pats = pats + pats[1:] + pats[:1] + pats
    suffix = '/' + text(h, 'u', urls[h.choice('url', len(urls))])
    kinds = KINDS[h.choice('kinds', len(KINDS))]
    first = []              # index of the first load of the same text
    bound = {}
    for i, p in enumerate(pats):
        g = i
        for j in range(i):
            if first[j] == j and pats[j].text == p.text:
                g = j
                break
        first.append(g)
        meta = [None, '', 'm%d' % i][kinds[i % 3 if n else i * 3 // len(pats)]]
        if meta == '':
            h.reach('falsy')
        if g == i:
            bound[i] = meta
        else:
            h.reach('loaded again')
            if meta is not None:
                if bound[g] is not None:
                    h.reach('rebound')
                bound[g] = meta
            elif bound[g] is not None:
                h.reach('kept')
        if meta is None:
            node, new = m.load(p.text)
        else:
            node, new = m.load(p.text, meta=meta)
        h.check(new == (g == i), 'new exactly the first time')
        h.check(node.meta == bound[g], 'the returned node carries the data')
    u = spec_url(suffix)
    want = []
    for i, p in enumerate(pats):
        if first[i] == i and p.strict(h, u):
            want.append(bound[i])
    got = [r.meta for r in m.match(HOST + suffix)]
    if got:
        h.reach('matched')
    if len(got) > 1:
        h.reach('several')
    if None in got:
        h.reach('never bound')
    h.check(sorted(map(str, got)) == sorted(map(str, want)), 'the data of the matching patterns')
    h.note('got', sorted(map(str, got)))


def instances(tier):
    out = []
    for name, pool, urls in POOLS:
        if tier == 'quick' and name not in QUICK:
            continue
        if tier == 'quick':
            pool, urls = pool[:4], urls[:2]
        n = 4 if tier == 'thorough' and len(pool) <= 4 else 3
        for k in range(len(urls)):
            out.append({'name': '%s n%d u%d' % (name, n, k), 'fn': 'run', 'params': {'pool': pool, 'urls': urls, 'n': n},
                        'fix': {'url': k}, 'weight': (3 * len(pool)) ** n})
    for name, pool, urls in POOLS + BIG_POOLS:
        if len(pool) <= 6:
            out.append({'name': 'all %s' % name, 'fn': 'run', 'params': {'pool': pool, 'urls': urls[:2], 'n': 0}, 'weight': 10 ** 5})
    return out
