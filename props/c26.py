"""C26 Work can be split by fuzzy digest: groups are independent and the low-level classes give the same results."""
from props.matching import *

REACH = ['one digest', 'several digests', 'generalised', 'matched', 'several in one group']
BOUNDS = {
    'quick': '12 plans of 3-4 URLs that mix structures (levels, trailing slash, keys and their order, fragment) and character spaces, '
             'any character of its class at every position, min_cluster_num 2 or 3; one Maker and Matcher per digest as in the README',
    'thorough': 'the same plans with one more URL and min_cluster_num 2 and 3, and all plans of the other clustering checks',
}
OUTSIDE = 'larger sets of URLs'
GROUPS = [
    ('space', 2, P(4, 'l1', 'd1', 'l1d1')), ('case', 2, P(4, 'l1', 'u1', 'l1u1')), ('perm', 2, P(3, 'l1d1', 'd1l1', 'l2', 'd2')),
    ('level', 2, P(4, 'l1', 'l1/1', 'l1/1l1')), ('frag', 2, P(4, 'l1', 'l1#1', 'l1#1l1')), ('key', 2, P(4, 'a1?1k1=1l1', 'a1?1j1=1l1', 'a1?1l1')),
    ('keys', 2, P(3, 'a1?1k1=1l1&1j1=1d1', 'a1?1j1=1l1&1k1=1d1', 'a1?1k1=1l1&1j1=1l1')), ('empty', 2, P(3, 'l1?1', 'l1?1k1=1', 'l1', 'l1?1k1')),
    ('where', 2, P(4, 'l1/1d1', 'd1/1l1')), ('ext', 2, P(3, 'l1.1h1', 'l1.1l1d1', 'd1.1h1')), ('sign', 2, P(4, 'l1-1', 'l1_1', '-1l1')),
    ('three', 3, P(4, 'l1', 'd1', 'l1/1')),
]


def describe(h, ut, fmt, url_meta, root):
    pats = list(fmt.pformat('pattern', url_meta, root))
    metas = []
    for nodes in ut.dump_tree(root):
        metas.extend(list(nodes[-1].meta or ()))
    return sorted(metas), pats, root.count


def equal(h, got, want, label):
    h.check(len(got) == len(want), label + ': number of clusters')
    for w in want:
        for g in got:
            if g[0] == w[0]:
                h.check(h.same(g[1], w[1]), label + ': pattern')
                h.check(g[2] == w[2], label + ': count')
                break
        else:
            h.fail(label + ': members')


def space(u):
    return u[:3], [set(join(spec_runs(p))[0]) for p in u[3]]


def run(h, mcn, plan):
    suffixes = multi(h, plan, sort=False)
    urls = [HOST + s for s in suffixes]
    fmt = h.lib('os_urlpattern.formatter')
    ut = h.lib('os_urlpattern.utils')
    ps = h.lib('os_urlpattern.parser')
    mk = h.lib('os_urlpattern.pattern_maker')
    mt = h.lib('os_urlpattern.pattern_matcher')
    spaces = [space(spec_url(s)) for s in suffixes]
    # everything at once
    whole = mk.PatternMaker(h.config(mcn))
    for i, u in enumerate(urls):
        whole.load(u, i)
    want = [describe(h, ut, fmt, um, root) for um, root in whole.make()]
    for metas, _, count in want:
        if len(metas) > 1:
            h.reach('generalised')
        for m in metas:
            h.check(spaces[m] == spaces[metas[0]], 'the URLs of a cluster have the same structure and character spaces')
    each = []
    for sub in whole.makers:
        for root in sub.make():
            each.append(describe(h, ut, fmt, sub.url_meta, root))
    equal(h, each, want, 'sub makers')
    # one maker per digest, as documented
    makers = {}
    digests = []
    for i, u in enumerate(urls):
        um, pieces = ps.parse(u)
        d = ps.fuzzy_digest(um, pieces)
        h.check(d == ps.fuzzy_digest(u), 'digest of the text')
        digests.append(d)
        if d not in makers:
            makers[d] = mk.Maker(um, h.config(mcn))
        makers[d].load(pieces, i)
    h.reach('one digest' if len(makers) == 1 else 'several digests')
    if len(makers) < len(urls):
        h.reach('several in one group')
    low = []
    texts = []
    matchers = {}
    for maker in makers.values():
        for root in maker.make():
            c = describe(h, ut, fmt, maker.url_meta, root)
            low.append(c)
            for t in c[1]:
                texts.append(t)
                um, parsed = ps.parse(t)
                d = ps.fuzzy_digest(um, parsed)
                if d not in matchers:
                    matchers[d] = mt.Matcher(um)
                matchers[d].load(parsed, len(texts) - 1)
    equal(h, low, want, 'low-level makers')
    # a group on its own
    d0 = digests[0]
    alone = mk.PatternMaker(h.config(mcn))
    for i, u in enumerate(urls):
        if digests[i] == d0:
            alone.load(u, i)
    equal(h, [describe(h, ut, fmt, um, root) for um, root in alone.make()], [w for w in want if digests[w[0][0]] == d0], 'one group alone')
    # matching
    m = mt.PatternMatcher()
    for k, t in enumerate(texts):
        m.load(t, meta=k)
    for i, u in enumerate(urls):
        a = sorted([r.meta for r in m.match(u)])
        um, pieces = ps.parse(u)
        b = sorted([r.meta for r in matchers[digests[i]].match(pieces)]) if digests[i] in matchers else []
        h.check(a == b, 'low-level matchers')
        if a:
            h.reach('matched')
    h.notes_of('clusters', [(w[1][0], w[2]) for w in want])


def instances(tier):
    out = []
    for name, mcn, plan in GROUPS:
        more = 1 if tier == 'thorough' else 0
        p = plan + [plan[-1]] * more
        for c in ([2, 3] if more else [mcn]):
            for k in range(len(plan[0])):
                out.append({'name': '%s m%d k%d o%d' % (name, c, len(p), k), 'fn': 'run', 'params': {'mcn': c, 'plan': p}, 'fix': {'k0': k}, 'weight': len(plan[0]) ** len(p)})
    if tier == 'thorough':
        out += plan_instances('run')
    return out + scale_instances('run', tier)
