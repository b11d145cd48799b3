"""C02 Clustering partitions the loaded URLs, with exact counts and bound data."""
from props.common import *

REACH = ['duplicate', 'distinct', 'several members', 'reloaded']
BOUNDS = PLAN_BOUNDS
OUTSIDE = PLAN_OUTSIDE


def run(h, mcn, plan, again=False):
    pm = h.lib('os_urlpattern.pattern_maker')
    urls = multi(h, plan)
    maker = pm.PatternMaker(h.config(mcn))
    group = []                      # index of the first equal URL
    for i, u in enumerate(urls):
        _, new = maker.load(HOST + u, meta='m%d' % i)
        first = i
        for j in range(i):
            if group[j] == j and urls[j] == u:
                first = j
                break
        group.append(first)
        h.reach('distinct' if first == i else 'duplicate')
        h.check(new == (first == i), 'new exactly the first time')
    if again:                       # loading everything once more changes nothing
        for i, u in enumerate(urls):
            _, new = maker.load('https://x.org:8' + u, meta='m%d' % i)
            h.check(not new, 'not new again')
        h.reach('reloaded')
    cl = clusters(h, maker)
    where = {}
    for n, c in enumerate(cl):
        h.check(len(c.metas) > 0, 'no empty cluster')
        h.check(c.count == c.leaves, 'count is the number of distinct URLs')
        distinct = []
        for m in c.metas:
            h.check(m not in where, 'bound data appears once')
            where[m] = n
            g = group[int(m[1:])]
            if g not in distinct:
                distinct.append(g)
        if len(distinct) > 1:
            h.reach('several members')
        h.check(c.count == len(distinct), 'count of the cluster')
        for _, bound in c.paths:
            for m in bound:
                h.check(group[int(m[1:])] == group[int(bound[0][1:])], 'one leaf per URL')
    h.check(len(where) == len(urls), 'every URL and its data is in a cluster')
    for i in range(len(urls)):
        h.check(where['m%d' % i] == where['m%d' % group[i]], 'data of equal URLs stay together')
    h.notes_of('clusters', [(c.pattern, c.count) for c in cl])


def instances(tier):
    return std_instances('run', tier) + plan_instances('again', names=('len', 'ext', 'mix', 'key', 'frag', 'diff', 'runs', 'path'))


def again(h, mcn, plan):
    run(h, mcn, plan, True)
