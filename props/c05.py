"""C05 No strictly matching pattern of an emitted form is ever missed."""
from props.matching import *

REACH = ['returned', 'not returned']
BOUNDS = dict([(k, v + '; three patterns of 1601 levels or parts') for k, v in WITH_SIGN_POOLS.items()])
OUTSIDE = POOL_OUTSIDE


def run(h, pool, urls, n):
    s = Scene(h, pool, urls, n)
    for i, p in enumerate(s.pats):
        found = h.any([h.same(p.text, s.pats[m].text) for m in s.got])
        h.reach('returned' if i in s.got else 'not returned')
        h.check(h.any([found, h.neg(p.strict(h, s.u))]), 'a strictly matching pattern is returned')


def instances(tier):
    return pool_instances('run', tier) + all_instances('run', tier) + abyss_instances('run') + sign_pool_instances('run', tier)
