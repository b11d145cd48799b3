"""C04 A returned match is always a true and strict match."""
from props.matching import *

REACH = ['returned', 'nothing returned', 'several']
BOUNDS = dict([(k, v + '; 5 more pools of patterns that clustering never emits (equal neighbouring classes, overlapping classes)') for k, v in WITH_SIGN_POOLS.items()])
OUTSIDE = POOL_OUTSIDE

ODD = [
    ('twice', one('l+ l+', 'l{1} l{1}', '=l1 l+', 'l+ =l1', 'l{2}', 'dl+ l+', 'l+ dl+'), ['l2', 'l1d1', 'l1']),
    ('overlap', one('dl+ =-1 l+ d+', 'l+ dl+', 'd+ dl{2}', 'M: dl{2} l+ =-1 =x1', '-l+ =-1 l+', '-+ =-1 =l1'), ['l1d1-1l1d1', 'l1-1l1', '-2l1', 'l1d1']),
    ('odddot', one('.+ =.1 =h1', '.l+ =.1 l+', 'L: -l+ .+ =h1', '.l{2} =.1 =h1', 'L: l+ =.1 -l+', 'L: l+ =.1 =l1d1 l+', 'dl+ .+ dl+'),
     ['l1.1h1', 'l1.2h1', '.2h1', 'l1.1l1-1l1', 'l1.1l1d1l1', 'l1d1.1l1d1']),
    ('oddmix', one('M: dl+ -+ dl+', 'dl{3}', 'dl+ -+ l+ d+', 'l+ d+ -+ dl{2}', '-dl+', 'dl+ =-1 =-1 dl+'), ['l1d1-1l1d1', 'l1d1-2d1l1']),
    ('odddepth', [['/', 'l+', '/', 'l+'], ['/', 'l+'], ['/', 'l+', '#', '/l+'], ['/', 'l+', '?', 'l+']],
     ['l1/1l1', 'l1#1/1l1', 'l1?1l1', 'l1?1l1&1l1']),
]


def run(h, pool, urls, n):
    s = Scene(h, pool, urls, n)
    h.reach('returned' if s.got else 'nothing returned')
    if len(s.got) > 1:
        h.reach('several')
    for k, m in enumerate(s.got):
        h.check(m in range(len(s.pats)), 'a returned pattern was loaded')
        p = s.pats[m]
        h.check(p.strict_regex(h, s.u), 'a returned pattern strictly matches')
        for o in s.got[:k]:
            h.check(h.neg(h.same(p.text, s.pats[o].text)), 'a pattern is returned at most once')


def instances(tier):
    return pool_instances('run', tier) + all_instances('run', tier) + pool_instances('run', tier, ODD) + sign_pool_instances('run', tier)
