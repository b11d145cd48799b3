"""C06 Match results are totally ordered and the best one is the most specific."""
from props.matching import *

REACH = ['two results', 'three results', 'last level decides', 'earlier level decides']
BOUNDS = dict([(k, v + '; three patterns of 1601 levels or parts') for k, v in POOL_BOUNDS.items()])
OUTSIDE = POOL_OUTSIDE


def run(h, pool, urls, n):
    s = Scene(h, pool, urls, n)
    rs = s.results
    if len(rs) >= 2:
        h.reach('two results' if len(rs) == 2 else 'three results')
    ranks = [s.pats[m].rank() for m in s.got]
    for i, a in enumerate(rs):
        h.check(not (a < a), 'irreflexive')
        for j in range(i):
            b = rs[j]
            h.check(ranks[i] != ranks[j], 'two results differ in rank')
            h.reach('last level decides' if ranks[i][0] != ranks[j][0] else 'earlier level decides')
            less = ranks[i] > ranks[j]      # a is less specific
            h.check((a < b) == less and (b < a) == (not less), 'a < b exactly when b is more specific')
            h.check((a > b) == (not less) and (b > a) == less, 'a > b exactly when a is more specific')
            h.check((a <= b) == less and (b >= a) == less, 'a <= b exactly when b is more specific')
            h.check(not (a == b) and a != b, 'different results are not equal')
    if rs:
        order = sorted(rs, reverse=True)
        best = [ranks[rs.index(r)] for r in order]
        h.check(best == sorted(ranks), 'sorted from the most to the least specific')
        h.check(ranks[rs.index(max(rs))] == min(ranks), 'max is the most specific')
    h.notes_of('order', [r.meta for r in sorted(rs)])


def instances(tier):
    return pool_instances('run', tier) + all_instances('run', tier) + abyss_instances('run')
