"""C13 Clustering does not depend on the order in which URLs are loaded."""
from props.common import *

REACH = ['swapped', 'rotated', 'generalised']
BOUNDS = dict([(k, v + '; two load orders compared: the given one against the first two URLs swapped and against the '
                'rotation by one. As every URL may take every skeleton of its position, these two generate all orders of '
                'the URLs that have the same list of skeletons') for k, v in PLAN_BOUNDS.items()])
OUTSIDE = PLAN_OUTSIDE
ASSUME = ['"sets" instances: the second run iterates sets in the opposite of insertion order (the real order depends on hash seeds '
          'and addresses); a difference counts only when it also shows on the real interpreter']


def result(h, urls, order, mcn):
    pm = h.lib('os_urlpattern.pattern_maker')
    maker = pm.PatternMaker(h.config(mcn))
    for i in order:
        maker.load(HOST + urls[i], i)
    return clusters(h, maker)


def run(h, mcn, plan, order, sets=False):
    urls = multi(h, plan, sort=False)
    n = len(urls)
    a = result(h, urls, list(range(n)), mcn)
    h.reverse_sets(sets)
    b = result(h, urls, order, mcn)
    h.reverse_sets(False)
    h.reach('swapped' if order[-1] == n - 1 else 'rotated')
    h.check(len(a) == len(b), 'same number of clusters')
    left = list(b)
    for x in a:
        if len(x.metas) > 1:
            h.reach('generalised')
        for k, y in enumerate(left):
            if sorted(x.metas) == sorted(y.metas):
                h.check(h.same(x.pattern, y.pattern), 'same pattern')
                h.check(x.count == y.count, 'same count')
                del left[k]
                break
        else:
            h.fail('same members')
    h.notes_of('clusters', [(c.pattern, c.count) for c in a])


def with_orders(insts, orders=('swap', 'rotate', 'sets')):
    out = []
    for i in insts:
        n = len(i['params']['plan'])
        for name in orders:
            order = list(range(1, n)) + [0] if name == 'rotate' else [1, 0] + list(range(2, n))
            p = dict(i['params'], order=order, sets=name == 'sets')
            out.append(dict(i, name='%s %s' % (i['name'], name), params=p, soft=name == 'sets'))
    return out


def instances(tier):
    if tier == 'thorough':
        return with_orders(std_instances('run', tier))        # includes the scale instances
    slow = MEDIUM + SLOW
    return with_orders(scale_instances('run', tier)) + with_orders(plan_instances('run', names=HEAVY) + plan_instances('run', skip=HEAVY + slow, more=1)) + \
        with_orders(plan_instances('run', names=slow), ('swap', 'sets')) + \
        with_orders(plan_instances('run', names=('path',) + SLOW, more=1), ('rotate',)) + \
        with_orders(plan_instances('run', names=('runs', 'ext', 'signs', 'mp3', 'pct', 'brace', 'kf')), ('rotate',))
