"""C15 Clustering of any accepted URLs terminates without error."""
from props.common import *

REACH = ['made', 'combined', 'empty', 'abyss']
BOUNDS = dict([(k, v + '; three URLs of 1600 levels, 1600 runs or 1100 query items, constant except for one character each') for k, v in PLAN_BOUNDS.items()])
OUTSIDE = PLAN_OUTSIDE


def run(h, mcn, plan):
    urls = multi(h, plan)
    for combine in (False, True):
        maker = load_all(h, [HOST + u for u in urls], mcn)
        roots = [r for _, r in maker.make(combine)]
        h.check(len(roots) > 0, 'clusters are made')
        h.reach('combined' if combine else 'made')
        h.note('n', len(roots))


def abyss(h, mcn, pre, post, n):
    """URLs with more levels or runs than the interpreter allows nested calls."""
    urls = ['/' + pre + text(h, 'u%d' % i, 'l1') + post for i in range(n)]
    cl = clusters(h, load_all(h, [HOST + u for u in urls], mcn))
    h.check(sorted([m for c in cl for m in c.metas])[:1] == [0], 'clusters are made')
    h.reach('abyss')


def empty(h, mcn, combine):
    pm = h.lib('os_urlpattern.pattern_maker')
    maker = pm.PatternMaker(h.config(mcn))
    h.reach('empty')
    h.check(len(list(maker.make(combine))) == 0, 'an empty maker yields no cluster')
    h.check(len(list(maker.makers)) == 0, 'an empty maker has no sub maker')


def instances(tier):
    out = std_instances('run', tier, path_timeout=20)
    for name, pre, post in (('levels', 'x/' * 1600, ''), ('levels then more', 'x/' * 1600, '/y'), ('runs', 'a-' * 800, ''), ('runs then more', 'a-' * 800, '/y'), ('items', 'x?' + '&'.join(['k%d=' % i for i in range(1100)]), '')):
        out.append({'name': 'abyss %s' % name, 'fn': 'abyss', 'params': {'mcn': 2, 'pre': pre, 'post': post, 'n': 3}, 'weight': 10 ** 7, 'path_timeout': 60})
    for mcn in (2, 3):
        for c in (False, True):
            out.append({'name': 'empty m%d %s' % (mcn, c), 'fn': 'empty', 'params': {'mcn': mcn, 'combine': c}})
    return out
