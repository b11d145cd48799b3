"""C03 Patterns produced by clustering match their own URLs when loaded for matching."""
from props.common import *

REACH = ['generalised', 'matched']
BOUNDS = WITH_SIGNS
OUTSIDE = PLAN_OUTSIDE


def run(h, mcn, plan):
    pm = h.lib('os_urlpattern.pattern_matcher')
    urls = multi(h, plan)
    maker = load_all(h, [HOST + u for u in urls], mcn)
    cl = clusters(h, maker)
    matcher = pm.PatternMatcher()
    for n, c in enumerate(cl):
        matcher.load(c.pattern, meta=n)
        if len(c.metas) > 1:
            h.reach('generalised')
    for n, c in enumerate(cl):
        for m in c.metas:
            got = [r.meta for r in matcher.match('ftp://x' + urls[m])]
            h.reach('matched')
            h.check(n in got, 'the pattern of its cluster is returned')
    h.notes_of('patterns', [c.pattern for c in cl])


def instances(tier):
    return std_instances('run', tier) + sign_instances('run')
