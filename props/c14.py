"""C14 URLs are generalised only together with enough distinct companions."""
from props.common import *

REACH = ['generalised', 'literal', 'too few']
BOUNDS = WITH_SIGNS
OUTSIDE = PLAN_OUTSIDE


def run(h, mcn, plan):
    urls = multi(h, plan)
    maker = load_all(h, [HOST + u for u in urls], mcn)
    cl = clusters(h, maker)
    for c in cl:
        members = []
        for m in c.metas:
            if not any([urls[m] == x for x in members]):
                members.append(urls[m])
        if len(members) < mcn:
            h.reach('literal')
            h.check(len(members) == 1, 'several URLs form a cluster only from the minimal size on')
            h.check(h.same(c.pattern, spec_pattern(members[0])), 'a small cluster keeps the literal text')
        else:
            h.reach('generalised')
    if len(urls) < mcn:
        h.reach('too few')
    for i, a in enumerate(cl):
        for b in cl[:i]:
            h.check(a.pattern != b.pattern, 'no two clusters have the same pattern')
    h.notes_of('clusters', [(c.pattern, c.count) for c in cl])


def instances(tier):
    out = std_instances('run', tier) + sign_instances('run')
    for mcn in (4, 5):
        out += plan_instances('run', names=('len', 'ext4', 'path4', 'mix', 'key', 'mp3'), mcns=[mcn])
    return out
