"""C01 A cluster's pattern is a regex that fully matches every URL of the cluster."""
from props.common import *

REACH = ['literal', 'generalised', 'length', 'wildcard']
BOUNDS = WITH_SIGNS
OUTSIDE = PLAN_OUTSIDE


def run(h, mcn, plan):
    urls = multi(h, plan)
    maker = load_all(h, [HOST + u for u in urls], mcn)
    cl = clusters(h, maker)
    for c in cl:
        h.reach('literal' if len(c.metas) == 1 else 'generalised')
        if ']{' in c.pattern:
            h.reach('length')
        if ']+' in c.pattern:
            h.reach('wildcard')
        for m in c.metas:
            h.check(h.fullmatch(c.pattern, urls[m]), 'pattern matches member')
        for pats, metas in c.paths:
            for m in metas:
                pieces = spec_url(urls[m])[3]
                h.check(len(pieces) == len(pats), 'one level per segment')
                for p, t in zip(pats, pieces):
                    h.check(h.fullmatch(p, t), 'level pattern matches the segment')
    h.notes_of('patterns', [c.pattern for c in cl])


def instances(tier):
    return std_instances('run', tier) + sign_instances('run')
