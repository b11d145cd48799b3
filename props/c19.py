"""C19 Combined mode gives the same patterns and counts as separate clusters."""
from props.common import *

REACH = ['one path', 'several paths']
BOUNDS = PLAN_BOUNDS
OUTSIDE = PLAN_OUTSIDE


def run(h, mcn, plan):
    ut = h.lib('os_urlpattern.utils')
    pu = h.lib('os_urlpattern.parse_utils')
    urls = [HOST + u for u in multi(h, plan)]
    separate = {}
    makers = list(load_all(h, urls, mcn).makers)
    other = list(load_all(h, urls, mcn).makers)
    h.check(len(makers) == len(other), 'same sub makers')
    notes = []
    for a, b in zip(makers, other):
        want = []
        for root in a.make(False):
            for nodes in ut.dump_tree(root):
                want.append(([str(n.pattern) for n in nodes[1:]], root.count))
                break
        trees = list(b.make(True))
        h.check(len(trees) == 1, 'one tree per sub maker')
        got = []
        for nodes in ut.dump_tree(trees[0]):
            got.append(([str(n.value) for n in nodes[1:]], nodes[-1].count))
        h.reach('one path' if len(got) == 1 else 'several paths')
        h.check(len(got) == len(want), 'one path per cluster')
        left = list(want)
        for path, count in got:
            for k, (p, c) in enumerate(left):
                if len(p) == len(path) and all([x == y for x, y in zip(p, path)]):
                    h.check(c == count, 'count of the leaf')
                    del left[k]
                    break
            else:
                h.fail('path is the pattern of a cluster')
        h.check(not left, 'every cluster is in the tree')
        check_sum(h, trees[0])
        h.check(trees[0].count == sum([c for _, c in want]), 'count of the root')
        notes.extend([pu.pack(b.url_meta, p) for p, _ in got])
    h.notes_of('paths', notes)


def check_sum(h, node):
    kids = list(node.children)
    if kids:
        h.check(node.count == sum([k.count for k in kids]), 'inner counts are sums')
        for i, k in enumerate(kids):
            for o in kids[:i]:
                h.check(str(k.value) != str(o.value), 'children differ')
            check_sum(h, k)


def instances(tier):
    return std_instances('run', tier)
