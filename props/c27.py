"""C27 Enough evidence is generalised: when URLs have to end up in one cluster, and when not."""
from props.common import *

REACH = ['constant part', 'varying part', 'lengths differ', 'dominated', 'not dominated', 'many values', 'literal', 'generalised']
BOUNDS = {
    'quick': 'uniform: 17 URL forms with one to four varying parts, each constant, of one length or of min_cluster_num lengths, '
             'min_cluster_num 2-4, that many URLs or one more; values: 6 forms, any multiplicities of up to 6 URLs, min_cluster_num 2-5, and of 7-10 URLs with up to 3 values, min_cluster_num 3-5; '
             'lengths: 4 forms, up to 6 URLs of up to 3 lengths, min_cluster_num 2-5; any characters; '
             'many: 12 forms with 10-21 URLs (all but one constant), up to 30 URLs with any frequencies of 2 values and 14 of 3, 9-10 URLs of up to 3 lengths, min_cluster_num 7-20',
    'thorough': 'the same forms with up to two more URLs',
}
OUTSIDE = 'more URLs, more parts, other forms; values and lengths that vary in several segments at once in other ways than those of "uniform"'


def generalises(counts, mcn):
    """Whether values (or lengths) with these frequencies are replaced by their class."""
    total, most = sum(counts), max(counts)
    if len(counts) >= mcn:
        return True
    if total < mcn:
        return False
    rest = total - most
    return (most >= mcn and rest >= mcn) or abs(most - rest) < mcn - 1


def groups(keys):
    """Positions with equal keys."""
    out = []
    for i, k in enumerate(keys):
        for g in out:
            if keys[g[0]] == k:
                g.append(i)
                break
        else:
            out.append([i])
    return out


def expect(h, maker, want):
    cl = clusters(h, maker)
    h.check(sorted([sorted(c.metas) for c in cl]) == sorted([sorted(w) for w in want]), 'exactly the expected clusters')
    h.notes_of('clusters', [(c.pattern, c.count) for c in cl])


def const(c, i, width=2):
    """Different constant texts of a class."""
    s = CLASSES.get(c, c)
    out = ''
    for _ in range(width):
        out = s[i % len(s)] + out
        i //= len(s)
    return out


def part(h, name, c, i, width, fixed):
    return const(c, i, width) if i < fixed else text(h, name, c + str(width))


def uniform(h, mcn, n, form, fixed=0):
    """Every part is constant, or has at least mcn values of one length, or at least mcn lengths."""
    cols = []
    varying = False
    for k, c in enumerate(form):
        if c not in 'LDU':
            cols.append([c] * n)
            continue
        c = c.lower()
        mode = h.choice('mode%d' % k, 3)
        if mode == 0:
            h.reach('constant part')
            cols.append([text(h, 'p%d' % k, c + '1')] * n)
            continue
        varying = True
        if mode == 1:
            h.reach('varying part')
            col = [part(h, 'p%d.%d' % (k, i), c, i, 2 if fixed else 1, fixed) for i in range(n)]
            h.assume(len(groups(col)) >= mcn)
        else:
            h.reach('lengths differ')
            col = [part(h, 'p%d.%d' % (k, i), c, i, i % mcn + 1, fixed) for i in range(n)]
        cols.append(col)
    h.assume(varying)
    urls = [''.join([c[i] for c in cols]) for i in range(n)]
    h.assume(len(groups(urls)) >= mcn)
    maker = load_all(h, [HOST + u for u in urls], mcn)
    expect(h, maker, [list(range(n))])


def values(h, mcn, n, form):
    """One part takes any values with any frequencies, what follows is different in every URL."""
    vals = [text(h, 'v%d' % i, form[1]) for i in range(n)]
    judge(h, mcn, form, vals)


def judge(h, mcn, form, vals):
    n = len(vals)
    tails = 'bcefgijnopqr' if n <= 12 else [const('l', i) for i in range(n)]
    urls = [form[0] + vals[i] + form[2] + tails[i] for i in range(n)]
    maker = load_all(h, [HOST + u for u in urls], mcn)
    gs = groups(vals)
    counts = [len(g) for g in gs]
    if generalises(counts, mcn):
        h.reach('many values' if len(counts) >= mcn else 'not dominated')
        want = [list(range(n))]
    else:
        h.reach('dominated')
        want = []
        for g in gs:
            if len(g) >= mcn:
                h.reach('generalised')
                want.append(g)
            else:
                h.reach('literal')
                want += [[i] for i in g]
    expect(h, maker, want)


def frequencies(h, mcn, n, k, form):
    """As values, for more URLs: up to k different values in the given order."""
    vals = [text(h, 'v%d' % i, form[1]) for i in range(k)]
    h.assume(len(groups(vals)) == k)
    ids = [0]
    for i in range(1, n):
        ids.append(ids[-1] + int(h.choice('g%d' % i, 2)) if ids[-1] < k - 1 else k - 1)
    judge(h, mcn, form, [vals[g] for g in ids])


def lengths(h, mcn, n, form, fixed=0):
    """One part with different values of any lengths."""
    lens = []
    for i in range(n):
        x = h.choice('n%d' % i, 3) + 1
        h.assume(not lens or x >= lens[-1])
        lens.append(int(x))
    vals = [part(h, 'v%d' % i, form[1], i, lens[i], fixed) for i in range(n)]
    h.assume(len(groups(vals)) == n)
    urls = [form[0] + v + form[2] for v in vals]
    maker = load_all(h, [HOST + u for u in urls], mcn)
    gs = groups(lens)
    counts = [len(g) for g in gs]
    if n < mcn:
        want = [[i] for i in range(n)]
    elif generalises(counts, mcn):
        want = [list(range(n))]
    else:
        want = []
        for g in gs:
            want += [g] if len(g) >= mcn else [[i] for i in g]
    expect(h, maker, want)


UNIFORM = ['/L', '/DD', '/L-D', '/x/L/y', '/L/D', '/L.htm', '/L-D.htm', '/x?k=L', '/x?L', '/L?k=D', '/x#L', '/L#D', '/L/x?k=D&j=U', '/LDL-x', '/LU', '/x%L/D', '/L_L']
VALUES = [('/', 'l1', '/'), ('/', 'l1-1h1', '/'), ('/', 'l1.1h1', '?k='), ('/a?k=', 'l1', '#'), ('/a/', 'd2', '/'), ('/', 'h1d1', '?k=a&j=')]
LENGTHS = [('/', 'l', ''), ('/a?k=', 'd', ''), ('/a#', 'l', ''), ('/a/', '-', '/x')]


def instances(tier):
    more = 1 if tier == 'thorough' else 0
    out = []
    for form in UNIFORM:
        for mcn, n in ((2, 2), (2, 3), (3, 3), (3, 4), (4, 4)):
            if form.count('L') + form.count('D') + form.count('U') > 2 and n > 3 + more:
                continue
            out.append({'name': 'uniform %s m%d n%d' % (form, mcn, n + more), 'fn': 'uniform', 'params': {'mcn': mcn, 'n': n + more, 'form': form}, 'weight': 4 ** (n + more)})
    for form in VALUES:
        for mcn, n in ((2, 4), (3, 5), (3, 6), (4, 6), (5, 6)):
            if n == 6 and mcn == 3 and form not in VALUES[:2]:
                continue
            if n == 6 and form not in VALUES[:2]:
                n = 5
            out.append({'name': 'values %s m%d n%d' % ('*'.join(form), mcn, n + more), 'fn': 'values', 'params': {'mcn': mcn, 'n': n + more, 'form': form}, 'weight': 4 ** (n + more)})
    for form in UNIFORM[:12]:
        for mcn, n in ((10, 10), (10, 12), (20, 21)):
            out.append({'name': 'many uniform %s m%d n%d' % (form, mcn, n), 'fn': 'uniform', 'params': {'mcn': mcn, 'n': n, 'form': form, 'fixed': n - 1}, 'weight': 4 ** 6})
    for form in VALUES:
        for mcn, n, k in ((10, 16, 2), (7, 14, 3), (10, 30, 2)):
            out.append({'name': 'many frequencies %s m%d n%d' % ('*'.join(form), mcn, n), 'fn': 'frequencies', 'params': {'mcn': mcn, 'n': n, 'k': k, 'form': form}, 'weight': 4 ** 6})
    for form in LENGTHS[:3]:
        for mcn, n in ((7, 9), (10, 10)):
            out.append({'name': 'many lengths %s m%d n%d' % ('*'.join(form), mcn, n), 'fn': 'lengths', 'params': {'mcn': mcn, 'n': n, 'form': form, 'fixed': n - 1}, 'weight': 4 ** 6})
    for form in VALUES:
        for mcn, n, k in ((3, 8, 2), (4, 8, 3), (4, 10, 2), (5, 9, 3), (3, 7, 3)):
            if tier == 'thorough':
                n, k = n + 1, 3
            out.append({'name': 'frequencies %s m%d n%d' % ('*'.join(form), mcn, n), 'fn': 'frequencies', 'params': {'mcn': mcn, 'n': n, 'k': k, 'form': form}, 'weight': 4 ** 6})
    for form in LENGTHS:
        for mcn, n in ((2, 3), (2, 4), (3, 4), (3, 5), (3, 6), (4, 6), (5, 6), (5, 4)):
            out.append({'name': 'lengths %s m%d n%d' % ('*'.join(form), mcn, n + more), 'fn': 'lengths', 'params': {'mcn': mcn, 'n': n + more, 'form': form}, 'weight': 3 ** (n + more)})
    return out
