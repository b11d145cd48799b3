"""C18 All output formats describe the same clusters."""
from props.common import *

REACH = ['generalised', 'literal', 'bound', 'unbound', 'query', 'fragment', 'several paths', 'null']
BOUNDS = dict([(k, v + '; every URL binds an object of its own, several objects (loaded twice) or none') for k, v in PLAN_BOUNDS.items()])
OUTSIDE = PLAN_OUTSIDE + '; the drawing that ete3 makes of the tree (names and children of its nodes are checked)'


def read_json(s):
    """{"k": "text" | int, ...} -> dict; raises on anything else."""
    pos = [0]

    def skip():
        while s[pos[0]] in ' \n\t':
            pos[0] += 1

    def expect(c):
        skip()
        if s[pos[0]] != c:
            raise ValueError('expected ' + c)
        pos[0] += 1

    def string():
        expect('"')
        out = []
        while s[pos[0]] != '"':
            c = s[pos[0]]
            if c == '\\':
                pos[0] += 1
                c = s[pos[0]]
                if c == 'u':
                    c = chr(int(s[pos[0] + 1:pos[0] + 5], 16))
                    pos[0] += 4
                elif c in 'bfnrt':
                    raise ValueError('control character')
            out.append(c)
            pos[0] += 1
        pos[0] += 1
        return ''.join(out)

    def number():
        skip()
        i = pos[0]
        while s[pos[0]] in DIGIT:
            pos[0] += 1
        return int(s[i:pos[0]])
    out = {}
    expect('{')
    while True:
        k = string()
        expect(':')
        skip()
        out[k] = string() if s[pos[0]] == '"' else number()
        skip()
        if s[pos[0]] == '}':
            break
        expect(',')
    if s[pos[0] + 1:].strip() != '':
        raise ValueError('trailing text')
    return out


def same_lines(h, got, want, label):
    """The same lines, in any order."""
    h.check(len(got) == len(want), label + ': number of lines')
    left = list(got)
    for w in want:
        for k, g in enumerate(left):
            if g == w:
                del left[k]
                break
        else:
            h.fail(label + ': a line is missing')


def run(h, mcn, plan, bind):
    fmt = h.lib('os_urlpattern.formatter')
    pm = h.lib('os_urlpattern.pattern_maker')
    urls = multi(h, plan)
    maker = pm.PatternMaker(h.config(mcn))
    bound = []
    for i, u in enumerate(urls):
        mine = {'one': ['m%d' % i], 'two': [i, -i - 1], 'none': [None], 'some': [None if i % 2 else ('o', i)]}[bind]
        for m in mine:
            maker.load(HOST + u, m)
        bound.append([m for m in mine if m is not None])
    for sub in maker.makers:
        for root in sub.make():
            meta = sub.url_meta
            leaves, objs = members(h, root)
            pats = list(fmt.pformat('PATTERN', meta, root))
            h.check(len(pats) == 1, 'one pattern')
            p = pats[0]
            h.reach('literal' if leaves == 1 else 'generalised')
            h.reach('bound' if objs else 'unbound')
            mine = [i for i, u in enumerate(urls) if any([o in bound[i] for o in objs])]
            want = []
            for i in mine:
                want.extend(bound[i])
            same_lines(h, [str(o) for o in objs], [str(o) for o in want], 'objects of the members')
            c = list(fmt.pformat('cluster', meta, root))
            h.check(len(c) > 0 and h.same(c[0], p), 'CLUSTER starts with the pattern')
            same_lines(h, c[1:], ['\t' + str(o) for o in want], 'CLUSTER')
            same_lines(h, list(fmt.pformat('Inline', meta, root)), [p + '\t' + str(o) for o in want], 'INLINE')
            j = list(fmt.pformat('json', meta, root))
            h.check(len(j) == 1, 'one JSON record')
            r = read_json(j[0])
            h.check(sorted(r.keys()) == ['cnt', 'ptn'], 'JSON keys')
            h.check(h.same(r['ptn'], p), 'JSON pattern')
            h.check(r['cnt'] == leaves, 'JSON count')
            h.check(list(fmt.pformat('NULL', meta, root)) == [], 'NULL shows nothing')
            h.reach('null')
            h.note('n', [leaves, len(objs)])
            h.notes_of('json', [j[0]])


def members(h, root):
    """Number of leaves and their objects, by an own walk."""
    kids = list(root.children)
    if not kids:
        return 1, list(root.meta or ())
    n, objs = 0, []
    for k in kids:
        a, b = members(h, k)
        n += a
        objs.extend(b)
    return n, objs


def tree(h, mcn, plan):
    fmt = h.lib('os_urlpattern.formatter')
    ut = h.lib('os_urlpattern.utils')
    urls = multi(h, plan)
    a = list(load_all(h, [HOST + u for u in urls], mcn).makers)
    b = list(load_all(h, [HOST + u for u in urls], mcn).makers)
    for x, y in zip(a, b):
        want = []
        for root in x.make():
            for nodes in ut.dump_tree(root):
                want.append(([str(n.pattern) for n in nodes[1:]], root.count))
                break
        m = x.url_meta
        seps = [''] * m.path_depth
        for k, q in enumerate(m.query_keys):
            h.reach('query')
            seps.append(('&' if k else '[\\?]') + q)
        if m.has_fragment:
            h.reach('fragment')
            seps.append('#')
        if len(want) > 1:
            h.reach('several paths')
        for root in y.make(combine=True):
            n, shown = h.ete_tree(y.url_meta, root)
            h.check(n == 1, 'one tree')
            node(h, shown, '', seps, want)


def node(h, shown, name, seps, want):
    h.check(h.same(shown[0].strip(), name + '(' + str(sum([c for _, c in want])) + ')'), 'name of a tree node')
    if not seps:
        h.check(shown[1] == [], 'leaf')
        h.check(len(want) == 1, 'one cluster per leaf')
        return
    groups = []
    for p, c in want:
        for g in groups:
            if g[0] == p[0]:
                g[1].append((p[1:], c))
                break
        else:
            groups.append((p[0], [(p[1:], c)]))
    h.check(len(groups) == len(shown[1]), 'children of a tree node')
    left = list(shown[1])
    for value, rest in groups:
        for k, s in enumerate(left):
            if s[0].strip() == seps[0] + value + '(' + str(sum([c for _, c in rest])) + ')':
                node(h, s, seps[0] + value, seps[1:], rest)
                del left[k]
                break
        else:
            h.fail('a pattern is missing in the tree')


SMALL = ('len', 'runs', 'brk', 'esc', 'ext4', 'mp3', 'mix', 'path', 'deep', 'slash', 'key', 'keys', 'nokey', 'frag', 'pf', 'fslash', 'diff', 'brace', 'sign', 'kf')


def instances(tier):
    big = HEAVY + MEDIUM
    out = []
    for bind in ('one', 'two', 'none', 'some'):
        if bind == 'one':
            if tier == 'thorough':
                l = std_instances('run', tier)
            else:
                l = plan_instances('run', names=big) + plan_instances('run', skip=big, more=1) + scale_instances('run', tier)
        else:
            l = plan_instances('run', names=SMALL, more=1 if tier == 'thorough' else 0)
        for i in l:
            i['params']['bind'] = bind
            i['name'] += ' ' + bind
            out.append(i)
    if tier == 'thorough':
        l = std_instances('tree', tier)
    else:
        l = plan_instances('tree', names=big) + plan_instances('tree', skip=big, more=1) + scale_instances('tree', tier)
    for i in l:
        i['name'] += ' tree'
        out.append(i)
    return out
