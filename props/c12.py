"""C12 Pattern text is parsed back exactly: structure, segments, units and lengths."""
from props.common import *

REACH = ['units', 'packed', 'wildcard', 'number', 'literal', 'deep']
BOUNDS = {
    'quick': 'segments of up to 3 units: literal runs of 1-2 characters, classes of 1-3 rules (any legal rule) with count 1, any '
             'count of up to 2 digits, or +; packed patterns with up to 2 path levels, 2 query keys (any legal key of 1-2 characters) '
             'and a fragment, segments from all unit kinds with any sign allowed there; '
             'segments of up to 10 units and classes of 7 rules, and packed patterns of 6 levels or 5 query keys, constant except for any one unit or key',
    'thorough': 'as quick with counts of up to 3 digits, segments of up to 4 units and 3 path levels',
}
OUTSIDE = 'longer segments and deeper structures'


def rule(h, name, signs):
    """Any rule: one of the three alphanumeric ranges or any of the signs."""
    k = h.choice(name + '.kind', 4)
    if k < 3:
        return ('a-z', 'A-Z', '0-9')[k]
    c = h.text(name, 1, signs)
    if c in ESCAPE:
        return '\\' + c
    return c


def unit(h, name, kind, signs, digits=2):
    """-> (text, rules, num)"""
    if kind[0] == 'l':
        n = int(kind[1:])
        k = h.choice(name + '.cls', 3)
        t = h.text(name, n, (LOWER, UPPER, DIGIT)[k])
        h.reach('literal')
        return t, [('a-z', 'A-Z', '0-9')[k]], n
    rules = []
    for i in range(int(kind[1:])):
        r = rule(h, '%s.r%d' % (name, i), signs)
        for o in rules:
            h.assume(r != o)
        rules.append(r)
    text = '[' + ''.join(rules) + ']'
    if kind[0] == 's':
        h.assume(len(rules) == 1)
        return text, rules, 1
    if kind[0] == 'w':
        h.reach('wildcard')
        return text + '+', rules, -1
    d = h.text(name + '.n', digits, DIGIT)
    h.assume(d[0] != '0')
    num = int(d)
    h.assume(num >= len(rules))
    h.reach('number')
    return text + '{' + d + '}', rules, num


def segment(h, name, kinds, signs, digits=2):
    units = [unit(h, '%s.%d' % (name, i), k, signs, digits) for i, k in enumerate(kinds)]
    for a, b in zip(units, units[1:]):
        if a[0][0] != '[' and b[0][0] != '[':
            h.assume(a[1][0] != b[1][0])
    return ''.join([u[0] for u in units]), units


def judge(h, pattern, units):
    got = pattern.pattern_units
    h.check(h.same(''.join([u.pattern_unit_string for u in got]), pattern.pattern_string), 'units spell the segment')
    if not units:
        h.check(len(got) == 1 and got[0].pattern_unit_string == '', 'empty segment')
        return
    h.check(len(got) == len(units), 'number of units')
    allr = []
    for g, (text, rules, num) in zip(got, units):
        h.check(h.same(g.pattern_unit_string, text), 'unit text')
        h.check(sorted(g.rules) == sorted(rules), 'rules of the unit')
        h.check(g.num == num, 'length of the unit')
        for r in rules:
            if r not in allr:
                allr.append(r)
    h.check(pattern.fuzzy_rule == ''.join(sorted(allr)), 'class set of the segment')


def units(h, kinds, signs, digits):
    pt = h.lib('os_urlpattern.pattern')
    text, us = segment(h, 's', kinds, signs, digits)
    h.reach('units')
    p = pt.Pattern(text)
    judge(h, p, us)
    h.note('units', [(u.pattern_unit_string, u.num) for u in p.pattern_units])


PATH_SIGNS = ''.join([c for c in SIGNS if c not in '/?#;'])
VALUE_SIGNS = ''.join([c for c in SIGNS if c not in '&#'])


def packed(h, path, keys, values, frag, direct):
    """pack(structure, segments) parses back to the same structure and segments."""
    pu = h.lib('os_urlpattern.parse_utils')
    pr = h.lib('os_urlpattern.parser')
    pt = h.lib('os_urlpattern.pattern')
    segs = [segment(h, 'p%d' % i, k, PATH_SIGNS) for i, k in enumerate(path)]
    ks = []
    for i, n in enumerate(keys):
        if n < 0:
            ks.append('')
            continue
        raw = h.text('k%d' % i, n, LEGAL)
        for c in raw:
            h.assume(h.neg(h.member(c, '&#=')))
        if values[i] is not None:
            raw = raw + '='
        ks.append(spec_literal(raw, '='))
    for i, k in enumerate(values):
        segs.append(segment(h, 'v%d' % i, k or [], VALUE_SIGNS))
    if len(values) == 1 and keys[0] < 0:        # a single value without key has no '='
        for u in segs[-1][1]:
            for r in u[1]:
                h.assume(r != '=')
    if frag is not None:
        segs.append(segment(h, 'f', frag, SIGNS))
    meta = pu.URLMeta(len(path), tuple(ks), frag is not None)
    text = pu.pack(meta, [pt.Pattern(s[0]) for s in segs])
    h.reach('packed')
    if direct:
        got, strings = pu.analyze_url_pattern_string(text)
        pats = [pt.Pattern(s) for s in strings]
    else:
        got, pats = pr.parse(text)
    h.check(got.path_depth == meta.path_depth, 'path levels')
    h.check(h.same(tuple(got.query_keys), meta.query_keys), 'query keys')
    h.check(got.has_fragment == meta.has_fragment, 'fragment presence')
    h.check(len(pats) == len(segs), 'number of segments')
    for p, s in zip(pats, segs):
        h.check(h.same(p.pattern_string, s[0]), 'segment text')
        judge(h, p, s[1])
    h.check(h.same(pu.pack(got, pats), text), 'packing again gives the same text')
    h.note('text', text)


class Cool(object):
    """Everything constant but what belongs to one unit or key."""

    def __init__(self, h, hot):
        self.h, self.hot = h, hot
        self.lib, self.reach, self.check, self.same, self.note, self.member, self.neg = h.lib, h.reach, h.check, h.same, h.note, h.member, h.neg
        self.assume = h.assume

    def ids(self, name):
        """numbers in the name: unit and rule"""
        ns = [int(''.join([c for c in x if c in DIGIT]) or '0') for x in name.split('.')] + [0, 0]
        return ns[0] + ns[1], ns[2]

    def is_hot(self, name):
        return (name + '.').startswith(self.hot + '.')

    def choice(self, name, n):
        if self.is_hot(name):
            return self.h.choice(name, n)
        u, i = self.ids(name)
        if n == 3:
            return u % 3
        return (u + i) % 4 if i < 4 else 3

    def text(self, name, n, alpha):
        if self.is_hot(name):
            return self.h.text(name, n, alpha)
        u, i = self.ids(name)
        if alpha == DIGIT and name[-2:] == '.n':
            return ('1%d' % (u % 10) + '0' * n)[:n]
        if alpha == LEGAL:
            return 'kjmnpq'[u % 6] * n
        return alpha[(i * 7 + u * 3) % len(alpha)] * n


def units_deep(h, kinds):
    names = ['s.%d' % i for i in range(len(kinds))]
    if len(kinds) == 1:
        names = ['s.0.r%d' % i for i in range(int(kinds[0][1:]))] + ['s.0.n']
    units(Cool(h, names[h.choice('hot', len(names))]), kinds, SIGNS, 2)
    h.reach('deep')


def deep(h, path, keys, values, frag):
    names = ['p%d.%d' % (i, j) for i, s in enumerate(path) for j in range(len(s))] + ['v%d.%d' % (i, j) for i, s in enumerate(values) for j in range(len(s or []))] + \
        ['k%d' % i for i in range(len(keys))] + ['f.%d' % j for j in range(len(frag or []))]
    k = h.choice('hot', len(names))
    packed(Cool(h, names[k]), path, keys, values, frag, 0)
    h.reach('deep')


def instances(tier):
    big = tier == 'thorough'
    out = []
    D = 3 if big else 2
    for ks in (['s1'], ['w1'], ['n1'], ['n2'], ['w2'], ['l1'], ['l2'], ['l2', 'l1'], ['l1', 's1'], ['s1', 'l1'], ['w1', 's1'],
               ['s1', 's1'], ['s1', 'n1'], ['n1', 'l1'], ['n1', 'w1'], ['w2', 's1']):
        out.append({'name': 'units %s' % ' '.join(ks), 'fn': 'units', 'params': {'kinds': ks, 'signs': SIGNS, 'digits': D}, 'weight': 30 * len(ks)})
    small = '[]\\{}+.-%_'
    for ks in (['w3'], ['n3'], ['l1', 's1', 'l1'], ['w2', 's1', 'l1'], ['n1', 's1', 'w1'], ['s1', 'w2', 's1']):
        out.append({'name': 'units %s' % ' '.join(ks), 'fn': 'units', 'params': {'kinds': ks, 'signs': small if not big else SIGNS, 'digits': 1}, 'weight': 100})
    P = 'packed'
    shapes = [([['l1']], [], [], None), ([[]], [], [], None), ([['s1']], [], [], None), ([['w2']], [], [], ['w1']), ([['l1'], []], [], [], None),
              ([['n1'], ['s1']], [], [], None), ([['l1']], [], [], []), ([['l1']], [], [], ['s1']), ([['l1']], [], [], ['w2']),
              ([['l1']], [-1], [[]], None), ([['l1']], [-1], [['s1']], None), ([['l1']], [-1], [['w2']], ['s1']),
              ([['l1']], [1], [['l1']], None), ([['l1']], [1], [['s1']], None), ([['s1']], [1], [['w2']], None), ([['l1']], [2], [[]], []),
              ([['l1']], [0], [['l1']], None), ([['l1']], [1, 1], [['s1'], ['l1']], None), ([['l1']], [1, 1], [None, ['s1']], ['l1']),
              ([['l1']], [1, 1], [['s1'], None], ['s1']), ([[]], [1, 1], [[], []], []), ([[]], [1, 0], [None, ['w1']], None)]
    for i, (p, k, v, f) in enumerate(shapes):
        out.append({'name': '%s %d' % (P, i), 'fn': P, 'params': {'path': p, 'keys': k, 'values': v, 'frag': f, 'direct': 0}, 'weight': 60 * (len(k) + 1)})
    deep = [([['l1'], ['l2'], ['w1'], ['s1'], ['n1'], ['l1']], [1], [['w1']], ['l1']), ([['l1']], [1, 0, 1, 1, 1], [['l1'], ['w1'], [], None, ['s1']], []),
            ([['l1', 's1', 'l1', 's1', 'l2', 's1', 'l1', 's1', 'w1']], [], [], None)]
    for i, (p, k, v, f) in enumerate(deep):
        out.append({'name': '%s deep %d' % (P, i), 'fn': 'deep', 'params': {'path': p, 'keys': k, 'values': v, 'frag': f}, 'weight': 300})
    for ks in (['l1', 'w1', 'l1', 'n1', 's1', 'l2', 's1', 'w2', 'l1', 's1'], ['n1'] * 8, ['s1'] * 8, ['w7'], ['n6']):
        out.append({'name': 'units deep %s' % ' '.join(ks), 'fn': 'units_deep', 'params': {'kinds': ks}, 'weight': 300})
    for i in (3, 11, 14):
        p, k, v, f = shapes[i]
        out.append({'name': '%s direct %d' % (P, i), 'fn': P, 'params': {'path': p, 'keys': k, 'values': v, 'frag': f, 'direct': 1}, 'weight': 60})
    return out
