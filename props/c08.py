"""C08 Splitting a segment into character-class runs is exact and lossless."""
from props.common import *

REACH = ['parsed', 'rejected', 'equal', 'different']
BOUNDS = {
    'quick': 'every segment of up to 4 characters over 128 ASCII and 18 other code points; two and three run segments '
             'with run lengths 1, 2, 9, 10, 11, 100 and any legal class per run; pairs of segments of up to 2 characters; '
             'five long segments (40-130 characters, up to 120 runs) with any character inserted or replaced anywhere',
    'thorough': 'as quick with segments of up to 5 characters, pairs of up to 3 characters, run lengths up to 1000',
}
OUTSIDE = 'longer segments with more than three distinct runs; code points other than the 146 modelled ones'


def meaning(h, pp):
    """Texts denoted by the parsed form, one per run."""
    out = []
    for piece, rule in zip(pp.pieces, pp.rules):
        if rule in ('a-z', 'A-Z', '0-9'):
            out.append(piece)
        else:
            sign = rule[-1]
            head = '[' + rule + ']'
            h.check(piece[:len(head)] == head, 'sign run starts with its class')
            tail = piece[len(head):]
            n = 1
            if tail:
                h.check(tail[0] == '{' and tail[-1] == '}', 'sign run count in braces')
                n = int(tail[1:-1])
                h.check(n > 1, 'explicit count greater than one')
            out.append(sign * n)
    return out


def judge(h, s, pp):
    h.check(len(pp.pieces) == len(pp.rules), 'one rule per run')
    runs = meaning(h, pp)
    h.check(h.same(''.join(runs), s), 'runs spell the segment')
    h.check(pp.piece_length == len(s), 'reported length')
    h.check(pp.piece_length == len(s), 'reported length, again')
    rules = []
    for k, r in enumerate(runs):
        h.check(len(r) > 0, 'no empty run')
        for c in r:
            h.check(rule_of(c) == pp.rules[k], 'class of the run')
        if k:
            h.check(pp.rules[k] != pp.rules[k - 1], 'runs are maximal')
    for c in s:
        if rule_of(c) not in rules:
            rules.append(rule_of(c))
    h.check(''.join(pp.pieces) == pp.piece, 'piece is the joined pieces')
    h.check(pp.fuzzy_rule == ''.join(sorted(rules)), 'class set')
    h.note('pp', (pp.pieces, pp.rules, pp.piece_length, pp.fuzzy_rule))


def parse(h, n):
    pu = h.lib('os_urlpattern.parse_utils')
    ex = h.lib('os_urlpattern.exceptions')
    s = h.text('s', n, ANY)
    legal = h.all([h.member(c, LEGAL) for c in s])
    parser = pu.PieceParser()
    try:
        pp = parser.parse(s)
    except ex.InvalidCharException:
        h.reach('rejected')
        h.check(h.neg(legal), 'only illegal characters are rejected')
        return
    h.reach('parsed')
    h.check(legal, 'illegal characters are rejected')
    judge(h, s, pp)


def runs(h, lens, alpha):
    """Long runs: the first character of a run repeated (signs) or arbitrary (letters)."""
    pu = h.lib('os_urlpattern.parse_utils')
    s = ''
    last = None
    for i, n in enumerate(lens):
        c = h.text('c%d' % i, 1, alpha)
        s = s + c * n
        if last is not None:
            h.assume(c != last)
        last = c
    pp = pu.PieceParser().parse(s)
    h.reach('parsed')
    judge(h, s, pp)


def long(h, base, n, drop):
    pu = h.lib('os_urlpattern.parse_utils')
    s = window(h, base, n, LEGAL, drop)
    h.reach('parsed')
    judge(h, s, pu.PieceParser().parse(s))


LONG = ['a1' * 20, 'index-of_all.the--pages%20in[2]{3}\\(x)aaaaaaaaaaaaaZZZ000000000000001.tar.gz', '-' * 30, 'x' * 130, ''.join(LEGAL[k * 7 % len(LEGAL)] for k in range(120))]


def pair(h, n, m, alpha):
    pu = h.lib('os_urlpattern.parse_utils')
    s = h.text('s', n, alpha)
    t = h.text('t', m, alpha)
    p = pu.PieceParser()
    a, b = p.parse(s), p.parse(t)
    if a == b:
        h.reach('equal')
        h.check(s == t, 'equal parsed pieces have equal texts')
        h.check(hash(a) == hash(b), 'equal parsed pieces have equal hashes')
    else:
        h.reach('different')
        h.check(s != t, 'different parsed pieces have different texts')
    h.check((a == b) == (not a != b), '!= is the opposite of ==')


def instances(tier):
    big = tier == 'thorough'
    out = [{'name': 'parse%d' % n, 'fn': 'parse', 'params': {'n': n}, 'weight': 10 ** n} for n in range(0, 4)]
    firsts = [LEGAL[i] for i in range(len(LEGAL)) if LEGAL[i] not in ALNUM] + ['a', 'A', '0']
    out += [{'name': 'parse4', 'fn': 'parse', 'params': {'n': 4}, 'weight': 10 ** 4}]
    if big:
        out += [{'name': 'parse5', 'fn': 'parse', 'params': {'n': 5}, 'weight': 10 ** 5}]
    for i, b in enumerate(LONG):
        for n, drop in ((1, 0), (1, 1)):
            out.append({'name': 'long%d %d-%d' % (i, n, drop), 'fn': 'long', 'params': {'base': b, 'n': n, 'drop': drop}, 'weight': 10 ** 3})
    out.append({'name': 'run 1000', 'fn': 'runs', 'params': {'lens': [1000], 'alpha': LEGAL}, 'weight': 1000})
    lens = (1, 2, 9, 10, 11, 100) + ((99, 101, 1000) if big else ())
    for a in lens:
        out.append({'name': 'run %d' % a, 'fn': 'runs', 'params': {'lens': [a], 'alpha': LEGAL}, 'weight': a})
        for b in lens:
            out.append({'name': 'run %d,%d' % (a, b), 'fn': 'runs', 'params': {'lens': [a, b], 'alpha': '[]{}\\.-%a0Z' if not big else LEGAL},
                        'weight': a + b})
    for t in ([1, 10, 2], [12, 1, 3], [2, 1, 10]):
        out.append({'name': 'run %s' % t, 'fn': 'runs', 'params': {'lens': t, 'alpha': '[]{}\\.-a0Z'}, 'weight': 500})
    m = 4 if big else 3
    for n in range(1, m):
        for k in range(1, m):
            out.append({'name': 'pair%d,%d' % (n, k), 'fn': 'pair', 'params': {'n': n, 'm': k, 'alpha': LEGAL}, 'weight': 10 ** (n + k - 1)})
    return out
