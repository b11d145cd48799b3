"""C09 Query strings are decomposed losslessly; only misplaced ampersands are rejected."""
from props.common import *

REACH = ['rejected', 'split', 'keyless', 'none']
BOUNDS = {
    'quick': 'None and every query string of up to 8 characters over 128 ASCII and 18 other code points; five long ones (up to 133 characters, 34 items) '
             'with one or two of these characters inserted anywhere, or one replaced',
    'thorough': 'None and every query string of up to 10 characters over 128 ASCII and 18 other code points',
}
OUTSIDE = 'longer query strings'


LONG = ['a=1&bb=22&c=&d&e=x.y&f-g=[1]&h==&=i&j&k=l', 'x' * 40, 'a&b&c&d&e&f&g&h&i&j&k&l&m=&n=1', 'k=v&' * 33 + 'j', '=&' * 30 + '=']


def long(h, base, n, drop):
    judge(h, window(h, base, n, ANY, drop))


def query(h, n):
    judge(h, None if n < 0 else h.text('q', n, ANY))


def judge(h, q):
    pu = h.lib('os_urlpattern.parse_utils')
    ex = h.lib('os_urlpattern.exceptions')
    want = spec_query(q)
    try:
        keys, values = pu.parse_query_string(q)
    except ex.IrregularURLException:
        h.reach('rejected')
        h.check(want is None, 'only empty items are rejected')
        return
    h.check(want is not None, 'empty items are rejected')
    if q is None:
        h.reach('none')
    elif len(want[0]) == 1 and want[0][0] == '':
        h.reach('keyless')
    elif len(want[0]) > 1:
        h.reach('split')
    h.check(h.same(tuple(keys), want[0]), 'keys')
    h.check(h.same(tuple(values), want[1]), 'values')
    h.check(len(keys) == len(values), 'one value per key')
    if q is not None:
        h.check(h.same('&'.join([k + v for k, v in zip(keys, values)]), q), 'joining gives the query back')
    h.note('kv', (tuple(keys), tuple(values)))


def instances(tier):
    out = []
    for i, b in enumerate(LONG):
        for n, drop in ((1, 0), (1, 1), (2, 0)):
            out.append({'name': 'long%d %d-%d' % (i, n, drop), 'fn': 'long', 'params': {'base': b, 'n': n, 'drop': drop}, 'weight': 10 ** 3})
    return out + [{'name': 'query%d' % n, 'fn': 'query', 'params': {'n': n}, 'weight': 3 ** max(n, 0), 'coverage': n <= 4}
            for n in range(-1, 11 if tier == 'thorough' else 9)]
