"""Self test of the models (not a property): idioms that rewritten code may use, compared with the interpreter."""
import bisect
import collections
import functools
import heapq
import itertools
import operator
import re
from collections import ChainMap, Counter, OrderedDict, defaultdict, deque, namedtuple
from dataclasses import dataclass, field
from enum import Enum

REACH = []
BOUNDS = {'quick': 'idioms', 'thorough': 'idioms'}
OUTSIDE = '-'


class Kind(Enum):
    LOWER = 'l'
    DIGIT = 'd'
    OTHER = 'o'


@dataclass
class Run:
    kind: str
    text: str = ''
    items: list = field(default_factory=list)


@dataclass(frozen=True)
class Key:
    a: str
    b: int


class Slot(object):
    __slots__ = ('a', 'b')

    def __init__(self, a, b=None):
        self.a, self.b = a, b

    def __eq__(self, o):
        return isinstance(o, Slot) and (self.a, self.b) == (o.a, o.b)

    def __hash__(self):
        return hash((self.a, self.b))

    def __lt__(self, o):
        return (self.b, self.a) < (o.b, o.a)


@functools.total_ordering
class Ord(Slot):
    def __lt__(self, o):
        return self.a < o.a


def kind_of(c):
    if 'a' <= c <= 'z':
        return 'l'
    elif c.isdigit():
        return 'd'
    return 'o'


def i_groupby(s):
    return [(k, ''.join(g)) for k, g in itertools.groupby(s, key=kind_of)]


def i_groupby_lambda(s):
    return [(k, len(list(g))) for k, g in itertools.groupby(s, lambda c: c in '-.')]


def i_partition(s):
    a, sep, b = s.partition('-')
    c, sep2, d = s.rpartition('.')
    return a, sep, b, c, sep2, d


def i_split(s):
    return s.split('-'), s.split('-', 1), s.rsplit('.', 1), s.splitlines(), re.split(r'[-.]', s)


def i_dataclass(s):
    out = []
    for c in s:
        k = kind_of(c)
        if out and out[-1].kind == k:
            out[-1].text += c
            out[-1].items.append(c)
        else:
            out.append(Run(k, c))
    return [(r.kind, r.text, r.items) for r in out]


def i_frozen(s):
    d = {}
    for i, c in enumerate(s):
        d.setdefault(Key(c, 1), []).append(i)
    return sorted(d.values())


def i_enum(s):
    m = {'l': Kind.LOWER, 'd': Kind.DIGIT}
    return [m.get(kind_of(c), Kind.OTHER).name for c in s]


def i_defaultdict(s):
    d = defaultdict(list)
    for i, c in enumerate(s):
        d[c].append(i)
    return sorted([(k, v) for k, v in d.items()])


def i_counter(s):
    c = Counter(s)
    return sorted(c.items()), c.most_common(1)[0][1] if c else 0, sum(c.values()), len(c), dict(c) == dict(Counter(list(s)))


def i_counter_ops(s):
    a, b = Counter(s[:2]), Counter(s[2:])
    a.update(b)
    a.subtract('a')
    return sorted((a + b).items()), sorted(a.elements())


def i_ordered(s):
    d = OrderedDict()
    for c in s:
        d[c] = d.get(c, 0) + 1
    d2 = OrderedDict.fromkeys(s)
    return list(d.items()), list(d2), list(reversed(d))


def i_dictcomp(s):
    d = {c: i for i, c in enumerate(s)}
    e = {v: k for k, v in d.items()}
    return sorted(d.items()), sorted(e), {**d, 'z': 9}['z'], d | {'q': 1} == {**d, 'q': 1}


def i_setops(s):
    a, b = set(s[:2]), set(s[2:])
    return sorted(a & b), sorted(a | b), sorted(a - b), sorted(a ^ b), a <= (a | b), a.isdisjoint(b), a.issubset('abc'), bool(a.intersection('a1'))


def i_frozenset(s):
    d = {frozenset(s[:2]): 1}
    return d.get(frozenset(reversed(s[:2]))), frozenset(s) == frozenset(sorted(s)), frozenset(s) in {frozenset('a'), frozenset('ab')}


def i_sorted(s):
    return sorted(s), sorted(s, reverse=True), sorted(s, key=lambda c: (kind_of(c), c)), sorted(set(s)), sorted(enumerate(s), key=operator.itemgetter(1))


def i_minmax(s):
    return min(s, default=''), max(s, default=''), max(s, key=ord, default=None), min(enumerate(s), key=lambda t: t[1], default=None), max([len(p) for p in s.split('-')])


def i_objects(s):
    xs = [Slot(c, i % 2) for i, c in enumerate(s)]
    return [x.a for x in sorted(xs)], max(xs).a if xs else None, len({x for x in xs}), Slot(s) == Slot(s), xs[:1] == [Slot(c, 0) for c in s[:1]], xs.index(xs[-1]) if xs else None


def i_total(s):
    xs = [Ord(c) for c in s]
    return [x >= y for x in xs for y in xs], [x.a for x in sorted(xs, reverse=True)], heapq.nlargest(1, s)


def i_any(s):
    return any(c in '.-' for c in s), all(kind_of(c) != 'o' for c in s), any(map(str.isdigit, s)), all(map(str.isalnum, s)), sum(1 for c in s if c == '-'), sum(c == '.' for c in s)


def i_next(s):
    return next((i for i, c in enumerate(s) if c == '-'), -1), next((c for c in reversed(s) if c.isalpha()), None), next(iter(s), None)


def i_walrus(s):
    out = []
    rest = s
    while (i := rest.find('-')) >= 0:
        out.append(rest[:i])
        rest = rest[i + 1:]
    return out + [rest]


def i_match(s):
    out = []
    for c in s:
        match c:
            case '-' | '.':
                out.append('sign')
            case c if c.isdigit():
                out.append('digit')
            case _:
                out.append('letter')
    return out


def i_matchseq(s):
    match s.split('-'):
        case [a]:
            return 'one', a
        case [a, b]:
            return 'two', a, b
        case [a, *rest]:
            return 'many', a, rest


def i_nested(s):
    out = []
    cur = ''

    def flush():
        nonlocal cur
        if cur:
            out.append(cur)
        cur = ''
    for c in s:
        if c in '.-':
            flush()
            out.append(c)
        else:
            cur += c
    flush()
    return out


def gen(s):
    for c in s:
        if c == '-':
            return
        yield c


def gen2(s):
    yield from gen(s)
    x = yield '|'
    yield str(x)


def i_generators(s):
    g = gen2(s)
    return list(gen2(s)), next(g), list(itertools.islice(gen2(s), 2)), list(zip(s, gen2(s))), [*gen(s)], tuple(gen(s)), ''.join(gen(s)), set(gen(s)) == set(list(gen(s)))


def i_itertools(s):
    return (list(itertools.takewhile(str.isalpha, s)), list(itertools.dropwhile(lambda c: c != '-', s)), list(itertools.chain.from_iterable([s, s[:1]])),
            list(itertools.accumulate(s)), list(itertools.zip_longest(s, s[1:], fillvalue='')), list(itertools.starmap(lambda i, c: (c, i), enumerate(s))),
            list(itertools.compress(s, [1, 0, 1])), list(itertools.filterfalse(str.isdigit, s)), list(itertools.repeat(s, 2)), list(itertools.product(s[:1], '12')), list(itertools.combinations(s, 2)))


def i_functools(s):
    f = functools.partial(operator.add, 'x')
    return functools.reduce(lambda a, b: b + a, s, ''), [f(c) for c in s], functools.reduce(operator.or_, [1, 2], 0)


@functools.lru_cache(maxsize=None)
def cached(c):
    return kind_of(c) + c


def i_cache(s):
    return [cached(c) for c in s]


def i_deque(s):
    d = deque(maxlen=2)
    for c in s:
        d.append(c)
    e = deque(s)
    e.rotate(1)
    e.appendleft('z')
    return list(d), e.popleft(), e.pop(), list(e)


def i_bytes(s):
    b = s.encode()
    return b.split(b'-'), b.strip(b'-'), b.partition(b'.'), b.replace(b'-', b'_'), b''.join([b, b'x']), b[:1], list(b[:1]), b.startswith((b'a', b'-')), b.find(b'-'), b.upper(), b.hex() if 0 else ''


def i_format(s):
    return '{}-{}'.format(s, 1), '{0}{0}'.format(s), '{a!s}'.format(a=s), f'{s}:{len(s)}', f'[{s!s}]', '%s|%d' % (s, 3), '%(a)s' % {'a': s}, f'{len(s):02d}', 'x'.join([s, s]), '%s' % s


def i_translate(s):
    return s.translate(str.maketrans({'-': '_', '.': None})), s.translate({ord('a'): 'bb'}), s.replace('-', '').replace('.', '[.]')


def i_case(s):
    return s.upper(), s.lower(), s.title(), s.swapcase(), s.casefold(), s.isupper(), s.islower(), s.capitalize()


def i_strip(s):
    return s.strip('-'), s.lstrip('.-'), s.rstrip('a'), s.strip(), s.removeprefix('-'), s.removesuffix('a'), s.zfill(5), s.ljust(4, '_'), s.center(5)


def i_find(s):
    return s.find('-'), s.rfind('-'), s.count('a'), s.startswith('-', 1), s.endswith(('a', '.')), '-' in s, s.find('a', 1, 2), s.index('') if s else 0


def i_index(s):
    try:
        return s.index('-')
    except ValueError as e:
        return type(e).__name__, str(e)
    finally:
        s = ''


def i_tryelse(s):
    try:
        n = int(s)
    except ValueError:
        return 'bad'
    else:
        return n + 1


def i_slices(s):
    return s[::-1], s[::2], s[-1:], s[:-1], s[1:-1], s[slice(1, None)], [s[i:i + 2] for i in range(0, len(s), 2)]


def i_star(s):
    a, *b = s or ' '
    *c, d = s or ' '
    return a, b, c, d, [*s, *b], max(*s, 'a'), dict(zip(s, range(9))).get('a')


def i_regex(s):
    return ([m.group() for m in re.finditer(r'[a-z]+|[0-9]+|[^a-z0-9]', s)], re.findall(r'\d', s), bool(re.match(r'^[a-z]*$', s)), re.sub(r'-+', '_', s),
            re.sub(r'(.)', lambda m: m.group(1) * 2, s), bool(re.fullmatch(r'(a|b)+', s)), re.search(r'-', s).start() if re.search(r'-', s) else None, re.compile('[-.]').split(s, 1))


def i_regex_groups(s):
    m = re.match(r'(?P<name>[a-z]+)(?:(\d)|-)?', s)
    return m and (m.group('name'), m.groups(), m.span(), m.end(1), m.groupdict(), m.lastindex)


def i_zip(s):
    return [a == b for a, b in zip(s, s[1:])], list(map(lambda a, b: a + b, s, s[1:])), list(filter(None, s.split('-'))), list(reversed(list(enumerate(s)))), dict(enumerate(s)), list(zip(*[s, s]))


def i_namedtuple(s):
    T = namedtuple('T', 'a b')
    t = T(s, len(s))
    return t._replace(a='x'), t._asdict()['b'], t == (s, len(s)), T._fields, hash(T('a', 1)) == hash(('a', 1)), t.a


def i_lists(s):
    xs = list(s)
    xs.sort()
    ys = xs[:]
    ys.reverse()
    xs.insert(0, 'q')
    xs.extend(ys)
    if '-' in xs:
        xs.remove('-')
    return xs, ys, xs.count('a'), xs.pop(), [[c] * 2 for c in s], xs * 2 == xs + xs, sum([[c] for c in s], [])


def i_bisect(s):
    xs = ['0', 'a', 'b']
    return [bisect.bisect_left(xs, c) for c in s]


def i_chars(s):
    return [ord(c) for c in s], [chr(ord(c) + 1) for c in s], [c.isalnum() for c in s], [c.isascii() for c in s], [c.isidentifier() for c in s] if 0 else []


def i_comp(s):
    return [x + y for x in s for y in s if x != y], {c for c in s} == set(s), [(i, c) for i, c in enumerate(s, 1) if i % 2], [c if c != '-' else '_' for c in s]


def i_compare(s):
    return s < 'a', s <= s, s > '-', 'a' < s < 'z', (s, 1) < (s, 2), [s] == [s], s == s[:], s != 'a-', tuple(s) < tuple('a')


def i_globals(s):
    f = {'l': i_case, 'd': i_find}.get(kind_of(s[0]) if s else 'l')
    return f is not None and bool(f), callable(f), getattr(s, 'upper')(), isinstance(s, (str, bytes)), hasattr(s, 'decode'), type(s) is str, type(s).__name__


def i_chainmap(s):
    return ChainMap({'a': 1}, {'b': 2}).get(s[:1], 0)


def i_inplace(s):
    d = {}
    for c in s:
        d[c] = d.get(c, '') + c
        d.setdefault('n', '')
        d['n'] += c
    d.pop('n', None)
    xs = []
    xs += [c for c in d]
    del xs[:1]
    return sorted(d.items()), xs, 'a' in d, d.keys() & {'a'} == ({'a'} if 'a' in d else set())


def i_setcomp(s):
    seen = set()
    out = []
    for c in s:
        if c not in seen:
            seen.add(c)
            out.append(c)
    seen.discard('a')
    return out, sorted(seen), not (seen - {'-'}), len(seen)


def i_while(s):
    i, n = 0, len(s)
    out = []
    while i < n:
        j = i + 1
        while j < n and kind_of(s[j]) == kind_of(s[i]):
            j += 1
        else:
            out.append(j)
        i = j
    return out


def i_with(s):
    from contextlib import contextmanager
    log = []

    @contextmanager
    def ctx(x):
        log.append(x)
        try:
            yield x
        finally:
            log.append('end')
    with ctx(s) as v:
        log.append(v[:1])
    return log


def i_raise(s):
    class E(ValueError):
        def __init__(self, c):
            super().__init__('bad %s' % c)
            self.c = c
    try:
        for c in s:
            if c == '-':
                raise E(c)
    except (TypeError, E) as e:
        return e.c, str(e)
    return None


def i_hash(s):
    import hashlib
    a = hashlib.md5(s.encode()).hexdigest()
    m = hashlib.md5()
    for c in s:
        m.update(c.encode('utf-8'))
    return a == m.hexdigest(), len({a, m.hexdigest()}), hash(s) == hash(s[:]), {hash(s[:1]): 1}.get(hash('a'), 0)


def i_stringio(s):
    import io
    b = io.StringIO()
    for c in s:
        b.write(c)
        b.write('|')
    b.seek(0)
    return b.getvalue(), b.read(2), b.readline()


def i_property(s):
    class A(object):
        def __init__(self, t):
            self.t = t

        @functools.cached_property
        def size(self):
            return len(self.t)

        @property
        def head(self):
            return self.t[:1]

        @classmethod
        def make(cls, t):
            return cls(t)

        @staticmethod
        def up(t):
            return t.upper()

        def __len__(self):
            return len(self.t)

        def __iter__(self):
            return iter(self.t)

        def __contains__(self, c):
            return c in self.t

        def __getitem__(self, i):
            return self.t[i]

        def __bool__(self):
            return self.t != ''
    a = A.make(s)
    return a.size, a.size, a.head, A.up(s), len(a), list(a), '-' in a, a[:2], bool(a), [*a]


def i_attrgetter(s):
    xs = [Slot(c, i) for i, c in enumerate(s)]
    return [x.b for x in sorted(xs, key=operator.attrgetter('a', 'b'))], list(map(operator.attrgetter('a'), xs)), [operator.methodcaller('upper')(c) for c in s], operator.eq(s, s), operator.contains(s, '-')


IDIOMS = sorted([k for k in list(globals()) if k.startswith('i_')])
FUNCS = dict([(k, globals()[k]) for k in IDIOMS])


def run(h, name, n):
    s = h.string('s', ['ab1-.'] * n)
    h.notes_of('result', [FUNCS[name](s)])
    h.check(True, 'done')


def instances(tier):
    return [{'name': '%s %d' % (k, n), 'fn': 'run', 'params': {'name': k, 'n': n}, 'samples': 12} for k in IDIOMS for n in (1, 3)]
