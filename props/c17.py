"""C17 pattern-match answers every input line once, in order, with the right verdict."""
from props.matching import *
from props.c16 import line, BAD, filling

REACH = ['long options', 'E', 'N', 'matched', 'several', 'bad pattern line', 'undecodable', 'white space', 'accepted bytes', 'rejected bytes']
BOUNDS = {
    'quick': '0-3 pattern lines (any pattern of a pool, or a line that is blank, indented, malformed, undecodable or not a pattern), in one or two files; '
             '1-3 input lines as for C16; with and without -a; any characters in literals and URLs; one such line each after 100 constant lines, after 5010 constant input lines and after 1010 constant pattern lines',
    'thorough': '0-4 pattern lines, 1-4 input lines, arbitrary tails of up to 3 bytes',
}
OUTSIDE = 'more or longer lines; tab, carriage return and line feed inside a line; unreadable files'
BADP = ['\n', 'x\n', ' /[a-z]\n', '/[a-z\n', '/\xff[a-z]\n', '/[a-z]{x}\n', 'http://h/a\n', '/[]\n', '/]\n']


def run(h, pool, pats, urls, all_matched, src='files', long=False, fill=0, pfill=0):
    """pats: number of lines from the pool or BADP; urls: alternatives per input line."""
    plines, loaded = [], []
    for i in range(pfill):      # constant pattern lines, all different, that match nothing
        plines.append(('/fill/%d[\\-][a-z]+\n' % i).encode('utf-8') if i % 9 else BADP[i // 9 % len(BADP)].encode('latin-1'))
    for i in range(pats):
        k = h.choice('p%d' % i, len(pool) + len(BADP))
        if k >= len(pool):
            h.reach('bad pattern line')
            plines.append(BADP[k - len(pool)].encode('latin-1'))
            continue
        p = Pat(h, 'p%d' % i, pool[k])
        loaded.append(p)
        plines.append(p.text.encode('utf-8') + (b' \r\n' if i % 2 else b'\n'))
    data, lines = [], []
    for b, u in filling(fill):
        data.append(b)
        lines.append((b, u))
    for i, alts in enumerate(urls):
        kind, arg = alts[h.choice('k%d' % i, len(alts))]
        b, u = line(h, 'l%d' % i, kind, arg)
        data.append(b)
        lines.append((b, u))
    argv = ['--all-matched' if long else '-a'] if all_matched else []
    if long:
        argv += ['--loglevel', 'Debug']
        h.reach('long options')
    files = {'p': plines}
    argv += ['--pattern-files' if long else '-p', 'p']
    if src == 'two':
        files['q'] = plines[1:]
        files['p'] = plines[:1]
        argv += ['q']
    if src == 'stdin':
        out = h.cli('match', argv, files, data)
    else:
        files['i'] = data
        out = h.cli('match', argv + ['--inputs' if long else '-i', 'i'], files)
    h.check(len(out) > 0 and out[-1:] == b'\n', 'output ends with a line end')
    got = out[:-1].split(b'\n')
    h.check(len(got) == len(lines), 'one output line per input line')
    seen = {}
    for i, (g, (b, u)) in enumerate(zip(got, lines)):
        b = b.strip()
        if i < fill:        # constant lines have the same answer every time
            if b in seen:
                h.check(g == seen[b], 'the same answer for the same line')
                continue
            seen[b] = g
        verdict, same = split_line(h, g, b)
        h.check(same, 'the line is repeated, white space removed')
        if u is None:
            h.reach('E')
            h.check(verdict == b'E', 'E for a line that is no acceptable URL')
            continue
        st = spec_url(u[u.find('/', u.find('//') + 2):])
        matching = []
        for p in loaded:
            if p.strict(h, st) and not any([p.text == q.text for q in matching]):
                matching.append(p)
        if not matching:
            h.reach('N')
            h.check(verdict == b'N', 'N when nothing matches')
            continue
        h.reach('matched')
        if len(matching) > 1:
            h.reach('several')
        if not all_matched:
            best = matching[0]
            for p in matching:
                if p.rank() < best.rank():
                    best = p
            h.check(h.same(verdict, best.text.encode('utf-8')), 'the best matching pattern')
            continue
        fields = verdict.split(b'\t')
        h.check(len(fields) == len(matching), 'all matching patterns')
        left = list(fields)
        for p in matching:
            for k, f in enumerate(left):
                if f == p.text.encode('utf-8'):
                    del left[k]
                    break
            else:
                h.fail('a matching pattern is missing')
    h.note('lines', len(got))


def split_line(h, g, b):
    """verdict, and whether the output line g is verdict + tab + b"""
    n = len(b) + 1
    if len(g) < n:
        return g, False
    return g[:len(g) - n], h.same(g[len(g) - n:], b'\t' + b)


WORD = one('=l1', 'l{1}', 'l+', 'l{2}')
RUNS = one('=l1 d{1}', 'l+ d+', 'dl{2}', 'dl+', 'L: l+ =.1 =h1')
DEEP = [['/', '=l1', '/', 'd+'], ['/', 'l+', '/', '=d1'], ['/', 'l+', '?k=', 'd+'], ['/', 'l+', '#', 'd+']]


def inst(name, pool, pats, urls, a, src='files', long=False, fill=0, pfill=0, **k):
    return dict({'name': '%s %d %d %s %s%s' % (name, pats, len(urls), a, src, ' long' if long else ''), 'fn': 'run',
            'params': {'pool': pool, 'pats': pats, 'urls': urls, 'all_matched': a, 'src': src, 'long': long, 'fill': fill, 'pfill': pfill},
            'preload': ['cmdline'], 'weight': (len(pool) + 8) ** pats * 4 ** len(urls), 'samples': 2}, **k)


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for a in (False, True):
        out.append(inst('word', WORD, 2, [[('url', 'l1'), ('pad', 'l2')], [('last', 'l2'), ('url', 'l1'), ('high', None)]], a))
        out.append(inst('word3', WORD, 3, [[('url', 'l1'), ('pad', 'l1')]], a, 'two'))
        out.append(inst('runs', RUNS, 2, [[('url', 'l1d1'), ('url', 'd1l1'), ('url', 'l1.1h1')]], a, 'stdin'))
        out.append(inst('deep', DEEP, 2, [[('url', 'l1/1d1'), ('url', 'l1?1k1=1d1'), ('url', 'l1#1d1')], [('last', 'l1/1d1')]], a, 'two'))
        out.append(inst('bad', WORD, 1, [BAD, [('url', 'l1')], BAD], a, 'stdin'))
        out.append(inst('bytes', WORD[1:], 1, [[('bytes', 1), ('bytes', 2)], [('url', 'l1')]], a))
        out.append(inst('nopat', WORD, 0, [[('url', 'l1'), ('high', None)], [('raw', ' \n'), ('pad', 'd1')]], a))
        out.append(inst('hosts', WORD[1:], 1, [[('host', 'l1')], [('host', 'l2'), ('url', 'd1')]], a, 'stdin'))
        out.append(inst('word', WORD, 2, [[('url', 'l1'), ('raw', 'x\n')]], a, 'two', long=True))
        out.append(inst('hundred', WORD, 1, [[('url', 'l1'), ('host', 'l1'), ('high', None), ('last', 'd1')]], a, 'two', fill=100, pfill=100))
        out.append(inst('thousands', WORD[1:], 1, [[('url', 'l1')]], a, 'stdin', fill=5010 if not a else 12, pfill=1010 if a else 3, path_timeout=200))
        if deep:
            out.append(inst('word4', WORD, 4, [[('url', 'l1')]], a, 'two'))
            out.append(inst('runs3', RUNS, 3, [[('url', 'l1d1'), ('url', 'd1l1'), ('url', 'l1.1h1')]], a))
            out.append(inst('deep3', DEEP, 3, [[('url', 'l1/1d1'), ('url', 'l1?1k1=1d1'), ('url', 'l1#1d1')]], a))
            out.append(inst('bad4', WORD[2:], 1, [BAD, [('url', 'l1')], BAD, [('last', 'l1')]], a))
            out.append(inst('bytes3', WORD[1:], 1, [[('bytes', 3)]], a))
    return out
