"""C16 pattern-make skips bad lines and reports exactly the clusters of the good ones."""
from props.common import *

REACH = ['long options', 'bad line', 'good line', 'white space', 'undecodable', 'config', 'no config', 'generalised', 'accepted bytes', 'rejected bytes']
BOUNDS = {
    'quick': '1-5 input lines from one or two files or standard input; every line is one of: a URL (any characters of its skeleton, four hosts, one of them not ASCII), the same with '
             'white space around it or without line end, an empty or blank line, a line with any undecodable byte, with an illegal or non-ASCII character, '
             'without path, with an empty query item, or http://h/ followed by 1-2 arbitrary bytes; every output format; '
             'minimal cluster size from -c (2, 3, 4) or the default; one such line after 100 and after 5010 constant ones',
    'thorough': 'up to 6 lines, arbitrary tails of up to 3 bytes',
}
OUTSIDE = 'more or longer lines; tab, carriage return and line feed inside a line; unreadable files; the drawing ete3 makes of the tree (only its text is compared)'
BYTES = [i for i in range(256) if i not in (9, 10, 13)]
HOSTS = ['http://\xe9.de', 'https://u:p@x.org:81', 'ftp://x']
HIGH = list(range(128, 256))


def line(h, name, kind, arg):
    """One input line -> (bytes, URL text it stands for or None)."""
    if kind == 'raw':
        return arg.encode('latin-1'), None
    if kind == 'high':
        h.reach('undecodable')
        return h.raw(name, list(b'http://h/a') + [HIGH] + list(b'b\n')), None
    if kind == 'bytes':
        tail = h.raw(name, [BYTES] * arg)
        whole = (b'http://h/' + tail).strip()
        try:
            t = whole.decode('utf-8')
        except UnicodeDecodeError:
            h.reach('undecodable')
            return b'http://h/' + tail + b'\n', None
        ok = spec_url(t[8:]) is not None and all([spec_runs(p) is not None for p in spec_url(t[8:])[3]])
        h.reach('accepted bytes' if ok else 'rejected bytes')
        return b'http://h/' + tail + b'\n', t if ok else None
    t = (HOSTS[h.choice(name + '.host', len(HOSTS))] if kind == 'host' else HOST) + '/' + text(h, name, arg)
    b = t.encode('utf-8')
    if kind == 'pad':
        h.reach('white space')
        return b' \t' + b + b' \x0c\r\n', t
    if kind == 'last':
        return b, t
    return b + b'\n', t


BAD = [('raw', '\n'), ('raw', ' \t\r\n'), ('high', None), ('raw', 'http://h/\xc3\xa9\n'), ('raw', 'http://h/a b\n'), ('raw', 'http://h\n'),
       ('raw', 'http://h/a?x&&y\n'), ('raw', '/[a-z]\n'), ('raw', 'http://h/a?\xc3\xa9=1\n'), ('raw', '\xff\xfe\n'), ('raw', 'http://[\n'), ('raw', '#\n')]


def parse(h, fmt, out):
    """stdout -> list of records (for CLUSTER a record is the list of its lines)."""
    t = out.decode('utf-8')
    if t == '':
        return []
    h.check(t[-1] == '\n', 'output ends with a line end')
    if fmt == 'ETE':
        return [h.drawing(t)]
    lines = t[:-1].split('\n')
    if fmt != 'CLUSTER':
        return lines
    recs = []
    for l in lines:
        if l[:1] == '\t':
            h.check(len(recs) > 0, 'a member follows a pattern')
            recs[-1][1].append(l)
        else:
            recs.append((l, []))
    return recs


def expected(h, fmt, mcn, urls):
    pm = h.lib('os_urlpattern.pattern_maker')
    f = h.lib('os_urlpattern.formatter')
    maker = pm.PatternMaker(h.config(mcn))
    for u in urls:
        maker.load(u, meta=u if fmt in ('CLUSTER', 'INLINE') else None)
    recs = []
    for sub in maker.makers:
        for root in sub.make(fmt == 'ETE'):
            if root.count > 1:
                h.reach('generalised')
            lines = list(f.pformat(fmt, sub.url_meta, root))
            if fmt == 'CLUSTER':
                recs.append((lines[0], lines[1:]))
            else:
                recs.extend(lines)
    if fmt == 'ETE':
        t = ''.join([r + '\n' for r in recs])
        return [h.drawing(t)] if t else []
    return recs


def equal(h, fmt, a, b):
    if fmt != 'CLUSTER':
        return a == b
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    left = list(b[1])
    for x in a[1]:
        for k, y in enumerate(left):
            if x == y:
                del left[k]
                break
        else:
            return False
    return True


FILL = ['http://h/a\n', 'http://h/b/c\n', ' \n', 'http://h/1?k=2\n', 'http://h/\xc3\xa9\n', ' http://x/c/d \r\n', '\xff\n', 'http://h/b/e\n', 'http://h\n', 'http://h/w-1.html#x\n', 'http://h/f/g\n']


def filling(n):
    """n constant lines -> (bytes, URL or None)."""
    out = []
    for i in range(n):
        t = FILL[i % len(FILL)]
        u = t.strip()
        out.append((t.encode('latin-1'), None if u == '' or u == 'http://h' or u[-1] in '\xff\xa9' else u))
    return out


def run(h, fmt, cfg, lines, src='files', long=False, fill=0):
    """lines: per line the list of alternatives (kind, argument)."""
    data, urls = [], []
    for b, u in filling(fill):
        data.append(b)
        if u is not None:
            urls.append(u)
    for i, alts in enumerate(lines):
        kind, arg = alts[h.choice('k%d' % i, len(alts))]
        b, u = line(h, 'l%d' % i, kind, arg)
        data.append(b)
        if u is None:
            h.reach('bad line')
        else:
            h.reach('good line')
            urls.append(u)
    argv = ['-f', fmt] if fmt != 'CLUSTER' else []
    if long:
        argv = ['--formatter', fmt.lower(), '--loglevel', 'debug']
        h.reach('long options')
    files = {}
    if cfg:
        h.reach('config')
        files['cfg'] = '[make]\nmin_cluster_num = %d\n' % cfg
        argv += ['--config' if long else '-c', 'cfg']
    else:
        h.reach('no config')
    if src == 'stdin':
        out = h.cli('make', argv, files, data)
    else:
        k = len(data) // 2 if src == 'two' else len(data)
        files['a'] = data[:k]
        argv += ['--inputs' if long else '-i', 'a']
        if src == 'two':
            files['b'] = data[k:]
            argv += ['b']
        out = h.cli('make', argv, files)
    got = parse(h, fmt, out)
    want = expected(h, fmt, cfg or 3, urls)
    h.check(len(got) == len(want), 'number of records')
    left = list(got)
    for w in want:
        for k, g in enumerate(left):
            if equal(h, fmt, g, w):
                del left[k]
                break
        else:
            h.fail('a record is missing or differs')
    h.note('records', len(got))


FORMATS = ['CLUSTER', 'INLINE', 'PATTERN', 'JSON', 'ETE', 'NULL']


def inst(name, fmt, cfg, lines, src='files', long=False, fill=0, **k):
    return dict({'name': '%s %s %s %s%s' % (name, fmt, cfg, src, ' long' if long else ''), 'fn': 'run',
                 'params': {'fmt': fmt, 'cfg': cfg, 'lines': lines, 'src': src, 'long': long, 'fill': fill},
                 'preload': ['cmdline'], 'weight': 5 ** len(lines), 'samples': 2}, **k)


def instances(tier):
    good = [('url', 'l1'), ('pad', 'l1')]
    out = []
    for fmt in FORMATS:
        for cfg in (None, 2, 4):
            out.append(inst('plain', fmt, cfg, [good] * 3 + [[('last', 'l1')]], 'files' if cfg else 'stdin'))
        out.append(inst('plain', fmt, 2, [[('url', 'l1')]] * 2 + [BAD[:3] + [('url', 'd1')]], 'two', long=True))
        out.append(inst('mixed', fmt, 2, [[('url', 'l1')], BAD, [('url', 'l1'), ('url', 'l2/1d1'), ('pad', 'l2')], BAD, [('last', 'l1'), ('url', 'd1')]], 'two'))
    for fmt in ('CLUSTER', 'JSON'):
        out.append(inst('bad', fmt, None, [BAD] * 2))
        out.append(inst('bytes1', fmt, 2, [[('bytes', 1)], [('url', 'l1'), ('bytes', 1)]], 'stdin'))
        out.append(inst('bytes2', fmt, 2, [[('bytes', 2)]], 'stdin'))
        out.append(inst('query', fmt, 3, [[('url', 'a1?1k1=1d1'), ('url', 'a1#1l1'), ('url', 'a1?1k1=1d1#1l1')]] + [[('url', 'a1?1k1=1d1')]] * 2 + [[('raw', 'http://h/a?&\n')]]))
        out.append(inst('order', fmt, 2, [BAD[2:5], [('url', 'l1d1')], BAD[5:8], [('url', 'l1d1')], BAD[8:], [('pad', 'l1d1')]]))
        out.append(inst('hosts', fmt, 2, [[('host', 'l1')], [('url', 'l1'), ('host', 'd1')], [('host', 'l1?1k1=1d1'), ('last', 'l1')]], 'stdin'))
    for src in ('stdin', 'two', 'files'):
        for cfg in (None, 3):
            out.append(inst('five', 'INLINE', cfg, [[('url', 'l1')]] * 5, src))
    for fmt in FORMATS:
        out.append(inst('hundred', fmt, 3, [[('url', 'l1/1l1'), ('host', 'l1'), ('high', None), ('last', 'l1-1d1.1h1t1m1`l1#1x1')]], 'two', fill=100))
    for fmt, src in (('PATTERN', 'files'), ('JSON', 'stdin')):
        out.append(inst('thousands', fmt, 3, [[('url', 'l1/1l1')]], src, fill=5010, path_timeout=200))
    out.append(inst('none', 'CLUSTER', None, [], 'stdin'))
    if tier == 'thorough':
        for fmt in FORMATS:
            out.append(inst('mixed3', fmt, 2, [[('url', 'l1')], BAD, [('url', 'l1'), ('pad', 'l2')], BAD, [('url', 'd1'), ('url', 'l1')], [('last', 'l1')]], 'two'))
        out.append(inst('bytes3', 'JSON', 2, [[('bytes', 3)]], 'stdin'))
        out.append(inst('bytes22', 'JSON', 2, [[('bytes', 2)], [('bytes', 1)]], 'stdin'))
        out.append(inst('six', 'CLUSTER', 3, [[('url', 'l1'), ('pad', 'd1')]] * 6))
    return out
