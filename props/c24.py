"""C24 Every segment of a cluster's pattern is the tightest one of its form."""
from props.matching import *

REACH = ['literal', 'fixed length', 'any length', 'split', 'block', 'one class', 'file extension']
BOUNDS = WITH_SIGNS
OUTSIDE = PLAN_OUTSIDE


def tight(h, chunks):
    """The tightest unit for the texts of one part: [(rules, text)] of all members."""
    rules, first = chunks[0]
    if all([t == first for _, t in chunks]):
        return spec_literal(first), 'literal'
    cls = ''.join(sorted(rules))
    if all([len(t) == len(first) for _, t in chunks]):
        return spec_unit(cls, len(first)), 'fixed length'
    return '[' + cls + ']+', 'any length'


def is_file(runs):
    """One run or letter-digit block, a dot, and an extension of at most two runs."""
    dots = [i for i, (r, _) in enumerate(runs) if r == '\\.']
    return len(dots) == 1 and 0 < dots[0] < len(runs) - 1 and len(runs) - dots[0] <= 3 and \
        all([r in ('a-z', 'A-Z', '0-9', '\\.') for r, _ in runs])


def candidates(h, pieces, last):
    """(text, form, kinds of parts) for every form that all texts can take."""
    out = []
    if all([p == pieces[0] for p in pieces]):
        return [(spec_literal(pieces[0]), 'literal', ['literal'])]
    runs = [spec_runs(p) for p in pieces]
    for form in ('fuzzy', 'multi', 'mixed', 'ldsf') if last else ('fuzzy', 'multi', 'mixed'):
        rows = [split(form, r) for r in runs]
        if any([r is None for r in rows]) or any([len(r) != len(rows[0]) for r in rows]):
            continue
        cols = [[r[k] for r in rows] for k in range(len(rows[0]))]
        if any([set(rules) != set(c[0][0]) for c in cols for rules, _ in c]):
            continue
        parts = [tight(h, c) for c in cols]
        if last and len(cols) == 3 and parts[2][1] != 'literal' and all([is_file(r) for r in runs]):
            continue                         # name.ext: the extension is never generalised
        out.append((''.join([p for p, _ in parts]), form, [k for _, k in parts]))
    return out


def run(h, mcn, plan):
    urls = multi(h, plan)
    maker = load_all(h, [HOST + u for u in urls], mcn)
    cl = clusters(h, maker)
    for c in cl:
        structs = [spec_url(urls[m]) for m in c.metas]
        depth = structs[0][0]
        for s in structs:
            h.check(s[:3] == structs[0][:3], 'all URLs of a cluster have the same structure')
        for pats, _ in c.paths:
            h.check(len(pats) == len(structs[0][3]), 'one pattern per segment')
            for k, p in enumerate(pats):
                found = []
                for t, form, kinds in candidates(h, [s[3][k] for s in structs], k == depth - 1):
                    if h.same(p, t):
                        found.append(form)
                        for kind in kinds:
                            h.reach(kind)
                        if k == depth - 1 and len(kinds) == 3 and kinds[2] == 'literal' and is_file(spec_runs(structs[0][3][k])):
                            h.reach('file extension')
                        if form in ('multi', 'ldsf'):
                            h.reach('split')
                        elif form == 'mixed':
                            h.reach('block')
                        elif form == 'fuzzy':
                            h.reach('one class')
                        break
                h.check(len(found) > 0, 'a segment is the tightest pattern of one of the forms')
    h.notes_of('clusters', [(c.pattern, c.count) for c in cl])


def instances(tier):
    return std_instances('run', tier) + sign_instances('run')
