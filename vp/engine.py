"""Runs the instances of one property: symbolic exploration in worker
processes, replay on the real package, evidence."""
import hashlib
import importlib
import json
import os
import random
import select
import subprocess
import sys
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PYTHON = os.environ.get('VP_PYTHON') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python')
                                         else sys.executable)
NPROC = int(os.environ.get('VP_PROCS') or 0) or min(8, os.cpu_count() or 1)


# ------------------------------------------------------------------ worker

def run_instance(module, inst, tier, deadline, seed):
    """Explore one harness instance completely (or to its limits)."""
    from . import explore, instr, models, symb
    from .harness import Sym
    from .replay import enc
    pdir = os.path.join(ROOT, 'props')
    extra = {'props': os.path.join(pdir, '__init__.py')}
    for f in sorted(os.listdir(pdir)):
        if f.endswith('.py') and f != '__init__.py':
            extra['props.' + f[:-3]] = os.path.join(pdir, f)
    world = instr.World(os.path.join(REPO, 'src'), extra=extra)
    models.set_world(world)
    rnd = random.Random('%s/%s' % (seed, inst['name']))
    want = inst.get('samples', 4)
    samples = []
    seen = [0]
    state = {'h': None, 'always': False, 'reloads': 0}

    def keep(ex, ctx, outcome):
        if outcome != 'done':
            return
        seen[0] += 1
        k = None
        if len(samples) < want:
            k = len(samples)
            samples.append(None)
        else:
            j = rnd.randrange(seen[0])
            if j < want:
                k = j
        if k is not None:
            h = state['h']
            samples[k] = {'inputs': enc(ctx.concrete_inputs(ctx.model)),
                          'notes': [[n, enc(sorted(ctx.ev(v, ctx.model)) if srt else ctx.ev(v, ctx.model))]
                                    for n, v, srt in h.notes]}

    def fn(ctx):
        h = state['h'] = Sym(ctx, world, inst.get('fix'))
        getattr(world.load('props.' + module), inst['fn'])(h, **inst.get('params', {}))

    def before(ctx):
        models.path_start()
        if world.baseline is not None and not state['always'] and not world.dirty():
            return
        if world.baseline is not None:
            state['reloads'] += 1
            if state['reloads'] > 3:
                state['always'] = True
        symb.set_cur(None)
        world.fresh()
        for m in inst.get('preload', PRELOAD):
            try:
                world.load('os_urlpattern.' + m)
            except ModuleNotFoundError:
                pass
        world.load('props.' + module)
        world.mark_clean()
        symb.set_cur(ctx)

    ex = explore.Explorer(max_paths=inst.get('max_paths', 10 ** 7),
                          time_budget=inst.get('time', 10 ** 6), deadline=deadline,
                          path_timeout=inst.get('path_timeout', 60), keep=keep)
    ex.run(fn, before, collect_pcs=bool(inst.get('coverage')))
    cov = None
    if inst.get('coverage') and ex.exhausted and not ex.violations and len(ex.path_conditions) < 20000:
        cov = explore.coverage_query(ex)
    return {
        'name': inst['name'], 'stats': dict(ex.stats), 'exhausted': ex.exhausted,
        'violations': [{'label': v.label, 'kind': v.kind, 'detail': v.detail, 'inputs': enc(v.inputs)}
                       for v in ex.violations],
        'suspects': [enc(s) for s in ex.suspects],
        'problems': ex.problems, 'samples': [s for s in samples if s],
        'functions': world.functions_hit(), 'reached': sorted(ex.reached), 'coverage': cov,
        'reloads': world.loads,
    }


PRELOAD = ['parse_utils', 'parser', 'pattern', 'pattern_matcher', 'pattern_maker', 'formatter']


def _worker(args):
    module, idx, inst, tier, deadline, seed = args
    if time.time() > deadline:
        return idx, {'name': inst['name'], 'skipped': True}
    try:
        return idx, run_instance(module, inst, tier, deadline, seed)
    except BaseException as e:
        return idx, {'name': inst['name'], 'error': '%r\n%s' % (e, traceback.format_exc()[-1500:])}


class Pool(object):
    """One forked process per instance, at most n at a time."""

    def __init__(self, n):
        self.n = n
        self.live = {}      # fd -> (pid, chunks, job)

    def _start(self, job):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for fd in self.live:
                    os.close(fd)
                res = _worker(job)
                with os.fdopen(w, 'wb') as f:
                    f.write(json.dumps(res).encode())
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        os.close(w)
        self.live[r] = (pid, [], job)

    def run(self, jobs):
        jobs = list(jobs)
        while jobs or self.live:
            while jobs and len(self.live) < self.n:
                self._start(jobs.pop(0))
            ready, _, _ = select.select(list(self.live), [], [], 5)
            for fd in ready:
                data = os.read(fd, 1 << 20)
                pid, chunks, job = self.live[fd]
                if data:
                    chunks.append(data)
                    continue
                os.close(fd)
                del self.live[fd]
                os.waitpid(pid, 0)
                raw = b''.join(chunks)
                if raw:
                    idx, res = json.loads(raw)
                else:
                    idx, res = job[1], {'name': job[2]['name'], 'error': 'worker died (memory?)'}
                yield idx, res

    def kill(self):
        for fd, (pid, _, _) in self.live.items():
            try:
                os.kill(pid, 9)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
        self.live = {}


# ------------------------------------------------------------------ replay

class Replayer(object):
    def __init__(self, n, hashseed='0'):
        self.free = []
        env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPATH=os.path.join(REPO, 'src'))
        for _ in range(n):
            self.free.append(subprocess.Popen([PYTHON, '-W', 'ignore', os.path.join(ROOT, 'vp', 'replay.py'), '--server'],
                                              stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env,
                                              stderr=subprocess.DEVNULL, cwd=ROOT))

    def one(self, job):
        p = self.free[0]
        p.stdin.write(json.dumps(job) + '\n')
        p.stdin.flush()
        return json.loads(p.stdout.readline())

    def many(self, jobs):
        out = [None] * len(jobs)
        n = len(self.free)
        for base in range(0, len(jobs), n):
            chunk = jobs[base:base + n]
            for p, j in zip(self.free, chunk):
                p.stdin.write(json.dumps(j) + '\n')
                p.stdin.flush()
            for k, p in enumerate(self.free[:len(chunk)]):
                out[base + k] = json.loads(p.stdout.readline())
        return out

    def close(self):
        for p in self.free:
            p.kill()
            p.wait()


BAD = ('violation', 'exception', 'timeout')


def confirm(job):
    for seed in ('0', '1', '2', '3', '4'):
        r = Replayer(1, seed)
        try:
            res = r.one(job)
        finally:
            r.close()
        if res['status'] in BAD:
            res['hashseed'] = seed
            return res
    return res


# ------------------------------------------------------------------ one check

def load_known():
    """[(property, signature)] of recorded, unrepaired defects."""
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)).get('known', []):
            out.append(e)
    return out


def run_check(prop, tier, seed, budget=None, only=None, verbose=False):
    t0 = time.time()
    mod = importlib.import_module('props.' + prop.lower())
    insts = mod.instances(tier)
    if only:
        insts = [i for i in insts if only in i['name']]
    names = [i['name'] for i in insts]
    assert len(set(names)) == len(names), 'duplicate instance names'
    budget = budget or (540 if tier == 'quick' else 3600 * 3)
    deadline = t0 + budget
    order = sorted(range(len(insts)), key=lambda i: -insts[i].get('weight', 1))
    jobs = [(prop.lower(), i, insts[i], tier, deadline, seed) for i in order]
    results = {}
    confirmed, unreproduced, known_hits = [], [], []
    known = [k for k in load_known() if k['property'] == prop]
    pool = Pool(NPROC)
    tried = Counter()
    try:
        for idx, res in pool.run(jobs):
            results[idx] = res
            if verbose:
                st = res.get('stats', {})
                print('  %-40s paths=%s q=%s asserts=%s %.1fs%s%s' % (
                    res['name'], st.get('paths'), st.get('queries'), st.get('asserts'), st.get('wall_s', 0),
                    '' if res.get('exhausted') else ' NOT-EXHAUSTED', ' ERROR' if res.get('error') else ''),
                    file=sys.stderr, flush=True)
                for pr in res.get('problems', [])[:3]:
                    print('      problem:', pr, file=sys.stderr)
                if res.get('error'):
                    print(res['error'], file=sys.stderr)
            inst = insts[idx]
            cands = [(v['label'], v['inputs'], v.get('detail')) for v in res.get('violations', [])]
            cands += [('engine could not finish the path', s, '') for s in res.get('suspects', [])[:10]]
            for label, inputs, detail in cands:
                suspect = label.startswith('engine could not')
                if tried[label] >= 4:
                    continue
                tried[label] += 1
                job = {'property': prop, 'module': prop.lower(), 'fn': inst['fn'], 'params': inst.get('params', {}),
                       'inputs': inputs, 'instance': inst['name'], 'timeout': inst.get('path_timeout', 60)}
                r = confirm(job) if not suspect else _quick(job)
                if verbose:
                    print('    candidate %s (%s) -> %s %s %s' % (label, detail, r['status'], r.get('label'), r.get('detail', '')), file=sys.stderr)
                    print('       ', ascii(inputs), file=sys.stderr)
                if r['status'] in BAD:
                    k = _match_known(known, job, r)
                    if k is not None:
                        known_hits.append(k)
                    else:
                        confirmed.append((label, job, r))
                elif not suspect:
                    res['problems'].append('not reproduced on the real code: %s' % label)
                    res['stats']['inconclusive'] = res['stats'].get('inconclusive', 0) + 1
                    if not inst.get('soft'):
                        unreproduced.append((label, job, r))
            if confirmed:
                break
    finally:
        pool.kill()
    # translator validation and direct test of sampled paths
    vjobs, vexp = [], []
    if not confirmed:
        for idx, res in results.items():
            inst = insts[idx]
            for s in res.get('samples', []):
                vjobs.append({'property': prop, 'module': prop.lower(), 'fn': inst['fn'], 'params': inst.get('params', {}),
                              'inputs': s['inputs'], 'instance': inst['name'], 'timeout': inst.get('path_timeout', 60)})
                vexp.append(s['notes'])
    validated, mismatches = 0, []
    if vjobs:
        rp = Replayer(NPROC)
        try:
            rr = rp.many(vjobs)
        finally:
            rp.close()
        for j, e, r in zip(vjobs, vexp, rr):
            if r['status'] in BAD:
                k = _match_known(known, j, r)
                if k is not None:
                    known_hits.append(k)
                else:
                    confirmed.append((r.get('label') or r['status'], j, r))
            elif r['status'] != 'ok':
                mismatches.append((j, r))
            elif json.loads(json.dumps(e)) != r['notes']:
                mismatches.append((j, {'expected': e, 'got': r['notes']}))
            else:
                validated += 1
    ev = evidence(prop, tier, seed, mod, insts, results, validated, mismatches, confirmed, unreproduced, t0, vjobs)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in sorted({k['what'] for k in known_hits}):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if confirmed:
        os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
        for label, job, r in confirmed[:5]:
            h = hashlib.md5(json.dumps(job, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(ROOT, 'out', 'replay-%s-%s.json' % (prop, h))
            job = dict(job, observed=r, hashseed=r.get('hashseed', '0'))
            with open(path, 'w') as f:
                json.dump(job, f, indent=1)
            print('violated: %s (%s %s) %s' % (label, r['status'], r.get('label', ''), ascii(job['inputs'])[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    errs = [r for r in results.values() if r.get('error')]
    for r in errs:
        print('ERROR in %s: %s' % (r['name'], r['error']), file=sys.stderr)
    for label, job, r in unreproduced[:5]:
        print('NOT REPRODUCED: %s in %s: %s -> %s' % (label, job['instance'], ascii(job['inputs'])[:500], r), file=sys.stderr)
    for j, r in mismatches[:5]:
        print('MISMATCH in %s: %s: %s' % (j['instance'], ascii(j['inputs'])[:500], ascii(r)[:1500]), file=sys.stderr)
    st = ev['coverage']
    print('%s %s: %d paths, %d assertions, %d solver queries (%.1fs), %d validated, exhaustive=%s, inconclusive=%d, %.1fs' % (
        prop, tier, st['states'], st['assertions'], st['solver_queries'], st['solver_s'], validated,
        st['exhaustive'], st['inconclusive_paths'], time.time() - t0))
    undecided = len(errs) + len({j['instance'] for _, j, _ in unreproduced})
    if undecided:
        print('INCONCLUSIVE: %d of %d instances not decided' % (undecided, len(insts)))
        if undecided * 2 > len(insts):
            return 2
    if st['vacuous']:
        print('VACUOUS: %s never reached' % st['vacuous'], file=sys.stderr)
        return 2
    return 0


def _quick(job):
    r = Replayer(1)
    try:
        return r.one(job)
    finally:
        r.close()


def _match_known(known, job, res):
    for k in known:
        if k.get('label') == res.get('label') and all(dict(job['inputs']['__d']).get(n) == v for n, v in k['inputs'].items()):
            return k
    return None


def evidence(prop, tier, seed, mod, insts, results, validated, mismatches, confirmed, unreproduced, t0, vjobs):
    tot = Counter()
    funcs, reached, problems = set(), set(), []
    rows = []
    exhausted = True
    for i, inst in enumerate(insts):
        r = results.get(i)
        if r is None or r.get('skipped') or r.get('error'):
            exhausted = False
            continue
        for k, v in r['stats'].items():
            if k == 'max_depth':
                tot[k] = max(tot[k], v)
            else:
                tot[k] += v
        funcs.update(f for f in r['functions'] if f.startswith('os_urlpattern'))
        reached.update(r['reached'])
        problems += r['problems']
        exhausted = exhausted and r['exhausted'] and not r['stats'].get('inconclusive')
        rows.append({'instance': r['name'], 'paths': r['stats'].get('paths', 0),
                     'queries': r['stats'].get('queries', 0), 'exhausted': r['exhausted'],
                     'path_coverage_query': r['coverage'], 'wall_s': round(r['stats'].get('wall_s', 0), 2)})
    want = set(getattr(mod, 'REACH', ()))
    native = {k: v for k, v in tot.items() if k.startswith(('native:', 'fallback:'))}
    return {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['decisions'],
            'traces_validated_against_impl': validated,
            'samples': [{'instance': j['instance'], 'inputs': j['inputs']} for j in vjobs[:5]],
            'exhaustive': bool(exhausted and rows),
            'functions_encoded': sorted(funcs),
            'bounds': getattr(mod, 'BOUNDS', {}).get(tier) or getattr(mod, 'BOUNDS', {}).get('quick') or '',
            'outside': getattr(mod, 'OUTSIDE', ''),
            'instances': rows if len(rows) <= 400 else rows[:400],
            'instances_total': len(insts),
            'assertions': tot['asserts'], 'assertions_decided_unsat': tot['asserts_unsat'],
            'assertions_true_by_folding': tot['asserts_folded'],
            'solver_queries': tot['queries'], 'solver_sat': tot['q_sat'], 'solver_unsat': tot['q_unsat'],
            'solver_unknown': tot['q_unknown'], 'solver_s': round(tot['solver_s'], 2),
            'path_certificates': tot['certificates'], 'path_certificates_unsat': tot['certificates_unsat'],
            'domain_decided_branches': tot['domain_decided'],
            'paths_done': tot['paths_done'], 'paths_outside_assumptions': tot['paths_aborted'],
            'inconclusive_paths': tot['inconclusive'], 'inconclusive_reasons': sorted(set(problems))[:20],
            'longest_path_decisions': tot['max_depth'],
            'concretised': native,
            'witnesses_reached': sorted(reached), 'vacuous': sorted(want - reached) if not confirmed and exhausted else [],
            'validation_mismatches': len(mismatches), 'counterexamples_not_reproduced': len(unreproduced),
            'cpu_s': round(tot['wall_s'], 1),
        },
        'assumptions': ASSUMPTIONS + list(getattr(mod, 'ASSUME', ())),
        'violations': len(confirmed),
        'wall_s': round(time.time() - t0, 2),
    }


ASSUMPTIONS = [
    'characters range over all of ASCII and the representatives beyond it listed in vp/spec.py (EXTRA)',
    'md5 and hash() have no collisions on the inputs explored',
    'str/bytes/dict/set/StringIO/json/re operations behave as modelled in vp/ (sampled paths are re-run on the real code)',
    'logging does nothing; the clock advances',
]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    return run_check(a.property, a.tier, a.seed, a.budget, a.only, a.v)
