"""Concrete replay of harness runs on the real package (run with the package's
own interpreter).

  replay.py FILE        replay one counterexample file, report
  replay.py --server    JSON lines on stdin -> JSON lines on stdout
"""
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.dont_write_bytecode = True


def enc(x):
    if isinstance(x, bytes):
        return {'__b': x.hex()}
    if isinstance(x, tuple):
        return {'__t': [enc(v) for v in x]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return {'__s': sorted((enc(v) for v in x), key=repr)}
    if isinstance(x, dict):
        return {'__d': sorted(([enc(k), enc(v)] for k, v in x.items()), key=repr)}
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return {'__r': type(x).__name__}


def dec(x):
    if isinstance(x, dict):
        if '__b' in x:
            return bytes.fromhex(x['__b'])
        if '__t' in x:
            return tuple(dec(v) for v in x['__t'])
        if '__s' in x:
            return {dec(v) for v in x['__s']}
        if '__d' in x:
            return {dec(k): dec(v) for k, v in x['__d']}
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


class Timeout(BaseException):
    pass


def run(job):
    """-> {'status': ok|violation|exception|timeout|assumed, ...}"""
    import importlib
    from vp.concrete import Assumed, Conc, Violated
    mod = importlib.import_module('props.' + job['module'])
    h = Conc(dec(job['inputs']), job.get('fix'))
    old = signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Timeout()))
    signal.alarm(int(job.get('timeout', 60)))
    res = {}
    try:
        getattr(mod, job['fn'])(h, **job['params'])
        res['status'] = 'ok'
    except Violated as e:
        res = {'status': 'violation', 'label': str(e)}
    except Assumed as e:
        res = {'status': 'assumed', 'label': str(e)}
    except Timeout:
        res = {'status': 'timeout'}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res = {'status': 'exception', 'label': type(e).__name__,
               'detail': '%s at %s' % (ascii(str(e))[:300], [(f.filename.split('/')[-1], f.lineno, f.name) for f in tb[-5:]])}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res['notes'] = [[k, enc(v)] for k, v in h.notes]
    return res


def main():
    sys.path.insert(0, ROOT)
    sys.path.insert(0, os.path.join(REPO, 'src'))
    os.environ['PYTHONPATH'] = os.path.join(REPO, 'src')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if sys.argv[1] == '--server':
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(2, 1)
        import importlib
        for m in ('cmdline', 'parser', 'pattern_maker', 'pattern_matcher', 'formatter'):
            try:
                importlib.import_module('os_urlpattern.' + m)
            except Exception:
                pass
        import vp.concrete
        import vp.spec
        for line in sys.stdin:
            job = json.loads(line)
            pid_r, pid_w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(pid_r)
                try:
                    s = json.dumps(run(job))
                except BaseException as e:
                    s = json.dumps({'status': 'error', 'label': repr(e), 'notes': []})
                with os.fdopen(pid_w, 'w') as f:
                    f.write(s)
                os._exit(0)
            os.close(pid_w)
            with os.fdopen(pid_r) as f:
                s = f.read()
            os.waitpid(pid, 0)
            out.write((s or json.dumps({'status': 'error', 'label': 'died', 'notes': []})) + '\n')
            out.flush()
        return 0
    job = json.load(open(sys.argv[1]))
    res = run(job)
    print('inputs:')
    for k, v in dec(job['inputs']).items():
        print('  %s = %s' % (k, ascii(v)))
    print('result:', res['status'], res.get('label', ''), res.get('detail', ''))
    return 1 if res['status'] in ('violation', 'exception', 'timeout') else 0


if __name__ == '__main__':
    sys.exit(main())
