"""Path exploration: re-execution of the real (instrumented) code, one run per
feasible decision sequence, with z3 deciding feasibility and assertions."""
import signal
import sys
import time
import traceback
from collections import Counter

import z3

from . import symb
from .symb import (FULL, IDX, Mem, Not, And, Or, Rel, PathAbort, PathTimeout, U,
                   Unsupported, Var, bits, mk_and, mk_not, node_of, refold)

SOLVER_TIMEOUT_MS = 20000


class _True(object):
    def ev(self, model):
        return True

    def z(self):
        return z3.BoolVal(True)

    def vars(self, acc):
        pass


TRUE = _True()


class Violation(object):
    def __init__(self, label, model, kind, detail=''):
        self.label = label
        self.inputs = model
        self.kind = kind
        self.detail = detail


class Solver(object):
    """z3 with one scope per path constraint, shared by consecutive paths."""

    def __init__(self, stats):
        self.s = z3.Solver()
        self.s.set('timeout', SOLVER_TIMEOUT_MS)
        self.flushed = []   # decisions whose constraint is asserted
        self.stats = stats

    def align(self, prefix):
        k = 0
        n = min(len(prefix), len(self.flushed))
        while k < n and prefix[k] == self.flushed[k]:
            k += 1
        if len(self.flushed) > k:
            self.s.pop(len(self.flushed) - k)
            del self.flushed[k:]

    def flush(self, trace, cons):
        for i in range(len(self.flushed), len(trace)):
            self.s.push()
            self.s.add(cons[i].z())
            self.flushed.append(trace[i])

    def check(self, trace, cons, extra, variables, want_model=True):
        """-> (verdict, model dict or None)."""
        self.flush(trace, cons)
        t = time.time()
        self.s.push()
        self.s.add(extra.z())
        r = self.s.check()
        m = None
        if r == z3.sat and want_model:
            zm = self.s.model()
            m = {}
            for v in variables:
                e = zm.eval(v.z, model_completion=True)
                x = e.as_long()
                m[v] = x if x in IDX else U[symb._low(v.dom0)]
        self.s.pop()
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        self.stats['q_' + str(r)] += 1
        return str(r), m


class Ctx(object):
    """State of one path."""

    def __init__(self, solver, stats, prefix, model, explorer):
        self.solver = solver
        self.stats = stats
        self.prefix = prefix
        self.model = dict(model)
        self.ex = explorer
        self.trace = []
        self.cons = []
        self.dom = {}
        self.related = set()
        self.vars = []
        self.inputs = {}       # name -> ('str'|'bytes'|'int', value or symbolic)
        self.notes = []
        self.new_branches = 0
        self.checks = 0
        solver.align(prefix)

    # -- variables
    def new_var(self, name, dom0):
        v = self.ex.var(name, dom0)
        self.vars.append(v)
        self.dom[v] = dom0
        if v not in self.model:
            self.model[v] = self.ex.default(v)
        self._push(True, Mem(v, dom0))
        return v

    def _push(self, val, node):
        self.trace.append(val)
        self.cons.append(node)
        if len(self.trace) == len(self.prefix):
            for c in self.cons:
                if not c.ev(self.model):
                    raise Unsupported('path replay diverged')

    def conc(self, ev, eq):
        """A concrete value of a symbolic one: one branch per feasible value.
        The values tried are part of the path, so that its replay is the same."""
        self.stats['concretised'] += 1
        while True:
            pos = len(self.trace)
            if pos < len(self.prefix):
                e = self.prefix[pos]
                if type(e) is not tuple:
                    raise Unsupported('path replay diverged')
                val, v = e
            else:
                v = ev(self.model)
                val = True
            node = refold(eq(v))
            if node is True or node is False:
                self._push((node, v), TRUE)
                if node is True:
                    return v
                continue
            if pos >= len(self.prefix):
                self.new_branches += 1
                m = self._other_side(node, True)
                if m is not None:
                    self.ex.push(self.trace + [(False, v)], m)
            self._push((val, v), node if val else mk_not(node))
            self._apply(node, val)
            self.stats['decisions'] += 1
            if val:
                return v

    # -- decisions
    def branch(self, node):
        node = refold(node_of(node))
        if node is True or node is False:
            return node
        pos = len(self.trace)
        if pos < len(self.prefix):
            val = self.prefix[pos]
        else:
            self.new_branches += 1
            val = node.ev(self.model)
            m = self._other_side(node, val)
            if m is not None:
                self.ex.push(self.trace + [not val], m)
        self._push(val, node if val else mk_not(node))
        self._apply(node, val)
        self.stats['decisions'] += 1
        return val

    def _other_side(self, node, val):
        if type(node) is Mem and node.v not in self.related:
            d = self.dom[node.v]
            k = d & ~node.m if val else d & node.m
            self.stats['domain_decided'] += 1
            m = dict(self.model)
            m[node.v] = U[symb._low(k)]
            return m
        r, m = self.solver.check(self.trace, self.cons, mk_not(node) if val else node, self.vars)
        if r == 'unknown':
            self.ex.inconclusive('solver answered unknown on a branch')
            return None
        return m

    def _apply(self, node, val):
        t = type(node)
        if t is Mem:
            d = self.dom[node.v]
            self.dom[node.v] = d & node.m if val else d & ~node.m
        elif t is Not:
            self._apply(node.a, not val)
        elif t is And and val:
            for x in node.xs:
                self._apply(x, True)
        elif t is Or and not val:
            for x in node.xs:
                self._apply(x, False)
        elif t is Rel and node.op == '=' and val:
            d = self.dom[node.a] & self.dom[node.b]
            self.dom[node.a] = self.dom[node.b] = d
            self.related.add(node.a)
            self.related.add(node.b)
        else:
            vs = set()
            node.vars(vs)
            self.related.update(vs)

    def assume(self, cond):
        node = refold(node_of(cond))
        if node is True:
            return
        if node is False:
            raise PathAbort()
        pos = len(self.trace)
        if pos >= len(self.prefix) and not node.ev(self.model):
            r, m = self.solver.check(self.trace, self.cons, node, self.vars)
            if r == 'unknown':
                self.ex.inconclusive('solver answered unknown on an assumption')
                raise PathAbort()
            if m is None:
                raise PathAbort()
            self.model = m
        self._push(True, node)
        self._apply(node, True)

    def check(self, cond, label):
        """Assert: no value on this path may falsify cond."""
        node = refold(node_of(cond))
        first = len(self.trace) >= len(self.prefix)
        if first:
            self.checks += 1
            self.stats['asserts'] += 1
        if node is True:
            if first:
                self.stats['asserts_folded'] += 1
            return True
        if first:
            if node is False:
                self.ex.violation(label, self.concrete_inputs(self.model), 'assert')
                raise PathAbort()
            r, m = self.solver.check(self.trace, self.cons, mk_not(node), self.vars)
            if r == 'sat':
                self.ex.violation(label, self.concrete_inputs(m), 'assert')
            elif r == 'unknown':
                self.ex.inconclusive('solver answered unknown on an assertion')
            else:
                self.stats['asserts_unsat'] += 1
        elif node is False:
            raise PathAbort()
        self.assume(cond)
        return True

    def certify(self):
        """z3 confirms the variable domains this path was decided with."""
        facts = [Mem(v, self.dom[v]) for v in self.vars if self.dom[v] != v.dom0]
        if not facts:
            return
        r, m = self.solver.check(self.trace, self.cons, Not(And(tuple(facts))), self.vars, want_model=False)
        self.stats['certificates'] += 1
        if r == 'unsat':
            self.stats['certificates_unsat'] += 1
        elif r == 'unknown':
            self.ex.inconclusive('solver answered unknown on a path certificate')
        else:
            raise Unsupported('domain certificate refuted')

    # -- results
    def ev(self, x, model):
        t = type(x)
        if t is symb.SymStr:
            return ''.join(map(chr, x.ev(model)))
        if t is symb.SymBytes:
            return bytes(x.ev(model))
        if t is symb.SymInt:
            return x._ev(model)
        if t is symb.SymBool:
            return x.n.ev(model)
        if t is symb.DigestTok:
            import hashlib
            h = getattr(hashlib, x.algo)(self.ev(x.data, model))
            return h.hexdigest() if x.form == 'hex' else h.digest()
        if isinstance(x, dict):
            return {self.ev(k, model): self.ev(v, model) for k, v in x.items()}
        if isinstance(x, tuple):
            return tuple(self.ev(v, model) for v in x)
        if isinstance(x, list):
            return [self.ev(v, model) for v in x]
        from .containers import SDict, SSet
        if isinstance(x, SDict):
            return {self.ev(k, model): self.ev(v, model) for k, v in x.items()}
        if isinstance(x, SSet):
            return {self.ev(k, model) for k in x}
        return x

    def concrete_inputs(self, model):
        return {k: self.ev(v, model) for k, v in self.inputs.items()}


class Explorer(object):
    """Runs fn(ctx) over all paths of one harness instance."""

    def __init__(self, max_paths=1000000, time_budget=600.0, path_timeout=60,
                 max_violations=3, keep=None, deadline=None):
        self.stats = Counter()
        self.max_paths = max_paths
        self.time_budget = time_budget
        self.path_timeout = path_timeout
        self.max_violations = max_violations
        self.deadline = deadline
        self.work = []
        self.violations = []
        self.problems = []
        self.samples = []
        self.keep = keep
        self._vars = {}
        self.exhausted = True
        self.functions = set()
        self.path_conditions = []
        self.reached = set()
        self.suspects = []      # inputs of paths the engine could not finish

    def var(self, name, dom0):
        v = self._vars.get((name, dom0))
        if v is None:
            n = len([1 for k in self._vars if k[0] == name])
            v = self._vars[name, dom0] = Var('%s#%d' % (name, n) if n else name, dom0)
        return v

    def default(self, v):
        return U[symb._low(v.dom0)]

    def push(self, prefix, model):
        self.work.append((prefix, model))

    def inconclusive(self, why):
        self.stats['inconclusive'] += 1
        if len(self.problems) < 20:
            self.problems.append(why)

    def violation(self, label, inputs, kind, detail=''):
        self.stats['violations'] += 1
        for v in self.violations:
            if v.label == label:
                break
        else:
            self.violations.append(Violation(label, inputs, kind, detail))

    def run(self, fn, before=None, collect_pcs=False):
        solver = Solver(self.stats)
        start = time.time()
        self.work = [([], {})]
        sys.setrecursionlimit(3000)
        old = signal.signal(signal.SIGALRM, self._alarm)
        try:
            while self.work:
                now = time.time()
                if (self.stats['paths'] >= self.max_paths or now - start > self.time_budget
                        or (self.deadline and now > self.deadline)):
                    self.exhausted = False
                    break
                if len(self.violations) >= self.max_violations:
                    self.exhausted = False
                    break
                prefix, model = self.work.pop()
                ctx = Ctx(solver, self.stats, prefix, model, self)
                symb.set_cur(ctx)
                if before:
                    before(ctx)
                self._one(fn, ctx, collect_pcs)
        finally:
            signal.signal(signal.SIGALRM, old)
            symb.set_cur(None)
        self.stats['wall_s'] = time.time() - start
        return self

    def _alarm(self, *_):
        raise PathTimeout()

    def _one(self, fn, ctx, collect_pcs):
        st = self.stats
        signal.alarm(self.path_timeout)
        outcome = 'done'
        try:
            fn(ctx)
            ctx.certify()
        except PathAbort:
            outcome = 'aborted'
        except PathTimeout:
            outcome = 'timeout'
            self.suspects.append(ctx.concrete_inputs(ctx.model))
            self.inconclusive('path did not finish in %d s' % self.path_timeout)
        except Unsupported as e:
            outcome = 'unsupported'
            tb = traceback.extract_tb(e.__traceback__)
            if len(self.suspects) < 50:
                self.suspects.append(ctx.concrete_inputs(ctx.model))
            self.inconclusive('unsupported: %s at %s' % (e, [(f.filename.split('/')[-1], f.lineno, f.name) for f in tb[-4:]]))
        except (Exception, SystemExit) as e:
            outcome = 'exception'
            tb = traceback.extract_tb(e.__traceback__)
            where = [(f.filename.split('/')[-1], f.lineno, f.name) for f in tb[-6:]]
            self.violation('unexpected exception %s' % type(e).__name__,
                           ctx.concrete_inputs(ctx.model), 'exception',
                           '%s at %s' % (_safe_str(e), where))
        finally:
            signal.alarm(0)
        st['paths'] += 1
        st['paths_' + outcome] += 1
        st['max_depth'] = max(st['max_depth'], len(ctx.trace))
        if collect_pcs:
            self.path_conditions.append(list(ctx.cons))
        if outcome == 'done' and ctx.checks == 0 and ctx.new_branches == 0 and len(ctx.trace) <= len(ctx.prefix):
            st['paths_replayed_checks'] += 1
        if outcome in ('done', 'exception') and self.keep:
            self.keep(self, ctx, outcome)


def _safe_str(e):
    try:
        return str(e)[:300]
    except BaseException:
        return type(e).__name__


def coverage_query(explorer, assumptions=()):
    """Do the path conditions cover every input?  -> 'unsat' when they do."""
    s = z3.Solver()
    s.set('timeout', 120000)
    for v in explorer._vars.values():
        s.add(Mem(v, v.dom0).z())
    for pc in explorer.path_conditions:
        s.add(z3.Not(z3.And(*[c.z() for c in pc])))
    return str(s.check())
