"""Path-forking symbolic execution engine.

The code under test runs as ordinary Python over symbolic values.  Whenever
its control flow depends on a symbolic condition, `branch` asks z3 which
outcomes are feasible under the current path condition and explores all of
them (depth first, by re-execution).  Every path therefore stands for the set
of all inputs satisfying its path condition, and a property asserted at the
end of a path is decided by z3 for that whole set (path condition /\\ not P).
"""
import os
import sys
import time
import z3

ACTIVE = None


class PathEnd(BaseException):
    """The current path is abandoned (infeasible assumption)."""


class PathCut(BaseException):
    """The current path leaves the stated bounds (recorded)."""

    def __init__(self, why):
        self.why = why


class Violation(BaseException):
    def __init__(self, msg, model):
        self.msg = msg
        self.model = model


class StepLimit(Exception):
    """Loop budget exceeded: possible non termination."""


class Node(object):
    __slots__ = ('key', 'expr', 'val', 'pending', 'model', 'pushed', 'two')

    def __init__(self, key, expr, val, pending, model, pushed, two=False):
        self.key = key
        self.expr = expr
        self.val = val
        self.pending = pending
        self.model = model
        self.pushed = pushed
        self.two = two


class Stats(object):
    FIELDS = ('paths', 'forks', 'decisions', 'forced', 'queries', 'cut', 'pruned',
              'asserts', 'asserts_solver', 'unknown', 'concretised', 'unsupported')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.functions = set()
        self.cuts = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = self.solver_s
        d['functions'] = sorted(self.functions)
        d['cuts'] = dict(self.cuts)
        return d


def bv_only(es):
    seen, todo = set(), list(es)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.sort_kind() not in (z3.Z3_BOOL_SORT, z3.Z3_BV_SORT):
            return False
        todo.extend(e.children())
    return True


class Engine(object):
    def __init__(self, query_timeout_ms=20000):
        self.solver = z3.SimpleSolver()
        self.ranges = {}    # bounds of integer inputs
        self.bits = False   # some input is a bit vector
        self.solver.set('timeout', query_timeout_ms)
        self.stats = Stats()
        self.nodes = []
        self.keep = []           # keeps hash-consed exprs alive
        self.fast = {}
        self.reset_path()

    # -- bookkeeping -------------------------------------------------------
    def reset_path(self):
        self.depth = 0
        self.known = {}
        self.steps = 0
        self.step_limit = 200000
        self.inputs = {}
        self.fresh = 0
        self.concretisations = 0
        self.observed = []
        self.tables = {}
        self.hooks = {}

    def start(self, prefix=()):
        """Begin exploring the subtree below `prefix` (list of values)."""
        self.solver.reset()
        self.nodes = []
        self.prefix = list(prefix)
        self.model = None
        self.base = len(self.prefix)

    # -- solver ------------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _again(self, e):
        """A query on bit vectors only, given to the solver for these."""
        s = z3.SolverFor('QF_BV')
        s.set('timeout', 60000)
        s.add(*self.solver.assertions())
        s.add(e)
        t = time.perf_counter()
        r = s.check()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        return r, (s.model() if r == z3.sat else None)

    def current_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                raise PathCut('solver unknown')
            self.model = self.solver.model()
        return self.model

    # -- decisions ---------------------------------------------------------
    def branch(self, e):
        """Decide the z3 Boolean `e` on this path, forking if both ways are
        feasible."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        hit = self.known.get(key)
        if hit is not None:
            return hit
        if z3.is_not(e):
            return not self.branch(e.arg(0))
        st = self.stats
        d = self.depth
        self.depth = d + 1
        nodes = self.nodes
        if d < len(nodes):
            node = nodes[d]
            if node.key != key:
                raise RuntimeError('non deterministic re-execution: %s vs %s' % (node.expr, e))
            val = node.val
            self._learn(e, key, val)
            return val
        st.decisions += 1
        if d < len(self.prefix):
            val = self.prefix[d]
            if val in (2, 3):
                # forced on the original run: implied by the path condition
                val = val == 3
                nodes.append(Node(key, e, val, False, None, False))
            else:
                val = bool(val)
                self.solver.push()
                self.solver.add(e if val else z3.Not(e))
                nodes.append(Node(key, e, val, False, None, True, True))
            self.model = None
            self._learn(e, key, val)
            return val
        m = self.current_model()
        v = z3.is_true(m.eval(e, model_completion=True))
        self.solver.push()
        other = z3.Not(e) if v else e
        self.solver.add(other)
        r = self._check()
        if r == z3.unsat:
            self.solver.pop()
            st.forced += 1
            nodes.append(Node(key, e, v, False, None, False))
        else:
            om = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            self.solver.push()
            self.solver.add(e if v else z3.Not(e))
            st.forks += 1
            nodes.append(Node(key, e, v, True, om, True, True))
        self._learn(e, key, v)
        return v

    def _learn(self, e, key, val):
        self.known[key] = val
        if len(self.keep) < 4000000:
            self.keep.append(e)
        if z3.is_not(e):
            c = e.arg(0)
            self.known[c.get_id()] = not val
            self.keep.append(c)
        elif val and z3.is_and(e):
            for c in e.children():
                self.known[c.get_id()] = True
                self.keep.append(c)
        elif (not val) and z3.is_or(e):
            for c in e.children():
                self.known[c.get_id()] = False
                self.keep.append(c)

    def assume(self, e):
        """Constrain the path; abandons it when infeasible."""
        if isinstance(e, bool):
            if not e:
                raise PathEnd()
            return
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd()
        key = e.get_id()
        if self.known.get(key) is True:
            return
        d = self.depth
        self.depth = d + 1
        if d < len(self.nodes):
            self._learn(e, key, True)
            return
        self.solver.push()
        self.solver.add(e)
        self.nodes.append(Node(key, e, True, False, None, True))
        self._learn(e, key, True)
        if d < len(self.prefix):
            self.model = None
            return
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None
        # feasibility is checked lazily by the next query

    def check(self, e, msg):
        """The property: must hold for every input on this path."""
        self.stats.asserts += 1
        if isinstance(e, bool):
            if e:
                return
            self.model = None
            raise Violation(msg, self.current_model())
        if z3.is_true(e):
            return
        if self.known.get(e.get_id()) is True:
            return
        if self.depth < len(self.nodes) or self.depth < len(self.prefix):
            # replaying a prefix: this assertion was already discharged under
            # a weaker path condition
            return
        if self.bits and bv_only([e]) and bv_only(self.solver.assertions()):
            self.stats.asserts_solver += 1
            r, m = self._again(z3.Not(e))
            if r == z3.sat:
                raise Violation(msg, m)
            if r == z3.unknown:
                self.stats.unknown += 1
                raise PathCut('solver unknown on assertion: %s' % msg)
            return
        self.solver.push()
        self.solver.add(z3.Not(e))
        r = self._check()
        self.stats.asserts_solver += 1
        if r == z3.sat:
            m = self.solver.model()
            self.solver.pop()
            raise Violation(msg, m)
        self.solver.pop()
        if r == z3.unknown:
            raise PathCut('solver unknown on assertion: %s' % msg)

    # -- exploration -------------------------------------------------------
    def backtrack(self):
        """Move to the next unexplored alternative; False when done."""
        nodes = self.nodes
        while nodes:
            n = nodes[-1]
            if n.pushed:
                self.solver.pop()
            if n.pending:
                n.pending = False
                n.val = not n.val
                self.solver.push()
                self.solver.add(n.expr if n.val else z3.Not(n.expr))
                n.pushed = True
                self.model = n.model
                n.model = None
                return True
            nodes.pop()
        return False

    def leftovers(self):
        """Prefixes of all the unexplored alternatives (call after the end of
        a path, instead of backtrack)."""
        out = []
        vals = [((3 if n.val else 2) if not n.two else int(n.val)) for n in self.nodes]
        for i, n in enumerate(self.nodes):
            if n.pending:
                out.append(vals[:i] + [1 - int(n.val)])
        out.reverse()
        return out

    def new_name(self, base):
        self.fresh += 1
        return '%s!%d' % (base, self.fresh)

    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise StepLimit('loop budget of %d iterations exceeded' % self.step_limit)


def get():
    if ACTIVE is None:
        raise RuntimeError('no active engine')
    return ACTIVE


def set_active(e):
    global ACTIVE
    ACTIVE = e
