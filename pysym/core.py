"""Path exploration: depth-first search over branch decisions, with z3 deciding
which side of every branch is feasible and whether an assertion can fail.

The code under test runs natively; every truth test on a symbolic value calls
Engine.branch(), which either replays a recorded decision or asks the solver.
"""
import time
import z3


class Control(BaseException):
    """Base of everything the engine itself raises through the code under test
    (BaseException, so that no `except Exception` in that code swallows it)."""


class PathAbort(Control):
    """The path ends here: an assumption is false."""


class Unsupported(Control):
    """The encoding cannot follow the code here; the path is inconclusive."""


class PathTimeout(Control):
    """The path used up its time budget."""


class StopExploration(Control):
    """The task used up its budget."""


class Divergence(Control):
    """A replayed path made a different decision: the harness is not deterministic."""


class _Entry(object):
    __slots__ = ('cond', 'value', 'alt', 'framed', 'alt_model')

    def __init__(self, cond, value, alt, framed, alt_model=None):
        self.cond = cond
        self.value = value
        self.alt = alt            # the other side is feasible and not yet explored
        self.framed = framed      # the solver holds a frame for this entry
        self.alt_model = alt_model


class Engine(object):
    current = None

    def __init__(self, deadline=None, query_timeout_ms=20000, max_paths=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.trace = []
        self.pos = 0
        self.model = None
        self.deadline = deadline
        self.max_paths = max_paths
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.forks = 0
        self.paths = 0
        self.counter = 0
        self.atoms_by_key = {}
        self.term_cache = {}      # keeps its terms alive, so their ids stay unique
        self.pinned = []          # keeps z3 terms alive so that ids stay unique
        self.path_deadline = None
        self.tokens = {}
        self.token_of = {}

    # -- solver -----------------------------------------------------------
    def check(self, *assumptions):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise StopExploration()
        t = time.monotonic()
        r = self.solver.check(*assumptions)
        self.solver_s += time.monotonic() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort()
            else:
                raise Unsupported('solver gave no answer for the path condition')
        return self.model

    # -- one path ---------------------------------------------------------
    def begin_path(self, seconds):
        self.pos = 0
        self.counter = 0
        self.path_deadline = time.monotonic() + seconds
        self.paths += 1

    def tick(self):
        now = time.monotonic()
        if self.path_deadline is not None and now > self.path_deadline:
            raise PathTimeout()

    def fresh_name(self, stem):
        self.counter += 1
        return '%s!%d' % (stem, self.counter)

    def _replay(self, cond):
        e = self.trace[self.pos]
        if e.cond.get_id() != cond.get_id():
            raise Divergence('expected %s, got %s' % (e.cond, cond))
        self.pos += 1
        return e.value

    def branch(self, cond):
        """cond: z3 Bool. Returns the truth value taken on this path."""
        if self.pos < len(self.trace):
            return self._replay(cond)
        self.tick()
        m = self.get_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        r = self.check(other)
        if r == z3.unsat:
            self.trace.append(_Entry(cond, side, False, False))
        elif r == z3.sat:
            alt_model = self.solver.model()
            self.solver.push()
            self.solver.add(cond if side else z3.Not(cond))
            self.trace.append(_Entry(cond, side, True, True, alt_model))
            self.forks += 1
        else:
            # no answer for the other side: explore it anyway
            self.solver.push()
            self.solver.add(cond if side else z3.Not(cond))
            self.trace.append(_Entry(cond, side, True, True, None))
            self.forks += 1
        self.pos += 1
        return side

    def assume(self, cond):
        if self.pos < len(self.trace):
            self._replay(cond)
            return
        self.solver.push()
        self.solver.add(cond)
        self.trace.append(_Entry(cond, True, False, True))
        self.pos += 1
        m = self.model
        if m is not None and z3.is_true(m.eval(cond, model_completion=True)):
            return
        self.model = None
        self.get_model()

    def possible(self, cond):
        """Can cond be true here? Returns a model, or None; Unsupported if unknown."""
        m = self.get_model()
        if z3.is_true(m.eval(cond, model_completion=True)):
            return m
        r = self.check(cond)
        if r == z3.sat:
            return self.solver.model()
        if r == z3.unsat:
            return None
        raise Unsupported('solver gave no answer for an assertion')

    def diverse(self, wishes, limit=48, where=()):
        """A model of the path condition that grants as many wishes (z3 Bools) as a few queries allow."""
        left = [limit]
        self.solver.push()
        self.solver.add(*where)
        try:
            model = None

            def grant(ws):
                nonlocal model
                if not ws or left[0] <= 0:
                    return
                left[0] -= 1
                if self.check(*ws) == z3.sat:
                    model = self.solver.model()
                    self.solver.add(*ws)
                elif len(ws) > 1:
                    grant(ws[:len(ws) // 2])
                    grant(ws[len(ws) // 2:])
            grant(wishes)
            return model
        finally:
            self.solver.pop()

    # -- between paths -----------------------------------------------------
    def backtrack(self):
        """Moves to the next unexplored path; False when there is none."""
        while self.trace:
            e = self.trace.pop()
            if e.framed:
                self.solver.pop()
            if e.alt:
                self.solver.push()
                v = not e.value
                self.solver.add(e.cond if v else z3.Not(e.cond))
                self.trace.append(_Entry(e.cond, v, False, True))
                self.model = e.alt_model
                return True
        return False
