"""Path exploration by re-execution with decision prefixes."""
import random
import time
from fractions import Fraction
from . import val as V
from .val import SB, SV, Ctx, Unsupported, bnot, rel
from . import solve as S


class PathAbort(BaseException):
    """path infeasible / assumption violated"""


class Budget(BaseException):
    """exploration budget exhausted"""


class Explorer:
    def __init__(self, max_paths=400, feas_timeout=1500, deadline=None, on_divzero="fresh", points=40):
        self.max_paths = max_paths
        self.feas_timeout = feas_timeout
        self.deadline = deadline
        self.on_divzero = on_divzero
        self.pending = [((), True)]
        self.paths = 0
        self.decisions = 0
        self.aborted = 0
        self.divzero = 0
        self.rnd = random.Random(20)
        self.pool = [V.FEval(self.rnd) for _ in range(points)]
        self._reset()

    def _reset(self, prefix=()):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.known = {}
        self.fresh_n = {}
        self.path_divzero = 0
        self.alive = list(self.pool)
        self.tries = 400

    # -- sample points consistent with the path so far (they spare solver calls)
    def _filter(self, c):
        prev = self.alive
        self.alive = [p for p in prev if p.safe(c) is True]
        if len(self.alive) < 3 and self.tries > 0:
            t0 = time.time()
            prev = self.alive * 3 + (prev or self.pool[:20])
            for _ in range(40):
                self.tries -= 1
                p = self.rnd.choice(prev).mutate(self.rnd.choice((0.1, 0.3, 0.6))) if self.rnd.random() < 0.7 else V.FEval(self.rnd)
                if all(p.safe(f) is True for f in reversed(self.pc)):
                    self.alive.append(p)
                    prev.append(p)
                    if len(self.pool) < 400:
                        self.pool.append(p)
                    if len(self.alive) >= 3:
                        break
                if time.time() - t0 > 0.5:
                    break

    def _new_point(self, facts):
        def want(asg):
            p = V.FEval(self.rnd, asg)
            if len(self.pool) < 400 and all(p.safe(f) is True for f in facts):
                self.pool.append(p)
                self.alive.append(p)
        return want

    def feasible(self, c):
        for p in self.alive:
            if p.safe(c) is True:
                return True
        facts = self.pc + [c]
        return S.feasible(facts, self.feas_timeout, self._new_point(facts))

    # -- services used by values
    def decided(self, c):
        if isinstance(c, bool):
            return c
        r = self.known.get(c.id)
        if r is None and c.op == "not":
            r = self.known.get(c.args.id)
            if r is not None:
                r = not r
        if r is None and c.op == "and":
            vals = [self.decided(x) for x in c.args]
            if any(v is False for v in vals):
                return False
            if all(v is True for v in vals):
                return True
        return r

    def _learn(self, c, v):
        if isinstance(c, bool):
            return
        if c.op == "not":
            self._learn(c.args, not v)
            return
        self.known[c.id] = v
        if c.op == "and" and v:
            for x in c.args:
                self._learn(x, True)

    def add(self, c):
        """conjoin a fact to the path condition"""
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.pc.append(c)
        self._learn(c, True)
        self._filter(c)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        d = self.decided(c)
        if d is not None:
            return d
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time")
            self.decisions += 1
            t_ok = self.feasible(c)
            if not t_ok:
                # pc is feasible (or unknown), hence the other side is taken; not a choice point
                self.add(bnot(c))
                self.trace.append(None)
                # re-execution must take the same route: record as forced decision
                self.prefix = self.prefix + (False,)
                self.pos += 1
                return False
            f_ok = self.feasible(bnot(c))
            if not f_ok:
                self.add(c)
                self.prefix = self.prefix + (True,)
                self.pos += 1
                return True
            # the side on which a sample point lives first: it is where a counterexample is quickest to see
            yes = any(p.safe(c) is True for p in self.alive)
            no = any(p.safe(c) is False for p in self.alive)
            d = yes or not no
            self.pending.append((self.prefix + (not d,), no if d else yes))
            self.prefix = self.prefix + (d,)
            self.pos += 1
        self.add(c if d else bnot(c))
        return d

    def pick_int(self, x, limit=64):
        """enumerate the integer values of x by branching"""
        lo, hi = x.iv()
        sm = V.single_mono(x)
        fl = None
        if sm and sm[1] in (1, -1) and len(sm[0]) == 1 and sm[0][0][1] == 1:
            a = V.ATOMS[sm[0][0][0]]
            if a.kind == "floor":
                fl = (a.args, sm[1])
        if lo == -V.INF or hi == V.INF:
            if lo == -V.INF:
                raise Unsupported("unbounded integer value")
        def upto(k):
            if fl and fl[1] == 1:
                return rel("<", fl[0] - (k + 1))          # floor(arg) <= k
            if fl:
                return rel("<=", -k - fl[0])               # -floor(arg) <= k  <=> arg >= -k
            return rel("<=", x - k)
        for k in range(0, 9):                               # already fixed by earlier comparisons of the same value
            if k >= lo and self.decided(V.to_b(rel("<=", x - k))) is True and self.decided(V.to_b(rel("<", x - k))) is False:
                return k
        k = int(lo)
        n = 0
        step = 1
        while True:
            if hi != V.INF and k >= int(hi):
                self.add(self._is_int(x, fl, k))
                return k
            c = upto(k + step - 1)
            if c if isinstance(c, bool) else self.branch(c):
                if step == 1:
                    return k
                step = 1
            else:
                k += step
                step *= 2
            n += 1
            if n > limit:
                raise Unsupported("integer value has too many cases")

    def _is_int(self, x, fl, k):
        return True

    def fresh(self, name, lo=-V.INF, hi=V.INF, integer=False):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return V.new_var("%s@%d" % (name, n), lo, hi, integer)

    def note_divzero(self):
        self.divzero += 1
        self.path_divzero += 1

    # -- main loop
    def run(self, fn, on_path_end=None):
        """fn() is executed once per path."""
        while self.pending:
            if self.paths + self.aborted >= self.max_paths:
                raise Budget("paths > %d" % self.max_paths)
            k = next((i for i in range(len(self.pending) - 1, -1, -1) if self.pending[i][1]), len(self.pending) - 1)
            prefix, _ = self.pending.pop(k)
            self._reset(prefix)
            Ctx.explorer = self
            try:
                fn()
                self.paths += 1
            except PathAbort:
                self.aborted += 1
            finally:
                Ctx.explorer = None


class ConstExplorer:
    """used when all inputs are constants: no branching is possible"""
    on_divzero = "fresh"

    def __init__(self):
        self.pc = []
        self.divzero = 0

    def decided(self, c):
        return c if isinstance(c, bool) else None

    def add(self, c):
        if c is False:
            raise PathAbort()

    def branch(self, c):
        if isinstance(c, bool):
            return c
        raise Unsupported("symbolic branch in constant run")

    def fresh(self, name, *a, **k):
        raise Unsupported("fresh value in constant run: " + name)

    def note_divzero(self):
        self.divzero += 1

    def pick_int(self, x, limit=0):
        raise Unsupported("symbolic int in constant run")
