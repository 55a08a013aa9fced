"""Deciding conjunctions of SBs with z3.

Stage 1  linear abstraction: every non-linear monomial is a fresh real, constrained by
         exact case expansions of if-then-else atoms, reciprocal identities, interval
         bounds, McCormick envelopes, sign products and monotonicity facts.  unsat here is
         a proof over the reals.
Stage 2  the abstraction's model is evaluated exactly; if it satisfies the query it is a
         genuine counterexample.
Stage 3  the exact non-linear query (NRA), under a time limit; first as is, then with some
         base variables fixed to constants (only to *find* counterexamples).
Anything else is `unknown`.
"""
import time
from fractions import Fraction
import z3
from . import val as V
from .val import ATOMS, INF, SV, SB, Evaluator, _mono_mul, mono_iv

STATS = dict(queries=0, la_unsat=0, nra_unsat=0, sat=0, unknown=0, time=0.0, feas=0, feas_time=0.0)

LIMIT_MONOS = 2500
FEAS_MONOS = 200


def q(f):
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def rels_of(b, out, seen):
    if isinstance(b, bool) or b.id in seen:
        return
    seen.add(b.id)
    if b.op in ("<", "=="):
        out.append(b)
    elif b.op == "not":
        rels_of(b.args, out, seen)
    elif b.op == "and":
        for x in b.args:
            rels_of(x, out, seen)


class Enc:
    """shared part of the two encodings"""

    def __init__(self):
        self.cons = []
        self.bseen = {}
        self.avars = {}

    def avar(self, aid):
        v = self.avars.get(aid)
        if v is None:
            a = ATOMS[aid]
            if a.integer:
                v = z3.ToReal(z3.Int("i%d" % aid))
            else:
                v = z3.Real("a%d" % aid)
            self.avars[aid] = v
            if a.lo != -INF:
                self.cons.append(v >= q(a.lo))
            if a.hi != INF:
                self.cons.append(v <= q(a.hi))
            self.new_atom(aid)
        return v

    def new_atom(self, aid):
        pass

    def b(self, x):
        if isinstance(x, bool):
            return z3.BoolVal(x)
        r = self.bseen.get(x.id)
        if r is not None:
            return r
        if x.op == "<":
            r = self.lin(x.args.sv) < 0
        elif x.op == "==":
            r = self.lin(x.args.sv) == 0
        elif x.op == "not":
            r = z3.Not(self.b(x.args))
        elif x.op == "and":
            r = z3.And(*[self.b(y) for y in x.args])
        else:
            r = z3.Bool("b_" + x.args)
        self.bseen[x.id] = r
        return r

    def fn_lemmas(self):
        """monotonicity facts between transcendental atoms that occur"""
        groups = {}
        for aid in list(self.avars):
            if not isinstance(aid, int):
                continue
            a = ATOMS[aid]
            if a.kind == "pow":
                groups.setdefault(("pow", a.args[1]), []).append(a)
            elif a.kind in ("exp", "log", "sqrt"):
                groups.setdefault((a.kind,), []).append(a)
        for k, ats in groups.items():
            inc = not (k[0] == "pow" and k[1] < 0)
            arg = (lambda a: a.args[0]) if k[0] == "pow" else (lambda a: a.args)
            for i in range(len(ats)):
                for pt in self._anchor(k):
                    x, y = pt
                    d = arg(ats[i]) - SV.const(x)
                    v = self.avar(ats[i].id)
                    lt, gt = self.b(V.rel("<", d)), self.b(V.rel("<", -d))
                    if inc:
                        self.cons += [z3.Implies(lt, v < q(y)), z3.Implies(gt, v > q(y)),
                                      z3.Implies(z3.And(z3.Not(lt), z3.Not(gt)), v == q(y))]
                    else:
                        self.cons += [z3.Implies(lt, v > q(y)), z3.Implies(gt, v < q(y)),
                                      z3.Implies(z3.And(z3.Not(lt), z3.Not(gt)), v == q(y))]
                for j in range(i + 1, len(ats)):
                    if i > 12:
                        break
                    d = arg(ats[i]) - arg(ats[j])
                    lt, gt = self.b(V.rel("<", d)), self.b(V.rel("<", -d))
                    u, w = self.avar(ats[i].id), self.avar(ats[j].id)
                    if not inc:
                        u, w = w, u
                    self.cons += [z3.Implies(lt, u < w), z3.Implies(gt, u > w),
                                  z3.Implies(z3.And(z3.Not(lt), z3.Not(gt)), u == w)]

    @staticmethod
    def _anchor(k):
        if k[0] == "ipow":
            return [(Fraction(0), Fraction(0)), (Fraction(1), Fraction(1))]
        if k[0] == "pow":
            return [(Fraction(1), Fraction(1))] + ([(Fraction(0), Fraction(0))] if k[1] > 0 else [])
        if k[0] == "exp":
            return [(Fraction(0), Fraction(1))]
        if k[0] == "log":
            return [(Fraction(1), Fraction(0))]
        return [(Fraction(0), Fraction(0)), (Fraction(1), Fraction(1))]


class LA(Enc):
    def __init__(self, level=2, limit=LIMIT_MONOS):
        """level 0: single if-then-else atoms only; 1: products too; 2: with reciprocals and envelopes"""
        super().__init__()
        self.level = level
        self.limit = limit
        mccormick = level >= 2
        self.mv = {}
        self.work = []
        self.gen = {}
        self.rels = []
        self.relseen = set()
        self.mccormick = mccormick

    def mvar(self, m, g=0):
        if len(m) == 1 and m[0][1] == 1:
            v = self.avar(m[0][0])
            if m not in self.mv:
                self.mv[m] = v
                self.gen[m] = g
                self.work.append(m)
            elif g < self.gen[m]:
                self.gen[m] = g
                self.work.append(m)
            return v
        v = self.mv.get(m)
        if v is None:
            v = z3.Real("m%d_%s" % (len(self.mv), "_".join("%d^%d" % x for x in m)))
            self.mv[m] = v
            self.gen[m] = g
            self.work.append(m)
            lo, hi = mono_iv(m)
            if lo != -INF:
                self.cons.append(v >= q(lo))
            if hi != INF:
                self.cons.append(v <= q(hi))
        elif g < self.gen[m]:
            self.gen[m] = g
            self.work.append(m)
        return v

    def lin(self, sv, g=0):
        ts = []
        for m, c in sv.t.items():
            if m:
                ts.append(q(c) * self.mvar(m, g) if c != 1 else self.mvar(m, g))
            else:
                ts.append(q(c))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def b(self, x):
        if isinstance(x, SB) and x.id not in self.bseen and x.op in ("<", "=="):
            if x.id not in self.relseen:
                self.relseen.add(x.id)
                self.rels.append(x)
        return super().b(x)

    def close(self):
        done = {}
        steps = 0
        while self.work:
            m = self.work.pop(0)
            g = self.gen[m]
            if m in done and done[m] <= g:
                continue
            first = m not in done
            done[m] = g
            if len(self.mv) > self.limit:
                continue
            v = self.mv[m]
            # if-then-else expansion on the youngest ite atom
            target = None
            for aid, e in reversed(m):
                a = ATOMS[aid]
                if e > 0 and a.kind == "ite":
                    target = (aid, e, a)
                    break
            if target and first and (self.level > 0 or (len(m) == 1 and m[0][1] == 1)):
                aid, e, a = target
                rest = tuple(x for x in m if x[0] != aid)
                c, ta, tb = a.args
                cz = self.b(c)
                for guard, term in ((cz, ta), (z3.Not(cz), tb)):
                    p = SV({rest: Fraction(1)})
                    for _ in range(e):
                        p = p * term
                    self.cons.append(z3.Implies(guard, v == self.lin(p, g)))
                continue_mc = len(m) <= 3
            else:
                continue_mc = True
            for aid, e in m:
                a = ATOMS[aid]
                if a.kind == "inv" and e >= 1 and g < 2 and self.level >= 1:
                    rest = tuple((x, y - 1) if x == aid else (x, y) for x, y in m if not (x == aid and y == 1))
                    lhs = SV({m: Fraction(1)}) * SV(a.args.t)
                    # product with the reciprocal must equal the rest
                    self.cons.append(self.lin(lhs, g + 1) == self.lin(SV({rest: Fraction(1)}), g))
                elif a.kind == "def" and e == 1 and first and (len(m) == 1 or (self.level >= 1 and g == 0 and len(a.args.t) <= 200)):
                    rest = tuple(x for x in m if x[0] != aid)
                    p = SV(dict(a.args.t)) if not rest else SV({_mono_mul(mm, rest): c for mm, c in a.args.t.items()})
                    self.cons.append(v == self.lin(p, g))
                elif a.kind == "sqrt" and e == 2 and first and self.level >= 1:
                    rest = tuple(x for x in m if x[0] != aid)
                    self.cons.append(v == self.lin(a.args * SV({rest: Fraction(1)}), g))
            if len(m) == 1 and m[0][1] == 1 and first:
                a = ATOMS[m[0][0]]
                if a.kind == "floor":
                    x = self.lin(a.args, g)
                    self.cons += [v <= x, x < v + 1]
                elif a.kind == "sqrt":
                    pass
            if self.mccormick and continue_mc and first and (len(m) > 1 or (m and abs(m[0][1]) > 1)):
                self.mcc(m, v, g)
        if self.level >= 1:
            self.products()
            self.fn_lemmas()
            self.ipow_lemmas()
        # fn_lemmas / products may have introduced monomials: bounds only, no closure needed
        # for soundness of `unsat`

    def ipow_lemmas(self):
        groups = {}
        for m in list(self.mv):
            if len(m) == 1 and m[0][1] >= 2 and ATOMS[m[0][0]].lo >= 0:
                groups.setdefault(m[0][1], []).append(m)
        for e, ms in groups.items():
            for i, m in enumerate(ms[:14]):
                a = self.avar(m[0][0])
                v = self.mv[m]
                hi = ATOMS[m[0][0]].hi
                if hi == INF or hi > 1:
                    self.cons += [z3.Implies(a >= 1, v >= a)]
                self.cons += [z3.Implies(a <= 1, v <= a), v >= e * a - (e - 1)]
                for n in ms[i + 1:14]:
                    b, w = self.avar(n[0][0]), self.mv[n]
                    self.cons += [z3.Implies(a < b, v < w), z3.Implies(a > b, v > w), z3.Implies(a == b, v == w)]

    def mcc(self, m, v, g):
        if sum(abs(e) for _, e in m) > 6:
            return
        n = 0
        for aid, e in m:
            a = ATOMS[aid]
            if e > 0:
                s = 1
            else:
                s = -1
            rest = tuple((x, y - s) if x == aid else (x, y) for x, y in m if not (x == aid and y == s))
            if not rest:
                continue
            f = ((aid, s),)
            lx, hx = mono_iv(f)
            ly, hy = mono_iv(rest)
            if INF in (hx, hy) and -INF in (lx, ly):
                continue
            if rest not in self.mv and len(self.mv) > self.limit // 2:
                continue
            x = self.mvar(f, g + 1)
            y = self.mvar(rest, g + 1)
            if lx != -INF and ly != -INF:
                self.cons.append(v >= q(lx) * y + q(ly) * x - q(lx * ly))
            if hx != INF and hy != INF:
                self.cons.append(v >= q(hx) * y + q(hy) * x - q(hx * hy))
            if hx != INF and ly != -INF:
                self.cons.append(v <= q(hx) * y + q(ly) * x - q(hx * ly))
            if lx != -INF and hy != INF:
                self.cons.append(v <= q(lx) * y + q(hy) * x - q(lx * hy))
            n += 1
            if n >= 3:
                break

    def products(self):
        """sign products: literal p<0 times a positive cofactor monomial already in play"""
        monos = set(self.mv)
        monos.add(())
        index = {}
        added = 0
        for r in list(self.rels):
            p = r.args.sv
            terms = list(p.t)
            if len(terms) > 12 or () in p.t and len(terms) == 1:
                continue
            # cofactors from the most specific term
            t0 = max(terms, key=len)
            if not t0:
                continue
            cands = set()
            ids = [x[0] for x in t0]
            for m in monos:
                md = dict(m)
                if all(i in md for i in ids):
                    c = _mono_mul(m, tuple((a, -e) for a, e in t0))
                    if c and len(c) < 5:
                        cands.add(c)
            for c in cands:
                if c in ((),):
                    continue
                prod = [_mono_mul(t, c) for t in terms]
                if not all(pm in monos for pm in prod):
                    continue
                lo, hi = mono_iv(c)
                if not (lo >= 0 or hi <= 0):
                    continue
                e = self.lin(SV({pm: p.t[t] for pm, t in zip(prod, terms)}), 3)
                rz = self.b(r)
                if r.op == "==":
                    self.cons.append(z3.Implies(rz, e == 0))
                elif lo >= 0:
                    self.cons.append(z3.Implies(rz, e <= 0))
                    self.cons.append(z3.Implies(z3.Not(rz), e >= 0))
                else:
                    self.cons.append(z3.Implies(rz, e >= 0))
                    self.cons.append(z3.Implies(z3.Not(rz), e <= 0))
                added += 1
                if added > 1500:
                    return


class NRA(Enc):
    def __init__(self, fix=None):
        super().__init__()
        self.fix = fix or {}
        self.todo = []

    def new_atom(self, aid):
        self.todo.append(aid)

    def lin(self, sv, g=0):
        ts = []
        for m, c in sv.t.items():
            num = [q(c)] if c != 1 or not m else []
            den = []
            for aid, e in m:
                v = self.avar(aid)
                (num if e > 0 else den).extend([v] * abs(e))
            if den:
                # atoms with negative exponents are non-zero: introduce their reciprocal
                for d in den:
                    num.append(self.recip_var(d))
            ex = num[0]
            for z in num[1:]:
                ex = ex * z
            ts.append(ex)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def recip_var(self, d):
        k = ("r", d.get_id())
        v = self.avars.get(k)
        if v is None:
            v = z3.Real("r%d" % d.get_id())
            self.avars[k] = v
            self.cons.append(v * d == 1)
        return v

    def close(self):
        while self.todo:
            aid = self.todo.pop()
            a = ATOMS[aid]
            v = self.avars[aid]
            if a.kind == "var":
                if a.name in self.fix:
                    self.cons.append(v == q(V.frac(self.fix[a.name])))
            elif a.kind == "ite":
                c, x, y = a.args
                cz = self.b(c)
                self.cons.append(z3.Implies(cz, v == self.lin(x)))
                self.cons.append(z3.Implies(z3.Not(cz), v == self.lin(y)))
            elif a.kind == "inv":
                self.cons.append(v * self.lin(a.args) == 1)
            elif a.kind == "def":
                self.cons.append(v == self.lin(a.args))
            elif a.kind == "sqrt":
                self.cons.append(v * v == self.lin(a.args))
                self.cons.append(v >= 0)
            elif a.kind == "floor":
                x = self.lin(a.args)
                self.cons += [v <= x, x < v + 1]
            elif a.kind == "pow":
                c = a.args[1]
                if c.denominator <= 4 and abs(c.numerator) <= 6 and c > 0:
                    # v^den == base^num
                    x = self.lin(a.args[0])
                    lhs, rhs = v, x
                    for _ in range(c.denominator - 1):
                        lhs = lhs * v
                    for _ in range(c.numerator - 1):
                        rhs = rhs * x
                    self.cons += [lhs == rhs, v >= 0]
                else:
                    self.lin(a.args[0])
            elif a.kind in ("exp", "log"):
                self.lin(a.args)
        n = len(self.avars)
        self.fn_lemmas()
        if self.todo:
            self.close()


# ------------------------------------------------------------------
def base_vars(facts):
    """names of base variables reachable from the facts"""
    names, seen_a, seen_b = {}, set(), set()
    st = [f for f in facts if isinstance(f, SB)]
    sts = []
    while st or sts:
        if st:
            b = st.pop()
            if isinstance(b, bool) or b.id in seen_b:
                continue
            seen_b.add(b.id)
            if b.op in ("<", "=="):
                sts.append(b.args.sv)
            elif b.op == "not":
                st.append(b.args)
            elif b.op == "and":
                st.extend(b.args)
            continue
        s = sts.pop()
        for m in s.t:
            for aid, _ in m:
                if aid in seen_a:
                    continue
                seen_a.add(aid)
                a = ATOMS[aid]
                if a.kind == "var":
                    names[a.name] = a
                elif a.kind == "ite":
                    st.append(a.args[0])
                    sts.extend(a.args[1:])
                elif a.kind == "pow":
                    sts.append(a.args[0])
                else:
                    sts.append(a.args)
    return names


def _val(model, zv):
    r = model.eval(zv, model_completion=True)
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_int_value(r):
        return Fraction(r.as_long())
    if z3.is_algebraic_value(r):
        ap = r.approx(30)
        return Fraction(ap.numerator_as_long(), ap.denominator_as_long())
    return None


def _assignment(enc, model, names):
    out = {}
    for n, a in names.items():
        zv = enc.avars.get(a.id)
        if zv is not None:
            v = _val(model, zv)
            if v is not None:
                out[n] = v
                continue
        lo, hi = a.lo, a.hi
        if lo != -INF and hi != INF:
            out[n] = (lo + hi) / 2
        elif lo != -INF:
            out[n] = lo
        elif hi != INF:
            out[n] = hi
        else:
            out[n] = Fraction(0)
        if a.integer:
            out[n] = Fraction(int(out[n]))
    return out


def holds(facts, assign, bools=None):
    ev = Evaluator(assign, bools)
    try:
        return all(ev.b(f) for f in facts)
    except (ZeroDivisionError, ValueError, OverflowError):
        return False


def guarded(fn, timeout):
    """run fn in a forked child with a hard time limit (z3 does not always honour its own)"""
    import os, pickle, select, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import sys
            sys.setprofile(None)
            os.close(r)
            signal.alarm(int(timeout) + 2)
            data = pickle.dumps(fn())
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    try:
        while True:
            left = end - time.time()
            if left <= 0:
                break
            if not select.select([r], [], [], left)[0]:
                break
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return None


def la_check(facts, timeout=5000, levels=(0, 1, 2), limit=LIMIT_MONOS, names=None):
    """levels are tried in turn; each is a sound over-approximation, so `unsat` at any is a proof.
    Returns (verdict, assignment or None, booleans)."""
    r = ("unknown", None, None)
    for lv in levels:
        STATS["la%d" % lv] = STATS.get("la%d" % lv, 0) + 1
        if lv == 0:
            r = _la_level(facts, timeout, lv, limit, names)
        else:
            r = guarded(lambda: _la_level(facts, timeout, lv, limit, names), timeout / 1000 * 1.5 + 1) or ("unknown", None, None)
        if r[0] == "unsat":
            return r
    return r


def _la_level(facts, timeout, level, limit, names):
    enc = LA(level, limit)
    fz = [enc.b(f) for f in facts]
    enc.close()
    s = z3.SimpleSolver()
    s.set("timeout", timeout)
    s.add(*enc.cons)
    s.add(*fz)
    r = s.check()
    asg = bools = None
    if r == z3.sat and names is not None:
        m = s.model()
        asg = _assignment(enc, m, names)
        bools = {n: z3.is_true(m.eval(z3.Bool("b_" + n), model_completion=True)) for n in _bvars(facts)}
    return str(r), asg, bools


def feasible(facts, timeout=2000, want=None):
    """False only if the facts are certainly contradictory; `want` receives a candidate model."""
    t = time.time()
    STATS["feas"] += 1
    try:
        for f in facts:
            if f is False:
                return False
        facts = [f for f in facts if f is not True]
        if not facts:
            return True
        r, asg, _ = la_check(facts, timeout, (0,))
        if r != "unsat":
            r, asg, _ = la_check(facts, timeout, (2,), FEAS_MONOS, base_vars(facts) if want else None)
        if asg is not None and want is not None:
            want(asg)
        return r != "unsat"
    finally:
        STATS["feas_time"] += time.time() - t


class Result:
    def __init__(self, status, assign=None, how="", bools=None):
        self.status, self.assign, self.how, self.bools = status, assign, how, bools


def _loss(p, f, want=True):
    """how far (0 = satisfied) a sample point is from a fact"""
    if isinstance(f, bool):
        return 0.0 if f == want else 1.0
    if f.op == "not":
        return _loss(p, f.args, not want)
    if f.op == "and":
        ls = [_loss(p, x, want) for x in f.args]
        return sum(ls) if want else min(ls)
    if f.op in ("<", "=="):
        sv = f.args.sv
        v = p.sv(sv)
        if f.op == "<":
            if (v < 0) == want:
                return 0.0
        elif (v == 0) == want:
            return 0.0
        sc = 1e-300
        for m, c in sv.t.items():
            x = abs(c.numerator / c.denominator)
            for aid, e in m:
                x *= abs(p.atom(ATOMS[aid])) ** e
            sc += x
        return 1e-9 + abs(v) / sc
    return 0.0 if p.b(f) == want else 0.5


def _plain(f):
    """a fact about input variables only: cheap to evaluate"""
    if isinstance(f, bool) or f.op == "bvar":
        return True
    if f.op == "not":
        return _plain(f.args)
    if f.op == "and":
        return all(_plain(x) for x in f.args)
    if f.op in ("<", "=="):
        return all(ATOMS[aid].kind == "var" for m in f.args.sv.t for aid, e in m)
    return False


def search(facts, start, rnd, limit=4.0):
    """local search for an input satisfying the facts, from the given sample points (floats)"""
    t0 = time.time()
    facts = [f for f in facts if f is not True]
    cheap = [f for f in facts if _plain(f)]
    rest = [f for f in facts if not _plain(f)]

    def score(p):
        try:
            s = sum(_loss(p, f) for f in cheap)
            return 1000 + s if s else sum(_loss(p, f) for f in rest)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            return 1e9
    pop = sorted(((score(p), i, p) for i, p in enumerate(start)), key=lambda x: x[:2])[:8]
    k = len(start)
    while pop and time.time() - t0 < limit:
        if pop[0][0] == 0:
            return pop[0][2]
        _, _, p = pop[0] if rnd.random() < 0.5 else rnd.choice(pop)
        q2 = p.mutate(rnd.choice((0.05, 0.15, 0.4))) if rnd.random() < 0.9 else V.FEval(rnd)
        k += 1
        pop.append((score(q2), k, q2))
        pop.sort(key=lambda x: x[:2])
        del pop[8:]
    return pop[0][2] if pop and pop[0][0] == 0 else None


def solve(facts, la_timeout=20000, nra_timeout=15000, want_model=True, fix_rounds=4, seed=1, seeds=()):
    """status in unsat / sat (with exact assignment of base variables) / unknown"""
    t0 = time.time()
    STATS["queries"] += 1
    try:
        fs = []
        for f in facts:
            if f is False:
                STATS["la_unsat"] += 1
                return Result("unsat", how="syntactic")
            if f is not True:
                fs.append(f)
        names = base_vars(fs)
        r, las, bools = la_check(fs, la_timeout, names=names)
        if r == "unsat":
            STATS["la_unsat"] += 1
            return Result("unsat", how="linear abstraction")
        if las is not None:
            if holds(fs, las, bools):
                STATS["sat"] += 1
                return Result("sat", las, "linear abstraction model", bools)
        for sd in seeds:
            if holds(fs, sd):
                STATS["sat"] += 1
                return Result("sat", dict(sd), "seed")
        # exact non-linear
        r2 = _nra(fs, names, {}, nra_timeout)
        if r2.status != "unknown":
            STATS["nra_unsat" if r2.status == "unsat" else "sat"] += 1
            return r2
        # counterexample search with part of the inputs fixed
        import random
        rnd = random.Random(seed)
        nl = list(names)
        for k in range(fix_rounds):
            frac_fix = (0.3, 0.5, 0.7, 0.85)[k % 4]
            fix = {}
            for n in nl:
                if rnd.random() < frac_fix:
                    a = names[n]
                    base = las.get(n) if (las and rnd.random() < 0.4) else None
                    if base is None:
                        base = _rnd(a, rnd)
                    fix[n] = base
            r3 = _nra(fs, names, fix, max(2000, nra_timeout // 4))
            if r3.status == "sat":
                STATS["sat"] += 1
                return r3
        STATS["unknown"] += 1
        return Result("unknown")
    finally:
        STATS["time"] += time.time() - t0


def _bvars(facts):
    out, seen = set(), set()
    st = list(facts)
    while st:
        b = st.pop()
        if isinstance(b, bool) or b.id in seen:
            continue
        seen.add(b.id)
        if b.op == "bvar":
            out.add(b.args)
        elif b.op == "not":
            st.append(b.args)
        elif b.op == "and":
            st.extend(b.args)
    return out


def _rnd(a, rnd):
    lo, hi = a.lo, a.hi
    if lo == -INF and hi == INF:
        v = Fraction(rnd.randint(-10, 10))
    elif lo == -INF:
        v = hi - rnd.randint(0, 10)
    elif hi == INF:
        v = lo + rnd.randint(0, 10)
    else:
        v = lo + (hi - lo) * Fraction(rnd.randint(0, 16), 16)
    return Fraction(round(v)) if a.integer else v


def _nra(fs, names, fix, timeout):
    r = guarded(lambda: _nra_run(fs, names, fix, timeout), timeout / 1000 * 1.3 + 2)
    if r is None:
        return Result("unknown")
    return Result(*r)


def _nra_run(fs, names, fix, timeout):
    r = _nra_in(fs, names, fix, timeout)
    return r.status, r.assign, r.how, r.bools


def _nra_in(fs, names, fix, timeout):
    enc = NRA(fix)
    fz = [enc.b(f) for f in fs]
    enc.close()
    approx = any(ATOMS[k].kind in ("pow", "exp", "log") for k in enc.avars if isinstance(k, int))
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*enc.cons)
    s.add(*fz)
    r = s.check()
    if r == z3.unsat:
        return Result("unsat", how="NRA")
    if r == z3.sat:
        m = s.model()
        asg = _assignment(enc, m, names)
        asg.update({k: V.frac(v) for k, v in fix.items() if k in names})
        bools = {n: z3.is_true(m.eval(z3.Bool("b_" + n), model_completion=True)) for n in _bvars(fs)}
        if holds(fs, asg, bools):
            return Result("sat", asg, "NRA", bools)
        # equalities under algebraic numbers are only approximately met
        return Result("unknown", asg, "NRA model not exact" + (" (transcendental)" if approx else ""))
    return Result("unknown")
