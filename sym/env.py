"""What a harness sees.  The same harness code runs symbolically (SymEnv) and against the
real torch build (ConcEnv, in conc.py)."""
import copy
import re
import sys
import time
from fractions import Fraction
from . import val as V
from .val import SV, SB, Unsupported, band, bor, bnot, bimplies, ite, to_sv, to_b, rel
from . import tshim as TS
from . import nshim as NS
from . import solve as S
from .explore import Explorer, PathAbort, Budget
from .loader import Loader, VFS, TOKENS


class Cond:
    """a property-level condition with a tolerance multiplier k (0 = exact)"""
    __slots__ = ("f", "memo")

    def __init__(self, f):
        self.f = f
        self.memo = {}

    def at(self, k):
        r = self.memo.get(k)
        if r is None:
            r = to_b(self.f(k))
            self.memo[k] = r
        return r


def _cond(c):
    if isinstance(c, Cond):
        return c
    c = to_b(_unw(c))
    return Cond(lambda k: c)


def _unw(x):
    if isinstance(x, (TS.Tensor, NS.NArr)):
        return x.item()
    return x


class SymEnv:
    symbolic = True

    def __init__(self, ex, opts):
        self.ex = ex
        self.opts = opts
        self.obs = []
        self.queries = []
        self.vfs = VFS()
        self._ext = {}
        self._loader = None
        self.checked = {}
        self.cands = []
        self.unknowns = []
        self.stats = dict(checks=0, syntactic=0, unsat_la=0, unsat_nra=0)
        self.labels = set()
        self.cache = {}

    def new_path(self):
        self.obs = []
        self.vfs = VFS()
        self._ext = {}
        self._loader = None
        TOKENS.clear()
        V.FMT.clear()
        TS.HOOKS.clear()
        TS._default[0] = TS.float32

    # ---- modules
    def stub_module(self, name, obj):
        self._ext[name] = obj

    @property
    def loader(self):
        if self._loader is None:
            self._loader = Loader(vfs=self.vfs, ext=self._ext)
        return self._loader

    def mod(self, name):
        return self.loader.load(name)

    @property
    def torch(self):
        return self.loader.torch

    @property
    def np(self):
        return self.loader.np

    # ---- inputs
    def real(self, name, lo, hi):
        return V.new_var(name, lo, hi)

    def int(self, name, lo, hi):
        return V.new_var(name, lo, hi, integer=True)

    def bool(self, name):
        return bool(V.new_var(name, 0, 1, integer=True) > Fraction(1, 2))

    def choice(self, name, opts):
        """symbolic choice, concretised by branching"""
        k = V.concretise_int(V.new_var(name, 0, len(opts) - 1, integer=True))
        return opts[k]

    def tensor(self, name, shape, lo, hi):
        import itertools
        a = TS.obj(tuple(shape))
        for ix in itertools.product(*[range(n) for n in shape]):
            a[ix] = V.new_var("%s[%s]" % (name, ",".join(map(str, ix))), lo, hi)
        return TS.Tensor(a, TS._default[0])

    def tensor_of(self, vals, shape=None):
        t = TS.from_any(vals, TS._default[0])
        return t if shape is None else t.reshape(shape)

    def token(self, name, lo, hi):
        """an integer that appears inside a file name"""
        v = V.new_var(name, lo, hi, integer=True)
        s = "9%05d" % (len(TOKENS) * 37 % 1000 + 1)
        while s in TOKENS:
            s = "9%05d" % (int(s[1:]) + 1)
        TOKENS[s] = v
        return s

    def untoken(self, s):
        return TOKENS[s]

    def nparr(self, vals):
        return NS.np_asarray(list(vals))

    def vfile(self, name, obj):
        p = "/vfs/" + name
        self.vfs.files[p] = obj
        return p

    def vdir(self, name, files):
        p = "/vfs/" + name
        self.vfs.dirs[p] = list(files)
        return p

    def out_path(self, name):
        return "/vfs/out/" + name

    def vjson(self, path):
        return self.vfs.files.get(str(path))

    def touch(self, path):
        """a file appears at this path"""
        d, b = str(path).rpartition("/")[::2]
        fs = self.vfs.dirs.setdefault(d, [])
        if b not in fs:
            fs.append(b)

    def text(self, suffix):
        """what was written to the text file whose path ends so"""
        for p, parts in self.vfs.written.items():
            if p.endswith(suffix):
                return "".join(parts)
        return None

    def number(self, s):
        """the value printed as this text"""
        m = re.fullmatch(r"<sym:(\d+)>", s.strip())
        return V.FMT[int(m.group(1))] if m else to_sv(Fraction(s.strip()))

    def outputs(self):
        return NS.OUTPUTS

    # ---- scalars
    def val(self, x):
        x = _unw(x)
        return x if isinstance(x, (SV, SB)) else (to_sv(x) if not isinstance(x, (bool, str)) else x)

    def vals(self, t):
        if isinstance(t, TS.Tensor):
            return [self.val(x) for x in t.a.reshape(-1)]
        return [self.val(x) for x in TS.np.asarray(t, dtype=object).reshape(-1)]

    def shape(self, t):
        return tuple(int(x) for x in t.shape)

    def ite(self, c, a, b):
        return ite(c.at(0) if isinstance(c, Cond) else c, self.val(a), self.val(b))

    def min(self, *a):
        r = self.val(a[0])
        for x in a[1:]:
            r = V.smin(r, self.val(x))
        return r

    def max(self, *a):
        r = self.val(a[0])
        for x in a[1:]:
            r = V.smax(r, self.val(x))
        return r

    def abs(self, a):
        return V.sabs(self.val(a))

    def sum(self, xs):
        r = V.ZERO
        for x in xs:
            r = r + self.val(x)
        return r

    def pow(self, a, e):
        return self.val(a) ** e

    def floor(self, a):
        return V.floor(self.val(a))

    # ---- conditions
    def le(self, a, b, tol):
        a, b = self.val(a), self.val(b)
        return Cond(lambda k: a <= b + to_sv(tol) * k)

    def ge(self, a, b, tol):
        return self.le(b, a, tol)

    def eq(self, a, b, tol):
        a, b = self.val(a), self.val(b)

        def f(k):
            if k == 0:
                return a == b
            d = a - b
            t = to_sv(tol) * k
            return band(d <= t, -d <= t)
        return Cond(f)

    def lt(self, a, b):
        return _cond(self.val(a) < self.val(b))

    def gt(self, a, b):
        return _cond(self.val(a) > self.val(b))

    def true(self, b):
        return _cond(b)

    def finite(self, t):
        """no entry is the result of dividing by zero (or of a root or power that does not exist)"""
        c = V.SB_all([V.finite(V.to_sv(x)) for x in self.vals(t)]) if not isinstance(t, (int, float)) else True
        return Cond(lambda k: c)

    def implies(self, a, b):
        a, b = _cond(a), _cond(b)
        return Cond(lambda k: bimplies(a.at(0), b.at(k)))

    def all(self, *cs):
        cs = [_cond(c) for c in (cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs)]
        return Cond(lambda k: band(*[c.at(k) for c in cs]))

    def any(self, *cs):
        cs = [_cond(c) for c in (cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs)]
        return Cond(lambda k: bor(*[c.at(k) for c in cs]))

    def not_(self, c):
        c = _cond(c)
        return Cond(lambda k: bnot(c.at(0)))

    def iff(self, a, b):
        a, b = _cond(a), _cond(b)
        return Cond(lambda k: bnot(a.at(0) ^ b.at(0)) if isinstance(a.at(0), SB) else (b.at(0) if a.at(0) else bnot(b.at(0))))

    def decide(self, c):
        """branch the exploration on a condition"""
        c = _cond(c).at(0)
        return c if isinstance(c, bool) else bool(c)

    def assume(self, c):
        c = _cond(c).at(0)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        ex = self.ex
        if ex.decided(c) is True:
            return
        if not ex.feasible(c):
            raise PathAbort()
        ex.add(c)

    def observe(self, label, x):
        if hasattr(x, "shape") or isinstance(x, (list, tuple)):
            vs = self.vals(x) if hasattr(x, "shape") else [self.val(y) for y in x]
            for i, v in enumerate(vs):
                self.obs.append(("%s[%d]" % (label, i), v))
        else:
            self.obs.append((label, self.val(x)))

    def check(self, label, c):
        c = _cond(c)
        self.labels.add(label)
        self.stats["checks"] += 1
        e = c.at(0)
        if e is True or self.ex.decided(e) is True:
            self.stats["syntactic"] += 1
            return
        key = (label, tuple(x.id for x in self.ex.pc), e.id if isinstance(e, SB) else e)
        if key in self.cache:
            return
        self.cache[key] = True
        if label in self.opts.get("give_up", ()) or sum(1 for x in self.cands if x["label"] == label) >= 3:
            return
        pc = self.ex.pc
        loose = c.at(1)
        if loose is not True:
            # a sample point of this path that violates the obligation is a counterexample candidate
            neg = bnot(c.at(3))
            for p in self.ex.alive:
                if p.safe(neg) is True:
                    asg = {k: Fraction(v) for k, v in p.assign.items() if not k.startswith("b_")}
                    bl = {k[2:]: v for k, v in p.assign.items() if k.startswith("b_")}
                    if S.holds(pc + [bnot(loose)], asg, bl):
                        strong = bnot(c.at(1000))
                        for p2 in self.ex.alive:
                            if p2.safe(strong) is True:
                                self.cands.append(dict(label=label, assign={k: Fraction(v) for k, v in p2.assign.items() if not k.startswith("b_")}, bools=None))
                                break
                        self.cands.append(dict(label=label, assign=asg, bools=bl))
                        return
        if e is not False:
            S.STATS["queries"] += 1
            for goal in (e, loose):
                if goal is not True and S.la_check(pc + [bnot(goal)], self.opts.get("la_exact", 8000), (0,))[0] == "unsat":
                    S.STATS["la_unsat"] += 1
                    self.stats["unsat_la"] += 1
                    return
        if loose is True:
            self.stats["syntactic"] += 1
            return
        # cheap attempts before looking for a counterexample
        for g in ([e] if e is not False else []) + [loose]:
            if S.la_check(pc + [bnot(g)], 700, (1,))[0] == "unsat":
                S.STATS["la_unsat"] += 1
                self.stats["unsat_la"] += 1
                return
            if not self.opts.get("no_quick_nra") and S._nra(pc + [bnot(g)], {}, {}, 500).status == "unsat":
                S.STATS["nra_unsat"] += 1
                self.stats["unsat_nra"] += 1
                return
        k3 = c.at(3)
        p = S.search(pc + [bnot(k3)], self.ex.alive + self.ex.pool[:30], self.ex.rnd, self.opts.get("search", 1.5)) if k3 is not True else None
        if p is not None:
            asg = {k: Fraction(v) for k, v in p.assign.items() if not k.startswith("b_")}
            bl = {k[2:]: v for k, v in p.assign.items() if k.startswith("b_")}
            if S.holds(pc + [bnot(loose)], asg, bl):
                p2 = S.search(pc + [bnot(c.at(1000))], [p], self.ex.rnd, 1.0)
                if p2 is not None:
                    self.cands.append(dict(label=label, assign={k: Fraction(v) for k, v in p2.assign.items() if not k.startswith("b_")}, bools=None))
                self.cands.append(dict(label=label, assign=asg, bools=bl))
                return
        if e is not False and S.la_check(pc + [bnot(e)], self.opts.get("la_exact", 8000), (1, 2))[0] == "unsat":
            S.STATS["la_unsat"] += 1
            self.stats["unsat_la"] += 1
            return
        res = S.solve(pc + [bnot(loose)], la_timeout=self.opts.get("la_timeout", 20000),
                      nra_timeout=self.opts.get("nra_timeout", 15000), seeds=self.opts.get("seeds", ()))
        if res.status == "unsat":
            self.stats["unsat_nra" if res.how == "NRA" else "unsat_la"] += 1
            return
        if res.status == "sat":
            cand = dict(label=label, assign=res.assign, bools=res.bools)
            strong = None
            for k in (1000, 30):
                sb = c.at(k)
                if sb is loose:
                    break
                r2 = S.solve(pc + [bnot(sb)], la_timeout=4000, nra_timeout=3000, fix_rounds=1)
                if r2.status == "sat":
                    strong = r2.assign
                    break
            if strong is not None:
                self.cands.append(dict(label=label, assign=strong, bools=None))
            self.cands.append(cand)
            return
        if res.assign is not None:
            self.cands.append(dict(label=label, assign=res.assign, bools=res.bools, weak=True))
        self.unknowns.append(label)

    def raises(self, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except excs:
            return True
        return False

    def copy(self, x):
        return copy.deepcopy(x)


def run_case(mod, case, tier, seed):
    """explore one case; returns a plain dict"""
    import random
    V.reset()
    opts = dict(getattr(mod, "OPTS", {}))
    opts.update(case.get("opts", {}))
    if tier == "thorough":
        opts.setdefault("thorough", True)
        opts["la_timeout"] = opts.get("la_timeout", 20000) * 4
        opts["nra_timeout"] = opts.get("nra_timeout", 15000) * 4
    t0 = time.time()
    limit = opts.get("time", 300) * (4 if tier == "thorough" else 1)
    ex = Explorer(max_paths=opts.get("max_paths", 400), feas_timeout=opts.get("feas_timeout", 1500), deadline=t0 + limit)
    env = SymEnv(ex, opts)
    funcs = {}
    paths = []
    out = dict(case=case["name"], error=None, exc=[])
    src_prefix = Loader(vfs=env.vfs).src

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(src_prefix):
                q = fn[len(src_prefix) + 1:] + ":" + co.co_qualname
                funcs[q] = funcs.get(q, 0) + 1

    def body():
        env.new_path()
        NS.OUTPUTS.clear()
        sys.setprofile(prof)
        try:
            mod.run(env, case)
            exc = None
        except Exception as e:
            import traceback
            exc = e
            tb = traceback.extract_tb(e.__traceback__)
            last = [f for f in tb if f.filename.startswith(src_prefix)]
            where = "%s:%s" % (last[-1].filename[len(src_prefix) + 1:], last[-1].lineno) if last else "harness %s:%s" % (tb[-1].filename, tb[-1].lineno)
        finally:
            sys.setprofile(None)
        if exc is not None:
            msg = "%s: %s" % (type(exc).__name__, exc)
            out["exc"].append(dict(msg=msg[:300], where=where, inrepo=bool(last), tb="".join(__import__("traceback").format_exception(exc))[-3000:]))
            if sum(1 for x in env.cands if x["label"].startswith("exception")) < 4:
                r = S.solve(list(ex.pc), la_timeout=10000, nra_timeout=8000)
                if r.status == "unsat":
                    return
                if r.assign is not None:
                    env.cands.append(dict(label="exception:" + type(exc).__name__, assign=r.assign, bools=r.bools, weak=r.status != "sat"))
                if r.status == "unknown":
                    env.unknowns.append("exception:" + type(exc).__name__)
            return
        paths.append((list(ex.pc), list(env.obs), ex.path_divzero, [p.assign for p in ex.alive[:6]]))

    try:
        ex.run(body)
    except Budget as e:
        out["error"] = "budget: %s" % e
    except Unsupported as e:
        import traceback
        tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(src_prefix)]
        out["error"] = "unsupported: %s at %s" % (e, ["%s:%s" % (f.filename[len(src_prefix) + 1:], f.lineno) for f in tb[-3:]])
        out["tb"] = traceback.format_exc()[-3000:]
    # witnesses: concrete inputs for explored paths
    wit = []
    if not env.cands:
        rnd = random.Random(seed)
        k = opts.get("samples", 4) * (3 if tier == "thorough" else 1)
        order = list(range(len(paths)))
        rnd.shuffle(order)
        order.sort(key=lambda i: not paths[i][3])           # paths with sample points first
        tw = time.time()
        for i in order:
            if len(wit) >= k or time.time() - tw > opts.get("wit_time", 20) * (1 if wit else 3):
                break
            pc, obs, dz, pts = paths[i]
            names = S.base_vars([SBwrap(o[1]) for o in obs] + pc)
            asg = None
            for p in pts:
                a = {n: Fraction(p[n]) if n in p else _rand(at, rnd) for n, at in names.items()}
                if S.holds(pc, a):
                    asg = a
                    break
            for _ in range(6):
                if asg is not None:
                    break
                a = {n: _rand(at, rnd) for n, at in names.items()}
                if S.holds(pc, a):
                    asg = a
                    break
            if asg is None:
                p = S.search(pc, [V.FEval(ex.rnd, q) for q in pts] + ex.pool[:30], ex.rnd, 3.0)
                if p is not None:
                    a = {n: Fraction(p.assign[n]) if n in p.assign else _rand(at, rnd) for n, at in names.items()}
                    if S.holds(pc, a):
                        asg = a
            if asg is None and not wit:
                r = S.solve(pc, la_timeout=4000, nra_timeout=4000, fix_rounds=1)
                if r.status != "sat":
                    continue
                asg = r.assign
                for n, at in names.items():
                    asg.setdefault(n, _mid(at))
            if asg is None:
                continue
            ev = V.Evaluator(asg)
            vals = {}
            for lab, v in obs:
                try:
                    vals[lab] = float(ev.sv(v)) if isinstance(v, SV) else (float(ev.b(v)) if isinstance(v, (SB, bool)) else None)
                except (ZeroDivisionError, ValueError, OverflowError):
                    vals[lab] = None
            wit.append(dict(assign={n: str(x) for n, x in asg.items()}, obs=vals, divzero=dz))
    out.update(paths=ex.paths, aborted=ex.aborted, decisions=ex.decisions, divzero=ex.divzero,
               cands=[dict(label=c["label"], weak=c.get("weak", False), assign={n: str(x) for n, x in c["assign"].items()}) for c in env.cands],
               unknowns=sorted(set(env.unknowns)), stats=env.stats, labels=sorted(env.labels), functions=funcs, witnesses=wit,
               solver=dict(S.STATS), wall=time.time() - t0, vars=len([a for a in V.ATOMS if a.kind == "var"]), known=case.get("known"))
    return out


def SBwrap(v):
    if isinstance(v, SV):
        r = V._mk("<", V.RelArg(v)) if v.t else True
        return r
    return v


def _mid(a):
    if a.lo != -V.INF and a.hi != V.INF:
        m = (a.lo + a.hi) / 2
        return Fraction(int(m)) if a.integer else m
    return a.lo if a.lo != -V.INF else (a.hi if a.hi != V.INF else Fraction(0))


def _rand(a, rnd):
    lo, hi = a.lo, a.hi
    if lo == -V.INF or hi == V.INF:
        return S._rnd(a, rnd)
    u = rnd.random()
    if u < 0.06:
        v = lo
    elif u < 0.12:
        v = hi
    else:
        v = lo + (hi - lo) * Fraction(rnd.randint(0, 1 << 16), 1 << 16)
    return Fraction(round(v)) if a.integer else v
