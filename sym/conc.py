"""Replay of harnesses against the real torch build.  Runs under /opt/venv/bin/python.
Reads JSON lines {case, assign, f64} on stdin, writes one JSON line per request."""
import copy
import importlib
import io
import itertools
import json
import math
import os
import shutil
import sys
import tempfile
import contextlib
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")


class Assumption(BaseException):
    pass


class ConcEnv:
    symbolic = False

    def __init__(self, assign, f64, tmp):
        import torch
        import numpy
        self._t, self._n = torch, numpy
        self.assign = {k: Fraction(v) for k, v in assign.items()}
        self.f64 = f64
        self.tmp = tmp
        self.failed = []
        self.obs = {}
        self._saved = {}
        self._rand = 0
        self._tok = {}
        self._order = {}
        self._outputs = []

    # modules
    def stub_module(self, name, obj):
        self._saved.setdefault(name, sys.modules.get(name))
        sys.modules[name] = obj

    def mod(self, name):
        return importlib.import_module(name)

    @property
    def torch(self):
        return self._t

    @property
    def np(self):
        return self._n

    # inputs
    def _get(self, name, lo, hi):
        v = self.assign.get(name)
        if v is None:
            if abs(lo) != math.inf and abs(hi) != math.inf:
                v = (Fraction(repr(lo) if isinstance(lo, float) else lo) + Fraction(repr(hi) if isinstance(hi, float) else hi)) / 2
            else:
                v = lo if abs(lo) != math.inf else (hi if abs(hi) != math.inf else 0)
        return v

    def real(self, name, lo, hi):
        return float(self._get(name, lo, hi))

    def int(self, name, lo, hi):
        return int(self._get(name, lo, hi))

    def bool(self, name):
        return self._get(name, 0, 1) > Fraction(1, 2)

    def choice(self, name, opts):
        return opts[int(self._get(name, 0, len(opts) - 1))]

    def tensor(self, name, shape, lo, hi):
        t = self._t.zeros(tuple(shape), dtype=self._t.get_default_dtype())
        for ix in itertools.product(*[range(n) for n in shape]):
            t[ix] = float(self._get("%s[%s]" % (name, ",".join(map(str, ix))), lo, hi))
        return t

    def tensor_of(self, vals, shape=None):
        t = self._t.tensor(vals, dtype=self._t.get_default_dtype())
        return t if shape is None else t.reshape(shape)

    def token(self, name, lo, hi):
        v = int(self._get(name, lo, hi))
        self._tok[str(v)] = v
        return str(v)

    def untoken(self, s):
        return int(s)

    def nparr(self, vals):
        return self._n.array([float(x) for x in vals])

    def vfile(self, name, obj):
        p = os.path.join(self.tmp, name)
        with open(p, "w") as f:
            json.dump(obj, f)
        return p

    def vdir(self, name, files):
        p = os.path.join(self.tmp, name)
        os.makedirs(p, exist_ok=True)
        for f in files:
            open(os.path.join(p, f), "w").close()
        self._order[p] = list(files)
        return p

    def touch(self, path):
        os.makedirs(os.path.dirname(str(path)) or ".", exist_ok=True)
        open(str(path), "w").close()

    def text(self, suffix):
        for d, _, fs in os.walk(self.tmp):
            for f in fs:
                if os.path.join(d, f).endswith(suffix):
                    with open(os.path.join(d, f)) as fh:
                        return fh.read()
        return None

    def number(self, s):
        return float(s)

    def out_path(self, name):
        return os.path.join(self.tmp, name)

    def vjson(self, path):
        with open(path) as f:
            return json.load(f)

    def outputs(self):
        return self._outputs

    # scalars
    def val(self, x):
        if isinstance(x, (bool, str)):
            return x
        if hasattr(x, "item"):
            x = x.item()
        return x if isinstance(x, bool) else float(x)

    def vals(self, t):
        if hasattr(t, "detach"):
            t = t.detach().cpu()
            if t.layout != self._t.strided:
                t = t.to_dense()
            return [self.val(x) for x in t.reshape(-1)]
        return [self.val(x) for x in self._n.asarray(t).reshape(-1)]

    def shape(self, t):
        return tuple(t.shape)

    def ite(self, c, a, b):
        return self.val(a) if c else self.val(b)

    def min(self, *a):
        return min(self.val(x) for x in a)

    def max(self, *a):
        return max(self.val(x) for x in a)

    def abs(self, a):
        return abs(self.val(a))

    def sum(self, xs):
        return math.fsum(self.val(x) for x in xs)

    def pow(self, a, e):
        return self.val(a) ** e

    def floor(self, a):
        return math.floor(self.val(a))

    # conditions (tolerance halved: the solver's counterexample exceeds the full one)
    def le(self, a, b, tol):
        return self.val(a) <= self.val(b) + 0.5 * self.val(tol)

    def ge(self, a, b, tol):
        return self.val(b) <= self.val(a) + 0.5 * self.val(tol)

    def eq(self, a, b, tol):
        a, b = self.val(a), self.val(b)
        return a == b or abs(a - b) <= 0.5 * self.val(tol)

    def lt(self, a, b):
        return self.val(a) < self.val(b)

    def gt(self, a, b):
        return self.val(a) > self.val(b)

    def true(self, b):
        return bool(b)

    def finite(self, t):
        return all(math.isfinite(x) for x in self.vals(t))

    def implies(self, a, b):
        return (not a) or bool(b)

    def all(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return all(bool(c) for c in cs)

    def any(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def iff(self, a, b):
        return bool(a) == bool(b)

    def decide(self, c):
        return bool(c)

    def assume(self, c):
        if not c:
            raise Assumption()

    def observe(self, label, x):
        if hasattr(x, "shape") or isinstance(x, (list, tuple)):
            vs = self.vals(x) if hasattr(x, "shape") else [self.val(y) for y in x]
            for i, v in enumerate(vs):
                self.obs["%s[%d]" % (label, i)] = v
        else:
            self.obs[label] = self.val(x)

    def check(self, label, c):
        if not bool(c):
            self.failed.append(label)

    def raises(self, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except excs:
            return True
        return False

    def copy(self, x):
        return copy.deepcopy(x)

    def fresh_rand(self, n):
        out = []
        for _ in range(n):
            out.append(float(self.assign.get("rand@%d" % self._rand, Fraction(1, 2))))
            self._rand += 1
        return out


def run_one(mod, case, assign, f64):
    import torch
    import numpy as np
    tmp = tempfile.mkdtemp(prefix="verif_conc_")
    cwd = os.getcwd()
    env = ConcEnv(assign, f64, tmp)
    old_rand, old_randl = torch.rand, torch.rand_like
    old_savez, old_save = np.savez_compressed, np.savez

    def rnd(*size, **k):
        if len(size) == 1 and isinstance(size[0], (tuple, list, torch.Size)):
            size = tuple(size[0])
        n = 1
        for s in size:
            n *= s
        return torch.tensor(env.fresh_rand(n), dtype=k.get("dtype") or torch.get_default_dtype()).reshape(size)
    torch.rand = rnd
    torch.rand_like = lambda x, **k: rnd(*x.shape, dtype=k.get("dtype") or x.dtype)

    def savez(path, *a, **k):
        env._outputs.append(("npz", str(path), {n: np.array(v) for n, v in k.items()}))
    np.savez_compressed = np.savez = savez
    old_ls, old_sd = os.listdir, os.scandir

    def place(p, n):
        o = env._order.get(os.path.abspath(p) if isinstance(p, str) else p, ())
        return o.index(n) if n in o else len(o)

    class Scan:
        """directory entries in the order the assignment asks for"""
        def __init__(self, p):
            with old_sd(p) as it:
                self.l = iter(sorted(it, key=lambda e: place(p, e.name)))

        def __enter__(self):
            return self.l

        def __exit__(self, *a):
            return False

        def __iter__(self):
            return self.l

        def __next__(self):
            return next(self.l)

        def close(self):
            pass
    reorder = lambda p: isinstance(p, str) and os.path.abspath(p) in env._order
    os.listdir = lambda p=".": sorted(old_ls(p), key=lambda n: place(p, n)) if reorder(p) else old_ls(p)
    os.scandir = lambda p=".": Scan(p) if reorder(p) else old_sd(p)
    before = set(sys.modules)
    exc = None
    assumption = False
    torch.set_default_dtype(torch.float64 if f64 else torch.float32)
    for n in [n for n in sys.modules if (getattr(sys.modules[n], "__file__", None) or "").startswith(SRC)]:
        del sys.modules[n]
    try:
        os.chdir(tmp)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            mod.run(env, case)
    except Assumption:
        assumption = True
    except Exception as e:
        import traceback
        exc = "%s: %s" % (type(e).__name__, str(e)[:300])
        env.tb = traceback.format_exc()[-2500:]
    finally:
        os.listdir, os.scandir = old_ls, old_sd
        os.chdir(cwd)
        torch.rand, torch.rand_like = old_rand, old_randl
        np.savez_compressed, np.savez = old_savez, old_save
        torch.set_default_dtype(torch.float32)
        for n, m in env._saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        shutil.rmtree(tmp, ignore_errors=True)
    obs = {}
    for k, v in env.obs.items():
        obs[k] = v if isinstance(v, (int, float, bool)) and v == v and abs(v) != math.inf else repr(v)
    return dict(failed=env.failed, obs=obs, exc=exc, tb=getattr(env, "tb", None), assumption=assumption)


def main():
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)
    import torch
    torch.set_num_threads(1)
    mod = importlib.import_module("harness." + sys.argv[1].lower())
    out = sys.stdout
    cases = {c["name"]: c for t in ("quick", "thorough") for c in mod.cases(t)}
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        rq = json.loads(line)
        r = run_one(mod, cases[rq["case"]], rq["assign"], rq.get("f64", False))
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
