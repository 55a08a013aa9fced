"""A failed fully implicit step rolls back and is reported as failed."""
from .common import *

PROPERTY = "C26"
BOUNDS = "grids of 1 and 2 cells, one to four attempts (thorough six), every sequence of Newton verdicts, every trial state an attempt leaves behind, reduction factors from 1.5 to 10, one or two steps in a row; every verdict of the linear solve inside one Newton step"
ASSUMPTIONS = ["the Newton iteration is replaced by one with an arbitrary verdict that leaves arbitrary pressures and saturations behind; in the other cases it is the real one, with the assembly and line search residuals replaced by arbitrary ones",
               "no free gas (the fully implicit scheme is oil and water)"]
OPTS = dict(time=150, max_paths=600)


def cases(tier):
    out = [dict(name="attempts_%d" % n, n=n, dims=(1, 1, 1) if n > 2 else (2, 1, 1)) for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6))]
    out += [dict(name="defaults", n=None, dims=(1, 1, 1)), dict(name="two_steps", n=2, dims=(1, 1, 1), again=True)]
    out += [dict(name="newton_%d" % k, kind="newton", iters=k, dims=(1, 1, 1)) for k in ((1, 2) if tier == "quick" else (1, 2, 3))]
    return out


def state(env, fl):
    return [env.vals(x) for x in (fl.pressure, fl.s_w, fl.s_o)]


def same(env, what, a, b):
    env.check(what, env.all([env.eq(x / 1e6, y / 1e6, 1e-6) for x, y in zip(a[0], b[0])] + [env.eq(x, y, 1e-6) for i in (1, 2) for x, y in zip(a[i], b[i])]))


class Newton:
    def __init__(self, env, sim, dims, both=True):
        self.both = both
        self.env, self.sim, self.dims = env, sim, dims
        self.dts, self.starts, self.t = [], [], 0
        self.verdicts = []
        sim._fully_implicit_newton_step = self.step

    def step(self, dt, *a, **k):
        e, f = self.env, self.sim.fluid
        t = self.t
        self.t += 1
        self.dts.append(dt)
        self.starts.append(state(e, f))
        P, S = e.tensor("p%d" % t, self.dims, 1e5, 1e8), e.tensor("s%d" % t, self.dims, 0.2, 0.8)
        # the iteration may work in place or put new fields
        if self.both and e.bool("inplace%d" % t):
            f.pressure.copy_(P)
            f.s_w.copy_(S)
        else:
            f.pressure, f.s_w = P, S
        f.s_o = 1.0 - f.s_w
        ok = e.bool("ok%d" % t)
        self.verdicts.append(ok)
        return ok, 3


def run(env, case):
    dims = case["dims"]
    res = make_reservoir(env, dims)
    fl = make_fluid(env, res)
    if case.get("kind") == "newton":
        return newton(env, case, res, fl)
    par, red, n = {}, 2.0, 5
    if case["n"]:
        n, red = case["n"], env.choice("factor", [1.5, 2.0, 4.0, 10.0]) if case["n"] < 4 else 3.0
        par = dict(max_time_step_attempts=n, dt_reduction_factor=red)
    sim = make_sim(env, res, fl, solver_type="fully_implicit", **par)
    P, S = env.tensor("P", dims, 1e5, 1e8), env.tensor("S", dims, 0.2, 0.8)
    fl.pressure, fl.s_w = P, S
    fl.s_o = 1.0 - fl.s_w
    fl.prev_pressure, fl.prev_sw = fl.pressure.clone(), fl.s_w.clone()
    newt = Newton(env, sim, dims, both=not case.get("again"))
    dt = env.real("dt", 3600, 30 * DAY)
    for rnd in range(2 if case.get("again") else 1):
        before = state(env, fl)
        k0 = newt.t
        ok = sim.run_step(dt)
        v = newt.verdicts[k0:]
        env.check("it reports whether an attempt converged", env.true(bool(ok) == any(v)))
        env.check("it stops at the first success or after the last attempt", env.true(len(v) == n if not any(v) else v.index(True) == len(v) - 1))
        env.check("at most the configured number of attempts", env.true(len(v) <= n))
        for t in range(len(v)):
            env.check("each attempt is shorter by the factor", env.eq(newt.dts[k0 + t] / DAY * red ** t, dt / DAY, 1e-4))
            same(env, "each attempt starts from the old state", newt.starts[k0 + t], before)
        if ok:
            t = newt.t - 1
            same(env, "success keeps the converged state", state(env, fl), [env.vals(env.tensor("p%d" % t, dims, 1e5, 1e8)), env.vals(env.tensor("s%d" % t, dims, 0.2, 0.8)), [1 - x for x in env.vals(env.tensor("s%d" % t, dims, 0.2, 0.8))]])
            same(env, "and makes it the previous state", [env.vals(fl.prev_pressure), env.vals(fl.prev_sw), []], [env.vals(fl.pressure), env.vals(fl.s_w), []])
        else:
            same(env, "failure restores the state", state(env, fl), before)
            same(env, "and the previous state", [env.vals(fl.prev_pressure), env.vals(fl.prev_sw), []], [before[0], before[1], []])
        env.observe("n", len(v))


def newton(env, case, res, fl):
    """the real Newton iteration with arbitrary residuals and updates: on failure the state comes
    back, success only with a residual near the tolerance"""
    dims, iters = case["dims"], case["iters"]
    T = env.torch
    sim = make_sim(env, res, fl, solver_type="fully_implicit")
    P, S = env.tensor("P", dims, 1e6, 9e7), env.tensor("S", dims, 0.3, 0.7)
    fl.pressure, fl.s_w = P, S
    fl.s_o = 1.0 - fl.s_w
    fl.prev_pressure, fl.prev_sw = fl.pressure.clone(), fl.s_w.clone()
    before = state(env, fl)
    seen, moved = [], []

    def assemble(residual, jacobian, *a, **k):
        t = len(seen)
        # a residual of any size, in one component, and a well conditioned system
        r = env.real("r%d" % t, 0, 1)
        seen.append(r)
        residual[0] = r
        residual[1] = 0.0
        jacobian[0, 0] = 1e-6
        jacobian[1, 1] = 1.0

    def fast(*a, **k):
        t = len(moved)
        x = env.real("trial%d" % t, 0, 1)
        moved.append(x)
        return env.tensor_of([x, 0.0], (2,))
    sim._assemble_residual_and_jacobian_batch = assemble
    sim._compute_residual_fast = fast
    if iters > 1:
        # (the real update is used with one iteration, and is the subject of C25)
        k = [0]

        def apply(delta, factor):
            k[0] += 1
            fl.pressure, fl.s_w = env.tensor("up%d" % k[0], dims, 1e5, 1e8), env.tensor("us%d" % k[0], dims, 0.2, 0.8)
            fl.s_o = 1.0 - fl.s_w
        sim._apply_newton_step = apply
    tol = 1e-3
    ok, n = sim._fully_implicit_newton_step(DAY, max_iter=iters, tol=tol, line_search_factors=[1.0, 0.1], damping_factor=1.0)
    env.check("at most the given number of iterations", env.true(len(seen) <= iters))
    if ok:
        env.check("success only with a residual near the tolerance", env.le(seen[-1], 20 * tol, 1e-7))
    else:
        env.check("failure only with a residual above the tolerance", env.ge(seen[-1], tol, 1e-7))
        same(env, "failure restores the state", [env.vals(fl.pressure), env.vals(fl.s_w), []], [before[0], before[1], []])
    env.observe("ok", 1 if ok else 0)
