"""Newton updates stay within their step and physical limits."""
from .common import *

PROPERTY = "C25"
BOUNDS = ("one to four cells (thorough eight), every admissible pressure and saturation, update vectors of up to 1000 MPa and 10 per cell, line-search factors from 0 to 1 (symbolic), every connate and residual saturation up to 0.3; "
          "and the two updates in a row of one damped Newton iteration")
ASSUMPTIONS = ["the state before the update is within the limits (0.1 to 100 MPa, connate to one minus residual)"]
OPTS = dict(time=150, max_paths=600)


def cases(tier):
    out = [dict(name="cells_%d%d%d" % d, dims=d) for d in ((1, 1, 1), (2, 1, 1), (1, 1, 3), (2, 2, 1))]
    out += [dict(name="full_step", dims=(1, 2, 1), factor=1.0), dict(name="low", dims=(1, 1, 1), P=(1e5, 1.2e5)), dict(name="high", dims=(1, 1, 1), P=(9.7e7, 1e8)), dict(name="twice", dims=(1, 1, 1), twice=True)]
    if tier == "thorough":
        out += [dict(name="cells_222", dims=(2, 2, 2), opts=dict(time=600, max_paths=3000)), dict(name="twice_2", dims=(2, 1, 1), twice=True, opts=dict(time=400))]
    return out


def run(env, case):
    dims = case["dims"]
    n = ncell(dims)
    res = make_reservoir(env, dims)
    cr, r = env.real("sw_cr", 0, 0.3), env.real("so_r", 0, 0.3)
    fl = make_fluid(env, res, relative_permeability=dict(sw_cr=cr, so_r=r))
    sim = make_sim(env, res, fl, solver_type="fully_implicit")
    P = env.tensor("P", dims, *case.get("P", (1e5, 1e8)))
    S = env.tensor("S", dims, 0, 1)
    p0, s0 = env.vals(P), env.vals(S)
    env.assume(env.all([env.all(env.ge(s, cr, 0), env.le(s, 1 - r, 0)) for s in s0]))
    fl.pressure, fl.s_w = P, S
    fl.s_o = 1.0 - fl.s_w
    for t in range(2 if case.get("twice") else 1):
        d = [[env.real("dp%d_%d" % (t, c), -1e9, 1e9), env.real("ds%d_%d" % (t, c), -10, 10)] for c in range(n)]
        f = case.get("factor") or env.real("factor%d" % t, 0, 1)
        # pressure and saturation of a cell are neighbouring unknowns
        delta = env.tensor_of([x for dc in d for x in dc], (2 * n,))
        keep = delta.clone()
        sim._apply_newton_step(delta, f)
        p1, s1, o1 = env.vals(fl.pressure), env.vals(fl.s_w), env.vals(fl.s_o)
        env.check("whole fields", env.true(env.shape(fl.pressure) == dims and env.shape(fl.s_w) == dims))
        env.check("the update vector is left alone", env.all([env.eq(a / 1e6, b / 1e6, 1e-6) for a, b in zip(env.vals(delta), env.vals(keep))]))
        M = 1e6
        for c in range(n):
            dp, ds = d[c][0] * f, d[c][1] * f
            mp, ms = p1[c] - p0[c], s1[c] - s0[c]
            lim = env.min(0.1 * p0[c], 2e6)
            env.check("pressure change within a tenth", env.le(env.abs(mp) / M, 0.1 * p0[c] / M, 2e-5))
            env.check("and within 2 MPa", env.le(env.abs(mp) / M, 2, 2e-5))
            env.check("saturation change within a tenth", env.le(env.abs(ms), 0.1, 2e-5))
            env.check("pressure moves as proposed", env.all(env.implies(env.ge(dp, 0, 0), env.ge(mp / M, 0, 2e-5)), env.implies(env.le(dp, 0, 0), env.le(mp / M, 0, 2e-5))))
            env.check("saturation moves as proposed", env.all(env.implies(env.ge(ds, 0, 0), env.ge(ms, 0, 2e-5)), env.implies(env.le(ds, 0, 0), env.le(ms, 0, 2e-5))))
            env.check("pressure within its limits", env.all(env.ge(p1[c] / M, 0.1, 2e-5), env.le(p1[c] / M, 100, 2e-5)))
            env.check("saturation within its limits", env.all(env.ge(s1[c], cr, 2e-5), env.le(s1[c], 1 - r, 2e-5)))
            env.check("oil fills the rest", env.eq(o1[c], 1 - s1[c], 2e-5))
            env.check("a small pressure update is applied in full", env.implies(env.all(env.le(env.abs(dp), lim, 0), env.ge(p0[c] + dp, 1e5, 0), env.le(p0[c] + dp, 1e8, 0)), env.eq(mp / M, dp / M, 2e-5)))
            env.check("a small saturation update is applied in full", env.implies(env.all(env.le(env.abs(ds), 0.1, 0), env.ge(s0[c] + ds, cr, 0), env.le(s0[c] + ds, 1 - r, 0)), env.eq(ms, ds, 2e-5)))
            env.check("a large update is not lost", env.all(env.implies(env.all(env.ge(dp, lim, 0), env.le(p0[c] + lim, 1e8, 0)), env.ge(mp / M, lim / M, 2e-5)),
                                                           env.implies(env.all(env.le(dp, -lim, 0), env.ge(p0[c] - lim, 1e5, 0)), env.le(mp / M, -lim / M, 2e-5))))
        env.observe("p", [x / M for x in p1])
        env.observe("s", s1)
        p0, s0 = p1, s1
