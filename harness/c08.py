"""A time step is all or nothing."""
from .common import *

PROPERTY = "C08"
BOUNDS = ("one cell with an injector and a 2x1x1 grid with injector and producer; every sequence of verdicts of the linear solver for up to 3 attempts "
          "(4 in the thorough tier) of up to two solver calls each; symbolic state, step length, reduction factor and new pressures; both pressure solvers")
ASSUMPTIONS = ["the linear solver is replaced by an arbitrary vector and verdict per call (C07 is about what a verdict means)"]
OPTS = dict(time=120, max_paths=600)


def cases(tier):
    out = [dict(name="one_%d" % m, dims=(1, 1, 1), attempts=m) for m in (1, 2, 3)]
    out += [dict(name="two", dims=(2, 1, 1), attempts=2), dict(name="amg", dims=(1, 1, 1), attempts=3, amg=True),
            dict(name="default", dims=(1, 1, 1), attempts=None, amg=True), dict(name="substeps", dims=(1, 1, 1), attempts=2, sub=2)]
    if tier == "thorough":
        out += [dict(name="one_4", dims=(1, 1, 1), attempts=4), dict(name="two_3", dims=(2, 1, 1), attempts=3),
                dict(name="substeps4", dims=(1, 1, 1), attempts=2, sub=4)]
    return out


def run(env, case):
    dims = case["dims"]
    n = ncell(dims)
    lim = dict(sw_cr=0.1, so_r=0.1, sg_cr=0.0)
    res = make_reservoir(env, dims)
    fl = make_fluid(env, res, relative_permeability=dict(lim, nw=2, no=2, ng=2))
    rate = env.real("rate", 1, 50)
    ws = [well("I", type="injector", control_value=rate)]
    if n > 1:
        ws.append(well("P", type="producer", i=1, control_value=rate))
    fac = env.real("factor", 1.5, 4)
    par = dict(dt_reduction_factor=fac) if case["attempts"] else {}
    if not case["attempts"]:
        fac = 2.0
    if case["attempts"]:
        par["max_time_step_attempts"] = case["attempts"]
    if case.get("amg"):
        par["pressure_solver"] = "amg"
    sim = make_sim(env, res, fl, make_wells(env, res, ws), solver_type="impes", max_substeps=case.get("sub", 1), **par)
    dt = env.real("dt", 3600, 2 * DAY)
    w, g = set_state(env, fl, dims, lim, env.tensor("P0", dims, 1.9e7, 2.1e7), margin=0.01)
    Pn = [env.real("P1[%d]" % i, 1.9e7, 2.1e7) for i in range(n)]
    limit = case["attempts"] or 5
    calls = []
    bump = lambda k: [p + 1000.0 * k for p in Pn]     # every call returns another vector

    def solve(A, b, *a, **k):
        first = not calls
        calls.append(dict(A=A, b=b, P=bump(len(calls)), ok=env.bool("ok%d" % len(calls))))
        return env.tensor_of(calls[-1]["P"], (n,)), calls[-1]["ok"]

    if case.get("amg"):
        env.mod("solver.pressure_amg").amg_solve = solve
        per = 1
    else:
        sim._solve_pressure_cg_pytorch = solve
        per = 2
    snap = lambda: [env.vals(x) for x in (fl.pressure, fl.s_w, fl.s_g, fl.s_o, fl.prev_pressure, fl.prev_sw)]
    books = lambda: [v for b in (sim.mass_balance, sim.component_balance) for c in b.values() for v in c.values()]
    before, books0 = snap(), books()
    ok = bool(sim.run_step(dt))
    after, books1 = snap(), books()
    env.observe("state", after[0] + after[1])
    env.check("success exactly when the last solve was accepted", env.true(ok == calls[-1]["ok"]))
    env.check("no solve after an accepted one", env.true(not any(c["ok"] for c in calls[:-1])))
    env.check("at most the configured attempts", env.true(len(calls) <= per * limit))
    if not ok:
        env.check("gives up only after all attempts", env.true(len(calls) == per * limit))
        for name, x, y in zip(("pressure", "water", "gas", "oil", "previous pressure", "previous water"), before, after):
            env.check("failure leaves %s untouched" % name, env.all([env.eq(a, b, 0) for a, b in zip(x, y)]))
        env.check("failure leaves the balances untouched", env.all([env.eq(a, b, 0) for a, b in zip(books0, books1)]))
        return
    # the step length of each attempt, read from the system it assembled
    pv, ct = env.vals(res.porous_volume), env.vals(fl.cf)
    used = dt
    for k, c in enumerate(calls):
        if k and k % per == 0:
            used = used / fac
        row = env.vals(c["A"].to_dense())
        s = env.sum(row[:n])
        env.check("attempt uses its step length", env.eq(s * used / (pv[0] * ct[0]), 1, 1e-4))
    env.check("new pressures are the accepted solution", env.all([env.eq(a, b, 4) for a, b in zip(after[0], calls[-1]["P"])]))
    env.check("previous pressure follows", env.all([env.eq(a, b, 0) for a, b in zip(after[0], after[4])]))
    if n == 1:
        # no well or limit interferes in the interior: saturation advanced over the same step length
        gain = pv[0] * (after[1][0] - w[0])
        if case.get("sub"):
            env.check("saturation does not overshoot the step", env.le(gain, rate * used / DAY, 1e-3))
        env.check("saturation advanced over the accepted step", env.implies(env.le(w[0] + rate * dt / DAY / pv[0] + g[0], 0.88, 0),
                                                                       env.eq(gain, rate * used / DAY, 1e-3)))
