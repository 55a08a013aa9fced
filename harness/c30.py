"""Every step computes finite numbers."""
from .common import *

PROPERTY = "C30"
BOUNDS = ("one step; every admissible state with saturations at and between their limits, residual saturations from zero until 1% of mobile range is left, permeabilities from zero (sealed cells) to 10000 mD, pressures 1 to 60 MPa (fully implicit and fluid functions 0.1 to 100 MPa), "
          "rates, limits and bottom-hole pressures from zero, step lengths from a second to 30 days, grids of two cells in each direction; one cell with one well of every kind; linear systems of up to 3 unknowns with a zero right-hand side, an exact start or uncoupled unknowns")
ASSUMPTIONS = ["finite means: no division by zero and no root or power without a value (overflow of floating-point numbers is outside)", "the linear solve of the step is replaced by an arbitrary vector"]
OPTS = dict(time=150, max_paths=700)

KINDS = dict(inj_w=dict(type="injector"), inj_g=dict(type="injector", injected_phase="gas"), inj_ws=dict(type="injector", rate_type="surface"), inj_gs=dict(type="injector", injected_phase="gas", rate_type="surface"),
             total=dict(), oil=dict(rate_type="surface", surface_phase="oil"), water=dict(rate_type="surface", surface_phase="water"), gas=dict(rate_type="surface", surface_phase="gas"), liquid=dict(rate_type="surface", surface_phase="liquid"),
             bhp_p=dict(control_type="bhp"), bhp_w=dict(type="injector", control_type="bhp"), bhp_g=dict(type="injector", control_type="bhp", injected_phase="gas"), floor=dict(bhp_min=10.0))
# saturations at their limits: nothing but oil moves, nothing but water, nothing but gas, nothing at all is free to leave
ENDS = dict(oil=(0.15, 0.05), water=(0.75, 0.05), gas=(0.15, 0.65))


def cases(tier):
    out = []
    for n, d in (("x", (2, 1, 1)), ("y", (1, 2, 1)), ("z", (1, 1, 2))):
        out.append(dict(name="impes_" + n, kind="impes", dims=d))
        out.append(dict(name="impes_pc_" + n, kind="impes", dims=d, pc=True))
        out.append(dict(name="implicit_" + n, kind="fi", dims=d))
        out.append(dict(name="implicit_pc_" + n, kind="fi", dims=d, pc=True))
    out.append(dict(name="impes_stone", kind="impes", dims=(2, 1, 1), stone=True))
    for w in KINDS:
        for s in ENDS:
            out.append(dict(name="well_%s_%s" % (w, s), kind="well", well=w, sat=s))
        if "bhp" in w or w in ("total", "inj_w", "inj_g"):
            out.append(dict(name="well_const_%s" % w, kind="well", well=w, sat="oil", pvt=False))
    for k in ("total", "oil", "water", "gas", "liquid"):
        out.append(dict(name="limits_" + k, kind="well", well=k, sat="oil", limits=True))
    out += [dict(name="implicit_well_" + w, kind="fi", dims=(1, 1, 1), well=w) for w in ("inj_w", "total", "bhp_p", "bhp_w")]
    out += [dict(name="curves", kind="curves"), dict(name="densities", kind="dens"), dict(name="densities_pvt", kind="dens", pvt=True)]
    out += [dict(name="cg_zero", kind="cg", zero=True), dict(name="cg_exact", kind="cg"), dict(name="cg_plain", kind="cg", plain=True)]
    out += [dict(name="amg_zero", kind="amg", zero=True), dict(name="amg_uncoupled", kind="amg", off=0.0), dict(name="amg_scaled", kind="amg", off=-1.0, scaled=True)]
    return out


def window(env):
    """residual saturations, from none to a window of hardly any mobile range"""
    lim = dict(sw_cr=env.real("swc", 0, 0.6), so_r=env.real("sor", 0, 0.6), sg_cr=env.real("sgc", 0, 0.1))
    env.assume(env.le(lim["sw_cr"] + lim["so_r"] + lim["sg_cr"], 0.99, 0))
    return lim


def run(env, case):
    kind = case["kind"]
    if kind == "cg":
        return cg(env, case)
    if kind == "amg":
        return amg(env, case)
    if kind == "well":
        return wells(env, case)
    dims = case.get("dims", (2, 1, 1))
    n = ncell(dims)
    res = make_reservoir(env, dims, (10.0, 20.0, 5.0))
    if kind in ("curves", "dens"):
        return fluid(env, case, res, dims)
    cfg = {}
    if kind == "impes":
        lim = window(env)
        cfg["relative_permeability"] = dict(lim, nw=2, no=2, ng=2, model="stone2" if case.get("stone") else "corey")
        if case.get("pc"):
            cfg["capillary_pressure_og"] = dict(pc_scale=20000.0, pc_exponent=2)
            cfg["capillary_pressure"] = dict(pc_scale=20000.0, pc_exponent=1)
    else:
        lim = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.0)
        cfg["relative_permeability"] = dict(lim, nw=2, no=2)
        if case.get("pc"):
            cfg["capillary_pressure"] = dict(pc_scale=20000.0, pc_exponent=1)
    fl = make_fluid(env, res, **cfg)
    kx = [env.real("k%d" % c, 0, 1e4) for c in range(n)]
    dt = env.real("dt", 1, 30 * DAY)
    if kind == "impes":
        set_perm(env, res, kx, kx, kx)
        sim = make_sim(env, res, fl, make_wells(env, res), solver_type="impes", max_substeps=1)
        set_state(env, fl, dims, lim, env.tensor("P0", dims, PMIN, PMAX))
        seam = Seam(env, sim, env.vals(env.tensor("Pnew", dims, PMIN, PMAX)))
        sim.run_step(dt)
        A, b = seam.dense(0)
        env.check("pressure matrix is finite", env.all([env.finite(env.tensor_of(r)) for r in A]))
        env.check("right-hand side is finite", env.finite(seam.calls[0]["b"]))
        for a in ("pressure", "s_w", "s_g", "s_o"):
            env.check("%s is finite" % a, env.finite(getattr(fl, a)))
        env.observe("sw", env.vals(fl.s_w))
        for f in ("water", "oil", "gas"):
            env.check("mass balance is finite", env.all([env.finite(env.tensor_of([v])) for v in books(env, sim.mass_balance[f])]))
        return
    set_perm(env, res, [1e3 * k for k in kx], [1e3 * k for k in kx], [1e3 * k for k in kx])
    ws = []
    if case.get("well"):
        kw = dict(KINDS[case["well"]], control_value=env.real("control", 0, 60))
        ws = [well(**kw)]
    sim = make_sim(env, res, fl, make_wells(env, res, ws), solver_type="fully_implicit")
    for w in sim.well_manager.get_wells():
        w.well_index = 1e-10
    fl.pressure, fl.prev_pressure = env.tensor("p", dims, 1e5, 1e8), env.tensor("p0_", dims, 1e5, 1e8)
    fl.s_w, fl.prev_sw = env.tensor("s", dims, 0.15, 0.8), env.tensor("s0_", dims, 0.15, 0.8)
    fl.s_o = 1.0 - fl.s_w
    got = {}
    real = sim._assemble_residual_and_jacobian_batch
    wadd = sim._add_wells_to_system

    class Stop(Exception):
        pass

    def wrap(residual, jacobian, *a, **k):
        real(residual, jacobian, *a, **k)
        got["r"], got["J"] = residual, jacobian
        if not ws:
            raise Stop()

    def wwrap(residual, jacobian, *a, **k):
        wadd(residual, jacobian, *a, **k)
        got["r"], got["J"] = residual, jacobian
        raise Stop()
    sim._assemble_residual_and_jacobian_batch = wrap
    sim._add_wells_to_system = wwrap
    try:
        sim._fully_implicit_newton_step(dt)
    except Stop:
        pass
    env.check("residual is finite", env.finite(got["r"]))
    env.check("Jacobian is finite", env.finite(got["J"]))
    env.observe("r", [v / 1e3 for v in env.vals(got["r"])[:2]])
    dx, dy, dz = res.grid_size
    env.check("line search residual is finite", env.finite(sim._compute_residual_fast(dt, *dims, dx, dy, dz)))


def books(env, d):
    return [x for x in d.values()]


def fluid(env, case, res, dims):
    if case["kind"] == "dens":
        cfg = dict(pvt=dict(path=env.vfile("pvt.json", TABLE))) if case.get("pvt") else {}
        fl = make_fluid(env, res, **cfg)
        p = env.tensor("p", dims, 1e5, 1e8)
        fl.pressure = p
        for f in ("calc_water_density", "calc_oil_density", "calc_gas_density"):
            env.check("density is finite", env.finite(getattr(fl, f)(p)))
        for f in ("rho_w", "rho_o", "rho_g"):
            env.check("density is finite", env.finite(getattr(fl, f)))
        env.check("viscosity is finite", env.all([env.finite(getattr(fl, f)) for f in ("mu_w", "mu_o", "mu_g") if hasattr(getattr(fl, f), "shape")]))
        s = env.tensor("s", dims, 0, 0.5)
        ct = fl.calc_total_compressibility(p, s, s)
        env.check("compressibility is finite", env.finite(ct))
        env.observe("rho", env.vals(fl.rho_o))
        return
    lim = window(env)
    fl = make_fluid(env, res, relative_permeability=dict(lim, nw=2, no=2, ng=2), capillary_pressure=dict(pc_scale=1e4, pc_exponent=1), capillary_pressure_og=dict(pc_scale=1e4, pc_exponent=2))
    s = env.tensor("s", (1,), 0, 1)
    g = env.tensor("g", (1,), 0, 1)
    env.assume(env.le(env.vals(s)[0] + env.vals(g)[0], 1, 0))
    for f in ("calc_water_kr", "calc_oil_kr", "calc_dkrw_dsw", "calc_dkro_dsw", "get_capillary_pressure", "get_capillary_pressure_derivative"):
        v = getattr(fl, f)(s)
        env.check(f + " is finite", env.finite(v))
        env.observe(f, [env.vals(v)[0] / (1e4 if "capillary" in f else 1)])
    env.check("three-phase oil curve is finite", env.finite(fl.calc_oil_kr(s, g)))
    for f in ("calc_gas_kr", "calc_dkrg_dsg", "get_capillary_pressure_og", "get_capillary_pressure_og_derivative"):
        env.check(f + " is finite", env.finite(getattr(fl, f)(g)))
    for v in list(fl.get_rel_perms(s, g)) + list(fl.get_rel_perms_derivatives(s)):
        env.check("curves are finite", env.finite(v))


def wells(env, case):
    kw = dict(KINDS[case["well"]])
    kw["control_value"] = env.real("control", 0, 60) if kw.get("control_type") == "bhp" else env.real("rate", 0, 1000)
    if case.get("limits"):
        kw["limits"] = {l: env.real(l, 0, 300) for l in ("wopr", "wlpr", "wgpr", "liqr")}
    m = WellCell(env, [well(**kw)], pvt=case.get("pvt", True), sats=[ENDS[case["sat"]]])
    W = m.wells.get_wells()[0]
    W.well_index = 5e-13
    m.sim.run_step(m.dt)
    fl = m.fl
    for a in ("pressure", "s_w", "s_g", "s_o"):
        env.check("%s is finite" % a, env.finite(getattr(fl, a)))
    env.observe("sw", env.vals(fl.s_w))
    A, b = m.seam.dense(0)
    env.check("pressure equation is finite", env.all([env.finite(env.tensor_of(A[0])), env.finite(env.tensor_of(b))]))
    for f in ("oil", "gas"):
        env.check("component balance is finite", env.all([env.finite(env.tensor_of([v])) for v in books(env, m.sim.component_balance[f])]))
    for f in ("water", "oil", "gas"):
        env.check("mass balance is finite", env.all([env.finite(env.tensor_of([v])) for v in books(env, m.sim.mass_balance[f])]))
    r = getattr(W, "last_surface_rates", None) or {}
    if r:
        env.check("reported rates are finite", env.finite(env.tensor_of(list(r.values()))))


def sparse(env, A):
    t = env.torch
    n = len(A)
    return env.tensor_of([v for r in A for v in r], (n, n)).to_sparse_csr()


def cg(env, case):
    t = env.torch
    res = make_reservoir(env, (2, 1, 1))
    sim = make_sim(env, res, make_fluid(env, res), make_wells(env, res), solver_type="impes")
    a, d, c = env.real("a", 1, 10), env.real("d", 1, 10), env.real("c", 0, 0.9)
    A = [[a + c, -c], [-c, d + c]]
    x = [env.real("x0", -5, 5), env.real("x1", -5, 5)]
    if case.get("zero"):
        x = [0.0, 0.0]
    b = env.tensor_of([A[0][0] * x[0] + A[0][1] * x[1], A[1][0] * x[0] + A[1][1] * x[1]])
    tol = env.real("tol", 1e-8, 1e-2)
    M = None if case.get("plain") else env.tensor_of([A[0][0], A[1][1]])
    got, ok = sim._solve_pressure_cg_pytorch(sparse(env, A), b, x0=None if case.get("zero") else env.tensor_of(x), M_diag=M, tol=tol, max_iter=2)
    env.check("solution is finite", env.finite(got))
    env.check("an exact start is a solution", env.true(bool(ok)))
    env.check("an exact start is kept", env.all([env.eq(p, q, 1e-4) for p, q in zip(env.vals(got), x)]))


def amg(env, case):
    P = env.mod("solver.pressure_amg")
    o = case.get("off", -0.5)
    d = [2.0, 3.0, 4.0]
    A = [[d[i] + 2 if i == j else (o if abs(i - j) == 1 else 0.0) for j in range(3)] for i in range(3)]
    if case.get("scaled"):
        A = [[A[i][j] * 10.0 ** (-6 * (i + j)) for j in range(3)] for i in range(3)]
    b = [0.0] * 3 if case.get("zero") else [env.real("b%d" % i, -5, 5) for i in range(3)]
    x, ok = P.amg_solve(sparse(env, A), env.tensor_of(b), tol=env.real("tol", 1e-8, 1e-2), max_cycles=2, device="cpu", return_converged=True)
    env.check("solution is finite", env.finite(x))
    if case.get("zero"):
        env.check("nothing in, nothing out", env.all([env.eq(v, 0, 1e-9) for v in env.vals(x)]))
