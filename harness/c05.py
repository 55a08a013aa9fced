"""The pressure equation conserves total volume and has the right equilibria."""
from .common import *

PROPERTY = "C05"
BOUNDS = "grids 2x1x1, 1x3x1, 2x2x1, 1x1x2, 1x1x3, 2x1x2 (thorough also 2x2x2); fixed unequal porosities and permeabilities; up to two rate wells; capillary exponent 1"
ASSUMPTIONS = ["the linear solve is replaced by an arbitrary vector; matrix and right-hand side are those handed to it"]
OPTS = dict(time=120, max_paths=300)


def cases(tier):
    out = [dict(name="sum_x", dims=(2, 1, 1)), dict(name="sum_y3", dims=(1, 3, 1), pc=True), dict(name="sum_xy", dims=(2, 2, 1), pc=True),
           dict(name="sum_z", dims=(1, 1, 2)), dict(name="sum_z_pc", dims=(1, 1, 2), pc=True), dict(name="sum_z3", dims=(1, 1, 3)), dict(name="sum_xz", dims=(2, 1, 2)),
           dict(name="sum_wells", dims=(2, 1, 1), wells=2), dict(name="sum_scale", dims=(1, 2, 1), wells=1, scale=True),
           dict(name="uniform_xy", dims=(2, 2, 1), kind="uniform"), dict(name="uniform_y3", dims=(1, 3, 1), kind="uniform"),
           dict(name="hydro_w2", dims=(1, 1, 2), kind="hydro", phase="w"), dict(name="hydro_w3", dims=(1, 1, 3), kind="hydro", phase="w"),
           dict(name="hydro_o2", dims=(1, 1, 2), kind="hydro", phase="o"), dict(name="hydro_o3", dims=(1, 1, 3), kind="hydro", phase="o"),
           dict(name="uniform_pvt", dims=(2, 1, 1), kind="uniform", surface=True), dict(name="rest_pvt_xy", dims=(1, 2, 1), kind="uniform", surface=True, gas=0.3),
           dict(name="surface_gas_injector", dims=(1, 1, 1), wells=1, surface=True, known="surface_rate")]
    if tier == "thorough":
        out.append(dict(name="sum_xyz", dims=(2, 2, 2), pc=True))
        out.append(dict(name="uniform_33", dims=(3, 3, 1), kind="uniform"))
        out.append(dict(name="hydro_w5", dims=(1, 1, 5), kind="hydro", phase="w"))
    return out


TABLE = dict(pressure_MPa=[1.0, 60.0], Bo=[1.3, 1.1], Bw=[1.03, 1.0], Bg=[0.1, 0.002], mu_o_cP=[2.0, 1.0],
             mu_w_cP=[0.5, 0.6], mu_g_cP=[0.02, 0.03], Rs_m3m3=[10.0, 100.0])


def run(env, case):
    dims = case["dims"]
    n = ncell(dims)
    kind = case.get("kind")
    lim = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.0)
    G = (10.0, 20.0, 5.0)
    vol = 1000.0
    res = make_reservoir(env, dims, G)
    phi = [0.1, 0.3, 0.15, 0.25, 0.2, 0.08, 0.35, 0.12, 0.22][:n]
    res.porosity = env.tensor_of(phi, dims)
    res.porous_volume = res.cell_volume * res.porosity
    set_perm(env, res, [10.0 + 37 * c % 101 for c in range(n)], [5.0 + 53 * c % 83 for c in range(n)], [1.0 + 29 * c % 41 for c in range(n)])
    cfg = dict(relative_permeability=dict(lim, nw=2, no=2, ng=2))
    if case.get("pc"):
        cfg["capillary_pressure"] = dict(pc_scale=20000.0, pc_exponent=1)
    if case.get("surface"):
        cfg["pvt"] = dict(path=env.vfile("pvt.json", TABLE))
    fl = make_fluid(env, res, **cfg)
    ws, rates = [], []
    pos = list(grid_iter(dims))
    for t in range(case.get("wells", 0)):
        i, j, k = pos[-1 - t]
        r = env.real("rate%d" % t, 0, 500)
        rates.append(r * (-1 if t else 1))
        kw = dict(rate_type="surface", injected_phase="gas") if case.get("surface") else {}
        ws.append(well("W%d" % t, type="producer" if t else "injector", i=i, j=j, k=k, control_value=r, **kw))
    par = {}
    sc = 1
    if case.get("scale"):
        sc = par["global_rate_scale"] = env.real("scale", 0.1, 10)
    sim = make_sim(env, res, fl, make_wells(env, res, ws), solver_type="impes", max_substeps=1, **par)
    dt = env.real("dt", 3600, 30 * DAY)
    if kind == "uniform":
        p = env.real("P", PMIN, PMAX)
        if case.get("surface"):
            fl.s_w = env.tensor_of([0.3 + 0.05 * c for c in range(n)], dims)
            fl.s_g = env.tensor_of([case.get("gas", 0.25) - 0.03 * c for c in range(n)], dims)
            fl.s_o = 1.0 - fl.s_w - fl.s_g
            fl.pressure = env.tensor_of([p] * n, dims)
        else:
            set_state(env, fl, dims, lim, env.tensor_of([p] * n, dims))
    elif kind == "hydro":
        # bottom pressure given; upwards the pressure falls by rho g dz, rho at the cell the step takes it from
        p = [env.real("P", 2 * PMIN, PMAX)]
        cw, rw = (fl.water_compressibility, fl.rho_water_ref) if case["phase"] == "w" else (fl.oil_compressibility, fl.rho_oil_ref)
        for _ in range(n - 1):
            p.insert(0, p[0] - 9.81 * G[2] * rw * (1 + cw * (p[0] - 1e5)))
        sat = [0.8, 0.0] if case["phase"] == "w" else [0.15, 0.0]
        fl.s_w = env.tensor_of([sat[0]] * n, dims)
        fl.s_g = env.tensor_of([sat[1]] * n, dims)
        fl.s_o = 1.0 - fl.s_w - fl.s_g
        fl.pressure = env.tensor_of(p, dims)
    else:
        set_state(env, fl, dims, lim, env.tensor("P0", dims, 2e6, 5e7))
    P0 = env.vals(fl.pressure)
    ct = env.vals(fl.calc_total_compressibility(fl.pressure, fl.s_w, fl.s_g)) if case.get("surface") else env.vals(fl.cf)
    pv = env.vals(res.porous_volume)
    seam = Seam(env, sim, P0)
    env.check("step succeeds", env.true(sim.run_step(dt)))
    A, b = seam.dense()
    env.observe("b", [x * dt / vol for x in b])
    # multiplied by the step and divided by a cell volume: a dimensionless volume balance
    if kind is None:
        q = 0
        for r, (i, j, k) in zip(rates, [pos[-1 - t] for t in range(len(rates))]):
            f = env.vals(fl._eval_pvt(env.tensor_of(P0, dims), "Bg"))[0] if case.get("surface") else 1
            q = q + r * sc * f / DAY
        cols = [env.sum(A[r][c] for r in range(n)) for c in range(n)]
        for c in range(n):
            env.check("internal flows cancel", env.eq(cols[c] * dt / (vol * 1e-9), pv[c] * ct[c] / (vol * 1e-9), 1e-5))
        env.check("expansion equals net injection", env.eq(env.sum(b) * dt / vol, env.sum(pv[c] * ct[c] * P0[c] for c in range(n)) / vol + q * dt / vol, 1e-7))
    else:
        for r in range(n):
            d = env.sum(A[r][c] * P0[c] for c in range(n)) - b[r]
            env.check("equilibrium is a solution", env.eq(d * dt / vol, 0, 1e-6))
