"""The IMPES pressure matrix is a symmetric positive M-matrix on the grid graph."""
from .common import *

PROPERTY = "C04"
BOUNDS = "grids 2x1x1, 1x2x1, 1x1x2, 2x3x1, 3x1x2, 1x2x3 (thorough also 2x2x2, 3x2x2); fixed unequal porosities and permeabilities; one pressure-controlled well on any cell; water and oil curves of order 1 or 2"
ASSUMPTIONS = ["the linear solve is replaced by an arbitrary vector; matrix and right-hand side are those handed to it",
               "with a PVT table, volume factors do not rise with pressure (so that the total compressibility is positive)"]
OPTS = dict(time=120, max_paths=300)


def cases(tier):
    out = []
    for d in [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 1), (3, 1, 2), (1, 2, 3)] + ([(2, 2, 2), (3, 2, 2)] if tier == "thorough" else []):
        out.append(dict(name="grid%d%d%d" % d, dims=d))
    out.append(dict(name="bhp_x", dims=(3, 1, 1), well=1))
    out.append(dict(name="bhp_yz", dims=(1, 2, 2), well=2))
    out.append(dict(name="rate", dims=(2, 1, 1), well=1, rate=True))
    out.append(dict(name="two_bhp", dims=(2, 1, 1), well=1, twice=True))
    out.append(dict(name="pvt", dims=(2, 1, 1), pvt=True))
    out.append(dict(name="storage_lo", dims=(1, 1, 1), pvt=True, p=(2e6, 1.98e7)))
    out.append(dict(name="storage_hi", dims=(1, 1, 1), pvt=True, p=(2.02e7, 5e7)))
    return out


TABLE = dict(pressure_MPa=[1.0, 20.0, 60.0], Bo=[1.3, 1.2, 1.1], Bw=[1.03, 1.02, 1.0], Bg=[0.1, 0.005, 0.002], mu_o_cP=[2.0, 1.5, 1.0],
             mu_w_cP=[0.5, 0.5, 0.6], mu_g_cP=[0.02, 0.02, 0.03], Rs_m3m3=[10.0, 100.0, 100.0])


def run(env, case):
    dims = case["dims"]
    n = ncell(dims)
    lim = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.0)
    res = make_reservoir(env, dims, (10.0, 20.0, 5.0))
    phi = [0.1, 0.3, 0.15, 0.25, 0.2, 0.08, 0.35, 0.12, 0.22, 0.17, 0.05, 0.28][:n]
    res.porosity = env.tensor_of(phi, dims)
    res.porous_volume = res.cell_volume * res.porosity
    set_perm(env, res, [10.0 + 37 * c % 101 for c in range(n)], [5.0 + 53 * c % 83 for c in range(n)], [1.0 + 29 * c % 41 for c in range(n)])
    cfg = dict(relative_permeability=dict(lim, nw=2, no=2, ng=2))
    if case.get("pvt"):
        tab = TABLE if case.get("p") else {k: [v[0], v[2]] for k, v in TABLE.items()}
        cfg["pvt"] = dict(path=env.vfile("pvt.json", tab))
    fl = make_fluid(env, res, **cfg)
    ws = []
    pos = list(grid_iter(dims))
    if case.get("well") is not None:
        i, j, k = pos[case["well"]]
        if case.get("rate"):
            ws.append(well(i=i, j=j, k=k, control_value=env.real("rate", 0, 500)))
        else:
            for t in range(2 if case.get("twice") else 1):
                ws.append(well("W%d" % t, i=i, j=j, k=k, type="injector" if t else "producer", control_type="bhp", control_value=env.real("bhp%d" % t, 0, 60)))
    sim = make_sim(env, res, fl, make_wells(env, res, ws), solver_type="impes", max_substeps=1)
    for W in sim.well_manager.get_wells():
        W.well_index = 5e-13
    w, g = set_state(env, fl, dims, lim, env.tensor("P0", dims, *case.get("p", (2e6, 5e7) if case.get("pvt") else (PMIN, PMAX))))
    dt = env.real("dt", 3600, 30 * DAY)
    P0 = env.vals(fl.pressure)
    if case.get("pvt"):
        ct = env.vals(fl.calc_total_compressibility(fl.pressure, fl.s_w, fl.s_g))
        if case.get("p"):
            # within one table segment the volume factors are straight lines
            p = P0[0] / 1e6
            low = case["name"] == "storage_lo"
            want = 1e-11
            for col, s in (("Bw", w[0]), ("Bo", 1 - w[0] - g[0]), ("Bg", g[0])):
                B = TABLE[col]
                s1, s2 = (B[1] - B[0]) / 19.0, (B[2] - B[1]) / 40.0
                sl, b = (s1, B[0] + (p - 1) * s1) if low else (s2, B[1] + (p - 20) * s2)
                want = want - s * sl / b / 1e6
            env.observe("ct", [ct[0] * 1e9, want * 1e9])
            env.check("storage uses each phase's own compressibility", env.eq(ct[0] * 1e9, want * 1e9, 1e-3))
    else:
        ct = env.vals(fl.cf)
        mw, mo, mg = mobilities(env, fl)
    seam = Seam(env, sim, P0)
    env.check("step succeeds", env.true(sim.run_step(dt)))
    A, b = seam.dense()
    nb = {(a, c) for _, a, c in faces(dims)} | {(c, a) for _, a, c in faces(dims)}
    env.observe("A", [x for r in A for x in r])
    vol = 10.0 * 20.0 * 5.0
    scale = vol * 1e-9 / DAY
    for r in range(n):
        for c in range(n):
            if r == c:
                continue
            if r < c:
                env.check("matrix symmetric", env.eq(A[r][c] / scale, A[c][r] / scale, 1e-9))
            if (r, c) in nb:
                env.check("coupling not positive", env.le(A[r][c] / scale, 0, 0))
            else:
                env.check("only neighbours coupled", env.eq(A[r][c] / scale, 0, 0))
        st = (env.vals(res.porous_volume)[r] if case.get("pvt") else phi[r] * vol) * ct[r] / dt
        rs = env.sum(A[r])
        wi = 0
        if case.get("well") is not None and not case.get("rate") and r == case["well"]:
            wi = 5e-13 * (mw[r] + mo[r] + mg[r]) * (2 if case.get("twice") else 1)
        env.check("row sum is storage plus well", env.eq((rs - wi) / scale * (dt / DAY), st * dt / (scale * DAY), 2e-5))
        if case["name"] != "pvt":
            env.check("row sum positive", env.gt(ct[r] * 1e9, 0))
    # every pair of neighbours with conducting cells really is coupled
    if not case.get("pvt"):
        for ax, a, c in faces(dims):
            env.check("neighbours coupled", env.implies(env.all(env.ge(mo[a], 100, 0), env.ge(mo[c], 100, 0)), env.lt(A[a][c] / scale, 0)))
