"""Each phase flows down its potential and only from where it is mobile."""
from .common import *

PROPERTY = "C03"
BOUNDS = "one step between two cells in each direction, and a middle cell of three; non-cubic cells, fixed unequal permeabilities; end state inside the saturation limits; a single sub-step"
ASSUMPTIONS = ["the new pressures are arbitrary in 1..60 MPa (the linear solve is replaced by an arbitrary vector)",
               "the end state lies at least 1e-4 inside the saturation limits in every cell"]
OPTS = dict(time=150, max_paths=400)
GRID = (10.0, 20.0, 5.0)


def cases(tier):
    out = []
    for ax, d in enumerate(("x", "y", "z")):
        for pc in (False, True):
            for no in ((2,) if tier == "quick" else (1, 2, 3)):
                out.append(dict(name="%s%s_%d" % (d, "_pc" if pc else "", no), axis=ax, n=2, pcog=pc, no=no))
        out.append(dict(name="%s3" % d, axis=ax, n=3, pcog=False, no=1))
        out.append(dict(name="%s3_pc" % d, axis=ax, n=3, pcog=True, no=1, fixed=True, free=2))
    out.append(dict(name="cube_pc", dims=(2, 2, 2), pcog=True, no=1, fixed=True, free=1))
    return out


SATS = [(0.3, 0.3), (0.45, 0.06), (0.25, 0.2), (0.4, 0.1), (0.33, 0.25), (0.5, 0.1), (0.2, 0.35), (0.37, 0.15)]


def run_fixed(env, case):
    """saturations fixed, the new pressures (all or the first few) arbitrary; every face of the grid is checked"""
    dims = case.get("dims")
    if dims is None:
        dims = [1, 1, 1]
        dims[case["axis"]] = case["n"]
    dims = tuple(dims)
    n = ncell(dims)
    lim = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.05)
    res = make_reservoir(env, dims, GRID)
    k = [[(100.0, 300.0, 50.0, 140.0, 90.0, 210.0, 70.0, 33.0)[c] for c in range(n)], [60.0 + 17 * (c * 5 % 7) for c in range(n)], [5.0 + 9 * (c * 3 % 8) for c in range(n)]]
    set_perm(env, res, *k)
    no = case["no"]
    cfg = dict(relative_permeability=dict(lim, nw=no, no=2, ng=no), rho_water=1013.0, rho_gas=200.0, c_gas=0.0, c_water=0.0, mu_water=0.5, mu_gas=0.02, mu_oil=3.0)
    cfg["capillary_pressure_og"] = dict(pc_scale=20000.0, pc_exponent=1)
    fl = make_fluid(env, res, **cfg)
    sim = make_sim(env, res, fl, solver_type="impes", max_substeps=1)
    fl.s_w = env.tensor_of([a for a, _ in SATS[:n]], dims)
    fl.s_g = env.tensor_of([b for _, b in SATS[:n]], dims)
    fl.s_o = 1.0 - fl.s_w - fl.s_g
    fl.pressure = env.tensor_of([2.4e7] * n, dims)
    w0, g0 = env.vals(fl.s_w), env.vals(fl.s_g)
    mw, mo, mg = mobilities(env, fl)
    pc = env.vals(fl.get_capillary_pressure_og(fl.s_g))
    dt = 6000.0 if n < 4 else 300.0
    free = case.get("free", n)
    P = [env.real("p%d" % c, 2.3e7, 2.5e7) if c < free else 2.4e7 + 30000.0 * (c * 3 % 8) for c in range(n)]
    pos = list(grid_iter(dims))
    at = {p: c for c, p in enumerate(pos)}
    faces = []
    rw, rg = 1013.0, 200.0
    for c, p in enumerate(pos):
        for ax in range(3):
            q = tuple(p[t] + (t == ax) for t in range(3))
            if q not in at:
                continue
            d = at[q]
            grav = 9.81 * GRID[2] if ax == 2 else 0
            T = 2 * k[ax][c] * k[ax][d] / (k[ax][c] + k[ax][d]) * MD * GRID[0] * GRID[1] * GRID[2] / GRID[ax] ** 2
            faces.append((c, d, T, P[c] - P[d] + grav * rw, P[c] - P[d] + grav * rg + pc[c] - pc[d]))
    for c, d, T, pw, pg in faces:
        for x in (pw, pg):
            env.decide(env.gt(x, 0))
    Seam(env, sim, P)
    env.check("step succeeds", env.true(sim.run_step(dt)))
    env.assume(interior(env, fl, lim))
    w, g = env.vals(fl.s_w), env.vals(fl.s_g)
    env.observe("sw", w)
    env.observe("sg", g)
    PV = GRID[0] * GRID[1] * GRID[2] * 0.2
    dw, dg = [0] * n, [0] * n
    for c, d, T, pw, pg in faces:
        fw = T / PV * dt * env.ite(env.gt(pw, 0), mw[c], mw[d]) * pw
        fg = T / PV * dt * env.ite(env.gt(pg, 0), mg[c], mg[d]) * pg
        dw[c], dw[d], dg[c], dg[d] = dw[c] - fw, dw[d] + fw, dg[c] - fg, dg[d] + fg
    for c in range(n):
        env.check("water flux", env.eq(w[c] - w0[c], dw[c], 5e-5))
        env.check("gas flux", env.eq(g[c] - g0[c], dg[c], 5e-5))


def run(env, case):
    if case.get("fixed"):
        return run_fixed(env, case)
    ax, n = case["axis"], case["n"]
    dims = [1, 1, 1]
    dims[ax] = n
    dims = tuple(dims)
    lim = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.05)
    res = make_reservoir(env, dims, GRID)
    k = dict(kx=[100.0, 300.0, 50.0][:n], ky=[60.0, 20.0, 90.0][:n], kz=[5.0, 45.0, 11.0][:n])
    set_perm(env, res, **k)
    no = case["no"]
    cfg = dict(relative_permeability=dict(lim, nw=no, no=2, ng=no), rho_water=1013.0, rho_gas=40.0,
               mu_water=0.5, mu_gas=0.02, mu_oil=3.0)
    if case["pcog"]:
        cfg["capillary_pressure_og"] = dict(pc_scale=env.real("pc_scale", 1000, 100000), pc_exponent=1)
    fl = make_fluid(env, res, **cfg)
    sim = make_sim(env, res, fl, solver_type="impes", max_substeps=1)
    w0, g0 = set_state(env, fl, dims, lim, env.tensor("P0", dims, PMIN, PMAX))
    mw, mo, mg = mobilities(env, fl)
    pc = env.vals(fl.get_capillary_pressure_og(fl.s_g)) if case["pcog"] else [0] * n
    dt = env.real("dt", 3600, 10 * DAY)
    P = env.vals(env.tensor("Pnew", dims, PMIN, PMAX))
    Seam(env, sim, P)
    ok = sim.run_step(dt)
    env.check("step succeeds", env.true(ok))
    env.assume(interior(env, fl, lim))
    rw, rg = env.vals(fl.rho_w), env.vals(fl.rho_g)           # densities at the new pressure
    w, g = env.vals(fl.s_w), env.vals(fl.s_g)
    env.observe("sw", w)
    env.observe("sg", g)
    kk = k[("kx", "ky", "kz")[ax]]
    area = GRID[0] * GRID[1] * GRID[2] / GRID[ax]
    PV = GRID[0] * GRID[1] * GRID[2] * 0.2
    fw, fg = [], []
    for a in range(n - 1):
        b = a + 1
        T = 2 * kk[a] * kk[b] / (kk[a] + kk[b]) * MD * area / GRID[ax]
        grav = 1 if ax == 2 else 0
        pw = P[a] - P[b] + grav * 9.81 * GRID[2] * (rw[a] + rw[b]) / 2
        pg = P[a] - P[b] + grav * 9.81 * GRID[2] * (rg[a] + rg[b]) / 2 + pc[a] - pc[b]
        fw.append(T / PV * dt * env.ite(env.gt(pw, 0), mw[a], mw[b]) * pw)
        fg.append(T / PV * dt * env.ite(env.gt(pg, 0), mg[a], mg[b]) * pg)
    for c in range(n):
        env.check("water flux", env.eq(w[c] - w0[c], (fw[c - 1] if c else 0) - (fw[c] if c < n - 1 else 0), 5e-5))
        env.check("gas flux", env.eq(g[c] - g0[c], (fg[c - 1] if c else 0) - (fg[c] if c < n - 1 else 0), 5e-5))
