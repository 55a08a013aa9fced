"""Fully implicit residuals conserve mass between cells."""
from .common import *

PROPERTY = "C27"
BOUNDS = ("grids of two and three cells in each direction and 2x2x1 and 2x1x2 blocks, cell sizes unequal, unequal permeabilities and porosities, every pressure from 0.1 to 100 MPa and saturation (current and previous), "
          "capillary scales zero and up to 1 MPa, step lengths from an hour to 30 days")
ASSUMPTIONS = ["capillary exponent 1 and quadratic relative permeabilities where capillarity is on", "grids above two cells have saturations on listed values in the capillary cases"]
OPTS = dict(time=200, max_paths=500)


class Stop(Exception):
    pass


def cases(tier):
    out = []
    for d in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (2, 2, 1), (1, 1, 3), (2, 1, 2)) + (((1, 3, 1), (1, 2, 2)) if tier == "thorough" else ()):
        out.append(dict(name="conserve_%d%d%d" % d, kind="conserve", dims=d))
    for d in ((2, 1, 1), (1, 2, 1), (1, 1, 2)):
        out.append(dict(name="conserve_pc_%d%d%d" % d, kind="conserve", dims=d, pc=True))
    for d in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2)) + (((1, 2, 2), (3, 1, 1)) if tier == "thorough" else ()):
        out.append(dict(name="same_%d%d%d" % d, kind="same", dims=d))
        if ncell(d) < 4:
            out.append(dict(name="same_pc_%d%d%d" % d, kind="same", dims=d, pc=True))
            out.append(dict(name="same_wells_%d%d%d" % d, kind="same", dims=d, wells=True))
    out += [dict(name="rest_%d%d%d" % d, kind="rest", dims=d) for d in ((2, 1, 1), (2, 2, 1), (3, 2, 1))]
    out += [dict(name="axes", kind="axes", dims=(2, 1, 1)), dict(name="axes_pc", kind="axes", dims=(2, 1, 1), pc=True), dict(name="axes_3", kind="axes", dims=(3, 1, 1))]
    return out


def build(env, case, dims, swap=False):
    G = (10.0, 20.0, 5.0)
    if swap:
        G = (20.0, 10.0, 5.0)
    n = ncell(dims)
    res = make_reservoir(env, dims, G if not swap else (20.0, 10.0, 5.0))
    K = [[2e6 + 7e5 * ((3 * c + a) % 4) for c in range(n)] for a in range(3)]
    if case["kind"] == "axes":
        K = [[2e6 + 7e5 * c for c in range(n)]] * 3
    set_perm(env, res, *K)
    res.porosity = env.tensor_of([0.1 + 0.05 * c for c in range(n)], dims)
    res.porous_volume = res.cell_volume * res.porosity
    cfg = dict(relative_permeability=dict(sw_cr=0.0, so_r=0.0, nw=2, no=2), c_oil=1e-3, c_water=5e-4)
    if case.get("pc"):
        cfg["capillary_pressure"] = dict(pc_scale=env.real("pc", 1e3, 1e6), pc_exponent=1)
    fl = make_fluid(env, res, **cfg)
    ws = []
    if case.get("wells"):
        ws = [[well(type="injector", control_value=env.real("q", 0, 100), i=dims[0] - 1, j=dims[1] - 1, k=dims[2] - 1)], [well(control_value=env.real("q", 0, 100))],
              [well(control_type="bhp", control_value=env.real("b", 1, 50), i=dims[0] - 1, j=dims[1] - 1, k=dims[2] - 1)]][env.choice("well", [0, 1, 2])]
    sim = make_sim(env, res, fl, make_wells(env, res, ws), solver_type="fully_implicit")
    for w in sim.well_manager.get_wells():
        w.well_index = 1e-10
    return sim, fl, res


def assembled(env, sim, dt):
    """the residual of the Newton system at the current state"""
    got = []
    real = sim._assemble_residual_and_jacobian_batch

    def wrap(residual, jacobian, *a, **k):
        real(residual, jacobian, *a, **k)
        got.extend(env.vals(residual))
        raise Stop()
    sim._assemble_residual_and_jacobian_batch = wrap
    try:
        sim._fully_implicit_newton_step(dt)
    except Stop:
        pass
    sim._assemble_residual_and_jacobian_batch = real
    return got


def fast(env, sim, res, dt):
    dx, dy, dz = res.grid_size
    return env.vals(sim._compute_residual_fast(dt, *[int(x) for x in res.dimensions], dx, dy, dz))


def run(env, case):
    kind, dims = case["kind"], case["dims"]
    n = ncell(dims)
    dt = env.real("dt", 3600, 30 * DAY)
    sim, fl, res = build(env, case, dims)
    M = 1e3
    if kind == "rest":
        p, s = env.real("p", 1e5, 1e8), env.real("s", 0.05, 0.95)
        fl.pressure, fl.s_w = env.tensor_of([p] * n, dims), env.tensor_of([s] * n, dims)
        fl.prev_pressure, fl.prev_sw = fl.pressure.clone(), fl.s_w.clone()
        for r in (assembled(env, sim, dt), fast(env, sim, res, dt)):
            env.check("one water and one oil equation per cell", env.true(len(r) == 2 * n))
            env.check("nothing moves at rest", env.all([env.eq(x / M, 0, 1e-5) for x in r]))
        return
    P = env.tensor("p", dims, 1e5, 1e8)
    S = env.tensor("s", dims, 0.05, 0.95)
    P0, S0 = env.tensor("p0_", dims, 1e5, 1e8), env.tensor("s0_", dims, 0.05, 0.95)
    if case.get("pc"):
        v = [env.choice("s%d" % c, [0.2, 0.7]) for c in range(n)]
        S = env.tensor_of(v, dims)
    fl.pressure, fl.s_w, fl.prev_pressure, fl.prev_sw = P, S, P0, S0
    fl.s_o = 1.0 - fl.s_w
    full = assembled(env, sim, dt)
    quick = fast(env, sim, res, dt)
    env.check("one water and one oil equation per cell", env.true(len(full) == len(quick) == 2 * n))
    env.observe("water", [full[0] / M])
    if kind == "same":
        for a, b in zip(full, quick):
            env.check("the line search uses the residual of the system", env.eq(a / M, b / M, 1e-5))
    elif kind == "conserve":
        V = env.vals(res.cell_volume)[0]
        phi = env.vals(res.porosity)
        rw = [env.vals(fl.calc_water_density(x.reshape(-1))) for x in (P, P0)]
        ro = [env.vals(fl.calc_oil_density(x.reshape(-1))) for x in (P, P0)]
        s, s0 = env.vals(S), env.vals(S0)
        dw = env.sum([phi[c] * V * (s[c] * rw[0][c] - s0[c] * rw[1][c]) for c in range(n)])
        do = env.sum([phi[c] * V * ((1 - s[c]) * ro[0][c] - (1 - s0[c]) * ro[1][c]) for c in range(n)])
        for r in (full, quick):
            env.check("water residuals add up to the change of water in place", env.eq(env.sum(r[0::2]) / M, dw / M, 1e-5))
            env.check("oil residuals add up to the change of oil in place", env.eq(env.sum(r[1::2]) / M, do / M, 1e-5))
    else:
        # the same cells laid out along y, sizes exchanged
        d2 = (dims[1], dims[0], dims[2])
        sim2, fl2, res2 = build(env, case, d2, swap=True)
        fl2.pressure, fl2.s_w, fl2.prev_pressure, fl2.prev_sw = [x.reshape(d2) for x in (P, S, P0, S0)]
        fl2.s_o = 1.0 - fl2.s_w
        for a, b in ((full, assembled(env, sim2, dt)), (quick, fast(env, sim2, res2, dt))):
            for x, y in zip(a, b):
                env.check("both horizontal directions are treated alike", env.eq(x / M, y / M, 1e-5))
