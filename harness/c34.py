"""The Newton matrix is the derivative of the residual."""
from .common import *
from .c27 import Stop

PROPERTY = "C34"
BOUNDS = ("grids of two cells in each direction and three along x, unequal cell sizes, permeabilities and porosities; every pressure from 10 to 40 MPa with neighbours 2 to 20 MPa apart in either order (and, vertically, a rise between the weights of oil and water), "
          "capillary scales zero and up to 100 kPa, rates to 500 m3/day and bottom-hole pressures to 50 MPa, step lengths from one to 30 days; each pressure and saturation perturbed in turn")
ASSUMPTIONS = ["incompressible fluids and rock (the accumulation terms treat porosity approximately, by design)", "saturations on listed values with quadratic curves and capillary exponent 1; "
               "a derivative is decided by central differences of half-width 1e-4 (saturation) and 1 kPa (pressure) on one side of every upstream switch"]
OPTS = dict(time=200, max_paths=400)


def cases(tier):
    out = []
    for d in ((2, 1, 1), (1, 2, 1), (1, 1, 2)):
        out.append(dict(name="flow_%d%d%d" % d, dims=d))
        out.append(dict(name="pc_%d%d%d" % d, dims=d, pc=True))
    out.append(dict(name="flow_311", dims=(3, 1, 1)))
    out.append(dict(name="between_112", dims=(1, 1, 2), between=True))
    for w in ("producer", "injector", "bhp"):
        out.append(dict(name="well_" + w, dims=(1, 1, 1), well=w))
    if tier == "thorough":
        out += [dict(name="flow_%d%d%d" % d, dims=d) for d in ((2, 2, 1), (2, 1, 2), (1, 1, 3))] + [dict(name="pc_311", dims=(3, 1, 1), pc=True)]
    return out


def run(env, case):
    dims = case["dims"]
    n = ncell(dims)
    res = make_reservoir(env, dims, (10.0, 20.0, 5.0))
    set_perm(env, res, *[[2e6 + 7e5 * ((3 * c + a) % 4) for c in range(n)] for a in range(3)])
    res.porosity = env.tensor_of([0.1 + 0.05 * c for c in range(n)], dims)
    res.porous_volume = res.cell_volume * res.porosity
    res.rock_compressibility = 0.0
    cfg = dict(relative_permeability=dict(sw_cr=0.1, so_r=0.15, nw=2, no=2), c_oil=0.0, c_water=0.0)
    if case.get("pc"):
        cfg["capillary_pressure"] = dict(pc_scale=env.real("pc", 1e3, 1e5), pc_exponent=1)
    fl = make_fluid(env, res, **cfg)
    w = case.get("well")
    ws = []
    if w == "bhp":
        ws = [well(control_type="bhp", control_value=env.real("b", 1, 50))]
    elif w:
        ws = [well(type=w, control_value=env.real("q", 0, 500))]
    sim = make_sim(env, res, fl, make_wells(env, res, ws), solver_type="fully_implicit")
    for x in sim.well_manager.get_wells():
        x.well_index = 1e-10
    dt = env.real("dt", DAY, 30 * DAY)
    p = [env.real("p0", 1e7, 4e7)]
    for c in range(1, n):
        # between: the rise lies between the weights of an oil and a water column, so the phases switch sides apart
        up = True if case.get("between") else env.bool("rises%d" % c)
        d = env.real("drop%d" % c, *((4.4e4, 4.7e4) if case.get("between") else (2e6, 2e7)))
        p.append(p[-1] + d if up else p[-1] - d)
    s = env.choice("s", [[0.35, 0.6, 0.45, 0.55], [0.7, 0.25, 0.5, 0.3]])[:n]

    real = sim._assemble_residual_and_jacobian_batch

    def system(p, s):
        got = []

        def wrap(residual, jacobian, *a, **k):
            real(residual, jacobian, *a, **k)
            got.extend((env.vals(residual), env.vals(jacobian)))
            raise Stop()
        fl.pressure, fl.s_w = env.tensor_of(p, dims), env.tensor_of(s, dims)
        fl.s_o = 1.0 - fl.s_w
        fl.prev_pressure, fl.prev_sw = env.tensor_of([2e7] * n, dims), env.tensor_of([0.4] * n, dims)
        sim._assemble_residual_and_jacobian_batch = wrap
        try:
            sim._fully_implicit_newton_step(dt)
        except Stop:
            pass
        return got

    r, J = system(p, s)
    N = 2 * n
    env.check("a square system of one water and one oil equation per cell", env.true(len(r) == N and len(J) == N * N))
    env.observe("J", [J[0]])
    for c in range(n):
        for v, x, h in ((0, p, 1e3), (1, s, 1e-4)):
            hi, lo = list(x), list(x)
            hi[c], lo[c] = x[c] + h, x[c] - h
            a = system(*((hi, s) if v == 0 else (p, hi)))[0]
            b = system(*((lo, s) if v == 0 else (p, lo)))[0]
            size = SCALE[v] / (200 if v and case.get("between") else 1) if not w else SCALE_W[w][v]
            for row in range(N):
                env.check("%s equation by %s, %s" % ("oil" if row % 2 else "water", "saturation" if v else "pressure", "same cell" if row // 2 == c else "neighbour"),
                          env.eq((a[row] - b[row]) / (2 * h) / size, J[row * N + 2 * c + v] / size, 1e-3))


# typical entries: flow over 30 days through a face per Pa, and per unit saturation at a 20 MPa drop
SCALE = (2.6e6 * 50 * 2e-9 * 500, 2.6e6 * 50 * 2e-9 * 500 * 1e7)
SCALE_W = dict(bhp=(1e-7, 1.0), injector=(1e-7, 1e-2), producer=(1e-7, 1e-2))
