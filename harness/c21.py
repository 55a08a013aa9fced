"""Every component agrees on which cell an (i, j, k) coordinate means."""
from .common import *

PROPERTY = "C21"
BOUNDS = ("index conversions: grids of the listed shapes up to 6x6x6, every coordinate (symbolic) and every linear number; wells: grids of 4 and 12 cells, coordinates from two cells before the grid to two cells past it, "
          "symbolic rates, IMPES and fully implicit")
ASSUMPTIONS = ["the flattened position of a cell is (i * ny + j) * nz + k, the row-major order of the field arrays"]
OPTS = dict(time=120, max_paths=400)

SHAPES = [(2, 3, 4), (4, 3, 2), (3, 1, 2), (1, 5, 2), (5, 2, 1), (1, 1, 6), (6, 6, 6)]


def cases(tier):
    shapes = SHAPES
    if tier == "thorough":
        shapes = sorted(set(SHAPES) | {(a, b, c) for a in range(1, 6) for b in range(1, 6) for c in range(1, 6) if len({a, b, c}) == 3 or 1 in (a, b, c)})
    out = [dict(name="numbers_%d%d%d" % d, kind="numbers", dims=d) for d in shapes]
    for d in ((3, 2, 2), (2, 1, 2)) + (((2, 3, 2), (1, 2, 3)) if tier == "thorough" else ()):
        for kind in ("impes", "implicit"):
            out += [dict(name="%s_%d%d%d" % ((kind,) + d), kind=kind, dims=d, out=False), dict(name="%s_outside_%d%d%d" % ((kind,) + d), kind=kind, dims=d, out=True)]
    out.append(dict(name="bhp_222", kind="impes", dims=(2, 2, 2), out=False, bhp=True))
    return out


def coord(env, dims, out):
    if not out:
        return [env.choice(c, list(range(d))) for c, d in zip("ijk", dims)]
    ax = env.choice("axis", [0, 1, 2])
    c = [d - 1 for d in dims]
    c[ax] = env.choice("where", [-2, -1, dims[ax], dims[ax] + 1])
    return c


def setup(env, dims, wells, **par):
    res = make_reservoir(env, dims)
    fl = make_fluid(env, res)
    sim = make_sim(env, res, fl, make_wells(env, res, wells), **par)
    set_state(env, fl, dims, dict(sw_cr=0.0, so_r=0.0, sg_cr=0.0), env.tensor_of([2e7] * ncell(dims), dims), sats=[(0.5, 0.0)] * ncell(dims))
    return sim, fl


def run(env, case):
    dims = case["dims"]
    n = ncell(dims)
    if case["kind"] == "numbers":
        nx, ny, nz = dims
        res = make_reservoir(env, dims)
        fl = make_fluid(env, res)
        i, j, k = [env.int(c, 0, d - 1) for c, d in zip("ijk", dims)]
        W = env.mod("simulator.well").Well
        w = W("W", "producer", i, j, k, 0.1, "rate", 1.0, res.dimensions)
        sim = make_sim(env, res, fl, solver_type="impes", max_substeps=1)
        want = (i * ny + j) * nz + k
        got = dict(reservoir=res.get_cell_indices(i, j, k), well=w.cell_index_flat, simulator=sim._ijk_to_idx(i, j, k, nx, ny))
        for who, v in got.items():
            env.check("number given by the " + who, env.eq(v, want, 0))
            env.check("within the grid", env.all(env.ge(v, 0, 0), env.le(v, n - 1, 0)))
        back = sim._idx_to_ijk(want, nx, ny)
        env.check("and back", env.all([env.eq(a, b, 0) for a, b in zip(back, (i, j, k))]))
        idx = env.int("idx", 0, n - 1)
        c = sim._idx_to_ijk(idx, nx, ny)
        env.check("coordinates within the grid", env.all([env.all(env.ge(x, 0, 0), env.le(x, d - 1, 0)) for x, d in zip(c, dims)]))
        env.check("and forth", env.eq(sim._ijk_to_idx(c[0], c[1], c[2], nx, ny), idx, 0))
        env.observe("c", [c[0], c[1], c[2]])
        return
    c = coord(env, dims, case["out"])
    at = None if case["out"] else flat(dims, *c)
    q = env.real("q", 0.1, 20)
    ctl = dict(control_type="bhp", control_value=22.0) if case.get("bhp") else dict(control_type="rate", control_value=q)
    ws = [well(type="injector", i=c[0], j=c[1], k=c[2], **ctl)]
    if case["kind"] == "impes":
        par = dict(solver_type="impes", max_substeps=1)
        s0, f0 = setup(env, dims, [], **par)
        s1, f1 = setup(env, dims, ws, **par)
        if case.get("bhp"):
            s1.well_manager.wells[0].well_index = 1e-13
        a, b = Seam(env, s0, [2e7] * n), Seam(env, s1, [2e7] * n)
        env.check("steps succeed", env.true(s0.run_step(DAY) and s1.run_step(DAY)))
        A0, b0 = a.dense()
        A1, b1 = b.dense()
        for r in range(n):
            if r == at and not case.get("bhp"):
                env.check("the well's row gets its rate", env.eq((b1[r] - b0[r]) * DAY, q, 1e-3))
            elif r == at:
                env.check("the well's row gets its term", env.all(env.gt(A1[r][r] * 1e9, A0[r][r] * 1e9), env.gt(b1[r], b0[r])))
            else:
                env.check("no other row changes", env.all([env.eq(b1[r] * 1e5, b0[r] * 1e5, 1e-6)] + [env.eq(A1[r][s] * 1e10, A0[r][s] * 1e10, 1e-6) for s in range(n)]))
        w0, w1 = env.vals(f0.s_w), env.vals(f1.s_w)
        for r in range(n):
            if r == at:
                env.check("the well's cell takes the water", env.gt(w1[r], w0[r]))
            else:
                env.check("no other cell changes", env.eq(w1[r], w0[r], 1e-6))
    else:
        par = dict(solver_type="fully_implicit")
        r = []
        for wells in ([], ws):
            s, f = setup(env, dims, wells, **par)
            p = f.pressure.reshape(-1)
            f.prev_water_mass = 0.2 * f.s_w.reshape(-1) * f.calc_water_density(p) * 1000.0
            f.prev_oil_mass = 0.2 * (1 - f.s_w.reshape(-1)) * f.calc_oil_density(p) * 1000.0
            r.append(env.vals(s._compute_residual_fast(DAY, *dims, 10.0, 10.0, 10.0)))
        for x in range(n):
            if x == at:
                env.check("the well's water equation changes", env.not_(env.eq(r[0][2 * x], r[1][2 * x], 1e-7)))
            else:
                env.check("no other equation changes", env.all([env.eq(r[0][2 * x + y], r[1][2 * x + y], 1e-9) for y in (0, 1)]))
