"""Shared set-up for harnesses: a small reservoir model built through the public classes."""

DAY = 86400.0


def grid_iter(dims):
    for i in range(dims[0]):
        for j in range(dims[1]):
            for k in range(dims[2]):
                yield i, j, k


def flat(dims, i, j, k):
    """position of a cell in the flattened field arrays"""
    return (i * dims[1] + j) * dims[2] + k


def faces(dims):
    """(axis, cell, neighbour) for every interior face, cells as flattened positions"""
    for i, j, k in grid_iter(dims):
        a = flat(dims, i, j, k)
        if i + 1 < dims[0]:
            yield 0, a, flat(dims, i + 1, j, k)
        if j + 1 < dims[1]:
            yield 1, a, flat(dims, i, j + 1, k)
        if k + 1 < dims[2]:
            yield 2, a, flat(dims, i, j, k + 1)


def ncell(dims):
    return dims[0] * dims[1] * dims[2]


def make_reservoir(env, dims=(2, 1, 1), grid=(10.0, 10.0, 10.0), **cfg):
    R = env.mod("simulator.reservoir").Reservoir
    c = dict(dimensions=list(dims), grid_size=list(grid), porosity=0.2, permeability=100.0)
    c.update(cfg)
    return R(c, device=env.torch.device("cpu"))


def make_fluid(env, res, **cfg):
    F = env.mod("simulator.fluid").Fluid
    return F(dict(cfg), res, device=env.torch.device("cpu"))


def make_wells(env, res, wells=()):
    W = env.mod("simulator.well").WellManager
    return W(list(wells), res)


def make_sim(env, res, fluid, wells=None, **params):
    S = env.mod("simulator.simulation").Simulator
    wm = wells if wells is not None else make_wells(env, res)
    return S(res, fluid, wm, dict(params), device=env.torch.device("cpu"))


def well(name="W", **kw):
    d = dict(name=name, type="producer", i=0, j=0, k=0, radius=0.1, control_type="rate", control_value=10.0)
    d.update(kw)
    return d


class Seam:
    """stands in for the linear solver of the pressure equation: records the assembled system and
    returns the given new pressures; `script` gives the verdicts of successive calls"""

    def __init__(self, env, sim, P, script=None):
        self.calls = []
        self.P = P
        self.script = list(script) if script is not None else None
        self.env = env
        sim._solve_pressure_cg_pytorch = self.solve

    def solve(self, A, b, x0=None, M_diag=None, tol=1e-6, max_iter=500):
        self.calls.append(dict(A=A, b=b, tol=tol, max_iter=max_iter, M=M_diag))
        ok = True
        if self.script is not None:
            ok = self.script.pop(0)
        P = self.P(len(self.calls) - 1) if callable(self.P) else self.P
        return self.env.tensor_of(P, (len(P),)), ok

    def dense(self, n=0):
        """A as a list of rows, b as a list"""
        e = self.env
        A = self.calls[n]["A"]
        N = e.shape(A)[0]
        v = e.vals(A.to_dense())
        return [v[r * N:(r + 1) * N] for r in range(N)], e.vals(self.calls[n]["b"])


LIMITS = dict(sw_cr=(0.0, 0.3), so_r=(0.0, 0.3), sg_cr=(0.0, 0.1))


def sym_limits(env):
    return {k: env.real(k, *v) for k, v in LIMITS.items()}


def set_state(env, fl, dims, lim, P=None, name="", margin=0, sats=None):
    """arbitrary admissible saturations (or the given ones), and the given pressures, as the current state"""
    n = ncell(dims)
    if sats is not None:
        sw, sg = env.tensor_of([s[0] for s in sats], dims), env.tensor_of([s[1] for s in sats], dims)
    else:
        sw = env.tensor("sw" + name, dims, 0, 1)
        sg = env.tensor("sg" + name, dims, 0, 1)
    w, g = env.vals(sw), env.vals(sg)
    for c in range(n):
        env.assume(env.all(env.ge(w[c], lim["sw_cr"] + margin, 0), env.ge(g[c], lim["sg_cr"] + margin, 0),
                           env.le(w[c] + g[c], 1 - lim["so_r"] - margin, 0)))
    fl.s_w, fl.s_g = sw, sg
    fl.s_o = 1.0 - fl.s_w - fl.s_g
    fl.prev_sw, fl.prev_sg = fl.s_w.clone(), fl.s_g.clone()
    if P is not None:
        fl.pressure = P
        fl.prev_pressure = fl.pressure.clone()
    return w, g


PMIN, PMAX = 1e6, 6e7

MD = 9.869233e-16


def set_perm(env, res, kx=None, ky=None, kz=None):
    """per-cell permeabilities in mD"""
    dims = tuple(res.dimensions)
    for n, k in (("permeability_x", kx), ("permeability_y", ky), ("permeability_z", kz)):
        if k is not None:
            setattr(res, n, env.tensor_of([v * MD for v in k], dims))


def interior(env, fl, lim, margin=1e-4):
    """no cell is at a saturation limit"""
    w, g, o = env.vals(fl.s_w), env.vals(fl.s_g), env.vals(fl.s_o)
    return env.all([env.all(env.ge(w[c], lim["sw_cr"] + margin, 0), env.ge(g[c], lim["sg_cr"] + margin, 0),
                            env.ge(o[c], lim["so_r"] + margin, 0)) for c in range(len(w))])


def mobilities(env, fl):
    """phase mobilities per cell (water, oil, gas), from the published curves and viscosities"""
    kro, krw, krg = fl.get_rel_perms(fl.s_w, fl.s_g)
    return ([k / fl.mu_water for k in env.vals(krw)], [k / fl.mu_oil for k in env.vals(kro)], [k / fl.mu_gas for k in env.vals(krg)])


# a small black-oil table: every column differs, volume factors fall with pressure
TABLE = dict(pressure_MPa=[10.0, 50.0], Bo=[1.3, 1.1], Bw=[1.05, 0.97], Bg=[0.02, 0.004], mu_o_cP=[2.0, 1.0],
             mu_w_cP=[0.5, 0.6], mu_g_cP=[0.02, 0.03], Rs_m3m3=[40.0, 100.0], Rv_m3m3=[0.001, 0.005])


class WellCell:
    """one cell with one well and a black-oil table (or constant properties): the set-up of the
    well properties.  `P` is the pressure the linear solve returns, concrete unless given."""

    def __init__(self, env, wells, pvt=True, P=2.5e7, P0=None, dims=(1, 1, 1), lim=None, swell=True, pv=None, margin=0.0, table=None, sats=None, dt=None, **par):
        self.env = env
        self.dims = dims
        n = ncell(dims)
        self.lim = lim or dict(sw_cr=0.15, so_r=0.2, sg_cr=0.05)
        self.res = make_reservoir(env, dims)
        cfg = dict(relative_permeability=dict(self.lim, nw=2, no=2, ng=2))
        if pvt:
            cfg["pvt"] = dict(path=env.vfile("pvt.json", table or TABLE))
        self.fl = make_fluid(env, self.res, **cfg)
        self.wells = make_wells(env, self.res, wells)
        self.sim = make_sim(env, self.res, self.fl, self.wells, solver_type="impes", max_substeps=1, **par)
        self.P = P if isinstance(P, list) else [P] * n
        self.P0 = env.tensor_of(P0 if isinstance(P0, list) else [P0 if P0 is not None else 2.4e7] * n, dims)
        self.w, self.g = set_state(env, self.fl, dims, self.lim, self.P0, margin=margin, sats=sats)
        self.dt = dt or env.real("dt", 3600, 10 * DAY)
        self.pv = env.vals(self.res.porous_volume)
        self.seam = Seam(env, self.sim, self.P)
        Pt = env.tensor_of(self.P, dims)
        ev = lambda k: env.vals(self.fl._eval_pvt(Pt, k))
        kro, krw, krg = self.fl.get_rel_perms(self.fl.s_w, self.fl.s_g)
        if pvt:
            self.B = {k: ev(k) for k in ("Bo", "Bw", "Bg", "Rs", "Rv")}
            mu = {k: self.fl._eval_pvt(Pt, k) * 1e-3 for k in ("mu_o", "mu_w", "mu_g")}
        else:
            self.B = None
            mu = dict(mu_o=self.fl.mu_oil, mu_w=self.fl.mu_water, mu_g=self.fl.mu_gas)
        mw, mo, mg = krw / mu["mu_w"], kro / mu["mu_o"], krg / mu["mu_g"]
        mt = mw + mo + mg
        self.mt = env.vals(mt)
        # fractional flows (the published mobilities of each phase over their sum)
        self.f = [env.vals(m / (mt + 1e-10)) for m in (mw, mo, mg)]

    def den(self, c=0):
        """surface oil, water, gas and liquid per unit of reservoir volume withdrawn from a cell"""
        fw, fo, fg = [x[c] for x in self.f]
        B = {k: v[c] for k, v in self.B.items()}
        o = fo / B["Bo"] + fg * B["Rv"] / B["Bg"]
        w = fw / B["Bw"]
        g = fg / B["Bg"] + fo * B["Rs"] / B["Bo"]
        return dict(oil=o, water=w, gas=g, liquid=o + w)

    def step(self):
        e = self.env
        ok = self.sim.run_step(self.dt)
        e.check("step succeeds", e.true(ok))
        w, g = e.vals(self.fl.s_w), e.vals(self.fl.s_g)
        # volumes gained by the grid
        self.gain_w = [self.pv[c] * (w[c] - self.w[c]) for c in range(len(w))]
        self.gain_g = [self.pv[c] * (g[c] - self.g[c]) for c in range(len(g))]
        self.w1, self.g1 = w, g
