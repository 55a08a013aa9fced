"""Densities are positive, pressure-consistent and agree everywhere."""
from .common import *

PROPERTY = "C13"
BOUNDS = "two-cell fields; PVT tables of 2 entries with symbolic values in every column (with and without a vaporised-oil column) and 3 entries with fixed values; symbolic surface densities, compressibilities and pressures from 0.1 to 100 MPa"
ASSUMPTIONS = ["pressures of the two-entry cases lie inside the table; outside it interpolation holds the end value (C11)"]
OPTS = dict(time=120, max_paths=300)


def cases(tier):
    out = [dict(name="pvt", pvt=True), dict(name="pvt_no_rv", pvt=True, no_rv=True), dict(name="linear"), dict(name="linear_defaults", defaults=True),
           dict(name="pvt3", pvt=True, fixed=True), dict(name="edges", pvt=True, fixed=True, edges=True)]
    return out


COLS = dict(Bo=("Bo", 1.0, 2.0), Bw=("Bw", 0.9, 1.1), Bg=("Bg", 0.002, 0.1), Rs=("Rs_m3m3", 0, 200), Rv=("Rv_m3m3", 0, 0.1))


def run(env, case):
    dims = (2, 1, 1)
    res = make_reservoir(env, dims)
    ref = dict(rho_oil=env.real("rho_oil", 600, 1000), rho_water=env.real("rho_water", 950, 1200), rho_gas=env.real("rho_gas", 0.5, 2))
    cfg = dict(ref)
    if not case.get("pvt"):
        comp = {}
        if not case.get("defaults"):
            comp = dict(c_oil=env.real("c_oil", 0, 1e-2), c_water=env.real("c_water", 0, 1e-2), c_gas=env.real("c_gas", 0, 0.5))
        cfg.update(comp)
        comp = comp or dict(c_oil=1e-5, c_water=1e-5, c_gas=1e-3)
        fl = make_fluid(env, res, **cfg)
        p = [env.real("p%d" % i, 1e5, 1e8) for i in range(2)]
        env.assume(env.le(p[0], p[1], 0))
        fl.pressure = env.tensor_of(p, dims)
        same(env, fl)
        for f, r, c in ((fl.rho_w, "rho_water", "c_water"), (fl.rho_o, "rho_oil", "c_oil"), (fl.rho_g, "rho_gas", "c_gas")):
            v = env.vals(f)
            env.observe(r, [x / ref[r] for x in v])
            env.check(r + " positive", env.all([env.gt(x, 0) for x in v]))
            env.check(r + " never decreases with pressure", env.le(v[0] / ref[r], v[1] / ref[r], 1e-5))
            for x, q in zip(v, p):
                env.check(r + " follows the linear law", env.eq(x, ref[r] * (1 + comp[c] * (q - 1e5) / 1e6), 0.01 if r != "rho_gas" else 1e-3))
        return
    if case.get("fixed"):
        P = [5.0, 20.0, 50.0]
        t = dict(Bo=[1.2, 1.15, 1.1], Bw=[1.03, 1.01, 1.0], Bg=[0.05, 0.01, 0.003], Rs_m3m3=[20.0, 90.0, 95.0], Rv_m3m3=[0.001, 0.01, 0.02])
        p = [env.real("p%d" % i, 5.1e6, 1.99e7) if i == 0 else env.real("p%d" % i, 2.1e7, 4.9e7) for i in range(2)]
        if case.get("edges"):
            p = [env.real("p0", 1e5, 4.9e6), env.real("p1", 5.1e7, 1e8)]
    else:
        P = [5.0, 50.0]
        t = {n: [env.real("%s%d" % (k, i), lo, hi) for i in range(2)] for k, (n, lo, hi) in COLS.items() if not (k == "Rv" and case.get("no_rv"))}
        p = [env.real("p%d" % i, 5.1e6, 4.9e7) for i in range(2)]
    t["pressure_MPa"] = P
    n = len(P)
    t.update(mu_o_cP=[1.0] * n, mu_w_cP=[0.5] * n, mu_g_cP=[0.02] * n)
    fl = make_fluid(env, res, pvt_path=env.vfile("pvt.json", t), **cfg)
    fl.pressure = env.tensor_of(p, dims)
    same(env, fl)
    B = {k: env.vals(fl._eval_pvt(fl.pressure, k)) for k in COLS}
    w, o, g = env.vals(fl.rho_w), env.vals(fl.rho_o), env.vals(fl.rho_g)
    env.observe("rho", w + o)
    for i in range(2):
        env.check("water mass of a reservoir volume", env.eq(w[i] * B["Bw"][i], ref["rho_water"], 0.01))
        env.check("oil mass with dissolved gas", env.eq(o[i] * B["Bo"][i], ref["rho_oil"] + B["Rs"][i] * ref["rho_gas"], 0.01))
        env.check("gas mass with vaporised oil", env.eq(g[i] * B["Bg"][i], ref["rho_gas"] + (0 if case.get("no_rv") else B["Rv"][i]) * ref["rho_oil"], 1e-3))
        for x in (w[i], o[i], g[i]):
            env.check("positive", env.gt(x, 0))


def same(env, fl):
    for a, f in ((fl.rho_w, fl.calc_water_density), (fl.rho_o, fl.calc_oil_density), (fl.rho_g, fl.calc_gas_density)):
        env.check("same density from both interfaces", env.all([env.eq(x, y, 1e-2) for x, y in zip(env.vals(a), env.vals(f(fl.pressure)))]))
