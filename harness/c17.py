"""The mass balance matches the change of mass in place."""
from .common import *

PROPERTY = "C17"
BOUNDS = ("1 to 8 cells along every axis, with and without wells, gravity, compressible fluids, a black-oil table and saturation substeps, one or two steps; new pressures, saturations, rates, step length and earlier bookings symbolic "
          "(on grids of more than two cells saturations are fixed and only pressures symbolic)")
ASSUMPTIONS = ["the density of a phase is the one the fluid publishes at the new pressure (its definition is C04's subject)"]
OPTS = dict(time=150, max_paths=300)


def cases(tier):
    S8 = [(0.3 + 0.03 * c, 0.2 - 0.01 * c) for c in range(8)]
    out = [dict(name="one_inj", dims=(1, 1, 1), wells=[dict(inj="water")]), dict(name="one_inj_gas", dims=(1, 1, 1), wells=[dict(inj="gas")]),
           dict(name="one_prod", dims=(1, 1, 1), wells=[dict()]), dict(name="idle", dims=(1, 1, 1), wells=[]),
           dict(name="flow_x", dims=(2, 1, 1), sats=S8[:2], wells=[]), dict(name="flow_y", dims=(1, 2, 1), sats=S8[:2], wells=[]), dict(name="flow_z", dims=(1, 1, 2), sats=S8[:2], wells=[]),
           dict(name="flow_pvt", dims=(2, 1, 1), sats=S8[:2], wells=[], pvt=True), dict(name="prod_pvt", dims=(1, 1, 1), sats=S8[:1], wells=[dict()], pvt=True),
           dict(name="inj_pvt", dims=(1, 1, 1), sats=S8[:1], wells=[dict(inj="gas")], pvt=True),
           dict(name="substeps", dims=(2, 1, 1), sats=S8[:2], wells=[], sub=3),
           dict(name="two_steps", dims=(1, 1, 1), sats=S8[:1], wells=[dict(inj="water")], steps=2),
           dict(name="soft_inj", dims=(1, 1, 1), sats=S8[:1], wells=[dict(inj="water")], soft=True), dict(name="soft_prod", dims=(1, 1, 1), sats=S8[:1], wells=[dict()], soft=True),
           dict(name="four", dims=(2, 2, 1), sats=S8[:4], wells=[], some=2)]
    if tier == "thorough":
        out += [dict(name="flow_sym", dims=(2, 1, 1), wells=[]), dict(name="eight", dims=(2, 2, 2), sats=S8, wells=[], some=2)]
    return out


def run(env, case):
    dims = case["dims"]
    n = ncell(dims)
    specs = []
    for m, w in enumerate(case["wells"]):
        kw = dict(name="W%d" % m, control_value=env.real("rate%d" % m, 0.1, 100))
        if w.get("inj"):
            kw.update(type="injector", injected_phase=w["inj"])
        specs.append(kw)
    some = case.get("some", n)
    P = [env.real("p_new%d" % c, 2.3e7, 2.6e7) if c < some else 2.4e7 + 1e5 * c for c in range(n)]
    m = WellCell(env, [well(**s) for s in specs], dims=dims, sats=case.get("sats"), pvt=case.get("pvt", False), P=P)
    if case.get("soft"):
        # strongly compressible fluids: the densities before and after the step differ by several per cent
        m.fl.water_compressibility, m.fl.oil_compressibility, m.fl.gas_compressibility = 0.4e-8, 1e-8, 4e-8
    if case.get("sub"):
        m.sim.sim_params["max_substeps"] = case["sub"]
    mb = m.sim.mass_balance
    for p in ("water", "oil", "gas"):
        for side in ("in", "out"):
            mb[p][side] = env.real("booked_%s_%s" % (p, side), 0, 1e8)
    fl = m.fl
    for step in range(case.get("steps", 1)):
        old = {(p, s): env.val(mb[p][s]) for p in ("water", "oil", "gas") for s in ("in", "out")}
        w0, g0 = env.vals(fl.s_w), env.vals(fl.s_g)
        env.check("step succeeds", env.true(m.sim.run_step(m.dt)))
        w1, g1 = env.vals(fl.s_w), env.vals(fl.s_g)
        for c in range(n):
            env.check("pressure is the new one", env.eq(env.vals(fl.pressure)[c], P[c], 10))
        rho = dict(water=env.vals(fl.rho_w), oil=env.vals(fl.rho_o), gas=env.vals(fl.rho_g))
        dS = dict(water=[a - b for a, b in zip(w1, w0)], gas=[a - b for a, b in zip(g1, g0)])
        dS["oil"] = [-(a + b) for a, b in zip(dS["water"], dS["gas"])]
        for p in ("water", "oil", "gas"):
            dm = [dS[p][c] * m.pv[c] * rho[p][c] for c in range(n)]
            din, dout = env.val(mb[p]["in"]) - old[p, "in"], env.val(mb[p]["out"]) - old[p, "out"]
            env.observe("%s" % p, [din / 1000, dout / 1000])
            # kg, of cells holding some hundred tonnes, and of books of up to 1e8 kg
            env.check("%s: in minus out is the change in place" % p, env.eq(din - dout, sum(dm), 30))
            env.check("%s: gains are booked in" % p, env.eq(din, sum(env.max(x, 0) for x in dm), 30))
            env.check("%s: losses are booked out" % p, env.eq(dout, sum(env.max(-x, 0) for x in dm), 30))
            env.check("%s: in and out only grow" % p, env.all(env.ge(din, 0, 30), env.ge(dout, 0, 30)))
