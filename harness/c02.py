"""Transport conserves phase volume and honours well volumes."""
from .common import *

PROPERTY = "C02"
BOUNDS = "one step from an arbitrary state; grids 2x1x1, 1x2x1, 1x1x2, 3x1x1, 2x2x1 (thorough also 2x2x2); up to 2 sub-steps; fixed unequal porosities; wells on 1 cell: each kind alone, and pairs sharing the cell"
ASSUMPTIONS = ["the new pressures are arbitrary in 1..60 MPa (the linear solve is replaced by an arbitrary vector)",
               "pressure-controlled wells are given a well index of realistic size in SI units", "the end state lies at least 1e-4 inside the saturation limits in every cell, and the well alone does not fill or empty its cell"]
OPTS = dict(time=150, max_paths=400)

WELLS = dict(inj_w=dict(type="injector"), inj_g=dict(type="injector", injected_phase="gas"), prod=dict(type="producer"),
             bhp_p=dict(type="producer", control_type="bhp"), bhp_w=dict(type="injector", control_type="bhp"),
             bhp_g=dict(type="injector", control_type="bhp", injected_phase="gas"))


def cases(tier):
    out = [dict(name="x", dims=(2, 1, 1)), dict(name="y", dims=(1, 2, 1), pcog=True), dict(name="z", dims=(1, 1, 2), pcog=True),
           dict(name="x3", dims=(3, 1, 1), sub=1), dict(name="y3", dims=(1, 3, 1), sub=1), dict(name="z3", dims=(1, 1, 3), sub=1),
           dict(name="xy", dims=(2, 2, 1), sub=1)]
    for w in WELLS:
        out.append(dict(name="well_" + w, dims=(1, 1, 1), well=w, sub=1))
    pairs = [("prod", "bhp_w"), ("inj_w", "inj_g")]
    for a, b in pairs:
        out.append(dict(name="pair_%s_%s" % (a, b), dims=(1, 1, 1), wells=(a, b), sub=1))
    if tier == "thorough":
        out.append(dict(name="x3pc", dims=(3, 1, 1), pcog=True))
        out.append(dict(name="xz", dims=(2, 1, 2), sub=1, pcog=True))
        out.append(dict(name="xyz", dims=(2, 2, 2), sub=1))
    return out


def run(env, case):
    dims = case["dims"]
    n = ncell(dims)
    lim = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.05)
    res = make_reservoir(env, dims, (10.0, 20.0, 5.0))
    phi = [0.1, 0.3, 0.15, 0.25, 0.2, 0.08, 0.35, 0.12][:n]
    res.porosity = env.tensor_of(phi, dims)
    res.porous_volume = res.cell_volume * res.porosity
    cfg = dict(relative_permeability=dict(lim, nw=2, no=2, ng=2))
    if case.get("pcog"):
        cfg["capillary_pressure_og"] = dict(pc_scale=20000.0, pc_exponent=1)
    fl = make_fluid(env, res, **cfg)
    ws = []
    for i, k in enumerate(case.get("wells", [case["well"]] if case.get("well") else [])):
        kw = dict(WELLS[k])
        kw["control_value"] = env.real("control%d" % i, 0, 60) if kw.get("control_type") == "bhp" else env.real("rate%d" % i, 0, 2000)
        ws.append(well(name="W%d" % i, **kw))
    sim = make_sim(env, res, fl, make_wells(env, res, ws), solver_type="impes", max_substeps=case.get("sub", 2))
    w0, g0 = set_state(env, fl, dims, lim, env.tensor("P0", dims, PMIN, PMAX))
    mw, mo, mg = mobilities(env, fl)
    dt = env.real("dt", 3600, 10 * DAY)
    Pn = env.vals(env.tensor("Pnew", dims, PMIN, PMAX))
    Seam(env, sim, Pn)
    tw = tg = 0
    if ws:
        vol = 10.0 * 20.0 * 5.0
        pv = phi[0]
        up = 1 - lim["so_r"] - w0[0] - g0[0]
        mt = mw[0] + mo[0] + mg[0]
        for W in sim.well_manager.get_wells():
            vw = vg = 0
            if W.control_type == "bhp":
                W.well_index = 5e-13                     # a realistic index in SI units
                q = W.well_index * mt * (W.control_value * 1e6 - Pn[0])      # into the reservoir
            else:
                q = W.control_value / DAY * (1 if W.type == "injector" else -1)
            if W.type == "producer":
                vw, vg = q * mw[0] / (mt + 1e-10), q * mg[0] / (mt + 1e-10)
            elif getattr(W, "injected_phase", "water") == "gas":
                vg = q
            else:
                vw = q
            vw, vg = dt * vw / vol, dt * vg / vol
            env.assume(env.all(env.le(vw + 1e-6, pv * up, 0), env.le(vg + 1e-6, pv * up, 0), env.ge(vw - 1e-6, -pv * (w0[0] - lim["sw_cr"]), 0),
                               env.ge(vg - 1e-6, -pv * (g0[0] - lim["sg_cr"]), 0)))
            tw, tg = tw + vw, tg + vg
    ok = sim.run_step(dt)
    env.check("step succeeds", env.true(ok))
    env.assume(interior(env, fl, lim))
    w, g = env.vals(fl.s_w), env.vals(fl.s_g)
    env.observe("sw", w)
    env.observe("sg", g)
    env.check("water volume conserved", env.eq(env.sum(phi[c] * (w[c] - w0[c]) for c in range(n)), tw, 2e-5))
    env.check("gas volume conserved", env.eq(env.sum(phi[c] * (g[c] - g0[c]) for c in range(n)), tg, 2e-5))
