"""Saturations stay physical after every IMPES step."""
from .common import *

PROPERTY = "C01"
BOUNDS = "one inductive step from an arbitrary admissible state; grids 1x1x1 (each well kind, two wells at once, black-oil table, surface rates and limits), 2x1x1, 1x2x1, 1x1x2 without wells (Corey and Stone curves); up to 2 sub-steps (one cell: 5)"
ASSUMPTIONS = ["the new pressures are arbitrary in 1..60 MPa (the linear solve is replaced by an arbitrary vector)",
               "initial saturations lie within their limits"]
OPTS = dict(time=120, max_paths=600)

WELLS = dict(inj_w=dict(type="injector"), inj_g=dict(type="injector", injected_phase="gas"), prod=dict(type="producer"),
             bhp_p=dict(type="producer", control_type="bhp"), bhp_w=dict(type="injector", control_type="bhp"),
             bhp_g=dict(type="injector", control_type="bhp", injected_phase="gas"),
             surf_g=dict(type="injector", injected_phase="gas", control_type="rate", rate_type="surface"),
             surf_w=dict(type="injector", control_type="rate", rate_type="surface"),
             surf_o=dict(type="producer", control_type="rate", rate_type="surface", surface_phase="oil"),
             surf_gp=dict(type="producer", control_type="rate", rate_type="surface", surface_phase="gas"),
             limited=dict(type="producer", control_type="rate", limits=dict(wopr=5.0, wgpr=300.0)))


def cases(tier):
    out = [dict(name="flow_x", dims=(2, 1, 1)), dict(name="flow_y", dims=(1, 2, 1)), dict(name="flow_z", dims=(1, 1, 2), pcog=True)]
    for w in WELLS:
        s = w.startswith("surf") or w == "limited"
        out.append(dict(name="well_" + w, dims=(1, 1, 1), well=[w], pvt=s))
    out.append(dict(name="flow_stone", dims=(2, 1, 1), stone=True))
    out.append(dict(name="pair_inj", dims=(1, 1, 1), well=["inj_w", "inj_g"]))
    out.append(dict(name="pair_prod", dims=(1, 1, 1), well=["prod", "inj_w"]))
    out.append(dict(name="pair_bhp", dims=(1, 1, 1), well=["bhp_p", "prod"]))
    for w in ("inj_w", "inj_g", "prod"):
        out.append(dict(name="sub5_" + w, dims=(1, 1, 1), well=[w], sub=5))
    if tier == "thorough":
        out.append(dict(name="flow_3", dims=(3, 1, 1), pcog=True))
        out.append(dict(name="flow_2x2", dims=(2, 2, 1), pcog=True))
    return out


def run(env, case):
    dims = case["dims"]
    one = case.get("pvt") or case.get("sub") or len(case.get("well", ())) == 2
    lim = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.05) if one else sym_limits(env)
    res = make_reservoir(env, dims, (10.0, 10.0, 5.0))
    cfg = dict(relative_permeability=dict(lim, model="stone2") if case.get("stone") else lim)
    if case.get("pvt"):
        cfg["pvt"] = dict(path=env.vfile("pvt.json", TABLE))
    if case.get("pcog"):
        cfg["capillary_pressure_og"] = dict(pc_scale=20000.0, pc_exponent=1)
    fl = make_fluid(env, res, **cfg)
    ws = []
    for k, w in enumerate(case.get("well", ())):
        kw = dict(WELLS[w])
        kw["control_value"] = env.real("control%d" % k, 0, 60) if kw.get("control_type") == "bhp" else env.real("rate%d" % k, 0, 5000)
        ws.append(well("W%d" % k, **kw))
    sim = make_sim(env, res, fl, make_wells(env, res, ws), solver_type="impes", max_substeps=case.get("sub", 2))
    w0, g0 = set_state(env, fl, dims, lim, env.tensor("P0", dims, PMIN, PMAX))
    dt = env.real("dt", 3600, 10 * DAY)
    Pn = env.tensor_of([2.5e7], dims) if case.get("pvt") else env.tensor("Pnew", dims, PMIN, PMAX)
    Seam(env, sim, env.vals(Pn))
    ok = sim.run_step(dt)
    env.check("step succeeds", env.true(ok))
    w, g, o = env.vals(fl.s_w), env.vals(fl.s_g), env.vals(fl.s_o)
    for n, v in (("sw", w), ("sg", g), ("so", o)):
        env.observe(n, v)
    for c in range(ncell(dims)):
        env.check("water at or above connate", env.ge(w[c], lim["sw_cr"], 1e-5))
        env.check("gas at or above critical", env.ge(g[c], lim["sg_cr"], 1e-5))
        env.check("oil at or above residual", env.ge(o[c], lim["so_r"], 1e-5))
        env.check("water at most one minus residual", env.le(w[c], 1 - lim["so_r"], 1e-5))
        env.check("sum is one", env.eq(w[c] + g[c] + o[c], 1, 1e-5))
