"""The component balance books exactly what the wells actually exchanged."""
from .common import *

PROPERTY = "C16"
BOUNDS = ("one or two cells, one or two wells, one or two steps, every kind of well: producers on total or surface rate, with and without limits, or on bottom-hole pressure (both flow directions), "
          "gas and water injectors on reservoir and surface rate or on bottom-hole pressure; rate, limits, bottom-hole pressure, step length and earlier bookings symbolic; a fixed two-entry PVT table at fixed pressures; "
          "several fixed saturation states for producers, any for injectors")
ASSUMPTIONS = ["what a well exchanged is read off the change of the cell's saturations and the published fractional flows", "pressure-controlled wells: the step leaves the cell inside its saturation window (so that the saturations show what was exchanged)",
               "no flow between the cells: equal pressures"]
OPTS = dict(time=150, max_paths=300)

SATS = dict(mid=(0.4, 0.25), low=(0.2, 0.08), wet=(0.7, 0.06))


def cases(tier):
    out = []
    for ph in ("total", "oil", "water", "gas", "liquid"):
        for s in SATS:
            out.append(dict(name="prod_%s_%s" % (ph, s), sats=[SATS[s]], wells=[dict(ph=ph)]))
    out += [dict(name="limits", sats=[SATS["mid"]], wells=[dict(ph="liquid", lim=("wopr", "wgpr"))]),
            dict(name="limits_res", sats=[SATS["mid"]], wells=[dict(ph="total", lim=("wlpr", "liqr"))]),
            dict(name="bhp_prod_mid", sats=[SATS["mid"]], wells=[dict(bhp=True)]), dict(name="bhp_prod_wet", sats=[(0.6, 0.1)], wells=[dict(bhp=True)]),
            dict(name="inj_gas", wells=[dict(inj="gas")]), dict(name="inj_gas_surface", wells=[dict(inj="gas", surf=True)]),
            dict(name="inj_water", wells=[dict(inj="water")]), dict(name="inj_water_surface", wells=[dict(inj="water", surf=True)]),
            dict(name="bhp_inj_gas", sats=[SATS["mid"]], wells=[dict(inj="gas", bhp=True)]), dict(name="bhp_inj_water", sats=[SATS["mid"]], wells=[dict(inj="water", bhp=True)]),
            dict(name="two_wells", sats=[SATS["mid"], SATS["low"]], dims=(2, 1, 1), wells=[dict(ph="oil"), dict(inj="gas", surf=True)]),
            dict(name="two_producers", sats=[SATS["mid"], SATS["wet"]], dims=(1, 2, 1), wells=[dict(ph="total"), dict(bhp=True)]),
            dict(name="two_steps", sats=[SATS["mid"]], wells=[dict(ph="liquid")], steps=2),
            dict(name="no_wells", wells=[]),
            dict(name="no_rv", sats=[SATS["mid"]], wells=[dict(ph="gas")], no_rv=True), dict(name="no_rv_inj", wells=[dict(inj="gas")], no_rv=True)]
    if tier == "thorough":
        out += [dict(name="same_cell", sats=[SATS["mid"]], wells=[dict(inj="gas"), dict(inj="gas", surf=True)], same=True)]
        for s in SATS:
            out.append(dict(name="bhp_gas_%s" % s, sats=[SATS[s]], wells=[dict(inj="gas", bhp=True)]))
            out.append(dict(name="limits_%s" % s, sats=[SATS[s]], wells=[dict(ph="oil", lim=("wopr", "wlpr", "wgpr", "liqr"))]))
    return out


def run(env, case):
    dims = case.get("dims", (1, 1, 1))
    cells = list(grid_iter(dims))
    specs = []
    for m, w in enumerate(case["wells"]):
        c = cells[0 if case.get("same") else m]
        kw = dict(name="W%d" % m, i=c[0], j=c[1], k=c[2])
        gas = w.get("inj") == "gas" and w.get("surf") or w.get("ph") == "gas"
        if w.get("bhp"):
            kw.update(control_type="bhp", control_value=env.real("bhp%d" % m, 20, 30))
        else:
            kw["control_value"] = env.real("rate%d" % m, 0.1, 30000 if gas else 300)
        if w.get("inj"):
            kw.update(type="injector", injected_phase=w["inj"])
        if w.get("surf") or w.get("ph") not in (None, "total"):
            kw["rate_type"] = "surface"
            if w.get("ph"):
                kw["surface_phase"] = w["ph"]
        if w.get("lim"):
            kw["limits"] = {l: env.real(l, 0.1, 300 if l != "wgpr" else 30000) for l in w["lim"]}
        specs.append(kw)
    table = {k: v for k, v in TABLE.items() if not (case.get("no_rv") and k == "Rv_m3m3")}
    m = WellCell(env, [well(**s) for s in specs], dims=dims, sats=case.get("sats"), table=table)
    for w in m.wells.get_wells():
        w.well_index = 2e-13
    cb = m.sim.component_balance
    for p in ("oil", "gas"):
        for side in ("in", "out"):
            cb[p][side] = env.real("booked_%s_%s" % (p, side), 0, 1e6)
    if case.get("no_rv"):
        m.B["Rv"] = [0.0] * len(cells)
    for step in range(case.get("steps", 1)):
        old = {(p, s): env.val(cb[p][s]) for p in ("oil", "gas") for s in ("in", "out")}
        if step:
            m.w, m.g = set_state(env, m.fl, dims, m.lim, m.P0, sats=[SATS["low"]])
            kro, krw, krg = m.fl.get_rel_perms(m.fl.s_w, m.fl.s_g)
            Pt = env.tensor_of(m.P, dims)
            mob = [k / (m.fl._eval_pvt(Pt, u) * 1e-3) for k, u in ((krw, "mu_w"), (kro, "mu_o"), (krg, "mu_g"))]
            mt = mob[0] + mob[1] + mob[2]
            m.f = [env.vals(x / (mt + 1e-10)) for x in mob]
        m.step()
        want = {k: 0 for k in old}
        for n, (w, s) in enumerate(zip(case["wells"], specs)):
            c = 0 if case.get("same") else n
            B = {k: v[c] for k, v in m.B.items()}
            gw, gg = m.gain_w[c], m.gain_g[c]
            if w.get("bhp"):
                env.assume(env.all([env.gt(m.w1[c], m.lim["sw_cr"] + 1e-4), env.gt(m.g1[c], m.lim["sg_cr"] + 1e-4), env.lt(m.w1[c] + m.g1[c], 1 - m.lim["so_r"] - 1e-4)]))
            if w.get("inj") == "gas":
                if case.get("same") and n:
                    continue
                for side, v in (("in", env.max(gg, 0)), ("out", env.max(-gg, 0))):
                    want["gas", side] += v / B["Bg"]
                    want["oil", side] += B["Rv"] * v / B["Bg"]
            elif not w.get("inj"):
                fw, fo, fg = [x[c] for x in m.f]
                for side, sgn in (("out", -1), ("in", 1)):
                    vw, vg = env.max(sgn * gw, 0), env.max(sgn * gg, 0)
                    # oil leaves in its own proportion with the other two
                    vo = (vw + vg) * (fo / (fw + fg))
                    want["oil", side] += vo / B["Bo"] + B["Rv"] * vg / B["Bg"]
                    want["gas", side] += vg / B["Bg"] + B["Rs"] * vo / B["Bo"]
        for (p, side), o in old.items():
            new = env.val(cb[p][side])
            env.observe("booked %s %s" % (p, side), new - o)
            env.check("%s booked as %s is what was exchanged" % (p, side), env.eq(new - o, want[p, side], 1.0 if p == "oil" else 20.0))
        for p in ("oil", "gas"):
            env.check("%s accumulation is in minus out" % p, env.eq(cb[p]["accum"], env.val(cb[p]["in"]) - env.val(cb[p]["out"]), 0.5))
