"""Rate-controlled wells deliver their target unless a limit stops them."""
from .common import *

PROPERTY = "C14"
BOUNDS = ("one cell; one well of every kind: water and gas injectors, producers on total, oil, water, gas and liquid rate, "
          "reservoir and surface terms, each surface-phase limit; target, limits, rate scale and step length symbolic; any admissible saturations for injectors and constant-property producers, four saturation states (plenty of everything, little water and gas, almost no water, almost no oil) for producers with a table; a fixed two-entry PVT table at a fixed pressure")
ASSUMPTIONS = ["the new pressure is a fixed value inside the table (the volume factors used are those at the new pressure)", "one saturation substep"]
OPTS = dict(time=150, max_paths=400)

LIMS = dict(wopr="oil", wlpr="water", wgpr="gas", liqr="liquid")


# saturation states of a producing cell: plenty of everything; little water and gas left to take;
# almost no water; and almost no oil
SATS = dict(mid=(0.4, 0.25), low=(0.2, 0.08), dry=(0.155, 0.4), wet=(0.74, 0.055))


def cases(tier):
    out = [dict(name="inj_water", inj="water"), dict(name="inj_gas", inj="gas"), dict(name="inj_water_surface", inj="water", surface=True), dict(name="inj_gas_surface", inj="gas", surface=True),
           dict(name="inj_water_const", inj="water", pvt=False), dict(name="inj_gas_const", inj="gas", pvt=False), dict(name="inj_scale", inj="water", scale=True),
           dict(name="prod_const", pvt=False)]
    for p in ("total", "oil", "water", "gas", "liquid", "default"):
        for s in SATS:
            out.append(dict(name="prod_%s_%s" % (p, s), phase=None if p in ("total", "default") else p, surface=p != "total", sat=SATS[s]))
    for l in LIMS:
        for s in SATS if tier == "thorough" else ("mid", "low"):
            out.append(dict(name="limit_%s_%s" % (l, s), limits=[l], surface=True, phase="liquid", sat=SATS[s]))
            out.append(dict(name="limit_res_%s_%s" % (l, s), limits=[l], sat=SATS[s]))
    out.append(dict(name="limit_two", limits=["wopr", "wgpr"], surface=True, phase="oil", sat=SATS["mid"]))
    out.append(dict(name="limit_all_res", limits=list(LIMS), sat=SATS["mid"]))
    if tier == "thorough":
        out.append(dict(name="limit_all", limits=list(LIMS), surface=True, phase="gas", sat=SATS["mid"]))
    return out


def run(env, case):
    inj = case.get("inj")
    surf = case.get("surface", False)
    pvt = case.get("pvt", True)
    rate = env.real("rate", 0.1, 300 if not (inj == "gas" and surf or case.get("phase") == "gas") else 30000)
    kw = dict(control_value=rate)
    if surf:
        kw["rate_type"] = "surface"
    if inj:
        kw.update(type="injector", injected_phase=inj)
    elif case.get("phase"):
        kw["surface_phase"] = case["phase"]
    lims = {l: env.real(l, 0.1, 300 if l != "wgpr" else 30000) for l in case.get("limits", ())}
    if lims:
        kw["limits"] = dict(lims)
    par = {}
    sc = 1
    if case.get("scale"):
        sc = par["global_rate_scale"] = env.real("scale", 0.2, 5)
    s = case.get("sat")
    m = WellCell(env, [well(**kw)], pvt=pvt, sats=[s] if s else None, **par)
    m.step()
    dt, pv = m.dt, m.pv[0]
    gw, gg = m.gain_w[0], m.gain_g[0]
    env.observe("gain", [gw / pv, gg / pv])
    q = rate * sc / DAY                   # target, m3/s
    TOL = 0.02                            # m3 over the step, of a cell of 200 m3
    room = pv * env.max(0, 1 - m.lim["so_r"] - m.w[0] - m.g[0])
    if inj:
        if surf:
            q = q * m.B["Bw" if inj == "water" else "Bg"][0]
        got, other = (gw, gg) if inj == "water" else (gg, gw)
        want = env.min(q * dt, room)
        env.check("injects its target, or all there is room for", env.eq(got, want, TOL))
        env.check("injects nothing else", env.eq(other, 0, TOL))
        return
    wl = m.wells.get_wells()[0]
    fw, fo, fg = [x[0] for x in m.f]
    if surf:
        q = q / m.den()[case.get("phase") or "liquid"]
    down_w, down_g = pv * (m.w[0] - m.lim["sw_cr"]), pv * (m.g[0] - m.lim["sg_cr"])
    if not pvt:
        # without a table there is no choke, only the saturation window itself
        env.check("withdraws water with its share", env.eq(-gw, env.min(q * dt * fw, down_w), TOL))
        env.check("withdraws gas with its share", env.eq(-gg, env.min(q * dt * fg, down_g), TOL))
        return
    qt = -env.val(wl.last_q_total)         # withdrawal, m3/s of reservoir volume
    env.check("produces, never injects", env.ge(qt * DAY, 0, 1e-4))
    env.check("never more than its target", env.le(qt * dt, q * dt, TOL))
    rates = {k: env.val(v) for k, v in wl.last_surface_rates.items()}
    D = m.den()
    for k in ("oil", "water", "gas", "liquid"):
        env.check("reported %s rate is that of the volume withdrawn" % k, env.eq(rates[k], qt * D[k] * DAY, 1e-2 if k != "gas" else 1))
    for l, v in lims.items():
        env.check("%s respected" % l, env.le(rates[LIMS[l]], v, 1e-2 if l != "wgpr" else 1))
    env.check("water withdrawn in proportion to its mobility", env.eq(-gw, qt * dt * fw, TOL))
    env.check("gas withdrawn in proportion to its mobility", env.eq(-gg, qt * dt * fg, TOL))
    # no reason to deliver less: the cell holds enough water and gas and no limit is reached
    free = env.all([env.le(q * dt * fw, down_w, 0), env.le(q * dt * fg, down_g, 0)] + [env.le(q * D[LIMS[l]] * DAY, v, 0) for l, v in lims.items()])
    env.check("full target when nothing forces less", env.implies(free, env.eq(qt * dt, q * dt, TOL)))
    # and when something does, it is used up
    used = [env.eq(qt * dt, q * dt, TOL), env.eq(qt * dt * fw, down_w, TOL), env.eq(qt * dt * fg, down_g, TOL)]
    used += [env.eq(qt * D[LIMS[l]] * DAY, v, 1e-2 if l != "wgpr" else 1) for l, v in lims.items()]
    env.check("cut back no further than needed", env.any(used))
