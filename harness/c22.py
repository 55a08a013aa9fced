"""Configuration is read in the documented units and formats."""
from .common import *

PROPERTY = "C22"
BOUNDS = ("reservoir, fluid, relative permeability and capillary settings with every numeric value symbolic in its physical range (zero included), any one key absent, all absent or none; grids of 2 to 6 cells; "
          "wells in the old, new and mixed formats with symbolic control values, one to three wells; initial saturations any in [0, 1]")
ASSUMPTIONS = ["documented units: MPa, cP, mD, 1/MPa, kg/m3, m; defaults are those the code documents"]
OPTS = dict(time=120, max_paths=400)

# key: (attribute, factor, default, lo, hi)
FLUID = dict(pressure=("pressure", 1e6, 20.0, 0, 60), s_w=("s_w", 1, 0.2, 0, 0.5), s_g=("s_g", 1, 0.0, 0, 0.5),
             mu_oil=("mu_oil", 1e-3, 1.0, 0, 100), mu_water=("mu_water", 1e-3, 0.5, 0, 10), mu_gas=("mu_gas", 1e-3, 0.02, 0, 1),
             rho_oil=("rho_oil_ref", 1, 850.0, 0, 1200), rho_water=("rho_water_ref", 1, 1000.0, 0, 1300), rho_gas=("rho_gas_ref", 1, 1.0, 0, 300),
             c_oil=("oil_compressibility", 1e-6, 1e-5, 0, 0.1), c_water=("water_compressibility", 1e-6, 1e-5, 0, 0.1), c_gas=("gas_compressibility", 1e-6, 1e-3, 0, 1), c_rock=("rock_compressibility", 1e-6, 1e-5, 0, 0.1))
RELPERM = dict(nw=("nw", 1, 2, 1, 6), no=("no", 1, 2, 1, 6), ng=("ng", 1, 2, 1, 6), sw_cr=("sw_cr", 1, 0.2, 0, 0.4), so_r=("so_r", 1, 0.2, 0, 0.4), sg_cr=("sg_cr", 1, 0.0, 0, 0.2),
               ko_end_w=("ko_end_w", 1, 1.0, 0, 1), ko_end_g=("ko_end_g", 1, 1.0, 0, 1), krw_end=("krw_end", 1, 1.0, 0, 1), krg_end=("krg_end", 1, 1.0, 0, 1),
               now=("now", 1, None, 1, 6), nog=("nog", 1, None, 1, 6))
PCOW = dict(pc_scale=("pc_scale", 1, 0.0, 0, 1e6), pc_exponent=("pc_exponent", 1, 1.5, 0.5, 4), pc_threshold=("pc_threshold", 1, 0.01, 0, 0.1))
PCOG = dict(pc_scale=("pc_og_scale", 1, 0.0, 0, 1e6), pc_exponent=("pc_og_exponent", 1, 1.5, 0.5, 4))


def cases(tier):
    out = [dict(name="reservoir_%d%d%d" % d, kind="reservoir", dims=d) for d in ((2, 1, 1), (1, 2, 3))]
    out += [dict(name="fluid", kind="fluid"), dict(name="relperm", kind="relperm"), dict(name="capillary", kind="capillary"), dict(name="saturations", kind="saturations"),
            dict(name="wells", kind="wells"), dict(name="wells_reject", kind="reject"), dict(name="optional", kind="optional"), dict(name="pvt", kind="pvt")]
    if tier == "thorough":
        out += [dict(name="reservoir_323", kind="reservoir", dims=(3, 2, 3)), dict(name="fluid_323", kind="fluid", dims=(3, 2, 3)), dict(name="fluid_any", kind="fluid", pairs=True, opts=dict(time=500, max_paths=2000))]
    return out


def config(env, spec, name="", pairs=False):
    """symbolic values, and which keys are absent: none, all, any one (or any two)"""
    keys = sorted(spec)
    absent = env.choice("absent" + name, ["none", "all"] + keys)
    gone = set() if absent == "none" else set(keys) if absent == "all" else {absent}
    if pairs:
        gone.add(env.choice("also" + name, keys))
    return {k: env.real(name + k, spec[k][3], spec[k][4]) for k in keys if k not in gone}


def agree(env, what, obj, spec, cfg):
    for k, (attr, factor, default, lo, hi) in spec.items():
        want = cfg[k] if k in cfg else default
        if want is None:
            continue
        s = factor * max(1.0, abs(hi))
        got = getattr(obj, attr)
        got = env.vals(got) if hasattr(got, "reshape") else [got]
        env.check("%s %s%s" % (what, k, "" if k in cfg else " by default"), env.all([env.eq(v / s, want * factor / s, 1e-5) for v in got]))


def same(env, a, b):
    if a is None or b is None or isinstance(a, (str, tuple, dict)):
        return env.true(a == b and type(a) == type(b))
    return env.eq(a, b, 1e-6)


def run(env, case):
    kind = case["kind"]
    dims = case.get("dims", (2, 1, 1))
    if kind == "reservoir":
        spec = dict(porosity=("porosity", 1, 0.2, 0, 1), c_rock=("rock_compressibility", 1e-6, 1e-5, 0, 0.1))
        cfg = config(env, spec)
        kh, kv = env.real("permeability", 0, 10000), env.real("fraction", 0, 1)
        h, v = env.bool("horizontal"), env.bool("vertical")
        if h:
            cfg["permeability"] = kh
        if v:
            cfg["k_vertical_fraction"] = kv
        G = [env.real("d" + c, 0.5, 500) for c in "xyz"]
        g = env.bool("sizes")
        if g:
            cfg["grid_size"] = G
        R = env.mod("simulator.reservoir").Reservoir
        res = R(dict(cfg, dimensions=list(dims)), device=env.torch.device("cpu"))
        agree(env, "reservoir", res, spec, cfg)
        kh, kv, G = kh if h else 100.0, kv if v else 0.1, G if g else [10.0] * 3
        n = ncell(dims)
        for a, t in zip("xyz", (res.permeability_x, res.permeability_y, res.permeability_z)):
            want = kh if a != "z" else kh * kv
            got = env.vals(t)
            env.check("one value per cell", env.true(env.shape(t) == dims and len(got) == n))
            env.check("permeability along " + a, env.all([env.eq(x / MD / 10000, want / 10000, 1e-5) for x in got]))
        env.check("permeabilities are handed out in the order x, y, z", env.all([env.eq(x / MD, y / MD, 1e-3) for t, u in zip(res.permeability_tensors, (res.permeability_x, res.permeability_y, res.permeability_z)) for x, y in zip(env.vals(t), env.vals(u))]))
        env.check("cell sizes", env.all([env.eq(a / 500, b / 500, 1e-6) for a, b in zip(env.vals(res.grid_size), G)]))
        phi = env.vals(res.porosity)
        pv = env.vals(res.porous_volume)
        env.check("pore volume", env.all([env.eq(p / 1e8, f * G[0] * G[1] * G[2] / 1e8, 1e-5) for p, f in zip(pv, phi)]))
        env.check("dimensions", env.true((res.nx, res.ny, res.nz) == dims and tuple(res.dimensions) == dims))
    elif kind == "fluid":
        res = make_reservoir(env, dims)
        cfg = config(env, FLUID, pairs=case.get("pairs", False))
        fl = make_fluid(env, res, **cfg)
        agree(env, "fluid", fl, FLUID, cfg)
        w, o, g = env.vals(fl.s_w), env.vals(fl.s_o), env.vals(fl.s_g)
        env.check("one value per cell", env.true(all(env.shape(t) == dims for t in (fl.pressure, fl.s_w, fl.s_g, fl.s_o))))
        env.check("oil fills the rest", env.all([env.eq(a + b + c, 1, 1e-5) for a, b, c in zip(w, o, g)]))
        env.check("the previous state is the initial state", env.all([env.eq(a / 1e8, b / 1e8, 1e-6) for x, y in ((fl.pressure, fl.prev_pressure), (fl.s_w * 1e8, fl.prev_sw * 1e8), (fl.s_g * 1e8, fl.prev_sg * 1e8)) for a, b in zip(env.vals(x), env.vals(y))]))
    elif kind == "relperm":
        res = make_reservoir(env, dims)
        cfg = config(env, RELPERM)
        whole = env.bool("section")
        if not whole:
            cfg = {}
        fl = make_fluid(env, res, **(dict(relative_permeability=dict(cfg)) if whole else {}))
        agree(env, "curves", fl, RELPERM, cfg)
        for k, base in (("now", "no"), ("nog", "ng")):
            if k not in cfg:
                env.check(k + " follows " + base, env.eq(getattr(fl, k), getattr(fl, base), 1e-6))
        env.check("default model", env.true(fl.relperm_model == "corey"))
        env.check("named model", env.true(make_fluid(env, res, relative_permeability=dict(model="stone2")).relperm_model == "stone2"))
    elif kind == "capillary":
        res = make_reservoir(env, dims)
        cfg, og = config(env, PCOW), config(env, PCOG, "og_")
        form = env.choice("form", ["section", "flat"])
        fl = make_fluid(env, res, capillary_pressure_og=dict(og), **(dict(capillary_pressure=dict(cfg)) if form == "section" else dict(cfg)))
        agree(env, "oil-water capillary pressure", fl, PCOW, cfg)
        agree(env, "oil-gas capillary pressure", fl, PCOG, og)
    elif kind == "pvt":
        res = make_reservoir(env, dims)
        bo = env.real("bo", 1.0, 2.0)
        a = env.vfile("a.json", dict(TABLE, Bo=[bo] * len(TABLE["Bo"])))
        form = env.choice("form", ["pvt_path", "section", "absent", "empty section"])
        cfg = {"pvt_path": dict(pvt_path=a), "section": dict(pvt=dict(path=a)), "absent": {}, "empty section": dict(pvt={})}[form]
        fl = make_fluid(env, res, **cfg)
        if form in ("pvt_path", "section"):
            env.check("the configured table is loaded", env.true(fl.pvt is not None))
            got = env.vals(fl._eval_pvt(fl.pressure, "Bo"))
            env.check("and used", env.all([env.eq(x, bo, 1e-5) for x in got]))
        else:
            env.check("no table unless one is configured", env.true(fl.pvt is None))
    elif kind == "saturations":
        res = make_reservoir(env, dims)
        w, g = env.real("s_w", 0, 1), env.real("s_g", 0, 1)
        env.assume(env.any(env.ge(w + g, 1.0001, 0), env.le(w + g, 0.9999, 0)))
        bad = env.raises((ValueError,), make_fluid, env, res, s_w=w, s_g=g)
        env.check("rejected exactly when water and gas exceed the pore space", env.iff(env.gt(w + g, 1), env.true(bool(bad))))
    elif kind in ("wells", "optional"):
        res = make_reservoir(env, (3, 2, 2))
        n = env.choice("count", [1, 2, 3]) if kind == "wells" else 1
        extra = {}
        if kind == "optional":
            spec = dict(injected_phase=["gas", "water"], rate_type=["surface", "reservoir"], surface_phase=["oil", "liquid"], limits=[dict(oil=1.0), {}])
            for k, o in spec.items():
                pick = env.choice(k, [None] + o)
                if pick is not None:
                    extra[k] = pick
            if env.bool("floor"):
                extra["bhp_min"] = env.real("bhp_min", 0, 40)
        want, made = [], []
        old, new, mixed = [], [], []
        cs = [(0, 0, 0), (2, 1, 0), (1, 0, 1)]
        for a in range(n):
            c = cs[a]
            v = env.real("value%d" % a, 0, 500)
            r = env.real("radius%d" % a, 0.05, 0.15) if a == 0 else 0.1
            t, ct = (("producer", "bhp"), ("injector", "rate"), ("producer", "rate"))[(a + (env.choice("first", [0, 1, 2]) if kind == "wells" else 0)) % 3]
            base = dict(name="W%d" % (2 - a), type=t, radius=r, **extra)
            old.append(dict(base, coordinates=list(c), control=dict(type=ct, value=v)))
            new.append(dict(base, i=c[0], j=c[1], k=c[2], control_type=ct, control_value=v))
            mixed.append(dict(base, coordinates=list(c), control_type=ct, control_value=v) if a % 2 else dict(base, i=c[0], j=c[1], k=c[2], control=dict(type=ct, value=v)))
            want.append(dict(name="W%d" % (2 - a), type=t, radius=r, control_type=ct, control_value=v, c=c))
        sets = [make_wells(env, res, x).get_wells() for x in (old, new, mixed)]
        for ws in sets:
            env.check("every well, in order", env.true([w.name for w in ws] == [x["name"] for x in want]))
            for w, x in zip(ws, want):
                env.check("place", env.true((w.i, w.j, w.k) == x["c"] and tuple(w.cell_index) == x["c"]))
                env.check("kind", env.true((w.type, w.control_type) == (x["type"], x["control_type"])))
                env.check("control value", env.eq(w.control_value / 500, x["control_value"] / 500, 1e-6))
                env.check("radius", env.eq(w.radius, x["radius"], 1e-6))
                env.check("injected phase, rate type, product", env.true((w.injected_phase, w.rate_type, w.surface_phase) == (extra.get("injected_phase", "water"), extra.get("rate_type", "reservoir"), extra.get("surface_phase"))))
                env.check("limits", env.true(w.limits == extra.get("limits", {})))
                env.check("pressure floor", same(env, w.bhp_min, extra.get("bhp_min")))
                env.check("the same well in every format", env.all([same(env, w.well_index / 1e4, v.well_index / 1e4) for v in (sets[0][ws.index(w)],)]))
    else:
        res = make_reservoir(env, dims)
        c = well(control_value=env.real("v", 0, 100))
        gone = env.choice("missing", ["i", "j", "k", "control_type", "control_value", None])
        if gone is not None:
            del c[gone]
        good = well(name="G")
        ws = [good, c] if env.bool("second") else [c, good]
        bad = env.raises((ValueError,), make_wells, env, res, ws)
        env.check("a well without place or control is rejected, others accepted", env.true(bool(bad) == (gone is not None)))
