"""The command line runs the model its configuration describes."""
import argparse
import sys
import types

from .common import *

PROPERTY = "C31"
BOUNDS = ("configuration files with symbolic rock, fluid, initial and well values (every value in its physical range), grids of 2 to 12 cells, none to three wells, the optional keys (simulation section, output name, VTK switch, description, device) present or absent in every combination; "
          "diagnostics on and off for one step of a two-cell model with injector and producer")
ASSUMPTIONS = ["the run itself is replaced by a recorder (its behaviour is C24's subject); what the constructors make of each value is C22's subject, here the model must be the one they build from the file", "no CUDA device is present"]
OPTS = dict(time=120, max_paths=600)


def cases(tier):
    out = [dict(name="model_%d%d%d" % d, kind="model", dims=d) for d in ((2, 1, 1), (1, 3, 2), (2, 2, 3))]
    out += [dict(name="keys", kind="keys", dims=(2, 1, 1)), dict(name="missing", kind="missing", dims=(2, 1, 1)), dict(name="no_wells", kind="nowells", dims=(2, 1, 1))]
    out += [dict(name="quiet_" + w, kind="quiet", well=w) for w in ("inj_w", "inj_g", "prod", "bhp")]
    return out


def launch(env, cfg, seen):
    """main with `--config file`, as a user calls it"""
    ns = types.SimpleNamespace(gridToVTK=lambda *a, **k: None)
    env.stub_module("pyevtk", types.SimpleNamespace(hl=ns))
    env.stub_module("pyevtk.hl", ns)
    env.stub_module("argparse", argparse)
    path = env.vfile("model.json", cfg)
    S = env.mod("simulator.simulation").Simulator
    old = S.run

    def run(self, *a, **k):
        seen.append((self, a, k))
    S.run = run
    argv = sys.argv
    sys.argv = ["main.py", "--config", path]
    try:
        env.mod("main").main()
    finally:
        sys.argv = argv
        S.run = old


def model(env, dims, wells=True):
    n = lambda k, lo, hi: env.real(k, lo, hi)
    cfg = dict(description="model", reservoir=dict(dimensions=list(dims), grid_size=[n("dx", 1, 100), n("dy", 1, 100), n("dz", 1, 100)], porosity=n("phi", 0.01, 0.4), permeability=n("perm", 1, 5000), k_vertical_fraction=n("kv", 0.01, 1), c_rock=n("cr", 1e-6, 1e-2)),
               fluid=dict(pressure=n("p", 1, 60), s_w=n("sw", 0, 0.5), s_g=n("sg", 0, 0.5), mu_oil=n("muo", 0.1, 100), mu_water=n("muw", 0.1, 10), mu_gas=n("mug", 0.001, 1), rho_oil=n("ro", 500, 1100), rho_water=n("rw", 900, 1300), rho_gas=n("rg", 0.1, 200), c_oil=n("co", 1e-6, 1e-2), c_water=n("cw", 1e-6, 1e-2), c_gas=n("cg", 1e-6, 1),
                          relative_permeability=dict(nw=2, no=3, ng=2, sw_cr=n("swc", 0, 0.3), so_r=n("sor", 0, 0.3), sg_cr=n("sgc", 0, 0.1)), capillary_pressure=dict(pc_scale=n("pc", 0, 1e5), pc_exponent=1)), wells=[])
    if wells:
        cfg["wells"] = [well(name="P", control_value=n("q0", 0, 1000)), well(name="I", type="injector", i=dims[0] - 1, j=dims[1] - 1, k=dims[2] - 1, control_value=n("q1", 0, 1000)), well(name="B", control_type="bhp", control_value=n("q2", 0, 60), bhp_min=n("floor", 0, 20))]
    return cfg


def compare(env, sim, cfg, dims):
    """the model of the run against one built by hand from the same values"""
    c = cfg
    res = env.mod("simulator.reservoir").Reservoir(c["reservoir"], device=env.torch.device("cpu"))
    fl = env.mod("simulator.fluid").Fluid(c["fluid"], res, device=env.torch.device("cpu"))
    wm = env.mod("simulator.well").WellManager(c["wells"], res)
    env.check("grid", env.true(tuple(sim.reservoir.dimensions) == tuple(dims)))
    for a, s in (("permeability_x", 1e-11), ("permeability_y", 1e-11), ("permeability_z", 1e-11), ("porous_volume", 1e6), ("porosity", 1), ("grid_size", 100)):
        x, y = getattr(sim.reservoir, a), getattr(res, a)
        x, y = (env.vals(x), env.vals(y)) if hasattr(x, "shape") else ([x], [y])
        env.check("reservoir " + a, env.all([env.true(len(x) == len(y))] + [env.eq(p / s, q / s, 1e-6) for p, q in zip(x, y)]))
    for a, s in (("pressure", 1e8), ("s_w", 1), ("s_g", 1), ("s_o", 1), ("mu_oil", 1), ("mu_water", 1), ("mu_gas", 1), ("rho_oil_ref", 1000), ("rho_water_ref", 1000), ("rho_gas_ref", 1000), ("oil_compressibility", 1e-6), ("water_compressibility", 1e-6), ("gas_compressibility", 1e-6), ("rock_compressibility", 1e-6), ("sw_cr", 1), ("so_r", 1), ("sg_cr", 1), ("nw", 1), ("no", 1), ("pc_scale", 1e5)):
        x, y = getattr(sim.fluid, a), getattr(fl, a)
        x, y = (env.vals(x), env.vals(y)) if hasattr(x, "shape") and hasattr(y, "shape") else ([x], [y])
        env.check("fluid " + a, env.all([env.true(len(x) == len(y))] + [env.eq(p / s, q / s, 1e-6) for p, q in zip(x, y)]))
    ws, vs = sim.well_manager.get_wells(), wm.get_wells()
    env.check("wells", env.true([(w.name, w.type, w.control_type, w.i, w.j, w.k) for w in ws] == [(w.name, w.type, w.control_type, w.i, w.j, w.k) for w in vs]))
    for w, v in zip(ws, vs):
        env.check("controls", env.eq(w.control_value, v.control_value, 1e-5))
        env.check("pressure floor", env.true((w.bhp_min is None) == (v.bhp_min is None)))
        if v.bhp_min is not None:
            env.check("pressure floor", env.eq(w.bhp_min, v.bhp_min, 1e-5))
    env.check("wells, fluid and simulator share the reservoir", env.true(sim.porous_volume is sim.reservoir.porous_volume))


def args_of(a, k):
    """output name and VTK switch of a call of run"""
    name = a[0] if a else k.get("output_filename")
    vtk = a[1] if len(a) > 1 else k.get("save_vtk", False)
    return name, vtk


def run(env, case):
    kind = case["kind"]
    if kind == "quiet":
        return quiet(env, case)
    dims = case["dims"]
    seen = []
    if kind == "model":
        cfg = model(env, dims)
        cfg["simulation"] = dict(solver_type=env.choice("solver", ["impes", "fully_implicit"]), total_time_days=env.real("total", 1, 1000), time_step_days=env.real("step", 0.1, 10), max_saturation_change=env.real("dsmax", 0.01, 0.2))
        cfg["output_filename"], cfg["save_vtk"] = "named", True
        launch(env, cfg, seen)
        env.check("runs once", env.true(len(seen) == 1))
        sim, a, k = seen[0]
        env.check("under the configured name, with VTK as configured", env.true(args_of(a, k) == ("named", True)))
        compare(env, sim, cfg, dims)
        env.check("with the configured solver", env.true(sim.solver_type == cfg["simulation"]["solver_type"]))
        for p in ("total_time_days", "time_step_days", "max_saturation_change"):
            env.check("parameter " + p, env.eq(sim.sim_params[p], cfg["simulation"][p], 1e-4))
        env.observe("pressure", [v / 1e8 for v in env.vals(sim.fluid.pressure)])
    elif kind == "nowells":
        cfg = model(env, dims, wells=False)
        launch(env, cfg, seen)
        env.check("runs once", env.true(len(seen) == 1))
        compare(env, seen[0][0], cfg, dims)
        env.observe("pressure", [v / 1e8 for v in env.vals(seen[0][0].fluid.pressure)])
    elif kind == "keys":
        cfg = model(env, dims)
        name, vtk, simp, desc = [env.bool(k) for k in ("name", "vtk", "simulation", "described")]
        if not desc:
            del cfg["description"]
        if name:
            cfg["output_filename"] = "case_7"
        if vtk:
            cfg["save_vtk"] = env.bool("vtk_on")
        if simp:
            cfg["simulation"] = dict(total_time_days=3, solver_type="fully_implicit")
        launch(env, cfg, seen)
        env.check("runs once", env.true(len(seen) == 1))
        sim, a, k = seen[0]
        n, v = args_of(a, k)
        env.check("output name", env.true(n == ("case_7" if name else "simulation_output")))
        env.check("VTK switch", env.true(bool(v) == (cfg["save_vtk"] if vtk else False)))
        env.check("solver", env.true(sim.solver_type == ("fully_implicit" if simp else "impes")))
        env.check("parameters", env.true(sim.sim_params.get("total_time_days") == (3 if simp else None)))
        env.observe("pressure", [v / 1e8 for v in env.vals(sim.fluid.pressure)])
    else:
        cfg = model(env, dims)
        gone = env.choice("gone", ["none", "reservoir", "fluid", "wells"])
        cfg.pop(gone, None)
        bad = env.raises((KeyError, ValueError, TypeError), launch, env, cfg, seen)
        env.check("a file without its model is not run", env.true(bad == (gone != "none") and len(seen) == (0 if bad else 1)))
        env.observe("bad", [1.0 if bad else 0.0])


def quiet(env, case):
    """one step with and without the component diagnostics"""
    kw = dict(inj_w=dict(type="injector"), inj_g=dict(type="injector", injected_phase="gas"), prod=dict(), bhp=dict(control_type="bhp"))[case["well"]]
    rate = env.real("control", 0, 30)
    dt = env.real("dt", 3600, DAY)
    got = []
    # the log may be put in the working directory or in a folder that does not exist yet
    name = env.choice("log", ["component.log", "logs/run/component.log"])
    for dbg in (False, True):
        m = WellCell(env, [well(control_value=rate, **kw)], sats=[(0.4, 0.25)], dt=dt, **(dict(debug_component_balance=True, debug_log_path=name) if dbg else {}))
        for w in m.wells.get_wells():
            w.well_index = 5e-13
        ok = m.sim.run_step(dt)
        A, b = m.seam.dense(0)
        got.append((bool(ok), env.vals(m.fl.pressure) + env.vals(m.fl.s_w) + env.vals(m.fl.s_g), [v * 1e9 for r in A for v in r] + [v * DAY for v in b], [env.val(v) for p in ("oil", "gas") for v in m.sim.component_balance[p].values()]))
    env.observe("sw", env.vals(m.fl.s_w))
    env.check("same verdict", env.true(got[0][0] == got[1][0]))
    for x, y in zip(got[0][1:], got[1][1:]):
        env.check("diagnostics do not change the step", env.all([env.eq(p, q, 1e-6) for p, q in zip(x, y)]))
