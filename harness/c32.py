"""Pressure answers the wells in the right direction and stays between its neighbours."""
from .common import *

PROPERTY = "C32"
BOUNDS = ("grids 2x1x1, 1x2x1, 3x1x1, 2x2x1 (the last without wells in the quick tier; thorough also 4x1x1 and 3x2x1) in one layer, fixed unequal porosities, permeabilities and saturation states, every pressure field from 1 to 60 MPa and step lengths of an hour, a day and 30 days (3x1x1 and 2x2x1 in the quick tier: a day); "
          "injectors, producers and pressure-controlled wells with any rate or bottom-hole pressure on any cell, and two pressure-controlled wells sharing a cell")
ASSUMPTIONS = ["the new pressures are the exact solution of the assembled system (how close the solver comes is C07's subject)", "constant fluid properties, no capillary pressure"]
OPTS = dict(time=150, max_paths=400)

SATS = [(0.3, 0.1), (0.6, 0.1), (0.2, 0.4), (0.45, 0.2), (0.25, 0.05), (0.5, 0.25)]


def cases(tier):
    out = []
    G = [(2, 1, 1), (1, 2, 1), (3, 1, 1), (2, 2, 1)] + ([(4, 1, 1), (3, 2, 1)] if tier == "thorough" else [])
    for d in G:
        n = "%d%d%d" % d
        out.append(dict(name="closed_" + n, kind="closed", dims=d))
        for w in ("inj", "prod", "bhp_p", "bhp_i"):
            if tier == "thorough" or d != (2, 2, 1):
                out.append(dict(name="%s_%s" % (w, n), kind=w, dims=d))
        if n in ("211", "121") or tier == "thorough":
            out.append(dict(name="two_" + n, kind="two", dims=d))
    for d in G[:3] if tier == "thorough" else G[:2]:
        out.append(dict(name="more_%d%d%d" % d, kind="more", dims=d))
    for c in out:
        c["steps"] = [DAY] if ncell(c["dims"]) > 2 else [3600.0, 30 * DAY]
    if tier == "thorough":
        out += [dict(c, name=c["name"] + "_t", steps=[3600.0, 30 * DAY] if ncell(c["dims"]) > 2 else [60.0, DAY]) for c in out]
    return out


def system(env, case, dt, P0, wells):
    """the assembled pressure system, scaled to pressures in MPa"""
    dims = case["dims"]
    n = ncell(dims)
    res = make_reservoir(env, dims, (10.0, 20.0, 5.0))
    set_perm(env, res, [100.0 + 70 * c for c in range(n)], [150.0 + 40 * c for c in range(n)], [10.0] * n)
    res.porosity = env.tensor_of([0.1 + 0.05 * (c % 3) for c in range(n)], dims)
    res.porous_volume = res.cell_volume * res.porosity
    lim = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.05)
    fl = make_fluid(env, res, relative_permeability=dict(lim, nw=2, no=2, ng=2), c_oil=1e-3, c_water=5e-4, c_gas=2e-2, c_rock=1e-4)
    sim = make_sim(env, res, fl, make_wells(env, res, wells), solver_type="impes", max_substeps=1, max_time_step_attempts=1)
    for w in sim.well_manager.get_wells():
        w.well_index = 5e-13
    set_state(env, fl, dims, lim, env.tensor_of([p * 1e6 for p in P0], dims), sats=SATS[:n])
    seam = Seam(env, sim, [p * 1e6 for p in P0], script=[False] * 8)
    sim.run_step(dt)
    A, b = seam.dense(0)
    env.check("a symmetric system of the right size", env.true(len(A) == n and len(b) == n))
    s = 1e9
    return [[v * s for v in r] for r in A], [v * s / 1e6 for v in b]


def solution(env, name, A, b):
    """the exact solution"""
    n = len(b)
    if env.symbolic:
        x = [env.real("%s%d" % (name, c), -1e4, 1e4) for c in range(n)]
        for r in range(n):
            env.assume(env.eq(env.sum(A[r][c] * x[c] for c in range(n)), b[r], 0))
        return x
    import numpy
    return [float(v) for v in numpy.linalg.solve(numpy.array(A, dtype=float), numpy.array(b, dtype=float))]


def run(env, case):
    dims, kind = case["dims"], case["kind"]
    n = ncell(dims)
    P0 = [env.real("P0_%d" % c, 1, 60) for c in range(n)]
    for _, a, c in faces(dims):
        env.assume(env.not_(env.eq(P0[a], P0[c], 2e-4)))
        env.decide(env.gt(P0[a], P0[c]))           # the direction of flow fixes the upstream mobilities
    dt = env.choice("dt", case["steps"])
    at = env.choice("cell", list(range(n))) if kind != "closed" else 0
    i, j = at // dims[1], at % dims[1]
    kw = dict(i=i, j=j, k=0)
    lo, hi = env.min(*P0), env.max(*P0)
    T = 1e-2
    if kind == "more":
        q = env.real("q", 0, 100)
        d = env.real("dq", 0, 100)
        x = solution(env, "x", *system(env, case, dt, P0, [well(type="injector", control_value=q, **kw)]))
        y = solution(env, "y", *system(env, case, dt, P0, [well(type="injector", control_value=q + d, **kw)]))
        for u, v in zip(x, y):
            env.check("more injection, no lower pressure anywhere", env.le(u, v, T))
        env.check("more injection, higher pressure at the well", env.implies(env.ge(d, 10, 0), env.lt(x[at], y[at])))
        return
    ws = []
    if kind == "inj" or kind == "prod":
        ws = [well(type="injector" if kind == "inj" else "producer", control_value=env.real("q", 0, 100), **kw)]
    elif kind == "two":
        B, C = env.real("bhp", 0, 60), env.real("bhp2", 0, 60)
        ws = [well(type="producer", control_type="bhp", control_value=B, **kw), well(name="V", type="injector", control_type="bhp", control_value=C, **kw)]
        lo, hi = env.min(lo, B, C), env.max(hi, B, C)
    elif kind != "closed":
        B = env.real("bhp", 0, 60)
        ws = [well(type="injector" if kind == "bhp_i" else "producer", control_type="bhp", control_value=B, **kw)]
        lo, hi = env.min(lo, B), env.max(hi, B)
    A, b = system(env, case, dt, P0, ws)
    x = solution(env, "x", A, b)
    if case["dims"] == (2, 1, 1):
        env.observe("b", b)
    for v in x:
        if kind != "prod":
            env.check("not below the lowest pressure around", env.ge(v, lo, T))
        if kind != "inj":
            env.check("not above the highest pressure around", env.le(v, hi, T))
