"""A mirrored or turned model gives the mirrored or turned result."""
from .common import *

PROPERTY = "C33"
BOUNDS = ("one IMPES step of a model and of its image under x-reversal, y-reversal or exchange of x and y; grids 2x1x1, 3x1x1, 2x2x1 and 2x1x2 (thorough also 3x2x1, 2x2x2), fixed unequal porosities and permeabilities in every direction, "
          "unequal cell sides; every saturation state, new pressure field and step length (quick tier on four cells: one day, saturations free in one cell); wells of every kind on one cell")
ASSUMPTIONS = ["the new pressures are an arbitrary vector, the image gets the image of that vector", "old pressures of neighbours are fixed and unequal, new ones at least a few kPa from an exact tie of potentials (a tie has no upstream side)"]
OPTS = dict(time=150, max_paths=300)

LIM = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.05)
WELLS = dict(inj=dict(type="injector"), injg=dict(type="injector", injected_phase="gas"), prod=dict(type="producer"),
             bhp=dict(type="producer", control_type="bhp"), bhpi=dict(type="injector", control_type="bhp"))


def cases(tier):
    out = []

    def add(d, op, **kw):
        out.append(dict(name="%s_%d%d%d%s" % ((op,) + d + ("_" + kw["tag"] if kw.get("tag") else "",)), dims=d, op=op, **kw))
    add((2, 1, 1), "revx")
    add((2, 1, 1), "swap")
    add((1, 2, 1), "revy")
    add((3, 1, 1), "revx")
    add((3, 1, 1), "swap")
    add((1, 3, 1), "revy")
    add((2, 1, 2), "revx", small=True)
    add((2, 1, 2), "swap", small=True)
    add((2, 2, 1), "swap", small=True)
    for w in WELLS:
        add((2, 1, 1), "swap", well=w, tag=w)
        add((2, 1, 1), "revx", well=w, tag=w)
    add((2, 1, 1), "swap", pcog=True, tag="pcog")
    add((2, 1, 1), "revx", pcog=True, tag="pcog")
    add((2, 1, 1), "swap", pcog=True, small=True, one=True, tag="pcog1")
    add((2, 1, 1), "revx", pcog=True, small=True, one=True, tag="pcog1")
    add((2, 1, 1), "swap", pcow=True, tag="pcow")
    add((2, 1, 1), "swap", pvt=True, tag="pvt")
    add((2, 1, 1), "revx", pvt=True, tag="pvt")
    if tier == "thorough":
        add((2, 1, 2), "revx", tag="full")
        add((2, 2, 1), "revx")
        add((2, 2, 1), "revy")
        add((3, 2, 1), "swap")
        add((2, 2, 2), "swap")
        add((2, 1, 2), "swap", pcog=True, tag="pcog")
    return out


def image(op, dims, c):
    """cell (i,j,k) of the model -> its cell in the image"""
    i, j, k = c
    if op == "revx":
        return dims[0] - 1 - i, j, k
    if op == "revy":
        return i, dims[1] - 1 - j, k
    return j, i, k


def step(env, case, dims, side, f, ws, dt):
    """one step of a model given by its per-cell fields; the system, the rates and the state it ends in"""
    n = ncell(dims)
    res = make_reservoir(env, dims, side)
    set_perm(env, res, f["kx"], f["ky"], f["kz"])
    res.porosity = env.tensor_of(f["phi"], dims)
    res.porous_volume = res.cell_volume * res.porosity
    cfg = dict(relative_permeability=dict(LIM, nw=2, no=2, ng=2))
    if case.get("pcog"):
        cfg["capillary_pressure_og"] = dict(pc_scale=20000.0, pc_exponent=1)
    if case.get("pcow"):
        cfg["capillary_pressure"] = dict(pc_scale=20000.0, pc_exponent=1)
    if case.get("pvt"):
        cfg["pvt"] = dict(path=env.vfile("pvt.json", TABLE))
    fl = make_fluid(env, res, **cfg)
    sim = make_sim(env, res, fl, make_wells(env, res, ws), solver_type="impes", max_substeps=1)
    for w in sim.well_manager.get_wells():
        w.well_index = 5e-13
    fl.s_w, fl.s_g = env.tensor_of(f["sw"], dims), env.tensor_of(f["sg"], dims)
    fl.s_o = 1.0 - fl.s_w - fl.s_g
    fl.prev_sw, fl.prev_sg = fl.s_w.clone(), fl.s_g.clone()
    fl.pressure = env.tensor_of(f["p0"], dims)
    fl.prev_pressure = fl.pressure.clone()
    seam = Seam(env, sim, f["p1"])
    ok = sim.run_step(dt)
    A, b = seam.dense()
    return ok, A, b, env.vals(fl.s_w), env.vals(fl.s_g), env.vals(fl.pressure)


def run(env, case):
    dims, op = case["dims"], case["op"]
    n = ncell(dims)
    f = dict(kx=[10.0 + 37 * c % 101 for c in range(n)], ky=[15.0 + 53 * c % 83 for c in range(n)], kz=[1.0 + 29 * c % 41 for c in range(n)],
             phi=[0.1, 0.3, 0.15, 0.25, 0.2, 0.08, 0.35, 0.12][:n], p0=[(20 + 1.7 * (5 * c % 7)) * 1e6 for c in range(n)])
    f["p1"] = [env.real("P1_%d" % c, *((2.496e7, 2.504e7) if case.get("one") else (1e7, 5e7))) for c in range(n)]
    sw = [env.real("sw%d" % c, 0, 1) for c in range(n)]
    sg = [env.real("sg%d" % c, 0, 1) for c in range(n)]
    if case.get("small"):
        sw[1:], sg[1:] = [0.3, 0.45, 0.6][:n - 1], [0.2, 0.1, 0.06][:n - 1]
    if case.get("one"):     # only one cell's gas and pressure are free, near the capillary range: easy to refute when it fails
        sw[0], f["p1"][1] = 0.35, 2.5e7
    for w, g in zip(sw, sg):
        env.assume(env.all(env.ge(w, LIM["sw_cr"], 0), env.ge(g, LIM["sg_cr"], 0), env.le(w + g, 1 - LIM["so_r"], 0)))
    f["sw"], f["sg"] = sw, sg
    pc = [0] * n
    if case.get("pcog"):
        fl = make_fluid(env, make_reservoir(env, dims), relative_permeability=dict(LIM, nw=2, no=2, ng=2), capillary_pressure_og=dict(pc_scale=20000.0, pc_exponent=1))
        pc = env.vals(fl.get_capillary_pressure_og(env.tensor_of(sg, dims)))
    for ax, a, c in faces(dims):
        lim = 1e5 if ax == 2 else 3e3
        d = f["p1"][a] - f["p1"][c]
        for u in (d, d + (pc[a] - pc[c])) if case.get("pcog") else (d,):
            env.assume(env.any(env.ge(u, lim, 0), env.le(u, -lim, 0)))
            env.decide(env.gt(u, 0))
            env.decide(env.lt(u, 0))
    dt = DAY if case.get("small") else env.real("dt", 3600, 10 * DAY)
    side = (10.0, 20.0, 5.0)
    at = (dims[0] - 1, 0, 0)
    ws = []
    if case.get("well"):
        kw = dict(WELLS[case["well"]])
        kw["control_value"] = env.real("bhp", 1, 60) if kw.get("control_type") == "bhp" else env.real("rate", 0, 500)
        ws = [kw]
    ok1, A1, b1, w1, g1, p1 = step(env, case, dims, side, f, [well(i=at[0], j=at[1], k=at[2], **k) for k in ws], dt)
    # the image
    if op == "swap":
        d2, s2 = (dims[1], dims[0], dims[2]), (side[1], side[0], side[2])
    else:
        d2, s2 = dims, side
    to = [flat(d2, *image(op, dims, c)) for c in grid_iter(dims)]
    f2 = {}
    for k, v in f.items():
        kk = {"kx": "ky", "ky": "kx"}.get(k, k) if op == "swap" else k
        t = [None] * n
        for c in range(n):
            t[to[c]] = v[c]
        f2[kk] = t
    a2 = image(op, dims, at)
    ok2, A2, b2, w2, g2, p2 = step(env, case, d2, s2, f2, [well(i=a2[0], j=a2[1], k=a2[2], **k) for k in ws], dt)
    env.check("both or neither step succeeds", env.true(ok1 == ok2))
    env.observe("sw", w1)
    s = 1e9
    for r in range(n):
        for c in range(n):
            env.check("matrix of the image", env.eq(A1[r][c] * s, A2[to[r]][to[c]] * s, 1e-4))
        env.check("right-hand side of the image", env.eq(b1[r] * 1e3, b2[to[r]] * 1e3, 1e-3))
        env.check("water saturation of the image", env.eq(w1[r], w2[to[r]], 2e-5))
        env.check("gas saturation of the image", env.eq(g1[r], g2[to[r]], 2e-5))
        env.check("pressure of the image", env.eq(p1[r] / 1e6, p2[to[r]] / 1e6, 1e-5))
