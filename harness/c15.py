"""A producer's minimum bottom-hole pressure is honoured."""
from .common import *

PROPERTY = "C15"
BOUNDS = "one to three cells, one or two wells; block pressure 1 to 60 MPa, saturations, rate, minimum bottom-hole pressure (-10 to 100 MPa), well index 1e-16 to 1e-10 and rate scale symbolic; with constant properties"
ASSUMPTIONS = ["points within 10 Pa of the switch are excluded from the well terms compared", "the linear solve is replaced by a recorder of the assembled pressure equation"]
OPTS = dict(time=150, max_paths=200)


def cases(tier):
    out = [dict(name="producer"), dict(name="scale", scale=True), dict(name="concrete_cell", sats=[(0.4, 0.2)]), dict(name="no_minimum", bmin=False), dict(name="injector", type="injector"),
           dict(name="bhp_well", ct="bhp"), dict(name="cell", dims=(1, 2, 1), cell=(0, 1, 0), sats=[(0.3, 0.2), (0.5, 0.1)]),
           dict(name="two_wells", dims=(2, 1, 1), sats=[(0.3, 0.2), (0.5, 0.1)], two=True), dict(name="zero", zero=True), dict(name="next_step", again=True, sats=[(0.4, 0.2)])]
    if tier == "thorough":
        out += [dict(name="cell_sym", dims=(1, 2, 1), cell=(0, 1, 0)), dict(name="two_same", dims=(1, 1, 1), sats=[(0.4, 0.2)], two=True, same=True)]
    return out


def mode(w):
    return getattr(w, "last_mode", None)


def run(env, case):
    dims = case.get("dims", (1, 1, 1))
    cell = case.get("cell", (0, 0, 0))
    n = ncell(dims)
    lim = dict(sw_cr=0.15, so_r=0.2, sg_cr=0.05)
    res = make_reservoir(env, dims)
    fl = make_fluid(env, res, relative_permeability=dict(lim, nw=2, no=2, ng=2))
    typ = case.get("type", "producer")
    specs = []
    for m in range(2 if case.get("two") else 1):
        rate = 0.0 if case.get("zero") else env.real("rate%d" % m, 0.1, 500)
        bm = env.real("bhp_min%d" % m, -10, 100)
        c = cell if m == 0 or case.get("same") else (1, 0, 0)
        kw = dict(name="W%d" % m, type=typ, i=c[0], j=c[1], k=c[2], control_value=rate, rate=rate, bm=bm)
        if case.get("ct") == "bhp":
            kw.update(control_type="bhp", control_value=env.real("bhp", 0.1, 60))
        if case.get("bmin", True):
            kw["bhp_min"] = bm
        specs.append(kw)
    wells = make_wells(env, res, [well(**{k: v for k, v in s.items() if k not in ("rate", "bm")}) for s in specs])
    par = {}
    sc = 1
    if case.get("scale"):
        sc = par["global_rate_scale"] = env.real("scale", 0.2, 5)
    sim = make_sim(env, res, fl, wells, solver_type="impes", max_substeps=1, **par)
    P0 = env.tensor("p", dims, PMIN, PMAX)
    set_state(env, fl, dims, lim, P0, sats=case.get("sats"))
    WI = []
    for m, w in enumerate(wells.get_wells()):
        wi = 5e-13 * (1 + m) if m or n > 1 else env.real("wi", 1e-14, 1e-10)
        w.well_index = wi
        WI.append(wi)
    dt = DAY
    mw, mo, mg = mobilities(env, fl)
    p0 = env.vals(P0)
    # the same state without wells: what is left is the wells' contribution
    base = make_sim(env, res, fl, make_wells(env, res), solver_type="impes", max_substeps=1, **par)
    s0 = Seam(env, base, p0)
    base._impes_pressure_step(dt)
    A0, b0 = s0.dense()
    seam = Seam(env, sim, p0)
    # decided before the step: which side of the limit each well is on
    P = [flat(dims, s["i"], s["j"], s["k"]) for s in specs]
    turns = 2 if case.get("again") else 1
    for t in range(turns):
        if t:
            P0 = env.tensor("p_next", dims, PMIN, PMAX)
            fl.pressure = P0
            p0 = env.vals(P0)
            s0.calls.clear()
            seam.calls.clear()
            base._impes_pressure_step(dt)
            A0, b0 = s0.dense()
        sim._impes_pressure_step(dt)
        A, b = seam.dense()
        bhp = []
        for m, s in enumerate(specs):
            q = s["rate"] * sc / DAY
            mt = mw[P[m]] + mo[P[m]] + mg[P[m]]
            need = p0[P[m]] - q / (WI[m] * mt + 1e-12)       # Pa
            low = env.lt(need, s["bm"] * 1e6)
            near = env.all([env.lt(need, s["bm"] * 1e6 + 10), env.gt(need, s["bm"] * 1e6 - 10)])
            sw = typ == "producer" and case.get("bmin", True) and case.get("ct") != "bhp"
            if sw:
                env.assume(env.not_(near))
            J = WI[m] * mt
            if case.get("ct") == "bhp":
                bhp.append((P[m], True, J, s["control_value"] * 1e6, 0))
            else:
                bhp.append((P[m], low if sw else False, J, s["bm"] * 1e6, q if typ == "injector" else -q))
            w = wells.get_wells()[m]
            if sw:
                env.check("mode", env.all([env.implies(low, env.true(mode(w) == "bhp") if hasattr(w, "last_mode") else env.true(True)),
                                           env.implies(env.not_(low), env.true(mode(w) == "rate") if hasattr(w, "last_mode") else env.true(True))]))
        for c in range(n):
            dA = sum(env.ite(low, J, 0) for cc, low, J, pb, q in bhp if cc == c)
            db = sum(env.ite(low, J * pb, q) for cc, low, J, pb, q in bhp if cc == c)
            env.observe("d%d" % c, [A[c][c] - A0[c][c], (b[c] - b0[c]) * DAY])
            # the two systems are compared scaled by the size of the well's own term
            env.check("well's part of the equation: pressure coefficient", env.eq((A[c][c] - A0[c][c]) * 1e9, dA * 1e9, 1e-3))
            env.check("well's part of the equation: source", env.eq((b[c] - b0[c]) * DAY, db * DAY, 0.05))
            for d in range(n):
                if d != c:
                    env.check("no other coefficient changes", env.eq(A[c][d], A0[c][d], 1e-16))
