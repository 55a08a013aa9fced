"""Face transmissibilities are harmonic means scaled by face geometry."""
from .common import *

PROPERTY = "C06"
BOUNDS = "two or three cells in each direction and a 2x2x2 block; permeabilities from 0 to 10000 mD and cell sizes from 0.5 to 500 m, all symbolic"
ASSUMPTIONS = ["the conductances are the face coefficients the simulator keeps (T_x, T_y, T_z); that the steps use exactly these is part of C03 and C04",
               "permeabilities below 1e-9 mD count as sealed (the code's guard against division by zero)"]
OPTS = dict(time=120, max_paths=300)


def cases(tier):
    out = []
    for ax, d in enumerate("xyz"):
        out.append(dict(name=d, axis=ax, n=2))
        out.append(dict(name=d + "_sealed", axis=ax, n=2, sealed=True))
        out.append(dict(name=d + "_used", axis=ax, n=2, used=True))
        if tier == "thorough":
            out.append(dict(name=d + "4", axis=ax, n=4))
    out.append(dict(name="block", axis=None, n=2))
    return out


def run(env, case):
    ax, n = case["axis"], case["n"]
    dims = [1, 1, 1]
    if ax is None:
        dims = [2, 2, 2]
    else:
        dims[ax] = n
    dims = tuple(dims)
    N = ncell(dims)
    G = [env.real("d" + c, 0.5, 500) for c in "xyz"] if ax is not None and not case.get("used") else [10.0, 20.0, 5.0]
    res = make_reservoir(env, dims, G)
    lo = 0 if not case.get("sealed") else 0
    K = {}
    for c in "xyz":
        K[c] = [env.real("k%s%d" % (c, i), 1e-3, 10000) if ax is None or c == "xyz"[ax] else 77.0 for i in range(N)]
        if case.get("sealed") and c == "xyz"[ax]:
            K[c][0] = 0.0
    set_perm(env, res, K["x"], K["y"], K["z"])
    fl = make_fluid(env, res)
    sim = make_sim(env, res, fl, solver_type="impes", max_substeps=1)
    T = (sim.T_x, sim.T_y, sim.T_z)
    fc = list(faces(dims))
    for a in range(3):
        idx = [(x, y) for aa, x, y in fc if aa == a]
        env.check("one conductance per face", env.true(len(env.vals(T[a])) == len(idx)))
        area = G[0] * G[1] * G[2] / G[a]
        k = K["xyz"[a]]
        got = env.vals(T[a])
        order = sorted(idx)              # faces in the order of their first cell, as the flattened fields are
        for t, (x, y) in zip(got, order):
            if case.get("sealed"):
                env.check("sealed cell conducts nothing", env.eq(t, 0, 1e-25))
                continue
            lhs = t / MD * G[a] * (k[x] + k[y])
            rhs = 2 * k[x] * k[y] * area
            env.check("harmonic mean times area over length", env.all(env.le(lhs, rhs * 1.0001, 0), env.ge(lhs, rhs * 0.9999, 0)))
            env.observe("T", [t / MD])
    if case.get("used"):
        # the step uses it: a unit pressure difference moves water through the face at that conductance
        env.assume(env.all([env.ge(v, 1, 0) for v in K["xyz"[ax]]]))
        fl.s_w = env.tensor_of([0.5] * N, dims)
        fl.s_g = env.tensor_of([0.0] * N, dims)
        fl.s_o = 1.0 - fl.s_w - fl.s_g
        mw, mo, mg = mobilities(env, fl)
        seam = Seam(env, sim, [2e7, 2e7])
        env.check("step succeeds", env.true(sim.run_step(DAY)))
        A, b = seam.dense()
        k = K["xyz"[ax]]
        area = G[0] * G[1] * G[2] / G[ax]
        t = -A[0][1] / (mw[0] + mo[0] + mg[0]) / MD
        env.check("pressure equation uses the harmonic mean", env.all(env.le(t * G[ax] * (k[0] + k[1]), 2 * k[0] * k[1] * area * 1.0001, 0),
                                                                   env.ge(t * G[ax] * (k[0] + k[1]), 2 * k[0] * k[1] * area * 0.9999, 0)))
