"""PVT tables are interpolated faithfully and malformed tables are rejected."""
from .common import *

PROPERTY = "C11"
BOUNDS = ("tables of 2 to 4 entries (thorough 5) with symbolic pressures and values in every column, symbolic query pressure inside, at the entries and outside; "
          "malformed tables: every column one entry short or long, 3 arbitrary symbolic pressures")
ASSUMPTIONS = ["entries at least 0.1 MPa apart for the interpolation cases"]
OPTS = dict(time=120, max_paths=400)

COLS = dict(Bo=("Bo", 1.0, 2.0), Bw=("Bw", 0.9, 1.1), Bg=("Bg", 0.001, 0.1), mu_o=("mu_o_cP", 0.3, 10), mu_w=("mu_w_cP", 0.2, 1), mu_g=("mu_g_cP", 0.01, 0.05),
            Rs=("Rs_m3m3", 0, 200), Rv=("Rv_m3m3", 0, 0.1))


def cases(tier):
    out = []
    for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
        out.append(dict(name="interp_%d" % n, kind="interp", n=n))
    out += [dict(name="no_rv", kind="interp", n=3, no_rv=True), dict(name="field", kind="field", n=3),
            dict(name="pressures", kind="pressures", n=3), dict(name="lengths", kind="lengths", n=3), dict(name="fluid_rejects", kind="fluid", n=3)]
    return out


def column(env, key, n):
    name, lo, hi = COLS[key]
    return [env.real("%s%d" % (key, i), lo, hi) for i in range(n)]


def table(env, n, P, no_rv=False, sym=True):
    t = {}
    for k, (name, lo, hi) in COLS.items():
        if k == "Rv" and no_rv:
            continue
        t[name] = column(env, k, n) if sym else [lo + (hi - lo) * (i + 1) / (n + 1) for i in range(n)]
    t["pressure_MPa"] = P
    return t


def rising(env, n):
    P = [env.real("P0", 1, 10)]
    for i in range(1, n):
        P.append(P[-1] + env.real("gap%d" % i, 0.1, 20))
    return P


def run(env, case):
    n, kind = case["n"], case["kind"]
    T = env.mod("simulator.pvt").PVTTable
    if kind == "interp":
        P = rising(env, n)
        t = table(env, n, P, case.get("no_rv"))
        tab = T(env.vfile("pvt.json", t))
        # where the query falls: at an entry, between two, or outside
        where = env.choice("where", list(range(2 * n + 1)))
        k = where // 2
        if where % 2:
            x = P[k]
        elif k == 0:
            x = P[0] - env.real("below", 0.001, 20)
        elif k == n:
            x = P[-1] + env.real("above", 0.001, 20)
        else:
            x = env.real("x", 1, 100)
            env.assume(env.all(env.ge(x, P[k - 1] + 0.001, 0), env.le(x, P[k] - 0.001, 0)))
        r = tab.eval(env.nparr([x]))
        for key in COLS:
            v = env.vals(r[key])[0]
            if key == "Rv" and case.get("no_rv"):
                env.check("missing vaporised oil means none", env.eq(v, 0, 1e-9))
                continue
            c = t[COLS[key][0]]
            s = COLS[key][2]
            if where % 2:
                env.check(key + " at a table pressure", env.eq(v / s, c[k] / s, 1e-4))
            elif k == 0 or k == n:
                env.check(key + " outside the table", env.eq(v / s, c[0 if k == 0 else -1] / s, 1e-4))
            else:
                env.check(key + " between two entries", env.eq((v - c[k - 1]) * (P[k] - P[k - 1]) / s, (c[k] - c[k - 1]) * (x - P[k - 1]) / s, 1e-3))
        env.observe("Bo", r["Bo"])
    elif kind == "field":
        # through the fluid model: pressures in Pa, whole fields, every cell its own pressure
        dims = (2, 1, 1)
        P = [5.0, 20.0, 50.0]
        t = table(env, n, P)
        fl = make_fluid(env, make_reservoir(env, dims), pvt=dict(path=env.vfile("pvt.json", t)))
        x0, x1 = env.real("p0", 6e6, 19e6), env.real("p1", 21e6, 49e6)
        p = env.tensor_of([x0, x1], dims)
        fl.pressure = p
        for key in COLS:
            c = t[COLS[key][0]]
            s = COLS[key][2]
            r = fl._eval_pvt(p, key)
            env.check("shape", env.true(env.shape(r) == dims))
            v = env.vals(r)
            env.check(key + " of the first cell", env.eq((v[0] - c[0]) * 15.0 / s, (c[1] - c[0]) * (x0 / 1e6 - 5.0) / s, 1e-3))
            env.check(key + " of the second cell", env.eq((v[1] - c[1]) * 30.0 / s, (c[2] - c[1]) * (x1 / 1e6 - 20.0) / s, 1e-3))
        for mu, key in ((fl.mu_o, "mu_o"), (fl.mu_w, "mu_w"), (fl.mu_g, "mu_g")):
            c = t[COLS[key][0]]
            s = COLS[key][2]
            v = env.vals(mu)
            env.check("viscosity in Pa s of " + key, env.eq((v[0] * 1000.0 - c[0]) * 15.0 / s, (c[1] - c[0]) * (x0 / 1e6 - 5.0) / s, 1e-3))
    elif kind == "pressures":
        P = [env.real("P%d" % i, 1, 60) for i in range(n)]
        env.assume(env.all([env.any(env.eq(P[i], P[i + 1], 0), env.ge(env.abs(P[i] - P[i + 1]), 0.001, 0)) for i in range(n - 1)]))
        t = table(env, n, P, sym=False)
        bad = env.raises((ValueError,), T, env.vfile("pvt.json", t))
        env.check("accepted exactly when strictly increasing", env.iff(env.all([env.lt(P[i], P[i + 1]) for i in range(n - 1)]), env.true(not bad)))
    elif kind == "lengths":
        t = table(env, n, [5.0, 20.0, 50.0], sym=False)
        key = env.choice("column", sorted(t))
        d = env.choice("by", [-1, 1, -3, 0])
        if d < 0:
            t[key] = t[key][:d]
        elif d > 0:
            t[key] = t[key] + [2 * t[key][-1]]
        bad = env.raises((ValueError,), T, env.vfile("pvt.json", t))
        env.check("rejected exactly when a column's length differs", env.true(bool(bad) == (d != 0)))
    else:
        # a rejected table is not used: the fluid keeps its constant viscosities
        P = [5.0, 20.0, 20.0] if env.bool("flat") else [5.0, 4.0, 50.0]
        fl = make_fluid(env, make_reservoir(env, (1, 1, 1)), pvt=dict(path=env.vfile("pvt.json", table(env, n, P, sym=False))), mu_oil=3.0)
        env.check("a malformed table is not used", env.true(fl.pvt is None))
        env.check("constants are used instead", env.eq(fl.mu_o * 1000.0, 3.0, 1e-4))
