"""Generated PVT tables are always admissible and loadable."""
from .common import *

PROPERTY = "C12"
BOUNDS = ("1 to 4 points, with the bubble point inside the range up to 3 (thorough 6); pressure range 1 to 100 MPa, bubble point 1 to 120 MPa, oil gravity 10 to 60 API and gas gravity 0.5 to 1.5, all symbolic")
ASSUMPTIONS = ["pressure range at least 1 MPa wide", "power and exponential functions are constrained by their monotonicity, bounds and values at the ends of their argument's range"]
OPTS = dict(time=150, max_paths=400)


def cases(tier):
    out = [dict(name="sat_%d" % n, n=n, bubble="above") for n in (2, 3, 4)]
    out += [dict(name="under_%d" % n, n=n, bubble="below") for n in (2, 3, 4)]
    out += [dict(name="across_%d" % n, n=n, bubble="inside") for n in (2, 3)]
    out += [dict(name="default_bubble", n=3, bubble="default"), dict(name="load", n=3, bubble="inside", load=True), dict(name="one", n=1, bubble="inside"), dict(name="command", n=3, main=True)]
    if tier == "thorough":
        out += [dict(name="across_%d" % n, n=n, bubble="inside") for n in (4, 5, 6)]
    return out


def run(env, case):
    n = case["n"]
    G = env.mod("simulator.pvt_generator")
    lo = env.real("p_min", 1, 50)
    hi = lo + env.real("range", 1, 50)
    api, sg = env.real("api", 10, 60), env.real("gas_sg", 0.5, 1.5)
    kw = dict(p_min_mpa=lo, p_max_mpa=hi, n_points=n, oil_api=api, gas_sg=sg)
    b = case.get("bubble")
    if case.get("main"):
        return command(env, G)
    pb = 20.0
    if b != "default":
        pb = kw["bubble_point_mpa"] = env.real("p_bubble", 1, 120)
        if b == "above":
            env.assume(env.ge(pb, hi, 0))
        elif b == "below":
            env.assume(env.lt(pb, lo))
        elif b == "inside":
            env.assume(env.all(env.ge(pb, lo, 0), env.le(pb, hi, 0)))
    d = G.generate_black_oil_pvt(G.PVTParams(**kw))
    P = [env.val(x) for x in d["pressure_MPa"]]
    env.observe("P", P)
    env.check("one row per point", env.true(all(len(d[k]) == n for k in ("pressure_MPa", "Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP", "Rs_m3m3", "Rv_m3m3"))))
    env.check("starts at the minimum", env.eq(P[0], lo, 1e-6))
    if n > 1:
        env.check("ends at the maximum", env.eq(P[-1], hi, 1e-6))
    col = {k: [env.val(x) for x in v] for k, v in d.items() if isinstance(v, list)}
    for i in range(n):
        for k in ("Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP"):
            env.check(k + " positive", env.gt(col[k][i], 0))
        for k in ("Rs_m3m3", "Rv_m3m3"):
            env.check(k + " non-negative", env.ge(col[k][i], 0, 0))
    for i in range(n - 1):
        env.check("pressures increase", env.gt(P[i + 1], P[i]))
        env.check("dissolved gas never decreases", env.ge(col["Rs_m3m3"][i + 1], col["Rs_m3m3"][i], 1e-6))
        env.check("dissolved gas constant above the bubble point", env.implies(env.ge(P[i], pb, 0), env.eq(col["Rs_m3m3"][i + 1], col["Rs_m3m3"][i], 1e-6)))
        for k in ("Bo", "Bw", "Bg"):
            env.check(k + " never increases", env.le(col[k][i + 1], col[k][i], 1e-9))
        for k in ("mu_w_cP", "mu_g_cP", "Rv_m3m3"):
            env.check(k + " never decreases", env.ge(col[k][i + 1], col[k][i], 1e-9))
        env.check("oil viscosity never increases up to the bubble point", env.implies(env.le(P[i + 1], pb, 0), env.le(col["mu_o_cP"][i + 1], col["mu_o_cP"][i], 1e-6)))
        env.check("oil viscosity never decreases above the bubble point", env.implies(env.ge(P[i], pb, 0), env.ge(col["mu_o_cP"][i + 1], col["mu_o_cP"][i], 1e-6)))
    if case.get("load"):
        t = env.mod("simulator.pvt").PVTTable(env.vfile("pvt.json", d))
        for i in range(n):
            r = t.eval(env.nparr([P[i]]))
            for k, c in (("Bo", "Bo"), ("Bw", "Bw"), ("Bg", "Bg"), ("mu_o", "mu_o_cP"), ("mu_w", "mu_w_cP"), ("mu_g", "mu_g_cP"), ("Rs", "Rs_m3m3"), ("Rv", "Rv_m3m3")):
                env.check("loads back " + c, env.eq(env.vals(r[k])[0], col[c][i], 1e-6))


def command(env, G):
    """the command-line tool writes exactly the table of the options it was given"""
    lo, pb = env.real("p_min", 1, 10), env.real("pb", 12, 30)
    opts = {"p_min": lo, "p_max": 40.0, "n": 2, "temp": 77.0, "api": env.real("api", 10, 60), "gas_sg": env.real("sg", 0.5, 1.5), "salinity": 5.0, "pb": pb,
            "out": env.out_path("table.json")}

    class Args:
        pass

    class Parser:
        def __init__(self, *a, **k):
            self.names = []

        def add_argument(self, name, *a, **k):
            self.names.append(k.get("dest") or name.lstrip("-").replace("-", "_"))

        def parse_args(self, *a):
            r = Args()
            for n in self.names:
                setattr(r, n, opts[n])
            return r

    class Stub:
        ArgumentParser = Parser

    G.argparse = Stub
    G.main()
    got = env.vjson(opts["out"])
    d = G.generate_black_oil_pvt(G.PVTParams(p_min_mpa=lo, p_max_mpa=40.0, n_points=2, oil_api=opts["api"], gas_sg=opts["gas_sg"], bubble_point_mpa=pb))
    for k, v in d.items():
        if isinstance(v, list):
            env.check("written table is the generated one: " + k, env.true(len(got[k]) == 2))
            env.check("written table is the generated one: " + k, env.all([env.eq(x, y, 1e-6) for x, y in zip(got[k], v)]))
