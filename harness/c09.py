"""Relative permeability laws."""
from .common import *

PROPERTY = "C09"
BOUNDS = "3-cell field; Corey exponents from {1,1.5,2,3,4} in 4 combinations; saturations and residual saturations symbolic; both models"
ASSUMPTIONS = ["connate plus residual saturations leave at least 5% mobile range",
               "for the three-phase model equal oil-water end points (ko_end_w = ko_end_g); with unequal ones the range, the directions and the curve with the larger end point are claimed"]


def cases(tier):
    out = []
    for nw, no, ng in ((2, 2, 2), (1, 3, 1.5), (4, 1, 3), (1.5, 2, 4)):
        out.append(dict(name="corey_%s_%s_%s" % (nw, no, ng), model="corey", nw=nw, no=no, ng=ng))
        out.append(dict(name="stone_%s_%s_%s" % (nw, no, ng), model="stone2", nw=nw, no=no, ng=ng))
    out.append(dict(name="stone_ends", model="stone2", nw=2, no=2, ng=2, ends=True))
    return out


def run(env, case):
    swc = env.real("sw_cr", 0, 0.4)
    sor = env.real("so_r", 0, 0.4)
    sgc = env.real("sg_cr", 0, 0.2)
    env.assume(env.le(swc + sor + sgc, 0.95, 0))
    res = make_reservoir(env, (3, 1, 1))
    rp = dict(model=case["model"], nw=case["nw"], no=case["no"], ng=case["ng"], sw_cr=swc, so_r=sor, sg_cr=sgc)
    now = case["no"]
    if case["model"] == "stone2":
        rp["now"] = rp["nog"] = now
    if case.get("ends"):
        rp["ko_end_w"] = env.real("ko_end_w", 0.2, 1)
        rp["ko_end_g"] = env.real("ko_end_g", 0.2, 1)
    fl = make_fluid(env, res, relative_permeability=rp)
    s0, s1 = env.real("sw0", 0, 1), env.real("sw1", 0, 1)
    t0, t1 = env.real("sg0", 0, 1), env.real("sg1", 0, 1)
    env.assume(env.le(s0, s1, 0))
    env.assume(env.le(t0, t1, 0))
    sw = env.tensor_of([s0, s1, s1], (3, 1, 1))
    sg = env.tensor_of([t0, t0, t1], (3, 1, 1))
    kro, krw, krg = fl.get_rel_perms(sw, sg)
    env.observe("kro", kro)
    env.observe("krw", krw)
    env.observe("krg", krg)
    o, w, g = env.vals(kro), env.vals(krw), env.vals(krg)
    for n, k in (("kro", o), ("krw", w), ("krg", g)):
        env.check(n + ">=0", env.ge(k[0], 0, 1e-5))
        env.check(n + "<=1", env.le(k[0], 1, 1e-5))
    env.check("krw increasing", env.le(w[0], w[1], 1e-4))
    env.check("krw independent of gas", env.eq(w[1], w[2], 1e-5))
    env.check("krg increasing", env.le(g[1], g[2], 1e-4))
    env.check("krg independent of water", env.eq(g[0], g[1], 1e-5))
    env.check("krw zero at connate", env.implies(env.le(s0, swc, 0), env.eq(w[0], 0, 1e-5)))
    env.check("krw one at residual oil", env.implies(env.ge(s0, 1 - sor, 0), env.eq(w[0], 1, 1e-4)))
    env.check("krg zero without gas", env.implies(env.le(t0, 0, 0), env.eq(g[0], 0, 1e-5)))
    env.check("krg one at most gas", env.implies(env.ge(t0, 1 - sor, 0), env.eq(g[0], 1, 1e-4)))
    u = env.max(0, env.min(1, (s0 - swc) / (1 - swc - sor)))
    env.check("water Corey curve", env.eq(w[0], env.pow(u, case["nw"]), 1e-4))
    u = env.min(1, t0 / (1 - swc - sor))
    env.check("gas Corey curve", env.eq(g[0], env.pow(u, case["ng"]), 1e-4))
    if not case.get("ends"):
        env.check("kro decreasing in water", env.ge(o[0], o[1], 1e-4))
        env.check("kro decreasing in gas", env.ge(o[1], o[2], 1e-4))
        env.check("kro zero at residual", env.implies(env.ge(s0, 1 - sor, 0), env.eq(o[0], 0, 1e-4)))
        env.check("kro one at connate without gas", env.implies(env.all(env.le(s0, swc, 0), env.le(t0, 0, 0)), env.eq(o[0], 1, 1e-4)))
        # two-phase curve: Corey power of the normalised oil saturation
        u = env.max(0, env.min(1, (1 - sor - s0) / (1 - swc - sor)))
        env.check("two-phase oil curve when gas is absent", env.implies(env.eq(t0, 0, 0), env.eq(o[0], env.pow(u, now), 1e-4)))
    else:
        kw, kg = rp["ko_end_w"], rp["ko_end_g"]
        env.check("kro within its end points", env.le(o[0], env.max(kw, kg), 1e-5))
        env.check("kro decreasing in water", env.ge(o[0], o[1], 1e-4))
        env.check("kro decreasing in gas", env.ge(o[1], o[2], 1e-4))
        u = env.max(0, env.min(1, (1 - sor - s0) / (1 - swc - sor)))
        env.check("scaled oil-water curve when gas is absent", env.implies(env.all(env.le(kg, kw, 0), env.eq(t0, 0, 0)), env.eq(o[0], kw * env.pow(u, now), 1e-4)))
        u = env.max(0, env.min(1, (1 - sor - t0) / (1 - sgc - sor)))
        env.check("scaled oil-gas curve at connate water", env.implies(env.all(env.le(kw, kg, 0), env.le(s0, swc, 0)), env.eq(o[0], kg * env.pow(u, now), 1e-4)))
