"""Analytic derivatives match the curves they differentiate."""
from .common import *

PROPERTY = "C10"
BOUNDS = ("Corey exponents 2, 3 and 4 (thorough also 1 and 5), capillary exponents 1 and 2 (oil-water), 2 (gas-oil); saturation and increment symbolic over the whole mobile range; "
          "residual saturations symbolic for oil and water at exponent 2 and for the agreement of the two interfaces, fixed (three sets) otherwise; capillary pressure up to 90% of the mobile range")
ASSUMPTIONS = ["a derivative is decided by its Taylor remainder: |f(s+h)-f(s)-h f'(s)| <= K h^2 for every s and h, with K a bound on the curvature of the curve family",
               "non-integer exponents are outside the bounds"]
OPTS = dict(time=120, max_paths=300)

CURVES = {"krw": ("calc_water_kr", "calc_dkrw_dsw"), "kro": ("calc_oil_kr", "calc_dkro_dsw"), "krg": ("calc_gas_kr", "calc_dkrg_dsg")}


def cases(tier):
    out = []
    for n in (2, 3, 4) + ((1, 5) if tier == "thorough" else ()):
        for t, c in enumerate(CURVES):
            if n == 2 and c != "krg":
                out.append(dict(name="%s_%d" % (c, n), curve=c, n=n))
            else:
                out.append(dict(name="%s_%d" % (c, n), curve=c, n=n, ends=((0.2, 0.2), (0.1, 0.3), (0.0, 0.05))[(n + t) % 3]))
        out.append(dict(name="pair_%d" % n, curve="pair", n=n))
    for e in (1, 2):
        for t, ends in enumerate(((0.2, 0.2), (0.1, 0.3), (0.0, 0.05))):
            out.append(dict(name="pcow_%d_%d" % (e, t), curve="pcow", n=e, ends=ends))
            if e == 2:
                out.append(dict(name="pcog_%d_%d" % (e, t), curve="pcog", n=e, ends=ends))
    out.append(dict(name="no_capillary", curve="none", n=1, ends=(0.2, 0.2)))
    return out


def run(env, case):
    n, curve = case["n"], case["curve"]
    res = make_reservoir(env, (1, 1, 1))
    if "ends" in case:
        swc, sor = case["ends"]
    else:
        swc, sor = env.real("sw_cr", 0, 0.4), env.real("so_r", 0, 0.4)
    cfg = dict(relative_permeability=dict(nw=n, no=n, ng=n, sw_cr=swc, so_r=sor))
    if curve in ("pcow", "none"):
        cfg["capillary_pressure"] = dict(pc_scale=0.0 if curve == "none" else 1000.0, pc_exponent=n)
    if curve == "pcog":
        cfg["capillary_pressure_og"] = dict(pc_scale=1000.0, pc_exponent=n)
    fl = make_fluid(env, res, **cfg)
    s = env.real("s", 0, 1)
    one = lambda v: env.tensor_of([v], (1,))
    D = 1.0 - swc - sor
    at = lambda f, v: env.vals(f(one(v)))[0]
    if curve == "none":
        for f in (fl.get_capillary_pressure_derivative, fl.get_capillary_pressure_og_derivative, fl.get_capillary_pressure, fl.get_capillary_pressure_og):
            env.check("no capillary pressure, no derivative", env.eq(at(f, s), 0, 1e-9))
        return
    h = env.real("h", -1, 1)
    gas = curve in ("krg", "pcog")
    lo, hi = (0.0, D) if gas else (swc, 1.0 - sor)
    if curve in ("pcow", "pcog"):
        f, d = (fl.get_capillary_pressure, fl.get_capillary_pressure_derivative) if curve == "pcow" else (fl.get_capillary_pressure_og, fl.get_capillary_pressure_og_derivative)
        top = lo + 0.9 * D
        env.assume(env.all(env.ge(s, lo + 1e-4, 0), env.le(s, top, 0), env.ge(s + h, lo + 1e-4, 0), env.le(s + h, top, 0)))
        a, b, g = at(f, s), at(f, s + h), at(d, s)
        env.observe("pc", [a / 1000.0, g / 1000.0])
        # curvature of (1-u)^-e on u <= 0.9 is at most e(e+1) 10^(e+2) / D^2
        K = n * (n + 1) * 10.0 ** (n + 2) / (2 * D * D) * 2
        env.check("capillary derivative", env.le(env.abs(b - a - h * g) / 1000.0, K * h * h, 1e-3))
        env.check("flat beyond the end", env.implies(env.true(True), env.eq(at(d, hi + 0.01), 0, 1e-6)))
        return
    if curve == "pair":
        out = fl.get_rel_perms_derivatives(one(s))
        dko, dkw = [env.vals(x)[0] for x in out]
        inside = env.all(env.gt(s, lo + 1e-4), env.lt(s, hi - 1e-4))
        # the other published derivatives are tied to the curves in their own cases
        env.check("both interfaces agree on water", env.implies(inside, env.eq(dkw, at(fl.calc_dkrw_dsw, s), 1e-3)))
        env.check("both interfaces agree on oil", env.implies(inside, env.eq(dko, at(fl.calc_dkro_dsw, s), 1e-3)))
        env.check("water flat below connate", env.implies(env.le(s, swc, 0), env.eq(dkw, 0, 1e-4)))
        env.check("oil flat above residual", env.implies(env.ge(s, hi, 0), env.eq(dko, 0, 1e-4)))
        return
    f, d = [getattr(fl, x) for x in CURVES[curve]]
    if env.decide(env.all(env.gt(s, lo + 1e-4), env.lt(s, hi - 1e-4))):
        env.assume(env.all(env.gt(s + h, lo + 1e-4), env.lt(s + h, hi - 1e-4)))
        a, b, g = at(f, s), at(f, s + h), at(d, s)
        env.observe("kr", [a, b, g])
        K = n * (n - 1) / 2 * 1.5
        # u = (s - lo)/D, |u| <= 1: the remainder of u^n is at most n(n-1)/2 (h/D)^2
        env.check("derivative of " + curve, env.le(env.abs(b - a - h * g), K * (h / D) * (h / D), 1e-4))
    else:
        env.assume(env.any(env.le(s, lo, 0), env.ge(s, hi, 0)))
        env.check("flat outside the mobile range", env.eq(at(d, s), 0, 1e-6))
