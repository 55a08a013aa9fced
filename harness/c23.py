"""The RL environment follows its step, reset and reward contract."""
from .common import *

PROPERTY = "C23"
BOUNDS = ("grids of 1 to 4 cells, one to three wells, every action in [-1, 1], every outcome of the simulation step (success or failure, any pressures and saturations), step lengths of 0.1 to 30 days, "
          "episodes of one to three steps (thorough four) with step limits one to four, resets after zero to two steps; with constant properties and with a black-oil table")
ASSUMPTIONS = ["the simulation step itself is replaced by one with an arbitrary verdict and result (its behaviour is the subject of the other properties)",
               "oil mass in place uses the density published by the fluid model; the reward is expressed in thousands of tonnes, as coded"]
OPTS = dict(time=150, max_paths=600)


def cases(tier):
    out = [dict(name="episode_%d" % n, kind="episode", steps=n, dims=(2, 1, 1)) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]
    out += [dict(name="actions", kind="actions", dims=(1, 1, 1)), dict(name="fields", kind="fields", dims=(2, 1, 2)), dict(name="fields_pvt", kind="fields", dims=(2, 1, 1), pvt=True),
            dict(name="reset_fresh", kind="reset", steps=0, dims=(2, 1, 1)), dict(name="reset_1", kind="reset", steps=1, dims=(2, 1, 1)), dict(name="reset_2", kind="reset", steps=2, dims=(1, 1, 2)),
            dict(name="days_default", kind="days", dims=(1, 1, 1))]
    if tier == "thorough":
        out += [dict(name="fields_222", kind="fields", dims=(2, 2, 2)), dict(name="reset_3", kind="reset", steps=3, dims=(2, 1, 1), opts=dict(time=400))]
    return out


class Script:
    """stands in for the simulation step: any verdict, any resulting state"""

    def __init__(self, env, rl, verdicts, dims, tag=""):
        self.env, self.rl, self.verdicts, self.dims, self.tag = env, rl, list(verdicts), dims, tag
        self.dts, self.controls, self.n = [], [], 0
        rl.simulator.run_step = self.step

    def step(self, dt):
        e, rl = self.env, self.rl
        self.dts.append(dt)
        self.controls.append([w.control_value for w in rl.simulator.well_manager.get_wells()])
        fl = rl.simulator.fluid
        fl.pressure = e.tensor("p%s_%d" % (self.tag, self.n), self.dims, 1e6, 6e7)
        fl.s_w = e.tensor("w%s_%d" % (self.tag, self.n), self.dims, 0, 0.6)
        fl.s_g = e.tensor("g%s_%d" % (self.tag, self.n), self.dims, 0, 0.4)
        fl.s_o = 1.0 - fl.s_w - fl.s_g
        ok = self.verdicts[self.n]
        self.n += 1
        return ok


def build(env, dims, wells=1, maxs=5, pvt=False, dt=None):
    ctl = [("rate", 40.0), ("bhp", 15.0), ("rate", 90.0)]
    ws = [well(name="W%d" % a, control_type=ctl[a][0], control_value=env.real("v%d" % a, 6, 60) if wells > 1 else ctl[a][1]) for a in range(wells)]
    fluid = dict(pressure=env.real("P", 10, 40), s_w=env.real("sw", 0.1, 0.5), s_g=env.real("sg", 0, 0.4))
    if pvt:
        fluid["pvt"] = dict(path=env.vfile("pvt.json", TABLE))
    cfg = dict(reservoir=dict(dimensions=list(dims), grid_size=[20.0, 10.0, 5.0], porosity=0.2, permeability=100.0), fluid=fluid, wells=ws,
               simulation=dict(solver_type="impes", **(dict(time_step_days=dt) if dt is not None else {})))
    path = env.vfile("rl.json", cfg)
    return env.mod("rl_env").ReservoirEnv(path, max_steps=maxs, device=env.torch.device("cpu")), cfg


def mass(env, rl):
    so, rho = env.vals(rl.simulator.fluid.s_o), env.vals(rl.simulator.fluid.rho_o)
    return env.sum([s * r * 0.2 * 1000.0 for s, r in zip(so, rho)]) if len(rho) == len(so) else None


def observed(env, rl, obs):
    p, w = env.vals(rl.simulator.fluid.pressure), env.vals(rl.simulator.fluid.s_w)
    got = env.vals(obs)
    n = len(p)
    env.check("two entries per cell", env.true(len(got) == 2 * n))
    env.check("pressures first", env.all([env.eq(a, b / 1e7, 1e-5) for a, b in zip(got[:n], p)]))
    env.check("then water saturations", env.all([env.eq(a, b, 1e-5) for a, b in zip(got[n:], w)]))


def zero(env, k):
    return env.nparr([0.0] * k)


def run(env, case):
    kind, dims = case["kind"], case["dims"]
    if kind == "days":
        rl, _ = build(env, dims, dt=None if env.bool("default") else 2.5)
        want = 1.0 if env.bool("default") else 2.5
        rl.reset()
        s = Script(env, rl, [True], dims)
        rl.step(zero(env, 1))
        env.check("step length", env.true(len(s.dts) == 1))
        env.check("of the configured days", env.eq(s.dts[0], want * DAY, 1e-3))
    elif kind == "actions":
        k = env.choice("wells", [1, 2, 3])
        rl, cfg = build(env, dims, wells=k, dt=1.0)
        env.check("one action per well", env.true(tuple(rl.action_space.shape) == (k,)))
        if env.bool("reset"):
            rl.reset()
        s = Script(env, rl, [True, env.bool("second")], dims)
        have = [w["control_value"] for w in cfg["wells"]]
        for t in range(2):
            a = [env.real("a%d_%d" % (t, x), -1, 1) for x in range(k)]
            rl.step(env.nparr(a))
            now = s.controls[t]
            for x, w in enumerate(cfg["wells"]):
                if w["control_type"] == "rate":
                    env.check("rate changes by a fifth of the action", env.eq(now[x], have[x] * (1 + 0.2 * a[x]), 1e-4))
                    env.check("by at most 20 percent", env.le(env.abs(now[x] - have[x]), 0.2 * have[x], 1e-4))
                else:
                    env.check("pressure shifts by five times the action", env.eq(now[x], have[x] + 5 * a[x], 1e-4))
                    env.check("by at most 5 MPa", env.le(env.abs(now[x] - have[x]), 5, 1e-4))
            have = now
        env.observe("controls", have)
    elif kind == "fields":
        rl, _ = build(env, dims, pvt=case.get("pvt", False), dt=1.0)
        if case.get("pvt"):
            # concrete pressures keep the table look-up on one segment
            pass
        obs, info = rl.reset()
        observed(env, rl, obs)
        m0 = mass(env, rl)
        s = Script(env, rl, [True], dims)
        obs, r, term, trunc, info = rl.step(zero(env, 1))
        observed(env, rl, obs)
        m1 = mass(env, rl)
        env.check("reward is the oil mass produced", env.eq(r, (m0 - m1) / 1e6, 2e-6))
        env.observe("reward", r)
    elif kind == "episode":
        n = case["steps"]
        maxs = env.choice("limit", list(range(1, n + 2)))
        dt = env.real("days", 0.1, 30)
        rl, _ = build(env, dims, maxs=maxs, dt=dt)
        if env.bool("reset"):
            rl.reset()
        # the episode fails at one step or not at all
        bad = env.choice("fails", [None] + list(range(n)))
        s = Script(env, rl, [t != bad for t in range(n)], dims)
        m0 = prev = mass(env, rl)
        total = 0
        for t in range(n):
            obs, r, term, trunc, info = rl.step(zero(env, 1))
            env.check("one simulation step each", env.true(len(s.dts) == t + 1))
            env.check("of the configured length", env.eq(s.dts[t] / DAY, dt, 1e-4))
            observed(env, rl, obs)
            env.check("never truncated", env.true(not trunc))
            if t == bad:
                env.check("a failed step ends the episode", env.true(bool(term) and not info["converged"]))
                env.check("with the penalty", env.eq(r, -1000, 1e-6))
                break
            env.check("a successful step is reported so", env.true(bool(info["converged"])))
            m = mass(env, rl)
            env.check("reward is the oil mass produced", env.eq(r, (prev - m) / 1e6, 2e-6))
            prev = m
            total = total + r
            env.check("rewards add up to the production since the start", env.eq(total, (m0 - m) / 1e6, 5e-6))
            env.check("episodes end exactly at the step limit", env.true(bool(term) == (t + 1 >= maxs)))
            if term:
                break
    else:
        n = case["steps"]
        rl, cfg = build(env, dims, wells=2, maxs=2, dt=1.0)
        s = Script(env, rl, [env.bool("ok%d" % t) for t in range(n)], dims)
        for t in range(n):
            if rl.step(env.nparr([env.real("a%d" % t, -1, 1), env.real("b%d" % t, -1, 1)]))[2]:
                break
        out = rl.reset()
        env.check("reset returns an observation and an info", env.true(len(out) == 2 and isinstance(out[1], dict)))
        observed(env, rl, out[0])
        fl, f = rl.simulator.fluid, cfg["fluid"]
        env.check("initial pressures", env.all([env.eq(x / 1e6, f["pressure"], 1e-4) for x in env.vals(fl.pressure)]))
        env.check("initial saturations", env.all([env.eq(x, f["s_w"], 1e-5) for x in env.vals(fl.s_w)] + [env.eq(x, f["s_g"], 1e-5) for x in env.vals(fl.s_g)]
                                                 + [env.eq(x, 1 - f["s_w"] - f["s_g"], 1e-5) for x in env.vals(fl.s_o)]))
        env.check("initial controls", env.all([env.eq(w.control_value, c["control_value"], 1e-5) for w, c in zip(rl.simulator.well_manager.get_wells(), cfg["wells"])]))
        m0 = mass(env, rl)
        s = Script(env, rl, [True, True], dims, "again")
        a = env.nparr([env.real("c0", -1, 1), env.real("c1", -1, 1)])
        obs, r, term, trunc, info = rl.step(a)
        env.check("controls start over", env.all([env.eq(s.controls[0][0], cfg["wells"][0]["control_value"] * (1 + 0.2 * env.vals(a)[0]), 1e-4),
                                                  env.eq(s.controls[0][1], cfg["wells"][1]["control_value"] + 5 * env.vals(a)[1], 1e-4)]))
        env.check("production counts from the reset", env.eq(r, (m0 - mass(env, rl)) / 1e6, 2e-6))
        env.check("the step count starts over", env.true(not term))
        obs, r, term, trunc, info = rl.step(zero(env, 2))
        env.check("and the limit holds again", env.true(bool(term)))
