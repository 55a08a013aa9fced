"""A run executes every step and its outputs describe the final state."""
import re
import types

from .common import *

PROPERTY = "C24"
BOUNDS = ("runs of 0 to 4 steps (thorough 6) of any length from 0.05 to 60 days and of listed decimal lengths, save intervals from 1 to one past the last step, every pressure and saturation after every step on grids of 2 and 4 cells, "
          "every verdict of every fully implicit step; animations of up to 4 frames with step numbers from 1 to 20000 listed in every order")
ASSUMPTIONS = ["the simulation step is replaced by one with an arbitrary result; pictures and image files are recorded instead of drawn", "the total time is a whole number of step lengths", "step numbers of the frames differ"]
OPTS = dict(time=150, max_paths=700)

DECIMALS = [(0.3, 0.1, 3), (0.6, 0.2, 3), (1.1, 0.1, 11), (0.7, 0.1, 7), (30, 7.5, 4), (2.3, 0.1, 23), (100, 100, 1)]


def cases(tier):
    out = [dict(name="steps_%d" % n, kind="run", steps=n, dims=(2, 1, 1)) for n in ((0, 1, 2, 3, 4) if tier == "quick" else range(7))]
    out += [dict(name="decimal", kind="decimal", dims=(1, 1, 1)), dict(name="outputs", kind="run", steps=1, dims=(2, 1, 1), outputs=True), dict(name="outputs_121", kind="run", steps=2, dims=(1, 1, 2), outputs=True),
            dict(name="implicit_failures", kind="fail", steps=2, dims=(1, 1, 1)), dict(name="defaults", kind="defaults", dims=(1, 1, 1))]
    out += [dict(name="frames_%d" % n, kind="frames", n=n) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]
    out += [dict(name="utils_%d" % n, kind="utils", n=n) for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4))]
    if tier == "thorough":
        out += [dict(name="outputs_222", kind="run", steps=1, dims=(2, 2, 1), outputs=True), dict(name="implicit_failures_3", kind="fail", steps=3, dims=(1, 1, 1))]
    return out


class Pictures:
    def __init__(self, env):
        self.env, self.made = env, []

    def module(self):
        rec = self

        class Plotter:
            def __init__(self, reservoir):
                self.reservoir = reservoir

            def save_plots(self, pressure, saturation, filename, time_info=None, gas_saturation=None):
                rec.made.append(dict(file=str(filename), p=rec.env.vals(pressure), w=rec.env.vals(saturation), g=rec.env.vals(gas_saturation)))
                rec.env.touch(filename)
        return types.SimpleNamespace(Plotter=Plotter)


class Images:
    """stands in for the image library: frames are the names of the files they were read from"""

    def __init__(self):
        self.files, self.open = {}, []

    def module(self):
        rec = self

        class Writer:
            def __init__(self, path):
                self.path = path
                rec.files[path] = dict(frames=[], fps=None)

            def append_data(self, image):
                rec.files[self.path]["frames"].append(image)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

        def get_writer(path, *a, **k):
            w = Writer(str(path))
            rec.files[str(path)]["fps"] = k.get("fps")
            return w

        def mimsave(path, images, *a, **k):
            rec.files[str(path)] = dict(frames=list(images), fps=k.get("fps"))
        return types.SimpleNamespace(imread=lambda p, *a, **k: str(p), get_writer=get_writer, mimsave=mimsave, mimwrite=mimsave)


def base(p):
    return p.rpartition("/")[2]


class Steps:
    def __init__(self, env, sim, dims, verdicts=None):
        self.env, self.sim, self.dims, self.verdicts = env, sim, dims, verdicts
        self.dts, self.states = [], [self.state()]
        sim.run_step = self.step

    def state(self):
        f = self.sim.fluid
        return [self.env.vals(x) for x in (f.pressure, f.s_w, f.s_g, f.s_o)]

    def step(self, dt):
        e, f, t = self.env, self.sim.fluid, len(self.dts)
        self.dts.append(dt)
        f.pressure = e.tensor("p%d" % t, self.dims, 1e6, 6e7)
        f.s_w = e.tensor("w%d" % t, self.dims, 0, 0.6)
        f.s_g = e.tensor("g%d" % t, self.dims, 0, 0.4)
        f.s_o = 1.0 - f.s_w - f.s_g
        self.states.append(self.state())
        return self.verdicts[t] if self.verdicts is not None else True


def build(env, dims, **par):
    pics, imgs = Pictures(env), Images()
    env.stub_module("plotting.plotter", pics.module())
    env.stub_module("imageio", imgs.module())
    res = make_reservoir(env, dims)
    sim = make_sim(env, res, make_fluid(env, res), **par)
    return sim, pics, imgs


def same(env, what, got, want, scale):
    env.check(what, env.all([env.true(len(got) == len(want))] + [env.eq(a / scale, b / scale, 1e-5) for a, b in zip(got, want)]))


def picture(env, what, pic, state):
    same(env, what + ": pressure", pic["p"], state[0], 1e7)
    same(env, what + ": water", pic["w"], state[1], 1)
    same(env, what + ": gas", pic["g"], state[2], 1)


def numbers(env, line):
    """label=number pairs of one line of text"""
    return {k: env.number(v) for k, v in re.findall(r"(\w+)=(<sym:\d+>|[-+0-9.eE]+)", line)}


def run(env, case):
    kind = case["kind"]
    if kind == "utils":
        return utils(env, case["n"])
    if kind == "frames":
        return frames(env, case["n"])
    dims = case["dims"]
    if kind == "decimal":
        total, dt, n = env.choice("lengths", DECIMALS)
        sim, pics, imgs = build(env, dims, total_time_days=total, time_step_days=dt, save_interval=1000)
        s = Steps(env, sim, dims)
        sim.run("out")
        env.check("total time over step length steps", env.true(len(s.dts) == n))
        env.check("of the configured length", env.all([env.eq(x, dt * DAY, 1e-3) for x in s.dts]))
        return
    if kind == "defaults":
        which = env.choice("given", ["none", "total", "step"])
        par = dict(none={}, total=dict(total_time_days=3), step=dict(time_step_days=50.0))[which]
        sim, pics, imgs = build(env, dims, **par)
        s = Steps(env, sim, dims)
        sim.run("out")
        env.check("defaults: one hundred days, one day per step", env.true(len(s.dts) == dict(none=100, total=3, step=2)[which]))
        env.check("default interval of ten", env.true(len(pics.made) == dict(none=11, total=1, step=1)[which]))
        return
    n = case["steps"]
    days = env.real("days", 0.05, 60)
    if kind == "fail":
        v = [env.bool("ok%d" % t) for t in range(2 * n)]
        sim, pics, imgs = build(env, dims, total_time_days=days * n, time_step_days=days, save_interval=1, solver_type="fully_implicit")
        s = Steps(env, sim, dims, v)
        sim.run("out")
        # every step is tried at full length, then once at half; a second failure ends the run
        t = 0
        done = 0
        want = []
        for _ in range(n):
            want.append(1)
            ok = v[t]
            t += 1
            if not ok:
                want.append(0.5)
                ok = v[t]
                t += 1
            if not ok:
                break
            done += 1
        env.check("as many attempts as the verdicts call for", env.true(len(s.dts) == len(want)))
        env.check("full steps, halved once on failure", env.all([env.eq(a / DAY, b * days, 1e-4) for a, b in zip(s.dts, want)]))
        env.check("a picture for every completed step, and the final one", env.true(len(pics.made) == (done if n > 1 else 0) + 1))
        picture(env, "final picture", pics.made[-1], s.states[-1])
        return
    every = env.choice("every", list(range(1, n + 2))) if not case.get("outputs") else n + 1
    par = {}
    npz = True
    if case.get("outputs"):
        npz = env.choice("npz", [None, True, False])
        if npz is not None:
            par["save_npz"] = npz
    fps = env.choice("fps", [5, 0]) if n and every < n else 5
    sim, pics, imgs = build(env, dims, total_time_days=days * n, time_step_days=days, save_interval=every, animation_fps=fps, **par)
    s = Steps(env, sim, dims)
    if case.get("outputs"):
        mb = {}
        for f in ("water", "oil", "gas"):
            mb[f] = {d: env.real("%s_%s" % (f, d), 0, 1e7) for d in ("in", "out")}
            sim.mass_balance[f].update(mb[f])
    sim.run("out")
    env.check("total time over step length steps", env.true(len(s.dts) == n))
    env.check("of the configured length", env.all([env.eq(x / DAY, days, 1e-4) for x in s.dts] + [env.true(True)]))
    due = [t for t in range(1, n + 1) if t % every == 0] if every < n else []
    env.check("a picture at every interval and at the end", env.true(len(pics.made) == len(due) + 1))
    for t, pic in zip(due, pics.made):
        env.check("named after its step", env.true(base(pic["file"]) == "out_step_%d.png" % t))
        picture(env, "picture of the step", pic, s.states[t])
    env.check("final picture", env.true(base(pics.made[-1]["file"]) == "out_final.png"))
    picture(env, "final picture", pics.made[-1], s.states[-1])
    p, w, g, o = s.states[-1]
    files = [x for x in env.outputs() if x[0] == "npz"]
    env.check("numeric output unless switched off", env.true(len(files) == (0 if npz is False else 1)))
    for _, path, d in files:
        env.check("its name", env.true(base(path) == "out.npz"))
        env.check("its fields", env.true(sorted(d) == ["pressure", "sg", "so", "sw"]))
        env.check("whole fields", env.true(all(env.shape(x) == dims for x in d.values())))
        same(env, "final pressure", env.vals(d["pressure"]), p, 1e7)
        same(env, "final water", env.vals(d["sw"]), w, 1)
        same(env, "final gas", env.vals(d["sg"]), g, 1)
        same(env, "final oil", env.vals(d["so"]), o, 1)
    gifs = [f for f in imgs.files if f.endswith(".gif")]
    env.check("an animation when there are pictures", env.true(len(gifs) == (1 if due and fps else 0)))
    for f in gifs:
        env.check("of the pictures in order, then the final one", env.true([base(x) for x in imgs.files[f]["frames"]] == ["out_step_%d.png" % t for t in due] + ["out_final.png"]))
        env.check("at the configured speed", env.true(imgs.files[f]["fps"] == fps))
    if case.get("outputs"):
        text = env.text("out.txt")
        lines = text.split("\n")
        for label, vals, scale, tol in (("Pressure", p, 1e6, 0.011), ("Sw", w, 1, 1.1e-4), ("Sg", g, 1, 1.1e-4), ("So", o, 1, 1.1e-4)):
            l = [x for x in lines if x.startswith(label)]
            env.check("one summary line for " + label, env.true(len(l) == 1))
            v = numbers(env, l[0])
            v = {k: x for k, x in v.items()}
            env.check(label + " least", env.eq(v["min"], env.min(*vals) / scale, tol))
            env.check(label + " greatest", env.eq(v["max"], env.max(*vals) / scale, tol))
            env.check(label + " mean", env.eq(v["mean"], env.sum(vals) / len(vals) / scale, tol))
        for f in ("water", "oil", "gas"):
            l = [x for x in lines if x.startswith(f + ":")]
            v = numbers(env, l[0])
            a, b = mb[f]["in"], mb[f]["out"]
            env.check("mass balance of " + f, env.all(env.eq(v["in"] / 1e7, a / 1e7, 1e-5), env.eq(v["out"] / 1e7, b / 1e7, 1e-5), env.eq(v["net"] / 1e7, (a - b) / 1e7, 1e-5)))


ORDERS = {0: [()], 1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)], 4: [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)]}


# numbers whose order differs from the order of their digits
DIGITS = [(9, 10, 11), (2, 100, 11), (1000, 999, 99), (10, 20, 3), (5, 50, 500), (20, 19, 100)]


def names(env, n, stem):
    if n == 3 and env.bool("digits"):
        vals = env.choice("numbers", DIGITS)
        return [stem % v for v in vals], list(vals)
    toks = [env.token("step%d" % i, 1, 20000) for i in range(n)]
    vals = [env.untoken(t) for t in toks]
    env.assume(env.all([env.not_(env.eq(vals[i], vals[j], 0)) for i in range(n) for j in range(i)] + [env.true(True)]))
    return [stem % t for t in toks], vals


def ordered(env, got, vals, fs):
    """the frames are exactly these files, in the order of their numbers"""
    env.check("every frame once", env.true(sorted(got) == sorted(fs)))
    v = [vals[fs.index(x)] for x in got]
    env.check("frames in step order", env.all([env.lt(v[i], v[i + 1]) for i in range(len(v) - 1)] + [env.true(True)]))


def utils(env, n):
    fs, vals = names(env, n, "run2_step_%s.png")
    listed = [fs[i] for i in env.choice("listing", ORDERS[n])]
    extra = ["notes.txt", "run2_final.png", "other_step_.png"] if env.bool("extra") else []
    d = env.vdir("pics", extra[:1] + listed + extra[1:])
    imgs = Images()
    env.stub_module("imageio", imgs.module())
    out = env.out_path("a.gif")
    fps = env.choice("fps", [5, 12])
    env.mod("utils").create_animation(d, out, **({} if fps == 5 else dict(fps=fps)))
    env.check("an animation exactly when there are frames", env.true(list(imgs.files) == ([out] if n else [])))
    if n:
        ordered(env, [base(x) for x in imgs.files[out]["frames"]], vals, fs)
        env.check("read from the folder", env.true(all(x.rpartition("/")[0] == d for x in imgs.files[out]["frames"])))
        env.check("at the given speed", env.true(imgs.files[out]["fps"] == fps))


def frames(env, n):
    sim, pics, imgs = build(env, (1, 1, 1))
    fs, vals = names(env, n, "out_step_%s.png")
    listed = [fs[i] for i in env.choice("listing", ORDERS[n])]
    fin = env.bool("final")
    env.vdir("r", (["out_final.png"] if fin else []))
    d = env.vdir("r/intermediate", listed)
    out = env.out_path("a.gif")
    sim._create_animation(d, out, fps=7)
    env.check("one animation", env.true(list(imgs.files) == [out]))
    got = [base(x) for x in imgs.files[out]["frames"]]
    env.check("the final picture comes last", env.true(got[n:] == (["out_final.png"] if fin else [])))
    ordered(env, got[:n], vals, fs)
    env.check("at the given speed", env.true(imgs.files[out]["fps"] == 7))
