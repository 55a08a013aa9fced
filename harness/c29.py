"""Pictures show the layer they name, x across and y up."""
import re
import types

from .common import *

PROPERTY = "C29"
BOUNDS = "grids of 1 to 12 cells with one to three layers, every pressure and gas saturation (any below or above the display threshold), water saturations any on one layer and on listed values with several; gas given or not"
ASSUMPTIONS = ["the plotting library is replaced by a recorder; an image shows rows upwards (origin lower) and columns to the right", "gas saturations are not within 1e-9 of the display threshold 1e-6"]
OPTS = dict(time=120, max_paths=400)


def cases(tier):
    out = [dict(name="flat_%d%d%d" % d, dims=d) for d in ((1, 1, 1), (2, 1, 1), (2, 3, 1), (3, 2, 1))]
    out += [dict(name="layers_%d%d%d" % d, dims=d, layers=True) for d in ((2, 1, 2), (2, 2, 3), (1, 2, 2))]
    if tier == "thorough":
        out += [dict(name="flat_431", dims=(4, 3, 1)), dict(name="layers_333", dims=(3, 3, 3), layers=True)]
    return out


class Plt:
    def __init__(self, env):
        self.shown, self.saved = [], []
        rec = self

        class Axis:
            def imshow(self, data, *a, **k):
                self.data, self.kw, self.title, self.labels = env.copy(data), k, "", {}
                rec.shown.append(self)
                return self

            def set_title(self, t, *a, **k):
                self.title = t

            def set_xlabel(self, t, *a, **k):
                self.labels["x"] = t

            def set_ylabel(self, t, *a, **k):
                self.labels["y"] = t

            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                return lambda *a, **k: None

        class Fig:
            def savefig(self, f, *a, **k):
                rec.saved.append((str(f), list(rec.shown)))

            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                return lambda *a, **k: None

        def subplots(rows=1, cols=1, **k):
            ax = tuple(Axis() for _ in range(rows * cols))
            return Fig(), (ax if len(ax) > 1 else ax[0])
        nop = lambda *a, **k: None
        pyplot = types.SimpleNamespace(subplots=subplots, savefig=lambda f, *a, **k: rec.saved.append((str(f), list(rec.shown))), tight_layout=nop, close=nop, figure=lambda *a, **k: Fig(), colorbar=nop, clf=nop, cla=nop)
        env.stub_module("matplotlib", types.SimpleNamespace(pyplot=pyplot, use=nop))
        env.stub_module("matplotlib.pyplot", pyplot)


def run(env, case):
    dims = case["dims"]
    nx, ny, nz = dims
    plt = Plt(env)
    res = make_reservoir(env, dims)
    pl = env.mod("plotting.plotter").Plotter(res)
    P = env.tensor("p", dims, 1e5, 1e8)
    if case.get("layers"):
        # the layer whose water saturations spread most, by a clear margin
        wide = env.choice("wide", list(range(nz)))
        v = [0.5 + (0.2 if k == wide else 0.01 * k) * ((-1) ** (i + j)) for i, j, k in grid_iter(dims)]
        if wide == 0 and env.bool("uniform elsewhere"):
            v = [0.5 + (0.2 * (-1) ** (i + j) if k == 0 else 0.1 * k) for i, j, k in grid_iter(dims)]
        W = env.tensor_of(v, dims)
    else:
        wide = 0
        W = env.tensor("w", dims, 0, 1)
    p, w = env.vals(P), env.vals(W)
    gas = env.bool("gas")
    G = env.tensor("g", dims, 0, 0.4) if gas else None
    g = env.vals(G) if gas else []
    env.assume(env.all([env.true(True)] + [env.any(env.ge(x, 1e-6 + 1e-9, 0), env.le(x, 1e-6 - 1e-9, 0)) for x in g]))
    if case.get("layers") and gas:
        # some gas, in one cell only
        env.assume(env.ge(g[0], 0.01, 0))
    info = "step 7" if env.bool("info") else None
    pl.save_plots(P.cpu().numpy(), W.cpu().numpy(), "/tmp/x/pic.png", **dict(({"time_info": info} if info else {}), **({"gas_saturation": G.cpu().numpy()} if gas else {})))
    env.check("one picture, under the given name", env.true(len(plt.saved) == 1 and plt.saved[0][0] == "/tmp/x/pic.png"))
    shown = plt.saved[0][1]
    some = env.any([env.gt(x, 1e-6) for x in g] + [env.true(False)])
    if len(shown) == 2:
        env.check("gas is left out only when there is none", env.not_(some))
    else:
        env.check("gas is shown when there is some", some)
    env.check("pressure, water and gas", env.true(len(shown) in (2, 3)))
    for ax, f, s, what in zip(shown, (p, w, g), (1e6, 1, 1), ("pressure in MPa", "water saturation", "gas saturation")):
        d = env.vals(ax.data)
        env.check(what + ": a row per y, a column per x", env.true(env.shape(ax.data) == (ny, nx)))
        env.check(what + ": drawn upwards", env.true(ax.kw.get("origin") == "lower"))
        env.check(what + ": the layer with the largest spread of water, cell by cell", env.all([env.eq(d[j * nx + i], f[flat(dims, i, j, wide)] / s, 1e-4) for i in range(nx) for j in range(ny)]))
        env.check(what + ": names its layer", env.true(re.search(r"Z=(\d+)", ax.title).group(1) == str(wide)))
        env.check(what + ": names its time", env.true(info is None or info in ax.title))
        if "vmin" in ax.kw:
            env.check(what + ": the colour scale covers the values", env.all([env.all(env.ge(x, ax.kw["vmin"], 1e-6), env.le(x, ax.kw["vmax"], 1e-6)) for x in d]))
