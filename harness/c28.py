"""VTK export carries the final fields cell by cell."""
import types

from .common import *

PROPERTY = "C28"
BOUNDS = "grids of the listed shapes up to 12 cells, every pressure, saturation and permeability, every cell size from 0.5 to 500 m; both the rectilinear export and the structured grid written at the end of a run"
ASSUMPTIONS = ["the VTK and pyevtk libraries are replaced by recorders of what they are given; pyevtk puts entry [i, j, k] of an array in cell (i, j, k), a structured grid numbers its points i fastest"]
OPTS = dict(time=120, max_paths=100)


def cases(tier):
    S = [(2, 1, 1), (1, 3, 1), (1, 1, 2), (2, 3, 2)] + ([(3, 2, 2), (2, 2, 3), (4, 1, 3)] if tier == "thorough" else [])
    return [dict(name="%s_%d%d%d" % ((k,) + d), kind=k, dims=d) for d in S for k in ("export", "run")]


def arr(env, x):
    return env.vals(x)


class Vtk:
    def __init__(self, env):
        self.written = []
        rec = self

        class Data:
            def __init__(self):
                self.arrays = []

            def AddArray(self, a):
                self.arrays.append(a)

            SetScalars = SetVectors = AddArray

        class Points:
            def __init__(self):
                self.p = []

            def InsertNextPoint(self, *a):
                self.p.append(tuple(a[0]) if len(a) == 1 else a)

        class Grid:
            def __init__(self):
                self.pd, self.cd = Data(), Data()

            def SetDimensions(self, *a):
                self.dims = tuple(a[0]) if len(a) == 1 else a

            def SetPoints(self, p):
                self.points = p

            def GetPointData(self):
                return self.pd

            def GetCellData(self):
                return self.cd

        class Writer:
            def SetFileName(self, f):
                self.file = str(f)

            def SetInputData(self, g):
                self.grid = g

            def Write(self):
                rec.written.append((self.file, self.grid))

        class Arr:
            def __init__(self, a):
                self.a, self.name = a, None

            def SetName(self, n):
                self.name = n
        self.vtk = types.SimpleNamespace(vtkStructuredGrid=Grid, vtkPoints=Points, vtkXMLStructuredGridWriter=Writer)
        ns = types.SimpleNamespace(numpy_to_vtk=lambda a, *b, **k: Arr(env.copy(a)))
        env.stub_module("vtk", self.vtk)
        env.stub_module("vtkmodules", types.SimpleNamespace(util=types.SimpleNamespace(numpy_support=ns)))
        env.stub_module("vtkmodules.util", types.SimpleNamespace(numpy_support=ns))
        env.stub_module("vtkmodules.util.numpy_support", ns)
        env.stub_module("vtk.util", types.SimpleNamespace(numpy_support=ns))
        env.stub_module("vtk.util.numpy_support", ns)


def same(env, what, a, b, s):
    env.check(what, env.all([env.true(len(a) == len(b))] + [env.eq(x / s, y / s, 1e-5) for x, y in zip(a, b)]))


def run(env, case):
    dims = case["dims"]
    n = ncell(dims)
    if case["kind"] == "export":
        got = []
        ns = types.SimpleNamespace(gridToVTK=lambda path, x, y, z, cellData=None, pointData=None, **k: got.append((path, x, y, z, cellData, pointData)))
        env.stub_module("pyevtk", types.SimpleNamespace(hl=ns))
        env.stub_module("pyevtk.hl", ns)
        G = [env.real("d" + c, 0.5, 500) for c in "xyz"]
        res = make_reservoir(env, dims, G)
        K = [[env.real("k%s%d" % (c, i), 0, 10000) for i in range(n)] for c in "xyz"]
        set_perm(env, res, *K)
    else:
        v = Vtk(env)
        env.stub_module("plotting.plotter", types.SimpleNamespace(Plotter=lambda res: types.SimpleNamespace(save_plots=lambda *a, **k: None)))
        res = make_reservoir(env, dims)
    fl = make_fluid(env, res)
    P, W, Gs = env.tensor("p", dims, 1e5, 1e8), env.tensor("w", dims, 0, 0.6), env.tensor("g", dims, 0, 0.4)
    fl.pressure, fl.s_w, fl.s_g = P, W, Gs
    fl.s_o = 1.0 - fl.s_w - fl.s_g
    p, w, o = env.vals(P), env.vals(W), env.vals(fl.s_o)
    if case["kind"] == "export":
        env.mod("output.vtk_writer").save_to_vtk(res, fl, "final")
        env.check("one file", env.true(len(got) == 1 and str(got[0][0]).endswith("final")))
        path, x, y, z, cd, pd = got[0]
        for a, m, d, c in zip((x, y, z), dims, G, "xyz"):
            same(env, "cell edges along " + c, arr(env, a), [d * t for t in range(m + 1)], 500)
        want = dict(Pressure_MPa=([t / 1e6 for t in p], 100), Water_Saturation=(w, 1), Oil_Saturation=(o, 1), Permeability_H=([t * MD for t in K[0]], MD * 1e4), Permeability_V=([t * MD for t in K[2]], MD * 1e4))
        env.check("the named fields", env.true(set(want) <= set(cd)))
        for k, (vals, s) in want.items():
            env.check("the shape of the grid", env.true(env.shape(cd[k]) == dims))
            same(env, k + " cell by cell", arr(env, cd[k]), vals, s)
        env.observe("p", [arr(env, cd["Pressure_MPa"])[0]])
    else:
        sim = make_sim(env, res, fl, total_time_days=1, time_step_days=1.0)

        def step(dt):
            return True
        sim.run_step = step
        sim.run("out", save_vtk=True)
        env.check("one file", env.true(len(v.written) == 1))
        f, g = v.written[0]
        env.check("in the results folder", env.true(f.endswith("/out.vts") and "results" in f))
        env.check("the dimensions of the grid", env.true(tuple(g.dims) == dims))
        pts = [tuple(int(env.val(t)) if not env.symbolic else t for t in q) for q in g.points.p]
        # point number n of a structured grid is (i, j, k) with i fastest
        order = [(i, j, k) for k in range(dims[2]) for j in range(dims[1]) for i in range(dims[0])]
        env.check("a point per cell, i fastest", env.true(pts == order))
        arrays = {a.name: arr(env, a.a) for a in g.pd.arrays}
        for name, vals, s in (("Pressure", p, 1e7), ("Water_Saturation", w, 1)):
            env.check("the named fields", env.true(name in arrays))
            same(env, name + " point by point", arrays[name], [vals[flat(dims, *c)] for c in order], s)
