"""A pressure solve reported as converged really solves the system."""
from .common import *

PROPERTY = "C07"
BOUNDS = ("conjugate gradients: symbolic symmetric systems of 2 unknowns (budgets 1 and 2) and 3 unknowns (budget 1), with and without preconditioner and initial guess; "
          "multigrid: a symbolic 1-unknown and fixed 2- and 3-unknown systems solved directly, fixed 3- and 4-unknown systems on two levels (symbolic right-hand side), up to 2 cycles; "
          "the step's own calls on a 2x1x1 grid, symbolic tolerance and right-hand side")
ASSUMPTIONS = ["matrices are the symmetric diagonally dominant M-matrices the pressure equation produces",
               "the multigrid verdict is measured in the norm the solver works in (diagonally scaled for badly scaled matrices)"]
OPTS = dict(time=120, max_paths=300)


def cases(tier):
    out = [dict(name="cg2_it1", kind="cg", n=2, it=1), dict(name="cg2_it1_M", kind="cg", n=2, it=1, M=True), dict(name="cg2_it2", kind="cg", n=2, it=2, cmat=True),
           dict(name="cg2_it2_M", kind="cg", n=2, it=2, M=True, cmat=True), dict(name="cg3_it1_x0", kind="cg", n=3, it=1, M=True, x0=True),
           dict(name="cg2_it0", kind="cg", n=2, it=0, M=True, x0=True),
           dict(name="amg_direct1", kind="amg", n=1), dict(name="amg_direct2", kind="amg", n=2, cmat=True), dict(name="amg_direct3", kind="amg", n=3, cmat=True),
           dict(name="amg_scaled2", kind="amg", n=2, cmat=True, scale=1e-9), dict(name="amg_twice", kind="amg", n=2, cmat=True, twice=True),
           dict(name="amg_2level3", kind="amg", n=3, cmat=True, levels=True, cycles=1), dict(name="amg_2level4", kind="amg", n=4, cmat=True, levels=True, cycles=2),
           dict(name="step_cg", kind="step"), dict(name="step_cg64", kind="step", f64=True), dict(name="step_amg", kind="step_amg")]
    if tier == "thorough":
        out += [dict(name="cg3_it2_M", kind="cg", n=3, it=2, M=True, cmat=True), dict(name="cg3_it3_M", kind="cg", n=3, it=3, M=True, cmat=True),
                dict(name="amg_2level5", kind="amg", n=5, cmat=True, levels=True, cycles=3)]
    return out


def matrix(env, n, concrete, chain=True):
    """a chain (or full) M-matrix: off-diagonals -c, diagonals c-sums plus a positive storage term"""
    A = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if chain and j != i + 1:
                continue
            c = (1.0 + 0.75 * i + 0.5 * j) if concrete else env.real("c%d%d" % (i, j), 0.1, 4)
            A[i][j] = A[j][i] = -c
            A[i][i] = A[i][i] + c
            A[j][j] = A[j][j] + c
    for i in range(n):
        A[i][i] = A[i][i] + (0.5 + 0.25 * i if concrete else env.real("s%d" % i, 0.1, 4))
    return A


def coo(env, A, scale=1):
    n = len(A)
    idx = [(i, j) for i in range(n) for j in range(n) if not (type(A[i][j]) is float and A[i][j] == 0.0)]
    t = env.torch
    return t.sparse_coo_tensor(t.tensor([[i for i, _ in idx], [j for _, j in idx]]), env.tensor_of([A[i][j] * scale for i, j in idx], (len(idx),)), (n, n)).coalesce()


def residual(env, A, x, b):
    return [b[i] - env.sum(A[i][j] * x[j] for j in range(len(b))) for i in range(len(b))]


def run(env, case):
    {"cg": run_cg, "amg": run_amg, "step": run_step, "step_amg": run_step_amg}[case["kind"]](env, case)


def run_cg(env, case):
    n, it = case["n"], case["it"]
    A = matrix(env, n, case.get("cmat"), chain=not case.get("cmat"))
    b = [env.real("b%d" % i, -5, 5) for i in range(n)]
    M = [A[i][i] for i in range(n)] if case.get("M") else None
    x0 = [env.real("x%d" % i, -2, 2) for i in range(n)] if case.get("x0") else None
    tol = env.real("tol", 0.02, 1)
    res = make_reservoir(env, (1, 1, 1))
    sim = make_sim(env, res, make_fluid(env, res), solver_type="impes")
    # a zero starting residual is solved already
    x, ok = sim._solve_pressure_cg_pytorch(coo(env, A), env.tensor_of(b, (n,)), x0=env.tensor_of(x0, (n,)) if x0 else None,
                                           M_diag=env.tensor_of(M, (n,)) if M else None, tol=tol, max_iter=it)
    xs = env.vals(x)
    env.observe("x", xs)
    env.check("one value per unknown", env.true(len(xs) == n))
    r = residual(env, A, xs, b)
    norm = env.pow(env.sum(r[i] * (r[i] / M[i]) if M else r[i] * r[i] for i in range(n)), 0.5)
    if ok:
        env.check("reported success meets the tolerance", env.le(norm, tol, 1e-3))
    else:
        env.check("reported failure misses the tolerance", env.ge(norm, tol, 1e-3))


def run_amg(env, case):
    n = case["n"]
    sc = case.get("scale", 1)
    A = matrix(env, n, case.get("cmat"))
    b = [env.real("b%d" % i, -5, 5) for i in range(n)]
    env.assume(env.ge(env.sum(v * v for v in b), 0.01, 0))
    tol = env.real("tol", 0.001, 0.2)
    amg = env.mod("solver.pressure_amg")
    amg._AMG_CACHE.clear()
    kw = dict(theta=0.25, max_levels=2, coarsest_size=1) if case.get("levels") else {}
    T = env.torch
    if case.get("twice"):
        # an earlier step's matrix of the same size is in the cache
        B = [[v * (2.0 if i == j else 1.0) for j, v in enumerate(r)] for i, r in enumerate(A)]
        amg.amg_solve(coo(env, B), env.tensor_of([1.0] * n, (n,)), tol=tol, max_cycles=1, device="cpu")
    x, ok = amg.amg_solve(coo(env, A, sc), env.tensor_of([v * sc for v in b], (n,)), tol=tol, max_cycles=case.get("cycles", 1), device="cpu", return_converged=True, **kw)
    xs = env.vals(x)
    env.observe("x", xs)
    r = residual(env, A, xs, b)
    D = [A[i][i] if case.get("scale") else 1.0 for i in range(n)]
    rn = env.pow(env.sum(r[i] * r[i] / D[i] for i in range(n)), 0.5)
    bn = env.pow(env.sum(b[i] * b[i] / D[i] for i in range(n)), 0.5)
    if ok:
        env.check("reported success meets the tolerance", env.le(rn / (bn + 1e-30), tol, 1e-4))
    else:
        env.check("reported failure misses the tolerance", env.ge(rn / (bn + 1e-30), tol, 1e-4))
    if not case.get("levels"):
        env.check("small systems are solved directly", env.true(ok))
        env.check("small systems are solved exactly", env.all([env.eq(v, 0, 1e-3) for v in r]))


def model(env, **par):
    dims = (2, 1, 1)
    res = make_reservoir(env, dims)
    fl = make_fluid(env, res)
    sim = make_sim(env, res, fl, solver_type="impes", max_substeps=1, **par)
    fl.pressure = env.tensor_of([env.real("P0", 1e7, 3e7), env.real("P1", 1e7, 3e7)], dims)
    return res, fl, sim


def run_step(env, case):
    tol = env.real("tol", 1e-7, 1e-3)
    par = dict(cg_tolerance=tol, cg_max_iter=7)
    if case.get("f64"):
        par["pressure_float64"] = True
    res, fl, sim = model(env, **par)
    v = [env.bool("first"), env.bool("second")]
    seam = Seam(env, sim, [2e7, 1.9e7], script=v)
    p0 = env.vals(fl.pressure)
    P, ok = sim._impes_pressure_step(DAY)
    c = seam.calls
    env.check("second call exactly after a failed first", env.true(len(c) == (1 if v[0] else 2)))
    env.check("first call asks for the configured tolerance", env.eq(c[0]["tol"], tol, 0))
    env.check("first call has the configured budget", env.true(c[0]["max_iter"] == 7))
    env.check("preconditioner is the matrix diagonal", env.all([env.eq(m, seam.dense(0)[0][i][i], 1e-20) for i, m in enumerate(env.vals(c[0]["M"]))]))
    if len(c) == 2:
        # the documented relaxation of the retry
        env.check("retry tolerance at most ten times looser", env.le(c[1]["tol"], 10 * tol, 1e-9))
        A0, b0 = seam.dense(0)
        A1, b1 = seam.dense(1)
        env.check("retry solves the same system", env.all([env.eq(x, y, 0) for x, y in zip(A0[0] + A0[1] + b0, A1[0] + A1[1] + b1)]))
    env.check("the verdict is the last call's", env.true(bool(ok) == (v[0] or v[1])))
    env.check("the solution is the solver's", env.all([env.eq(x, y, 1) for x, y in zip(env.vals(P), [2e7, 1.9e7])]))


def run_step_amg(env, case):
    tol = env.real("tol", 1e-7, 1e-3)
    res, fl, sim = model(env, pressure_solver="amg", amg=dict(tol=tol, max_cycles=3))
    amg = env.mod("solver.pressure_amg")
    verdict = env.bool("verdict")
    calls = []

    def fake(A, b, **kw):
        calls.append(kw)
        return env.tensor_of([2e7, 1.9e7], (2,)), verdict

    amg.amg_solve = fake
    P, ok = sim._impes_pressure_step(DAY)
    env.check("asks for the configured tolerance", env.eq(calls[0]["tol"], tol, 0))
    env.check("asks for the verdict and passes it on", env.true(bool(ok) == verdict))
