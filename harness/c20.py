"""The exact solution is a fixed point of the multigrid cycle."""
from .common import *

PROPERTY = "C20"
BOUNDS = ("fixed symmetric M-matrices of 1 to 6 unknowns (chains, rings, a 2x3 grid; well and badly scaled; one symbolic 2-unknown system) on one to three levels, with every solution, iterate and right-hand side symbolic; "
          "1 or 2 cycles; refresh with a differently valued, differently scaled or symbolic matrix of the same pattern")
ASSUMPTIONS = ["random tie-breakers of the coarsening are fixed by the case", "the linear solve of the coarsest level is exact"]
OPTS = dict(time=150, max_paths=60)

GR = dict(pair=(2, [(0, 1)]), chain3=(3, [(0, 1), (1, 2)]), chain4=(4, [(0, 1), (1, 2), (2, 3)]), ring4=(4, [(0, 1), (1, 2), (2, 3), (0, 3)]),
          chain6=(6, [(k, k + 1) for k in range(5)]), grid6=(6, [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)]), one=(1, []))


def cases(tier):
    out = []
    for g in ("one", "pair", "chain3", "chain4", "ring4", "chain6", "grid6"):
        out.append(dict(name="fixed_" + g, kind="fixed", g=g))
        out.append(dict(name="fixed_bad_scale_" + g, kind="fixed", g=g, scale=1e-9))
    out += [dict(name="direct_" + g, kind="fixed", g=g, direct=True) for g in ("chain3", "grid6")]
    out += [dict(name="linear_" + g, kind="linear", g=g) for g in ("chain4", "grid6")]
    out += [dict(name="solve_" + g, kind="solve", g=g, cycles=c, scale=s) for g, c, s in (("chain4", 1, 1), ("chain4", 2, 1), ("grid6", 1, 1e-9), ("chain3", 1, 1))]
    out += [dict(name="start_" + g, kind="start", g=g, scale=s) for g, s in (("chain4", 1), ("grid6", 1e-9))]
    out += [dict(name="refresh_%s_%s" % (g, k), kind="refresh", g=g, how=k) for g in ("chain4", "grid6") for k in ("values", "scale", "down", "up")]
    out += [dict(name="refresh_pattern_" + g, kind="refresh", g=g, how="symbolic") for g in ("chain3", "chain4")]
    out += [dict(name="refresh_direct", kind="refresh", g="chain3", how="values", direct=True), dict(name="smoother_sym", kind="smooth")]
    if tier == "thorough":
        out += [dict(name="solve3_" + g, kind="solve", g=g, cycles=3, scale=s) for g in ("chain6", "ring4") for s in (1, 1e-9)]
        out += [dict(name="linear2_" + g, kind="linear", g=g, scale=s) for g in ("chain6", "ring4", "chain3") for s in (1, 1e-9)]
    return out


def system(env, g, storage=0.5, mult=1.0, sym=False):
    n, E = GR[g]
    A = [[0.0] * n for _ in range(n)]
    for k, (i, j) in enumerate(E):
        c = env.real("c%d" % k, 0.5, 4) if sym else mult * (1.0 + 0.35 * ((5 * k) % 4))
        A[i][j] = A[j][i] = -c
        A[i][i] = A[i][i] + c
        A[j][j] = A[j][j] + c
    for i in range(n):
        A[i][i] = A[i][i] + storage * (1 + 0.2 * i)
    return A


def csr(env, A, sc=1):
    T = env.torch
    n = len(A)
    idx = [(i, j) for i in range(n) for j in range(n) if not (type(A[i][j]) is float and A[i][j] == 0.0)]
    t = T.sparse_coo_tensor(T.tensor([[i for i, _ in idx], [j for _, j in idx]]), env.tensor_of([A[i][j] * sc for i, j in idx], (len(idx),)).to(T.float64), (n, n))
    return t.coalesce().to_sparse_csr()


def mv(env, A, x):
    return [env.sum([A[i][j] * x[j] for j in range(len(x))]) for i in range(len(A))]


def vec(env, x):
    return env.tensor_of(x, (len(x),)).to(env.torch.float64)


def build(env, A, sc=1, direct=False, g=None):
    C = env.mod("solver.classical_amg")
    # tie-breakers: the later unknown wins
    old = env.torch.rand
    env.torch.rand = lambda n, **k: vec(env, [(i + 1) / (n + 1) for i in range(n)])
    try:
        return C.ClassicalAMG(csr(env, A, sc), theta=0.25, nullspace_dim=min(len(A), 3), **({} if direct else dict(max_levels=3, coarsest_size=1)))
    finally:
        env.torch.rand = old


def symv(env, name, n, r=3):
    return [env.real("%s%d" % (name, i), -r, r) for i in range(n)]


def run(env, case):
    if case["kind"] == "smooth":
        return smooth(env, case)
    sc = case.get("scale", 1)
    A = system(env, case["g"])
    n = len(A)
    amg = build(env, A, sc, case.get("direct"))
    lv = len(amg.levels)
    env.observe("levels", lv)
    if not case.get("direct") and n > 2:
        env.check("a hierarchy is built", env.true(lv >= 2))
    globals()[case["kind"] + "_"](env, case, amg, A, sc)


# the equations the cycle works on: the system itself, or its diagonally scaled form
def inner(env, amg, A):
    if amg.Dhalf_inv is None:
        return A, [1.0] * len(A)
    D = [env.pow(A[i][i], 0.5) for i in range(len(A))]
    return [[A[i][j] / (D[i] * D[j]) for j in range(len(A))] for i in range(len(A))], D


def fixed_(env, case, amg, A, sc):
    if case.get("scale"):
        env.check("badly scaled systems are equilibrated", env.true(amg.Dhalf_inv is not None))
    S, D = inner(env, amg, A)
    y = symv(env, "y", len(A))
    got = env.vals(amg._v_cycle(0, vec(env, y), vec(env, mv(env, S, y))))
    for a, b in zip(got, y):
        env.check("the solution is not moved by a cycle", env.eq(a, b, 1e-6))


def linear_(env, case, amg, A, sc):
    n = len(A)
    x1, b1, x2, b2 = (symv(env, k, n) for k in ("xa", "ba", "xb", "bb"))
    k = 1.75
    f = lambda x, b: env.vals(amg._v_cycle(0, vec(env, x), vec(env, b)))
    one, two = f(x1, b1), f(x2, b2)
    both = f([p + k * q for p, q in zip(x1, x2)], [p + k * q for p, q in zip(b1, b2)])
    for p, q, r in zip(one, two, both):
        env.check("a cycle is linear", env.eq(r, p + k * q, 1e-6))
    zero = f([0.0] * n, [0.0] * n)
    env.check("zero stays zero", env.all([env.eq(v, 0, 1e-9) for v in zero]))


def solve_(env, case, amg, A, sc):
    """the error after k cycles is k times the error propagation of one cycle, whatever the right-hand side"""
    n = len(A)
    x = symv(env, "x", n)
    env.assume(env.ge(env.sum(v * v for v in x), 0.01, 0))
    b = [sc * v for v in mv(env, A, x)]
    got = env.vals(amg.solve(vec(env, b), tol=0.0, max_iter=case["cycles"]))
    S, D = inner(env, amg, A)
    y = [0.0] * n
    bs = [v / (d * (sc ** 0.5 if amg.Dhalf_inv is not None else 1)) for v, d in zip(b, D)]
    for _ in range(case["cycles"]):
        y = env.vals(amg._v_cycle(0, vec(env, y), vec(env, bs)))
    for i in range(n):
        env.check("solve applies its cycles to the system it was given", env.eq(got[i], y[i] / (D[i] * (sc ** 0.5 if amg.Dhalf_inv is not None else 1)), 1e-5))


def start_(env, case, amg, A, sc):
    """starting from the solution, the solver returns it and reports success"""
    n = len(A)
    x = symv(env, "x", n)
    env.assume(env.ge(env.sum(v * v for v in x), 0.01, 0))
    b = [sc * v for v in mv(env, A, x)]
    got = env.vals(amg.solve(vec(env, b), x0=vec(env, x), tol=0.01, max_iter=1))
    for a, c in zip(got, x):
        env.check("a solution given as the start is returned", env.eq(a, c, 1e-5))


def weights(env, P):
    n, m = env.shape(P)
    D = env.vals(P.to_dense())
    return [D[i * m:(i + 1) * m] for i in range(n)]


def matvals(env, M):
    n = env.shape(M)[0]
    D = env.vals(M.to_dense())
    return [D[i * n:(i + 1) * n] for i in range(n)]


def smoother(env, L, S):
    """relaxation: reciprocal of the larger of the diagonal and 0.3 times the row's absolute sum"""
    got = env.vals(L["inv_relax"])
    for i in range(len(S)):
        d = env.max(env.abs(S[i][i]), 0.3 * env.sum([env.abs(v) for v in S[i]]))
        env.check("smoother follows the matrix of its level", env.eq(got[i] * d, 1, 1e-6))


def refresh_(env, case, amg, A, sc):
    how = case["how"]
    n = len(A)
    Pold = [weights(env, L["P"]) if L["P"] is not None else None for L in amg.levels]
    if how == "symbolic":
        B, s2 = system(env, case["g"], sym=True), 1
    else:
        B = system(env, case["g"], storage=0.8, mult=1.7)
        s2 = dict(values=1, scale=3.0, down=1e-9, up=1e3)[how]
    if how == "up":
        # built badly scaled, refreshed well scaled
        amg = build(env, A, 1e-9)
        Pold = [weights(env, L["P"]) if L["P"] is not None else None for L in amg.levels]
    nl = len(amg.levels)
    amg.update_matrix(csr(env, B, s2))
    env.check("same levels", env.true(len(amg.levels) == nl))
    S, D = inner(env, amg, B)
    if how in ("values", "scale"):
        S = [[v * s2 for v in r] for r in S]
        env.check("well scaled systems are taken as they are", env.true(amg.Dhalf_inv is None))
    if how == "up":
        S = [[v * s2 for v in r] for r in B]
        env.check("well scaled systems are taken as they are", env.true(amg.Dhalf_inv is None))
    if how == "down":
        env.check("badly scaled systems are equilibrated", env.true(amg.Dhalf_inv is not None))
    cur = S
    for l, L in enumerate(amg.levels):
        M = matvals(env, L["A"])
        for i in range(len(cur)):
            for j in range(len(cur)):
                env.check("each level holds the Galerkin product of the new matrix", env.eq(M[i][j], cur[i][j], 1e-5))
        if how != "symbolic" or l == 0:
            smoother(env, L, M)
        P = L["P"]
        if P is None:
            break
        W = weights(env, P)
        env.check("interpolation is kept", env.all([env.eq(a, b, 1e-9) for r, q in zip(W, Pold[l]) for a, b in zip(r, q)]))
        AP = [[env.sum([M[i][k] * W[k][c] for k in range(len(M))]) for c in range(len(W[0]))] for i in range(len(M))]
        cur = [[env.sum([W[k][c] * AP[k][d] for k in range(len(M))]) for d in range(len(W[0]))] for c in range(len(W[0]))]
    if how == "symbolic":
        return
    # the refreshed solver works on the new system
    y = symv(env, "y", n)
    got = env.vals(amg._v_cycle(0, vec(env, y), vec(env, mv(env, S, y))))
    for a, b in zip(got, y):
        env.check("the new solution is not moved by a cycle", env.eq(a, b, 1e-6))
    if case.get("direct"):
        x = symv(env, "x", n)
        got = env.vals(amg.solve(vec(env, [s2 * v for v in mv(env, B, x)]), tol=0.0, max_iter=1))
        env.check("direct solve of the new system", env.all([env.eq(a, b, 1e-5) for a, b in zip(got, x)]))


def smooth(env, case):
    """a sweep with a symbolic matrix keeps the solution"""
    A = system(env, "pair", sym=True)
    amg = build(env, system(env, "pair"), 1)
    amg.update_matrix(csr(env, A))
    y = symv(env, "y", 2)
    got = env.vals(amg._smooth(0, vec(env, y), vec(env, mv(env, A, y)), 2))
    for a, b in zip(got, y):
        env.check("the solution is not moved by smoothing", env.eq(a, b, 1e-6))
