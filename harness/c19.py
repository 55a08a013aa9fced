"""Sparse products and coarse operators are exact."""
from .common import *

PROPERTY = "C19"
BOUNDS = ("products: all real entries on every pair of 2x2 patterns and on sampled and structured rectangular patterns up to 4x4 (empty rows and columns included), row blocks of 1, 2, 3 and 64; "
          "coarse operators: symbolic symmetric matrices of 2 to 4 unknowns with symbolic interpolation weights")
ASSUMPTIONS = ["the sparsity patterns are enumerated, the entries are symbolic"]
OPTS = dict(time=150)


def cases(tier):
    out = [dict(name="all2x2_b%d" % b, kind="all", blk=b) for b in (1, 2, 64)]
    out += [dict(name="rect_b%d" % b, kind="rect", blk=b) for b in (1, 2, 3, 64)]
    out += [dict(name="rap_" + k, kind="rap", which=k) for k in RAP]
    out += [dict(name="onepoint_" + k, kind="onepoint", which=k) for k in ONE]
    if tier == "thorough":
        out += [dict(name="rect_more_b%d" % b, kind="rect", blk=b, more=120) for b in (1, 2, 3, 64)]
    return out


# fine pattern (edges), rows of the interpolation (columns with a weight)
RAP = dict(pair=(2, [(0, 1)], [[0], [0]], 1), chain3=(3, [(0, 1), (1, 2)], [[0], [0, 1], [1]], 2), full3=(3, [(0, 1), (0, 2), (1, 2)], [[0], [0], [0]], 1),
           chain4=(4, [(0, 1), (1, 2), (2, 3)], [[0], [0, 1], [1], [1]], 2), empty_row=(3, [(0, 1), (1, 2)], [[0], [], [1]], 2),
           ring4=(4, [(0, 1), (1, 2), (2, 3), (0, 3)], [[0], [0, 1], [1], [0, 1]], 2))
ONE = dict(pair=(2, [(0, 1)], [0, 0], False), chain4=(4, [(0, 1), (1, 2), (2, 3)], [0, 0, 1, 1], True), swapped=(3, [(0, 1), (1, 2)], [1, 0, 1], True), same=(3, [(0, 1)], [0, 1, 2], False))


def csr(env, rows, ncol):
    T = env.torch
    crow, col, val = [0], [], []
    for r in rows:
        for j in sorted(r):
            col.append(j)
            val.append(r[j])
        crow.append(len(col))
    v = env.tensor_of(val, (len(val),)).to(T.float64) if val else T.zeros(0, dtype=T.float64)
    return T.sparse_csr_tensor(T.tensor(crow, dtype=T.int64), T.tensor(col, dtype=T.int64), v, size=(len(rows), ncol), dtype=T.float64)


def dense(rows, m):
    return [[r.get(j, 0) for j in range(m)] for r in rows]


def mul(env, X, Y):
    return [[env.sum([x[k] * Y[k][j] for k in range(len(Y))]) for j in range(len(Y[0]))] for x in X]


def check_product(env, A, rows_l, rows_r, k, m, blk, tag):
    out = A._csr_spmm(csr(env, rows_l, k), csr(env, rows_r, m), block_rows=blk)
    n = len(rows_l)
    env.check("shape of the product", env.true(tuple(env.shape(out)) == (n, m)))
    crow = [int(x) for x in env.vals(out.crow_indices())]
    col = [int(x) for x in env.vals(out.col_indices())]
    env.check("well formed", env.true(crow[0] == 0 and all(a <= b for a, b in zip(crow, crow[1:])) and crow[-1] == len(col) and all(0 <= c < m for c in col)
                                      and all(len(set(col[a:b])) == b - a for a, b in zip(crow, crow[1:]))))
    D = env.vals(out.to_dense())
    want = mul(env, dense(rows_l, k), dense(rows_r, m))
    for i in range(n):
        for j in range(m):
            env.check("entry of the product", env.eq(D[i * m + j], want[i][j], 1e-4))


def run(env, case):
    A = env.mod("solver.classical_amg")
    kind = case["kind"]
    if kind == "all":
        x = [env.real("x%d" % k, -4, 4) for k in range(4)]
        y = [env.real("y%d" % k, -4, 4) for k in range(4)]
        for p in range(16):
            for q in range(16):
                L = [{j: x[2 * i + j] for j in range(2) if p >> (2 * i + j) & 1} for i in range(2)]
                R = [{j: y[2 * i + j] for j in range(2) if q >> (2 * i + j) & 1} for i in range(2)]
                check_product(env, A, L, R, 2, 2, case["blk"], (p, q))
    elif kind == "rect":
        import random
        rnd = random.Random(7)
        shapes = [(3, 2, 4), (4, 4, 4), (4, 3, 2), (1, 4, 1), (4, 1, 3)]
        for t in range(case.get("more", 25)):
            n, k, m = shapes[t % len(shapes)]
            dens = rnd.choice((0.25, 0.5, 0.8))
            x = [[env.real("x%d%d" % (i, j), -4, 4) for j in range(4)] for i in range(4)]
            y = [[env.real("y%d%d" % (i, j), -4, 4) for j in range(4)] for i in range(4)]
            L = [{j: x[i][j] for j in range(k) if rnd.random() < dens} for i in range(n)]
            R = [{j: y[i][j] for j in range(m) if rnd.random() < dens} for i in range(k)]
            if t % 5 == 0:
                L[n // 2] = {}
            check_product(env, A, L, R, k, m, case["blk"], t)
    elif kind == "rap":
        n, E, prow, nc = RAP[case["which"]]
        rows, full = system(env, n, E)
        P = [{c: env.real("p%d%d" % (i, c), 0, 1) for c in r} for i, r in enumerate(prow)]
        Ac = A.rap_torch(csr(env, rows, n), csr(env, P, nc), env.torch.device("cpu"))
        galerkin(env, Ac, full, dense(P, nc), nc)
    else:
        n, E, parent, weighted = ONE[case["which"]]
        rows, full = system(env, n, E)
        nc = max(parent) + 1
        T = env.torch
        w = [env.real("w%d" % i, 0, 1) if weighted else 1.0 for i in range(n)]
        kw = dict(weights=env.tensor_of(w, (n,)).to(T.float64)) if weighted else {}
        Ac = A.rap_onepoint_gpu(csr(env, rows, n), T.tensor(parent, dtype=T.int64), **kw)
        galerkin(env, Ac, full, [[w[i] if parent[i] == c else 0 for c in range(nc)] for i in range(n)], nc)


def system(env, n, E):
    rows = [{i: env.real("d%d" % i, 0.1, 4)} for i in range(n)]
    for i, j in E:
        rows[i][j] = rows[j][i] = env.real("a%d%d" % (i, j), -4, -0.05)
    return rows, dense(rows, n)


def galerkin(env, Ac, full, P, nc):
    want = mul(env, [list(c) for c in zip(*P)], mul(env, full, P))
    env.check("shape of the coarse operator", env.true(tuple(env.shape(Ac)) == (nc, nc)))
    D = env.vals(Ac.to_dense())
    for i in range(nc):
        for j in range(nc):
            env.check("coarse operator is the Galerkin product", env.eq(D[i * nc + j], want[i][j], 1e-4))
            env.check("coarse operator is symmetric", env.eq(D[i * nc + j], D[j * nc + i], 1e-4))
