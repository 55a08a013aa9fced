"""Multigrid coarsening and interpolation are well formed."""
from .common import *

PROPERTY = "C18"
BOUNDS = ("strong couplings: all real values on full 3- and 4-unknown and chain patterns, thresholds 0.05 to 0.95; coarsening: every tie-breaker on chains, stars, rings, isolated and full patterns of 2 to 5 unknowns "
          "with symbolic couplings (fixed ones above 3); interpolation: symbolic couplings and diagonals on patterns of 2 to 5 unknowns, with and without the near-nullspace blend")
ASSUMPTIONS = ["matrices are M-matrices (non-positive off-diagonals, positive diagonals dominating their row); for strong couplings off-diagonals of either sign", "values within 1e-6 of the strength threshold are excluded"]
OPTS = dict(time=150, max_paths=400)

GRAPHS = dict(pair=(2, [(0, 1)]), chain3=(3, [(0, 1), (1, 2)]), full3=(3, [(0, 1), (0, 2), (1, 2)]), alone=(3, [(0, 2)]),
              chain4=(4, [(0, 1), (1, 2), (2, 3)]), star4=(4, [(0, 1), (0, 2), (0, 3)]), ring4=(4, [(0, 1), (1, 2), (2, 3), (0, 3)]),
              chain5=(5, [(0, 1), (1, 2), (2, 3), (3, 4)]), bow5=(5, [(0, 1), (0, 2), (1, 2), (2, 3), (2, 4), (3, 4)]),
              full4=(4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]))


def cases(tier):
    out = [dict(name="strong_" + g, kind="strong", graph=g) for g in ("pair", "chain3", "full3", "alone", "chain4", "full4")]
    out += [dict(name="coarsen_" + g, kind="coarsen", graph=g) for g in ("pair", "chain3", "full3", "alone")]
    out += [dict(name="coarsen_fixed_" + g, kind="coarsen", graph=g, fixed=True) for g in ("chain4", "star4", "ring4")]
    # coarse unknowns of each interpolation case, in a valid splitting (and one with an orphan)
    for g, C in (("pair", (0,)), ("chain3", (1,)), ("chain3", (0, 2)), ("full3", (0,)), ("full3", (2,)), ("star4", (0,)), ("star4", (1, 2, 3)), ("chain4", (1, 3)), ("ring4", (0, 2)), ("chain4", (0,)),
                 ("chain5", (1, 3)), ("bow5", (2,)), ("bow5", (0, 4)), ("alone", (0, 1))):
        out.append(dict(name="interp_%s_%s" % (g, "".join(map(str, C))), kind="interp", graph=g, C=C, **(dict(nsym=3) if g in ("bow5", "ring4") else {})))
    out += [dict(name="blend_" + g, kind="interp", graph=g, C=C, blend=True) for g, C in (("chain3", (0, 2)), ("chain4", (1, 3)), ("star4", (1, 2, 3)), ("full3", (0,)))]
    if tier == "thorough":
        out += [dict(name="coarsen_fixed_" + g, kind="coarsen", graph=g, fixed=True) for g in ("chain5", "bow5")]
        out += [dict(name="coarsen_" + g, kind="coarsen", graph=g, opts=dict(time=500)) for g in ("chain4", "ring4")]
        out += [dict(name="interp_all_" + g, kind="interp", graph=g, C=C, opts=dict(time=500, max_paths=2000), **k) for g, C, k in (("full4", (0,), dict(nsym=4)), ("full4", (1, 2), dict(nsym=4)), ("ring4", (0, 2), {}), ("bow5", (0, 3), dict(nsym=4)))]
    return out


def csr(env, rows):
    """rows: list of {col: value}"""
    T = env.torch
    crow, col, val = [0], [], []
    for r in rows:
        for j in sorted(r):
            col.append(j)
            val.append(r[j])
        crow.append(len(col))
    v = env.tensor_of(val, (len(val),)).to(T.float64)
    return T.sparse_csr_tensor(T.tensor(crow, dtype=T.int64), T.tensor(col, dtype=T.int64), v, size=(len(rows), len(rows)), dtype=T.float64)


def matrix(env, graph, fixed=False, either=False, sym=True, nsym=99, diag=None):
    n, E = GRAPHS[graph]
    rows = [{} for _ in range(n)]
    for k, (i, j) in enumerate(E):
        if fixed or k >= nsym:
            a = b = -(1.0 + 0.3 * ((7 * k) % 5))
        else:
            a = env.real("a%d%d" % (i, j), -4, 4 if either else -0.05)
            b = a if sym else env.real("a%d%d" % (j, i), -4, 4 if either else -0.05)
        rows[i][j], rows[j][i] = a, b
    for i in range(n):
        s = env.sum(env.abs(v) if either else -v for v in rows[i].values()) if rows[i] else 0
        rows[i][i] = diag + i if diag else s + (0.4 + 0.1 * i if fixed else env.real("d%d" % i, 0.1, 4))
    return rows


def run(env, case):
    A = env.mod("solver.classical_amg")
    {"strong": strong, "coarsen": coarsen, "interp": interp}[case["kind"]](env, case, A)


def threshold(env, rows, i, theta):
    """theta times the strongest negative coupling of a row"""
    off = [env.max(-v, 0) for j, v in rows[i].items() if j != i]
    m = off[0] if off else 0
    for v in off[1:]:
        m = env.max(m, v)
    return theta * m


def strong(env, case, A):
    rows = matrix(env, case["graph"], either=True, sym=False)
    theta = env.real("theta", 0.05, 0.95)
    got = env.vals(A.find_strong_connections(csr(env, rows), theta))
    k = 0
    for i, r in enumerate(rows):
        t = threshold(env, rows, i, theta)
        for j in sorted(r):
            g = got[k]
            k += 1
            is_strong = env.true(g)
            if j == i:
                env.check("no coupling to itself", env.not_(is_strong))
                continue
            # either way at the threshold itself, up to rounding
            env.check("a negative coupling at or above the threshold is strong", env.implies(env.all(env.lt(r[j], -1e-5), env.ge(-r[j], t + 1e-6, 0)), is_strong))
            env.check("nothing else is strong", env.implies(is_strong, env.all(env.le(r[j], 0, 1e-5), env.ge(-r[j], t, 1e-6))))
    env.check("one mark per entry", env.true(len(got) == k))


def neighbours(env, rows, theta=0.25):
    """strong couplings, either way round (decided on the path)"""
    n = len(rows)
    S = [set() for _ in range(n)]
    directed = set()
    for i in range(n):
        t = threshold(env, rows, i, theta)
        for j in rows[i]:
            if j != i:
                env.assume(env.any(env.ge(-rows[i][j], t + 1e-6, 0), env.le(-rows[i][j], t - 1e-6, 0)))
                if env.decide(env.ge(-rows[i][j], t, 0)):
                    S[i].add(j)
                    S[j].add(i)
                    directed.add((i, j))
    return S, directed


def coarsen(env, case, A):
    rows = matrix(env, case["graph"], fixed=case.get("fixed"), nsym=case.get("nsym", 99), diag=13.0)
    cf, nc = A.classical_coarsening(csr(env, rows), 0.25)
    S, _ = neighbours(env, rows)
    mark = [int(x) for x in env.vals(cf)]
    n = len(rows)
    env.observe("marks", mark)
    env.check("every unknown is coarse or fine", env.true(len(mark) == n and all(m in (0, 1) for m in mark)))
    env.check("coarse count", env.true(int(nc) == mark.count(0)))
    env.check("at least one coarse unknown", env.true(mark.count(0) >= 1))
    for i in range(n):
        if mark[i] == 1:
            env.check("a fine unknown has a strongly coupled coarse one", env.true(any(mark[j] == 0 for j in S[i])))
        if S[i] and all(len(S[i]) > len(S[j]) for j in S[i]):
            env.check("an unknown with more strong couplings than its neighbours is coarse", env.true(mark[i] == 0))
            env.check("and its neighbours are fine", env.true(all(mark[j] == 1 for j in S[i])))


def interp(env, case, A):
    rows = matrix(env, case["graph"], nsym=case.get("nsym", 99))
    n = len(rows)
    S, directed = neighbours(env, rows)
    M = csr(env, rows)
    T = env.torch
    mask, pos = [], []
    for i in range(n):
        for j in sorted(rows[i]):
            mask.append((i, j) in directed)
            pos.append((i, j))
    cf = T.tensor([0 if i in case["C"] else 1 for i in range(n)])
    basis = None
    kw = {}
    if case.get("blend"):
        B = A.generate_nullspace(csr(env, matrix(env, case["graph"], fixed=True)), 2)
        basis = B
        kw = dict(blend=0.6, ls_reg=1e-6)
    P, cf2, f2c, cn, fn = A.build_prolongation_rs_full(M, cf, T.tensor(mask), basis, **kw)
    C = [i for i in range(n) if int(env.vals(cf2)[i]) == 0]
    F = [i for i in range(n) if i not in C]
    env.observe("coarse", len(C))
    # an unknown without any strong coarse neighbour is made coarse, nobody else changes
    for i in range(n):
        orphan = i not in case["C"] and not any((i, j) in directed and j in case["C"] for j in range(n))
        env.check("coarse unknowns stay coarse, orphans become coarse", env.true((i in C) if (i in case["C"] or orphan) else True))
    env.check("coarse numbering", env.true([int(x) for x in env.vals(cn)] == C and [int(x) for x in env.vals(fn)] == F))
    env.check("coarse numbering both ways", env.true([int(x) for x in env.vals(f2c)] == [C.index(i) if i in C else -1 for i in range(n)]))
    env.check("shape", env.true(tuple(env.shape(P)) == (n, len(C))))
    D = env.vals(P.to_dense())
    W = [D[i * len(C):(i + 1) * len(C)] for i in range(n)]
    for i in range(n):
        if i in C:
            for c in range(len(C)):
                env.check("coarse unknowns are injected", env.eq(W[i][c], 1 if C[c] == i else 0, 1e-6))
            continue
        env.check("weights sum to one", env.eq(env.sum(W[i]), 1, 1e-6))
        for c in range(len(C)):
            env.check("weights are non-negative", env.ge(W[i][c], 0, 1e-6))
        if not case.get("blend"):
            env.check("interpolates from its strong coarse neighbours", env.all([env.ge(W[i][C.index(j)], 1e-7, 0) for j in C if (i, j) in directed]))
