"""Assignment: the solver returns a perfect matching of least total cost."""
import itertools
import random
from vlib import *
from alg import *
from checks_common import *
FLOOR = 200
D = "d_asg.cpp"
F = "src/utMath/Graph/Munkres.h"


def spec(R, C, forms):
    n = max(R, C)
    nb = len(forms[0])

    def sp(c, x, o, nonneg):
        num = lambda v: v.v if v.v < 1000 else -1
        rows_, cols_, row, col = num(o[0]), num(o[1]), [num(v) for v in o[2:2 + n]], [num(v) for v in o[2 + n:2 + 2 * n]]
        mask = [[num(o[2 + 2 * n + n * r + q]) for q in range(n)] for r in range(n)]
        perm = sorted(row) == list(range(n))
        r = [("every row and column has one match", rows_ == n and cols_ == n and perm),
             ("matches by row and by column agree", perm and all(col[row[k]] == k for k in range(n))),
             ("mask marks exactly the matches", perm and all((mask[k][q] == 1) == (row[k] == q) for k in range(n) for q in range(n))),
             ("cost matrix untouched", all(a.v == b.v for a, b in zip(o[2 + 2 * n + n * n:], x)))]
        if perm:
            cost = lambda p: [sum(forms[C * k + p[k]][j] for k in range(R) if p[k] < C) for j in range(nb)]
            best = cost(row)
            r.append(("no matching has lower cost", all(nonneg([a - b for a, b in zip(cost(p), best)]) for p in itertools.permutations(range(n)))))
        return r
    return sp


def unit(k, n):
    return [1 if j == k else 0 for j in range(n)] + [0]


def solve(ck, R, C, pattern, what, limit=20000, facts=None, nb=None, fam="mu"):
    """pattern: cost k is the positive quantity pattern[k] (equal entries: ties), or an explicit linear form"""
    nb = nb or max([p for p in pattern if isinstance(p, int)]) + 1
    forms = [unit(p, nb) if isinstance(p, int) else p for p in pattern]
    return ck.ordered(D, "vf_%s%d%d" % (fam, R, C), forms, spec(R, C, forms), 2 + 2 * max(R, C) + max(R, C) ** 2 + R * C, F,
                      "optimal assignment %dx%d %s" % (R, C, what), facts=[unit(k, nb) for k in range(nb)] + [f for f in forms if sum(map(abs, f)) > 1] + (facts or []), limit=limit)


def ranked(ck, R, C, rank, fam="mu"):
    """costs in a given order: cost k is the rank[k]-th smallest, equal ranks are ties, rank 0 is zero; comparisons of sums are left open"""
    nb = max(1, max(rank))
    forms = [unit(r - 1, nb) if r else [0] * (nb + 1) for r in rank]
    facts = [[b - a for a, b in zip(unit(k, nb), unit(k + 1, nb))] for k in range(nb - 1)]
    return solve(ck, R, C, forms, "costs ranked " + "".join(map(str, rank)), facts=facts, nb=nb, fam=fam)


def ranks(rng, n, top):
    v = [rng.randint(0, top) for _ in range(n)]
    lv = sorted(set(v) - {0})
    return [lv.index(k) + 1 if k else 0 for k in v]


def run(ck):
    # every order of the costs and of their sums
    for R, C in ((1, 1), (2, 2), (1, 2), (2, 1), (2, 3), (3, 2)):
        solve(ck, R, C, list(range(R * C)), "distinct costs")
    # every pattern of equal costs, and equal totals
    for pat in itertools.product(range(4), repeat=4):
        if all(p <= max((-1,) + pat[:k]) + 1 for k, p in enumerate(pat)) and len(set(pat)) < 4:
            solve(ck, 2, 2, list(pat), "ties %d%d%d%d" % pat)
    solve(ck, 2, 2, [0, 1, 2, [-1, 1, 1, 0]], "equal totals")
    solve(ck, 2, 2, [0, 1, [1, 1, 0], 1], "sum ties")
    for z in range(4):
        solve(ck, 2, 2, [k - (k > z) if k != z else [0, 0, 0, 0] for k in range(4)], "zero cost")
    solve(ck, 2, 2, [[0, 0]] * 4, "all zero", nb=1)
    # three by three: rankings of the costs (ties and zeros included), every order of sums
    rng = random.Random("P25/%d" % ck.seed)
    for k in range(90 if ck.tier == "quick" else 4000):
        p = list(range(1, 10))
        rng.shuffle(p)
        ranked(ck, 3, 3, p)
        ranked(ck, 3, 3, ranks(rng, 9, rng.choice((2, 3, 5, 7))))
        ranked(ck, 4, 4, ranks(rng, 16, rng.choice((2, 3, 5, 9))))
        ranked(ck, 3, 4, ranks(rng, 12, rng.choice((2, 3, 5, 9))))
    # larger and longer shapes
    for k in range(12 if ck.tier == "quick" else 400):
        for R, C in ((5, 5), (4, 2), (2, 5), (1, 4), (4, 1), (6, 6)):
            ranked(ck, R, C, ranks(rng, R * C, rng.choice((2, 3, 4) if R * C > 20 else (2, 4, 8))))
    # an object that solved another problem before
    for k in range(6 if ck.tier == "quick" else 100):
        for R, C in ((2, 2), (3, 3), (2, 3), (3, 2)):
            ranked(ck, R, C, ranks(rng, R * C, rng.choice((2, 4, 8))), "mr")
