"""Slow, obvious tree computations used as oracles (node indices, edge lists)."""
import itertools
import math
from fractions import Fraction


def is_tree(n_nodes, nodes, edges):
    """edges (pairs) form a tree on exactly `nodes`."""
    nodes = set(nodes)
    if len(edges) != len(nodes) - 1:
        return False
    parent = {v: v for v in nodes}

    def find(v):
        while parent[v] != v:
            parent[v] = parent[parent[v]]
            v = parent[v]
        return v

    for a, b in edges:
        if a not in parent or b not in parent:
            return False
        ra, rb = find(a), find(b)
        if ra == rb:
            return False
        parent[ra] = rb
    return True


def spanning_trees(nodes, edges, limit=None):
    """All spanning trees as sorted tuples of edge positions."""
    nodes = list(nodes)
    out = []
    for combo in itertools.combinations(range(len(edges)), len(nodes) - 1):
        if is_tree(len(nodes), nodes, [edges[p] for p in combo]):
            out.append(combo)
            if limit and len(out) > limit:
                return None
    return out


def count_trees(nodes, edges):
    """Number of spanning trees (exact, matrix-tree theorem with Bareiss elimination)."""
    nodes = list(nodes)
    idx = {v: i for i, v in enumerate(nodes)}
    n = len(nodes)
    if n == 0:
        return 0
    L = [[0] * n for _ in range(n)]
    for a, b in edges:
        if a in idx and b in idx:
            i, j = idx[a], idx[b]
            L[i][i] += 1
            L[j][j] += 1
            L[i][j] -= 1
            L[j][i] -= 1
    M = [row[1:] for row in L[1:]]
    m = n - 1
    if m == 0:
        return 1
    sign, prev = 1, 1
    for k in range(m - 1):
        if M[k][k] == 0:
            for r in range(k + 1, m):
                if M[r][k] != 0:
                    M[k], M[r] = M[r], M[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, m):
            for j in range(k + 1, m):
                M[i][j] = (M[i][j] * M[k][k] - M[i][k] * M[k][j]) // prev
        prev = M[k][k]
    return sign * M[m - 1][m - 1]


def sides(nodes, edges):
    """For each tree edge position: the set of nodes on the side of edges[p][0]; O(n^2)."""
    adj = {v: [] for v in nodes}
    for p, (a, b) in enumerate(edges):
        adj[a].append((b, p))
        adj[b].append((a, p))
    out = []
    for p, (a, b) in enumerate(edges):
        seen, todo = {a}, [a]
        while todo:
            v = todo.pop()
            for u, q in adj[v]:
                if q != p and u not in seen:
                    seen.add(u)
                    todo.append(u)
        out.append(seen)
    return out


def kruskal_min(nodes, edges, weights):
    parent = {v: v for v in nodes}

    def find(v):
        while parent[v] != v:
            parent[v] = parent[parent[v]]
            v = parent[v]
        return v

    tot = 0
    for p in sorted(range(len(edges)), key=lambda p: weights[p]):
        a, b = find(edges[p][0]), find(edges[p][1])
        if a != b:
            parent[a] = b
            tot += weights[p]
    return tot


def within(x, target, eps, slack=0):
    """|x - target| <= eps * target, exactly (slack relative to target, for rounding)."""
    t, e = Fraction(target), Fraction(eps)
    return abs(Fraction(x) - t) <= e * t + Fraction(slack) * t


def on_edge(x, target, eps):
    """x lies so close to the boundary of the tolerance that rounding may decide."""
    t, e = Fraction(target), Fraction(eps)
    d = abs(abs(Fraction(x) - t) - e * t)
    return d <= Fraction(1, 10**9) * max(t, Fraction(x))


def chi2_p(counts, probs, n):
    """p-value of observed counts (list) against exact probabilities (list summing to 1).

    Cells with expected count below 5 are pooled."""
    from scipy.stats import chi2

    cells, pool = [], [0, 0.0]
    for c, p in zip(counts, probs):
        e = n * p
        if p <= 0:
            if c:
                return 0.0
            continue
        if e < 5:
            pool[0] += c
            pool[1] += e
        else:
            cells.append((c, e))
    if pool[1] > 0:
        cells.append(tuple(pool))
    if len(cells) < 2:
        return 1.0
    if any(e < 1e-12 for _, e in cells):
        cells = [(c, e) for c, e in cells if e >= 1e-12]
    x = sum((c - e) ** 2 / e for c, e in cells)
    # a pooled cell with a small expectation makes chi-square unreliable
    small = [e for _, e in cells if e < 5]
    if small:
        cells2 = [(c, e) for c, e in cells if e >= 5]
        x = sum((c - e) ** 2 / e for c, e in cells2)
        if len(cells2) < 2:
            return 1.0
        return float(chi2.sf(x, len(cells2)))
    return float(chi2.sf(x, len(cells) - 1))


def binom_p(k, n, p):
    from scipy.stats import binomtest

    p = min(1.0, max(0.0, float(p)))
    return float(binomtest(k, n, p).pvalue)


def law_ok(counts, law, n, alpha=1e-9):
    """counts: {outcome: observed}, law: {outcome: probability}. Returns (ok, message)."""
    for o, c in counts.items():
        if law.get(o, 0) <= 0 and c:
            return False, f"outcome {o} occurred {c} times but has probability 0"
    m = max(1, len(law))
    for o, p in law.items():
        pv = binom_p(counts.get(o, 0), n, p)
        if pv < alpha / m:
            return False, f"outcome {o} occurred {counts.get(o, 0)} of {n} times, probability {float(p):.5f} (p-value {pv:.2g})"
    keys = list(law)
    pv = chi2_p([counts.get(o, 0) for o in keys], [float(law[o]) for o in keys], n)
    if pv < alpha:
        return False, f"frequencies {dict(counts)} against law { {str(k): float(v) for k, v in law.items()} } (p-value {pv:.2g})"
    return True, ""


def kruskal_law(n, edges, extra):
    """{tree: probability} when edges are taken by increasing extra, and at random among equals"""
    groups = [[p for p in range(len(edges)) if extra[p] == x] for x in sorted(set(extra))]
    if math.prod(math.factorial(len(x)) for x in groups) > 5040:
        return None
    law, total = {}, 0
    for order in itertools.product(*[list(itertools.permutations(x)) for x in groups]):
        comp, t = list(range(n)), []
        for p in itertools.chain(*order):
            a, b = comp[edges[p][0]], comp[edges[p][1]]
            if a != b:
                t.append(p)
                comp = [a if x == b else x for x in comp]
        key = tuple(sorted(t))
        law[key] = law.get(key, 0) + 1
        total += 1
    return {t: Fraction(x, total) for t, x in law.items()}
