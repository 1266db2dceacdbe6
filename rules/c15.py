"""C15: the one-dimensional quadrature rules are exact on their spaces.
Rule: the constant tables are read from the initialisers in the source and the two functions that hand out rules are
folded by constant propagation for every method, polynomial order and number of knot spans below. What is handed out is
compared with the theory: Gauss rules of n points (n = order + 1, order, order - 1 for gauss, gauss_reduced_1,
gauss_reduced_2) integrate every power up to 2n - 1 over the unit interval; a generalised rule integrates every B-spline
of the space of degree 2p, 2p - 1, 2p - 2 and continuity p - 2 over equal knot spans. Nodes lie inside the interval in
increasing order, weights are positive."""
from fractions import Fraction as Fr
from concurrent.futures import ProcessPoolExecutor
import qa, alg, vn
from vnlib import *

Q = "queso::IntegrationPointFactory1D::"
X = "queso/quadrature/integration_points_1d/"
TOLG = Fr(2, 10**15)
TOLS = 1e-13
G = {}


def methods(P):
    e = [x for q, x in P.enums.items() if q.split("::")[-1] == "IntegrationMethod"] or [x for q, x in P.enums.items() if "IntegrationMethod" in q and any(c["n"] == "ggq_optimal" for c in x["e"])]
    if not e:
        raise qa.Broken("anchor vanished: enumeration IntegrationMethod")
    return {c["n"]: c["v"] for c in e[0]["e"]}


def rule(M, S, v):
    """list of (node, weight) of a returned rule, or the reason there is none"""
    if v.c is not None:
        return "the result does not fold to one rule: %s" % str(v)[:200]
    x = v
    for _ in range(3):
        if isinstance(x.leaf, vn.Ref):
            x = M.load(S, x)
        if x.c is not None:
            return "the rule does not fold: %s" % str(x)[:200]
    a = x.leaf
    if not isinstance(a, vn.Agg) or a.base is not None or not a.f:
        return "no rule is returned here (%s)" % str(x)[:200]
    out = []
    for i in range(len(a.f)):
        p = a.f.get(i)
        if p is None:
            return "point %d is missing" % i
        y = []
        for k in (0, 1):
            z = M.field_of(p, k, vn.TD)
            if z.c is not None or not isinstance(z.leaf, RF) or z.leaf.const is None:
                return "point %d is not a constant: %s" % (i, str(z)[:150])
            y.append(z.leaf.const)
        out.append(tuple(y))
    return out


def shape(pts):
    for i, (x, w) in enumerate(pts):
        if not 0 < x < 1:
            return "node %d = %.17g lies outside the interval" % (i, float(x))
        if w <= 0:
            return "weight %d = %.17g is not positive" % (i, float(w))
        if i and pts[i - 1][0] >= x:
            return "nodes %d and %d are not increasing" % (i - 1, i)
    return None


def spline_error(pts, p, r, e):
    """largest |rule - integral| over the B-splines of degree p, continuity r on e equal spans of [0, e] (float)"""
    kn = [0.0] * (p + 1)
    for k in range(1, e):
        kn += [float(k)] * (p - r)
    kn += [float(e)] * (p + 1)
    dim = len(kn) - p - 1
    acc = [0.0] * dim
    for x, w in pts:
        x = float(x * e); w = float(w * e)
        k = min(int(x), e - 1)
        mu = p + k * (p - r)
        N = [1.0]
        for d in range(1, p + 1):
            M = [0.0] * (d + 1)
            for i in range(d):
                a = kn[mu - d + 1 + i]; b = kn[mu + 1 + i]
                t = N[i] / (b - a) if b > a else 0.0
                M[i] += (b - x) * t
                M[i + 1] += (x - a) * t
            N = M
        for i in range(p + 1):
            acc[mu - p + i] += w * N[i]
    worst, at = 0.0, 0
    for i in range(dim):
        d = abs(acc[i] - (kn[i + p + 1] - kn[i]) / (p + 1))
        if d > worst:
            worst, at = d, i
    return worst, at


def one(job):
    p, e, name, val = job
    P = G["P"]
    alg.reset()
    f = G["ggq"]
    M = vn.VN(P); S = vn.State()
    pts = rule(M, S, M.call(f, [L(rf(p)), L(rf(e)), L(rf(val))], None, S))
    inst = "%s order %d, %d knot spans" % (name, p, e)
    if isinstance(pts, str):
        return inst, ("a rule is returned", pts), None
    s = shape(pts)
    if s:
        return inst, ("nodes inside and increasing, weights positive", s), None
    deg = {"ggq_optimal": 2 * p, "ggq_reduced_1": 2 * p - 1, "ggq_reduced_2": 2 * p - 2}[name]
    er, at = spline_error(pts, deg, p - 2, e)
    if er > TOLS:
        return inst, ("rule integrates its spline space exactly", "B-spline %d of degree %d, continuity %d: error %.3g in units of a knot span" % (at, deg, p - 2, er)), er
    return inst, None, er


vn.MAXUNROLL = 3000  # rules for many knot spans are built by loops over the spans


def run(R, tier):
    P = load(R, [X + f for f in ("gauss_legendre_integration_points.cpp", "integration_points_factory_1d.cpp", "precomputed_ggq_rules_optimal.cpp",
                                 "precomputed_ggq_rules_reduced1.cpp", "precomputed_ggq_rules_reduced2.cpp")], tables=True)
    E = methods(P)
    alg.reset()
    g = pick(P, Q + "GetGauss", 2)
    for name, less in (("gauss", 0), ("gauss_reduced_1", 1), ("gauss_reduced_2", 2)):
        for p in range(max(less, 1), 10):
            M = vn.VN(P); S = vn.State()
            pts = rule(M, S, M.call(g, [L(rf(p)), L(rf(E[name]))], None, S))
            inst = "%s order %d" % (name, p)
            R.count("gauss rules")
            if isinstance(pts, str):
                R.violation(g.loc, "a rule is returned", inst, pts); continue
            n = p + 1 - less
            if len(pts) != n:
                R.violation(g.loc, "number of points", inst, "%d points, expected %d" % (len(pts), n)); continue
            s = shape(pts)
            if s:
                R.violation(g.loc, "nodes inside and increasing, weights positive", inst, s); continue
            for d in range(2 * n):
                R.count("obligations")
                er = abs(sum(w * x ** d for x, w in pts) - Fr(1, d + 1))
                if er > TOLG:
                    R.violation(g.loc, "rule integrates polynomials of its degree exactly", "%s, power %d" % (inst, d), "error %.3g" % float(er))
    G["P"] = P; G["ggq"] = pick(P, Q + "GetGGQ", 3)
    es = list(range(1, 41)) + [63, 64, 99, 100, 101, 102, 128, 129, 200, 201, 257, 258, 300, 301, 513, 514, 601, 602] if tier == "quick" else list(range(1, 161)) + [200, 201, 255, 256, 257, 258, 300, 301, 400, 401, 511, 512, 513, 514, 601, 602]
    jobs = [(p, e, n, E[n]) for e in sorted(es, reverse=True) for p in (2, 3, 4) for n in ("ggq_optimal", "ggq_reduced_1", "ggq_reduced_2")]
    worst = 0.0
    with ProcessPoolExecutor(8) as ex:
        for inst, bad, er in ex.map(one, jobs, chunksize=4):
            R.count("generalised rules"); R.count("obligations")
            if bad:
                R.violation(G["ggq"].loc, bad[0], inst, bad[1])
            if er is not None:
                worst = max(worst, er)
    R.notes.append("largest deviation of a generalised rule: %.3g knot spans" % worst)
    R.expect("gauss rules", 26); R.expect("generalised rules", 9 * 50); R.expect("obligations", 700)
