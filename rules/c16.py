"""C16: triangle measures and triangle quadrature are exact.
Rule: by value numbering over three symbolic corners, (1) area is half the length of the edge cross product, the centre
is the mean corner, the normal is the unit edge cross product (zero below the degenerate threshold) whichever edge pair
the code picks, the aspect ratio is longest edge * perimeter / (4 sqrt(3) area); (2) for every integration method the
generated points are affine combinations of the corners with weights adding to one and none outside the triangle, the
weights are positive multiples of the area, each point carries the triangle's normal; (3) the barycentric moments of
these constants equal the exact integrals of every monomial up to the rule's degree (methods 0..3: 1, 2, 4, 6; higher
methods at least degree 6)."""
from fractions import Fraction as Fr
from math import factorial, sqrt as fsqrt
import qa, alg, vn
from vnlib import *

TU = "queso::TriangleUtilities::"
DEG = {0: 1, 1: 2, 2: 4, 3: 6, 4: 6}
TOL = Fr(1, 10**13)


def tri(M, S):
    P = [vec("a"), vec("b"), vec("c")]
    n = vec("n")
    r = lambda k, x: mem(M, S, "corner" + k, arr(x))
    return P, mem(M, S, "tri", L(Agg({"P1": r("1", P[0]), "P2": r("2", P[1]), "P3": r("3", P[2]), "Normal": r("n", n)}, None, None)))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b): return [x - y for x, y in zip(a, b)]
def norm(a): return alg.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])


def pickm(P, q, n):
    c = [f for f in P.by_q(q) if len(f.params) == n and f.body is not None and "WithNormals" in f.key] or [f for f in P.by_q(q) if len(f.params) == n]
    if not c:
        raise qa.Broken("anchor vanished: " + q)
    return c


def run(R, tier):
    P = load(R)
    alg.reset()
    for f in pickm(P, TU + "Area", 1):
        M = vn.VN(P); S = vn.State(); C, T = tri(M, S)
        compare(R, f, "area is half the cross product length", f.key, M.call(f, [T], None, S), L(norm(cross(sub(C[1], C[0]), sub(C[2], C[0]))) * rf(Fr(1, 2))))
    for f in pickm(P, TU + "Center", 1):
        M = vn.VN(P); S = vn.State(); C, T = tri(M, S)
        v = M.call(f, [T], None, S)
        for i in range(3):
            compare(R, f, "centre is the mean corner", "%s [%d]" % (f.key, i), M.field_of(v, i, vn.TD), L((C[0][i] + C[1][i] + C[2][i]) / rf(3)))
    zt = const_of(P, "ZEROTOL")
    def unit(C):
        k = cross(sub(C[1], C[0]), sub(C[2], C[0]))
        g = alg.gt(L(norm(k)), L(zt))
        return [ite(g, L(x / norm(k)), L(rf(0))) for x in k]
    for f in pickm(P, TU + "Normal", 1):
        M = vn.VN(P); S = vn.State(); C, T = tri(M, S)
        v = M.call(f, [T], None, S); u = unit(C)
        for i in range(3):
            compare(R, f, "normal is the unit cross product", "%s [%d]" % (f.key, i), M.field_of(v, i, vn.TD), u[i])
    for f in pickm(P, TU + "AspectRatio", 1):
        alg.reset()
        M = vn.VN(P); S = vn.State(); C, T = tri(M, S)
        v = M.call(f, [T], None, S)
        A = norm(cross(sub(C[1], C[0]), sub(C[2], C[0]))) * rf(Fr(1, 2))
        e = [norm(sub(C[1], C[0])), norm(sub(C[2], C[1])), norm(sub(C[0], C[2]))]
        R.count("obligations")
        # each leaf is  m * (sum of edges) / (4 sqrt3 A) for one of the edges m, reached only when m is longest,
        # or the constant for degenerate triangles
        for path, lf in paths(v):
            if not isinstance(lf, RF):
                R.violation(f.loc, "aspect ratio", f.key, "not numeric: %s" % str(lf)[:200]); continue
            if lf.const is not None:
                if lf.const < 10**6:
                    R.violation(f.loc, "degenerate triangles have a huge aspect ratio", f.key, "constant %s" % lf)
                continue
            ok = None
            for m in e:
                q = lf * A * rf(4) / (m * (e[0] + e[1] + e[2]))
                c = numeric(q)
                if c is not None and abs(c - 1 / fsqrt(3)) < 1e-12:
                    ok = m
            if ok is None:
                R.violation(f.loc, "aspect ratio is longest edge times perimeter over 4 sqrt(3) area", f.key, "leaf %s" % str(lf)[:200]); continue
            # the path must establish that no other edge is longer
            for o in e:
                if o.fp == ok.fp:
                    continue
                ge = alg.ge(L(ok), L(o))
                if not implied(path, ge, ok, e):
                    R.violation(f.loc, "aspect ratio uses the longest edge", f.key, "an edge that need not be the longest is used")
    methods(R, P, unit, tier)
    R.expect("obligations", 150)


def paths(v, p=()):
    if v.c is None:
        yield p, v.leaf
        return
    yield from paths(v.hi, p + ((v.c, True),))
    yield from paths(v.lo, p + ((v.c, False),))


def implied(path, ge, ok, edges):
    """transitive closure of the edge comparisons on a path"""
    le = set()
    for c, h in path:
        for i, x in enumerate(edges):
            for j, y in enumerate(edges):
                if i != j:
                    g = alg.gt(L(x), L(y))
                    if g.c == c:
                        t = (g.hi.leaf is True) == h
                        le.add((j, i) if t else (i, j))
    for k in range(len(edges)):
        for i in range(len(edges)):
            for j in range(len(edges)):
                if (i, k) in le and (k, j) in le:
                    le.add((i, j))
    m = [i for i, x in enumerate(edges) if x.fp == ok.fp][0]
    return all((i, m) in le for i in range(len(edges)) if i != m)


def numeric(q):
    """float value of an expression built from square roots of constants"""
    def pv(p):
        t = 0.0
        for mm, c in p.items():
            x = float(c)
            for a, e in mm:
                s = alg.S.sqr.get(a)
                if s is None or s.const is None:
                    return None
                x *= fsqrt(float(s.const)) ** e
            t += x
        return t
    n, d = pv(q.num), pv(q.den)
    return None if n is None or not d else n / d


def methods(R, P, unit, tier):
    fs = pickm(P, TU + "GetIPsGlobal", 2)
    for f in fs:
        for m in range(0, 5):
            alg.reset()
            M = vn.VN(P); S = vn.State(); C, T = tri(M, S)
            area = norm(cross(sub(C[1], C[0]), sub(C[2], C[0]))) * rf(Fr(1, 2))
            v = M.call(f, [T, L(m)], None, S)
            inst = "%s method %d" % (f.q.split("::")[-1], m)
            if v.c is not None or not isinstance(v.leaf, Agg) or v.leaf.base is not None or not v.leaf.f:
                R.violation(f.loc, "points of a method are a constant rule", inst, "result does not fold: %s" % str(v)[:200]); continue
            pts = []
            u = unit(C)
            for i, ip in sorted(v.leaf.f.items()):
                acc = {}
                for name in ("Point", "Weight", "Normal"):
                    g = pick(P, "queso::BoundaryIntegrationPoint::" + name, 0)
                    rec = [r for r in P.records.values() if r.q == "queso::BoundaryIntegrationPoint"][0]
                    S2 = S.copy()
                    x = M.call(g, [], mem(M, S2, ("ip", i), ip, vn._Ty(s=rec.q, rec=rec.name)), S2)
                    acc[name] = M.load(S2, x) if x.c is None and isinstance(x.leaf, Ref) else x
                bary = None
                for x in range(3):
                    p = M.field_of(acc["Point"], x, vn.TD)
                    b = [lincoef(p.leaf, C[k][x]) for k in range(3)] if p.c is None and isinstance(p.leaf, RF) else [None] * 3
                    R.count("obligations")
                    if None in b or (p.leaf - sum((C[k][x] * rf(b[k]) for k in range(3)), rf(0))).num:
                        R.violation(f.loc, "point is an affine combination of the corners", "%s point %d axis %d" % (inst, i, x), "got %s" % str(p)[:200]); break
                    if bary is not None and b != bary:
                        R.violation(f.loc, "point is an affine combination of the corners", "%s point %d axis %d" % (inst, i, x), "axes use different combinations %s / %s" % (fl(bary), fl(b))); break
                    bary = b
                else:
                    if abs(sum(bary) - 1) > TOL or any(c < -TOL for c in bary):
                        R.violation(f.loc, "point lies in the triangle", "%s point %d" % (inst, i), "barycentric coordinates %s" % fl(bary))
                    w = acc["Weight"]
                    R.count("obligations")
                    if w.c is not None or not isinstance(w.leaf, RF) or (w.leaf / area).const is None:
                        R.violation(f.loc, "weight is a multiple of the area", "%s point %d" % (inst, i), "weight %s" % str(w)[:200])
                    else:
                        c = (w.leaf / area).const
                        if c <= 0:
                            R.violation(f.loc, "weights are positive", "%s point %d" % (inst, i), "weight %s * area" % float(c))
                        pts.append((bary, c))
                    for x in range(3):
                        compare(R, f, "point carries the triangle's normal", "%s point %d [%d]" % (inst, i, x), M.field_of(acc["Normal"], x, vn.TD), u[x])
            if len(pts) != len(v.leaf.f):
                continue
            d = DEG[m]
            for a in range(d + 1):
                for b in range(d + 1 - a):
                    R.count("obligations")
                    got = sum((w * p[1] ** a * p[2] ** b for p, w in pts), Fr(0))
                    want = Fr(2 * factorial(a) * factorial(b), factorial(a + b + 2))
                    if abs(got - want) > TOL:
                        R.violation(f.loc, "rule integrates polynomials of its degree exactly", "%s monomial x^%d y^%d" % (inst, a, b), "sum %.16g, exact %.16g" % (float(got), float(want)))
            R.count("rules")
    R.expect("rules", 5)


def fl(b): return [float(x) for x in b]


def lincoef(p, atom):
    if p is None or not p.poly:
        return None
    (m, _), = atom.num.items()
    return p.num.get(m, Fr(0))
