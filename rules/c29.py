"""C29: mesh measures, merging, refinement and box meshes.
Rule: over meshes whose vertices and normals are symbols (built by the mesh's own AddVertex/AddTriangle), value numbering
gives the normal form of every measure; it is compared with the definition: areas add up, volumes are the absolute sum of
normal * centre * area (over three, or along one axis), the bounding box is the smallest box of the used vertices, aspect
ratios are the maximum and the mean over the triangles. Append is folded on symbolic meshes and must yield the old mesh
followed by the new one with its own vertices, order and normals. Refinement is folded on concrete meshes (exact
rationals) and must keep area, area vector per normal and bounding box and reach the number asked for; box meshes over a
symbolic box must be closed, outward oriented and carry the stored unit normals."""
from fractions import Fraction as Fr
import qa, alg, vn
from vnlib import *
import c16

U = "queso::MeshUtilities::"
MESH = "queso::TriangleMesh"


def member(P, cls, name, n=None, part=None):
    c = [f for f in P.by_q(cls + "::" + name) if f.body is not None and (n is None or len(f.params) == n) and (part is None or part in f.key)]
    if not c:
        raise qa.Broken("anchor vanished: %s::%s" % (cls, name))
    return c[0]


def obj(M, S, P, cls, name, val=None):
    r = [x for x in P.records.values() if x.q == cls]
    if not r:
        raise qa.Broken("anchor vanished: " + cls)
    t = vn._Ty(s=r[0].name, rec=r[0].name)
    root = ("loc", "in", name); M.rtype[root] = t; S.st[root] = val if val is not None else L(Agg({}, None, t))
    return L(Ref(root, (), t))


def mesh(M, S, P, name, verts, tris, norms):
    m = obj(M, S, P, MESH, name)
    ctor = [f for f in P.funcs.values() if f.decl.ctor and f.q == MESH + "::TriangleMesh" and not f.params]
    if ctor and ctor[0].body is not None:
        M.call(ctor[0], [], m, S)
    av = member(P, MESH, "AddVertex", 1); at = member(P, MESH, "AddTriangle", 2)
    for i, v in enumerate(verts):
        M.call(av, [mem(M, S, "v%s%d" % (name, i), arr(v), av.params[0].t.noref)], m, S)
    for i, t in enumerate(tris):
        M.call(at, [mem(M, S, "t%s%d" % (name, i), arr([rf(x) for x in t]), at.params[0].t.noref), mem(M, S, "n%s%d" % (name, i), arr(norms[i]), at.params[1].t.noref)], m, S)
    return m


def view(M, S, P, m, name):
    c = [f for f in P.funcs.values() if f.decl.ctor and f.q == "queso::TriangleMeshView::TriangleMeshView" and len(f.params) == 1 and "TriangleMeshView" not in f.params[0].t.s and f.body is not None]
    if not c:
        raise qa.Broken("anchor vanished: constructor of TriangleMeshView")
    v = obj(M, S, P, "queso::TriangleMeshView", name)
    M.call(c[0], [m], v, S)
    return v


def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def dot(a, b): return sum((x * y for x, y in zip(a, b)), a[0] * 0)


def content(M, S, P, m, inst):
    """vertices, triangles and normals of a mesh as lists of values, read through its accessors"""
    out = []
    for name in ("Vertices", "TriangleIndices", "Normals"):
        f = member(P, MESH, name, 0)
        r = M.call(f, [], m, S)
        v = M.load(S, r) if r.c is None and isinstance(r.leaf, Ref) else r
        if v.c is not None or not isinstance(v.leaf, Agg) or v.leaf.base is not None:
            return None
        out.append([[M.field_of(v.leaf.f[i], j, vn.TD) for j in range(3)] for i in sorted(v.leaf.f)])
    return out


def const(v):
    return v.leaf.const if v.c is None and isinstance(v.leaf, RF) else None


def consts(c):
    """content of a mesh as exact numbers, or None"""
    if c is None:
        return None
    out = [[[const(x) for x in row] for row in part] for part in c]
    return None if any(x is None for part in out for row in part for x in row) else out


def num(v):
    """number a value evaluates to, square roots in floating point"""
    if v.c is not None or not isinstance(v.leaf, RF):
        return None
    return float(v.leaf.const) if v.leaf.const is not None else c16.numeric(v.leaf)


def run(R, tier):
    P = load(R, ["queso/utilities/mesh_utilities.cpp"])
    measures(R, P)
    ratios(R, P)
    boxes(R, P)
    container(R, P)
    views(R, P)
    append(R, P)
    quality(R, P)
    boxmesh(R, P)
    refine(R, P, tier)
    R.expect("obligations", 300)


TRIS = [(0, 1, 2), (2, 3, 0), (4, 1, 3)]


def fns(P, name, n):
    c = [f for f in P.by_q(U + name) if len(f.params) == n and f.body is not None]
    if not c:
        raise qa.Broken("anchor vanished: " + U + name)
    return c


def measures(R, P):
    for T in (TRIS, TRIS[:1], []):
        V = 5
        def scene():
            alg.reset()
            M = vn.VN(P); S = vn.State()
            p = [vec("p%d_" % i) for i in range(V)]; n = [vec("n%d_" % i) for i in range(len(T))]
            m = mesh(M, S, P, "m", p, T, n)
            return M, S, view(M, S, P, m, "v"), p, n
        inst = "%d triangles" % len(T)
        for name in ("Area", "AreaOMP"):
            for f in fns(P, name, 1):
                M, S, v, p, n = scene()
                want = sum((c16.norm(cross(sub(p[b], p[a]), sub(p[c], p[a]))) * rf(Fr(1, 2)) for a, b, c in T), rf(0))
                compare(R, f, "area is the sum of the triangle areas", "%s, %s" % (name, inst), M.call(f, [v], None, S), L(want))
        def moment(p, n, axes):
            t = rf(0)
            for (a, b, c), k in zip(T, n):
                A = c16.norm(cross(sub(p[b], p[a]), sub(p[c], p[a]))) * rf(Fr(1, 2))
                t = t + sum((k[x] * (p[a][x] + p[b][x] + p[c][x]) * rf(Fr(1, 3)) for x in axes), rf(0)) * A
            return t
        for name in ("Volume", "VolumeOMP"):
            for f in fns(P, name, 1):
                M, S, v, p, n = scene()
                compare(R, f, "volume is the absolute sum of normal times centre times area over three", "%s, %s" % (name, inst), M.call(f, [v], None, S), M.abs1(moment(p, n, (0, 1, 2)) * rf(Fr(1, 3))))
        for f in fns(P, "Volume", 2):
            for d in range(4):
                M, S, v, p, n = scene()
                r = M.call(f, [v, L(rf(d))], None, S)
                if d == 3:
                    R.count("obligations")
                    if not (r.c is None and isinstance(r.leaf, Bot)):
                        R.violation(f.loc, "a direction beyond the third is refused", "Volume, direction 3", "returns %s" % str(r)[:100])
                else:
                    compare(R, f, "volume along an axis is the absolute sum of normal times centre times area", "direction %d, %s" % (d, inst), r, M.abs1(moment(p, n, (d,))))


def concrete(P, verts, tris, norms, name="m"):
    alg.reset()
    M = vn.VN(P); S = vn.State()
    q = lambda rows: [[rf(Fr(x)) for x in r] for r in rows]
    m = mesh(M, S, P, name, q(verts), tris, q(norms))
    return M, S, m, view(M, S, P, m, "v" + name)


# right triangles with rational edges in different planes: (origin, legs)
LEGS = [(3, 4), (5, 12), (8, 15), (7, 24), (20, 21)]


def ratios(R, P):
    def spec(a, b):
        h = Fr(round((a * a + b * b) ** 0.5))
        return float(max(a, b, h) * (a + b + h)) / (4 * 3 ** 0.5 * float(Fr(a * b, 2)))
    for order in ([0, 1, 2, 3, 4], [3, 1, 0, 4, 2], [2, 0, 3], [4], []):
        verts, tris, norms = [], [], []
        for k, i in enumerate(order):
            a, b = LEGS[i]
            ax = k % 3
            e = lambda j, s: [s if x == (ax + j) % 3 else 0 for x in range(3)]
            o = [k, -k, 2 * k]
            n = len(verts)
            verts += [o, [x + y for x, y in zip(o, e(0, a))], [x + y for x, y in zip(o, e(1, b))]]
            tris.append((n, n + 1, n + 2) if k % 2 else (n + 1, n + 2, n)); norms.append(e(2, 1))
        vals = [spec(*LEGS[i]) for i in order]
        for name, want in (("MaxAspectRatio", max(vals) if vals else None), ("AverageAspectRatio", sum(vals) / len(vals) if vals else 0.0)):
            for f in fns(P, name, 1):
                if want is None:
                    continue
                M, S, m, v = concrete(P, verts, tris, norms)
                r = num(M.call(f, [v], None, S))
                R.count("obligations")
                if r is None or abs(r - want) > 1e-9 * (1 + want):
                    R.violation(f.loc, "%s over the triangles" % ("largest aspect ratio" if "Max" in name else "mean aspect ratio"), "%s of triangles %s" % (name, order), "computed %s, expected %.9g" % (r, want))


def boxes(R, P):
    """every corner of two triangles in turn carries the extreme of an axis, with all coordinates of one sign or mixed"""
    base = [[Fr(1), Fr(2), Fr(3)], [Fr(2), Fr(1), Fr(5, 2)], [Fr(3, 2), Fr(3), Fr(2)], [Fr(5, 2), Fr(3, 2), Fr(1)], [Fr(2), Fr(5, 2), Fr(3, 2)], [Fr(1), Fr(2), Fr(2)]]
    f = fns(P, "BoundingBox", 1)[0]
    for shift in (0, -10, -2):
        for k in range(6):
            for ax in range(3):
                for val in (9, -4):
                    pts = [[x + shift for x in p] for p in base]
                    pts[k][ax] = Fr(val + shift)
                    verts = pts + [[Fr(99)] * 3, [Fr(-99)] * 3]     # vertices no triangle uses
                    M, S, m, v = concrete(P, verts, [(0, 1, 2), (3, 4, 5)], [[0, 0, 1]] * 2)
                    r = M.call(f, [v], None, S)
                    lo, hi = M.field_of(r, "first", None), M.field_of(r, "second", None)
                    for x in range(3):
                        R.count("obligations")
                        a, b = const(M.field_of(lo, x, vn.TD)), const(M.field_of(hi, x, vn.TD))
                        wa, wb = min(p[x] for p in pts), max(p[x] for p in pts)
                        if a != wa or b != wb:
                            R.violation(f.loc, "bounding box is the smallest box of the triangles", "corner %d, axis %d, value %s, shift %d" % (k, x, val, shift), "axis %d: [%s, %s], expected [%s, %s]" % (x, a, b, wa, wb)); return


def container(R, P):
    """the mesh and its views hand out what was added, in order; removal removes one triangle with its normal"""
    def scene():
        alg.reset()
        M = vn.VN(P); S = vn.State()
        p = [vec("p%d_" % i) for i in range(5)]; n = [vec("n%d_" % i) for i in range(3)]
        m = mesh(M, S, P, "m", p, TRIS, n)
        return M, S, m, p, n
    M, S, m, p, n = scene()
    av = member(P, MESH, "AddVertex", 1)
    r = M.call(av, [mem(M, S, "extra", arr(vec("q")), av.params[0].t.noref)], m, S)
    compare(R, av, "a new vertex gets the next index", "sixth vertex", r, L(rf(5)))
    for cls in (MESH, "queso::TriangleMeshView"):
        for f in [f for f in P.by_q(cls + "::Triangle") if f.body is not None]:
            for t, (a, b, c) in enumerate(TRIS):
                M, S, m, p, n = scene()
                o = m if cls == MESH else view(M, S, P, m, "v")
                r = M.call(f, [L(rf(t))], o, S)
                want = {"P1": p[a], "P2": p[b], "P3": p[c]}
                if "WithNormals" in f.key:
                    want["Normal"] = n[t]
                for k, w in want.items():
                    x = M.field_of(r, k, None)
                    x = M.load(S, x) if x.c is None and isinstance(x.leaf, Ref) else x
                    for j in range(3):
                        compare(R, f, "a triangle has the vertices and the normal it was added with", "%s %d %s[%d]" % (f.q, t, k, j), M.field_of(x, j, vn.TD), L(w[j]))
    for name, want in (("NumOfTriangles", 3), ("NumOfVertices", 5)):
        M, S, m, p, n = scene()
        f = member(P, MESH, name, 0)
        compare(R, f, "counts agree with what was added", name, M.call(f, [], m, S), L(rf(want)))
    for k in range(3):
        M, S, m, p, n = scene()
        f = member(P, MESH, "RemoveTriangle", 1)
        M.call(f, [L(rf(k))], m, S)
        c = content(M, S, P, m, "removal")
        R.count("obligations")
        keep = sorted((TRIS[i], tuple(x.fp for x in n[i])) for i in range(3) if i != k)
        got = None
        if c is not None and all(const(x) is not None for row in c[1] for x in row) and all(x.c is None and isinstance(x.leaf, RF) for row in c[2] for x in row):
            got = sorted((tuple(int(const(x)) for x in row), tuple(x.leaf.fp for x in nr)) for row, nr in zip(c[1], c[2])) if len(c[1]) == len(c[2]) else None
        if got != keep or len(c[0]) != 5:
            R.violation(f.loc, "removing a triangle removes it and its normal only", "triangle %d of 3" % k, "remaining %s" % (got,))
    f = member(P, MESH, "Check", 0)
    for bad in (None, 0, 1, 2):
        alg.reset()
        M = vn.VN(P); S = vn.State()
        T = [list(t) for t in TRIS]
        if bad is not None:
            T[bad][bad] = 5
        m = mesh(M, S, P, "m", [vec("p%d_" % i) for i in range(5)], [tuple(t) for t in T], [vec("n%d_" % i) for i in range(3)])
        r = M.call(f, [], m, S)
        refused = r.c is None and isinstance(r.leaf, Bot) or S.jump.c is None and isinstance(S.jump.leaf, Bot)
        R.count("obligations")
        if refused != (bad is not None):
            R.violation(f.loc, "the consistency check refuses meshes whose triangles name missing vertices, and no others", "bad corner %s" % bad, "refused: %s" % refused)


def append(R, P):
    f = fns(P, "Append", 2)[0]
    for T1, T2 in ((TRIS, [(2, 0, 1), (1, 3, 2)]), ([], TRIS[:1]), (TRIS, [])):
        alg.reset()
        M = vn.VN(P); S = vn.State()
        n1 = 1 + max([max(t) for t in T1] or [0]); n2 = 2 + max([max(t) for t in T2] or [0])
        p, q = [vec("p%d_" % i) for i in range(n1)], [vec("q%d_" % i) for i in range(n2)]
        n, k = [vec("n%d_" % i) for i in range(len(T1))], [vec("k%d_" % i) for i in range(len(T2))]
        a = mesh(M, S, P, "a", p, T1, n); b = mesh(M, S, P, "b", q, T2, k)
        M.call(f, [a, b], None, S)
        inst = "%d + %d triangles" % (len(T1), len(T2))
        for what, m, W in (("the destination is the old mesh followed by the new one", a, (p + q, list(T1) + [tuple(x + n1 for x in t) for t in T2], n + k)), ("the appended mesh stays as it is", b, (q, T2, k))):
            c = content(M, S, P, m, inst)
            if c is None:
                R.violation(f.loc, what, inst, "the result does not fold"); continue
            for part, got, want in zip(("vertices", "triangles", "normals"), c, W):
                R.count("obligations")
                if len(got) != len(want):
                    R.violation(f.loc, what, inst, "%d %s, expected %d" % (len(got), part, len(want))); continue
                if part == "triangles":
                    # corners are compared as vertices, whatever their numbers
                    ok = all(const(x) is not None and 0 <= const(x) < len(c[0]) for row in got for x in row)
                    got = [[y for x in row for y in c[0][int(const(x))]] for row in got] if ok else []
                    want = [[y for x in t for y in W[0][x]] for t in want]
                    if not ok:
                        R.violation(f.loc, what, inst, "a triangle names a vertex that does not exist"); continue
                for i, (g, w) in enumerate(zip(got, want)):
                    for j in range(len(w)):
                        compare(R, f, what, "%s, %s %d [%d]" % (inst, part, i, j), g[j], L(w[j]))


CUBE_V = [(x, y, z) for z in (0, 4) for y in (0, 3) for x in (0, 2)]
CUBE_T = [(0, 6, 2), (0, 4, 6), (1, 7, 5), (1, 3, 7), (4, 1, 5), (4, 0, 1), (6, 7, 3), (6, 3, 2), (1, 0, 3), (0, 2, 3), (4, 5, 7), (4, 7, 6)]
CUBE_N = [(-1, 0, 0)] * 2 + [(1, 0, 0)] * 2 + [(0, -1, 0)] * 2 + [(0, 1, 0)] * 2 + [(0, 0, -1)] * 2 + [(0, 0, 1)] * 2


def quality(R, P):
    f = fns(P, "EstimateQuality", 1)[0]
    for shift in ((0, 0, 0), (-1, -1, -2), (5, -7, 3)):
        V = [tuple(x + s for x, s in zip(v, shift)) for v in CUBE_V]
        M, S, m, v = concrete(P, V, CUBE_T, CUBE_N)
        r = num(M.call(f, [v], None, S))
        R.count("obligations")
        if r is None or not 0 <= r < 1e-11:
            R.violation(f.loc, "the quality estimate of a closed mesh is zero", "box shifted by %s" % (shift,), "estimate %s" % r)
        for k in range(12):
            for kind in ("triangle missing", "normal flipped"):
                T, N = list(CUBE_T), list(CUBE_N)
                if kind == "triangle missing":
                    T.pop(k); N.pop(k)
                else:
                    N[k] = tuple(-x for x in N[k])
                M, S, m, v = concrete(P, V, T, N)
                r = num(M.call(f, [v], None, S))
                R.count("obligations")
                if r is None or r < 1e-3:
                    R.violation(f.loc, "the quality estimate of an open or inconsistently oriented mesh is large", "%s %d, shift %s" % (kind, k, shift), "estimate %s" % r)


def boxmesh(R, P):
    f = fns(P, "MakeMeshBox", 2)[0]
    alg.reset()
    M = vn.VN(P); S = vn.State()
    lo = vec("lo"); h = vec("h", pos=True); hi = [a + b for a, b in zip(lo, h)]
    r = M.call(f, [mem(M, S, "lo", arr(lo), f.params[0].t.noref), mem(M, S, "hi", arr(hi), f.params[1].t.noref)], None, S)
    m = M.temp(S, r, None)
    c = content(M, S, P, m, "box")
    if c is None or any(const(x) is None for row in c[1] for x in row):
        R.violation(f.loc, "box mesh", "symbolic box", "the result does not fold"); return
    V = [[x.leaf for x in row] for row in c[0]]; T = [tuple(int(const(x)) for x in row) for row in c[1]]; N = [[const(x) for x in row] for row in c[2]]
    R.count("obligations", 5)
    if any(i >= len(V) for t in T for i in t) or len(T) != len(N):
        R.violation(f.loc, "box mesh", "symbolic box", "triangles name missing vertices, or normals are missing"); return
    for i, v in enumerate(V):
        for x in range(3):
            if v[x].fp not in (lo[x].fp, hi[x].fp):
                R.violation(f.loc, "vertices of a box mesh are corners of the box", "vertex %d axis %d" % (i, x), "got %s" % v[x]); return
    corner = lambda i: tuple(0 if V[i][x].fp == lo[x].fp else 1 for x in range(3))
    edges = {}
    for t in T:
        for a, b in ((0, 1), (1, 2), (2, 0)):
            e = (corner(t[a]), corner(t[b])); edges[e] = edges.get(e, 0) + 1
    bad = [e for e in edges if edges[e] != edges.get((e[1], e[0]), 0) or edges[e] != 1]
    if bad:
        R.violation(f.loc, "a box mesh is closed", "symbolic box", "directed edge %s has no single opposite" % (bad[0],))
    tot = rf(0)
    for k, t in enumerate(T):
        a, b, d = (V[i] for i in t)
        cr = cross(sub(b, a), sub(d, a))
        n = N[k]
        if None in n or sum(x * x for x in n) != 1:
            R.violation(f.loc, "normals of a box mesh have unit length", "triangle %d" % k, "normal %s" % n); return
        along = dot(cr, [rf(x) for x in n])
        if any((cr[x] - along * rf(n[x])).num for x in range(3)) or alg.rsign(along) != "+":
            R.violation(f.loc, "normals of a box mesh agree with the orientation of its triangles", "triangle %d" % k, "edge product %s, normal %s" % (cr, [str(x) for x in n]))
        tot = tot + dot(a, cross(b, d)) * rf(Fr(1, 6))
    if (tot - h[0] * h[1] * h[2]).num:
        R.violation(f.loc, "a box mesh encloses the box, oriented outward", "symbolic box", "signed volume %s" % tot)


def moments(V, T, deg):
    """integrals of all monomials up to a degree over the triangles (per unit of their doubled area)"""
    out = {}
    from math import factorial as F
    for t in T:
        a, b, c = (V[i] for i in t)
        n = cross(sub(b, a), sub(c, a))
        q = n[0] * n[0] + n[1] * n[1] + n[2] * n[2]
        import math
        s = Fr(math.isqrt(q.numerator), math.isqrt(q.denominator)) if math.isqrt(q.numerator) ** 2 == q.numerator and math.isqrt(q.denominator) ** 2 == q.denominator else Fr(q ** 0.5)
        # integrals over the triangle through the barycentric expansion of each monomial
        for i in range(deg + 1):
            for j in range(deg + 1 - i):
                for k in range(deg + 1 - i - j):
                    poly = {(0, 0, 0): Fr(1)}
                    for x, e in ((0, i), (1, j), (2, k)):
                        for _ in range(e):
                            nw = {}
                            for m, cc in poly.items():
                                for v, p in enumerate((a, b, c)):
                                    if p[x]:
                                        mm = list(m); mm[v] += 1
                                        nw[tuple(mm)] = nw.get(tuple(mm), Fr(0)) + cc * p[x]
                            poly = nw
                    val = sum((cc * F(m[0]) * F(m[1]) * F(m[2]) / Fr(F(sum(m) + 2)) for m, cc in poly.items()), Fr(0)) * s
                    out[i, j, k] = out.get((i, j, k), Fr(0)) + val
    return out


def refine(R, P, tier):
    f = fns(P, "Refine", 2)[0]
    tets = ([(0, 0, 0), (3, 0, 0), (0, 4, 0), (0, 0, 12)], [(0, 1, 3), (0, 2, 1), (0, 3, 2)])
    scenes = [("box", CUBE_V, CUBE_T, CUBE_N, (5, 12, 13, 30, 60) if tier == "quick" else (5, 12, 13, 20, 30, 48, 49, 60, 100, 200, 400)),
              ("two triangles of different size", [(0, 0, 0), (4, 0, 0), (0, 3, 0), (4, 12, 0)], [(0, 1, 2), (2, 1, 3)], [(0, 0, 1)] * 2, (2, 3, 9, 20)),
              ("three faces of a corner, one shared vertex unused", tets[0] + [(9, 9, 9)], tets[1], [(0, -1, 0), (0, 0, -1), (-1, 0, 0)], (4, 10)),
              ("degenerate triangle", [(0, 0, 0), (1, 0, 0), (2, 0, 0)], [(0, 1, 2)], [(0, 0, 0)], (4,)),
              ("empty", [], [], [], (0, 3))]
    for name, V, T, N, counts in scenes:
        for want in counts:
            inst = "%s refined to %d" % (name, want)
            M, S, m, v = concrete(P, V, T, N)
            try:
                M.call(f, [m, L(rf(want))], None, S)
                c = consts(content(M, S, P, m, inst))
            except vn.Budget:
                c = None
            R.count("obligations")
            if c is None or S.jump.c is not None or S.jump.leaf != "go":
                R.violation(f.loc, "refinement ends normally", inst, "the result does not fold (%s)" % S.jump); continue
            rv, rt, rn = c[0], [tuple(int(x) for x in t) for t in c[1]], c[2]
            if len(rn) != len(rt) or any(not 0 <= i < len(rv) for t in rt for i in t):
                R.violation(f.loc, "a refined mesh is consistent", inst, "triangles and normals or vertices do not match"); continue
            q = lambda rows: [[Fr(x) for x in r] for r in rows]
            if len(T) >= want or name in ("degenerate triangle", "empty"):
                if (rv, rt, rn) != (q(V), list(T), q(N)):
                    R.violation(f.loc, "a mesh with enough triangles (or without area) is left as it is", inst, "%d triangles" % len(rt))
                continue
            if len(rt) < want:
                R.violation(f.loc, "refinement reaches the number of triangles asked for", inst, "%d triangles" % len(rt))
            if want == len(T) + 1 and len({tuple(x) for x in rv}) != len(rv) and len({tuple(x) for x in V}) == len(V):
                R.violation(f.loc, "neighbouring refined triangles share their vertices", inst, "%d vertices at %d places" % (len(rv), len({tuple(x) for x in rv})))
            OV = q(V)
            groups = {}
            for t, n in zip(T, N):
                groups.setdefault(tuple(Fr(x) for x in n), ([], []))[0].append(t)
            for t, n in zip(rt, rn):
                g = groups.get(tuple(n))
                if g is None:
                    R.violation(f.loc, "refined triangles keep the normal of their parent", inst, "normal %s" % ([str(x) for x in n],)); break
                g[1].append(t)
                a, b, c3 = (rv[i] for i in t)
                cr = cross(sub(b, a), sub(c3, a)); al = dot(cr, n)
                if al <= 0 or any(cr[x] != al * n[x] for x in range(3)):
                    R.violation(f.loc, "refined triangles keep the orientation of their parent", inst, "triangle %s" % (t,)); break
            else:
                for n, (old, new) in groups.items():
                    R.count("obligations")
                    a, b = moments(OV, old, 3), moments(rv, new, 3)
                    d = [k for k in a if a[k] != b[k]]
                    if d:
                        R.violation(f.loc, "refinement keeps the surface", inst, "moment x^%d y^%d z^%d over the faces with normal %s: %s, before %s" % (d[0] + ([str(x) for x in n], b[d[0]], a[d[0]]))); break


def views(R, P):
    """every way of visiting the triangles, on the library's mesh and on a foreign one, yields the same triangles"""
    I = "queso_inst::"
    def fn(name):
        c = [f for f in P.by_q(I + name) if f.body is not None]
        if not c:
            raise qa.Broken("instantiation unit lacks " + name)
        return c[0]
    loc = [f for f in P.by_q("queso::TriangleMeshView::NumOfTriangles")]
    if not loc:
        raise qa.Broken("anchor vanished: TriangleMeshView")
    for kind in ("own", "foreign"):
        for name, ids, nrm in (("ForeignRange", (0, 1, 2), 1), ("ForeignVisit", (0, 1, 2), 1), ("ForeignVisitPlain", (0, 1, 2), 0), ("ForeignSome", (2, 0), 1), ("ForeignSome", (), 1), ("ForeignUntil", (0, 1), 1), ("ForeignUntil", (0,), 1)):
            alg.reset()
            M = vn.VN(P); S = vn.State()
            # unit right triangles at symbolic positions, so that the computed normals are constants
            o = [vec("o%d_" % i) for i in range(3)]
            p = []
            for i in range(3):
                leg = lambda ax: [o[i][x] + rf(2 + i if x == ax else 0) for x in range(3)]
                p += [o[i], leg((i + 1) % 3), leg((i + 2) % 3)]
            T = [(0, 1, 2), (5, 3, 4), (7, 8, 6)]
            N = [[rf(1 if x == i else 0) for x in range(3)] for i in range(3)]
            if kind == "own":
                N = [vec("n%d_" % i) for i in range(3)]
                v = view(M, S, P, mesh(M, S, P, "m", p, T, N), "v")
            else:
                fr = [r for r in P.records.values() if r.q == I + "ForeignMesh"][0]
                ft = fr.fields[0].t
                fm = obj(M, S, P, I + "ForeignMesh", "fm", L(Agg({"corners": L(Agg({i: L(Agg({k: arr(p[c]) for k, c in enumerate(t)}, None, None)) for i, t in enumerate(T)}, None, ft))}, None, vn._Ty(s=fr.name, rec=fr.name))))
                v = M.temp(S, M.call(fn("ForeignView"), [fm], None, S), None)
            f = fn(name)
            a = [v]
            if name == "ForeignSome":
                a.append(mem(M, S, "ids", L(Agg({i: L(rf(x)) for i, x in enumerate(ids)}, None, f.params[1].t.noref)), f.params[1].t.noref))
            if name == "ForeignUntil":
                a.append(L(rf(len(ids))))
            r = M.call(f, a, None, S)
            inst = "%s mesh, %s %s" % (kind, name[7:], list(ids))
            R.count("obligations")
            if r.c is not None or not isinstance(r.leaf, Agg) or r.leaf.base is not None or len(r.leaf.f) != len(ids):
                R.violation(loc[0].loc, "visiting triangles yields exactly the triangles asked for", inst, "got %s" % str(r)[:200]); continue
            for i, t in enumerate(ids):
                el = r.leaf.f[i]
                want = dict(zip(("P1", "P2", "P3"), (p[x] for x in T[t])))
                if nrm:
                    want["Normal"] = N[t]
                for k, w in want.items():
                    x = M.field_of(el, k, None)
                    x = M.load(S, x) if x.c is None and isinstance(x.leaf, Ref) else x
                    for j in range(3):
                        compare(R, loc[0], "visited triangles have their own corners and normals", "%s: %d %s[%d]" % (inst, i, k, j), M.field_of(x, j, vn.TD), L(w[j]))
