"""C19: the global/parametric cell maps are the affine maps of one box onto the other and inverse to each other.
Rule: by value numbering, for boxes given as lower corner + positive size, (1) a point's image equals the axis-wise
affine formula, (2) mapping there and back is the identity normal form in both directions, (3) the box corners map to
the box corners, (4) volume weights scale by the product of the size ratios and back to the identity, (5) boundary
normals and weights transform by the cofactor (Piola) rule: normal_i * s_j * s_k normalised, weight times that length,
(6) the element classes' global integration points and cached determinant equal the same maps."""
import qa, alg, vn, c26
from vnlib import *

EB = "queso::ElementBounds"


def setup(M, S):
    G, GS, Pm, PS = vec("glo"), vec("gsize", pos=True), vec("plo"), vec("psize", pos=True)
    box = lambda l, s: L(Agg({"lower": arr(l), "upper": arr([a + b for a, b in zip(l, s)])}, None, None))
    B = mem(M, S, "bounds", L(Agg({"global": box(G, GS), "parametric": box(Pm, PS)}, None, None)), vn._Ty(s=EB, rec=None))
    return G, GS, Pm, PS, B


def run(R, tier):
    P = load(R)
    tp = pick(P, "queso::mapping::ToParametric", 2, lambda f: "Point" not in (f.params[0].t.base.rec or "").split("::")[-1] or False)
    tg = None
    for dirn, q in (("to parametric", "queso::mapping::ToParametric"), ("to global", "queso::mapping::ToGlobal")):
        fs = P.need(q, 3)
        pts = [f for f in fs if not (f.params[0].t.base.rec or "").endswith("IntegrationPoint")]
        vol = [f for f in fs if (f.params[0].t.base.rec or "").endswith("::IntegrationPoint")]
        bnd = [f for f in fs if (f.params[0].t.base.rec or "").endswith("::BoundaryIntegrationPoint")]
        if not (pts and vol and bnd):
            raise qa.Broken("mapping overloads changed: %s" % [f.key for f in fs])
        if q.endswith("Parametric"):
            TP = pts[0], vol[0], bnd[0]
        else:
            TG = pts[0], vol[0], bnd[0]

    for name, (fpt, fvol, fbnd), inv, src in (("to parametric", TP, TG, 0), ("to global", TG, TP, 1)):
        alg.reset()
        M = vn.VN(P); S = vn.State()
        G, GS, Pm, PS, B = setup(M, S)
        a0, s0, a1, s1 = (G, GS, Pm, PS) if src == 0 else (Pm, PS, G, GS)
        p = vec("p")
        want = [(x - l) * (t / s) + m for x, l, s, m, t in zip(p, a0, s0, a1, s1)]
        S1 = S.copy()
        v = M.call(fpt, [mem(M, S1, "p", arr(p)), B], None, S1)
        comps(R, M, fpt, "point map is affine", name, v, want)
        S2 = S1.copy()
        back = M.call(inv[0], [mem(M, S2, "q", v), B], None, S2)
        comps(R, M, inv[0], "mapping there and back is the identity", name + " and back", back, p)
        for cn, k in (("lower", 0), ("upper", 1)):
            S3 = S.copy()
            c = M.call(fpt, [mem(M, S3, "p", arr([l + s * rf(k) for l, s in zip(a0, s0)])), B], None, S3)
            comps(R, M, fpt, "box corners map to box corners", name + " " + cn, c, [l + s * rf(k) for l, s in zip(a1, s1)])
        ratio = [t / s for s, t in zip(s0, s1)]
        det = ratio[0] * ratio[1] * ratio[2]
        w = atomrf(("in", "w"))
        # volume points, built by their own constructor
        S4 = S.copy()
        ip = ipoint(M, S4, P, "queso::IntegrationPoint", [arr(p), L(w)])
        v = M.call(fvol, [ip, B], None, S4)
        comps(R, M, fvol, "integration point is mapped by the point map", name, get(P, M, S4, v, "Point"), want)
        compare(R, fvol, "volume weight scales with the determinant", name, get(P, M, S4, v, "Weight"), L(w * det))
        S5 = S4.copy()
        back = M.call(inv[1], [mem(M, S5, "q2", v, vol_t(P, "queso::IntegrationPoint")), B], None, S5)
        compare(R, inv[1], "mapping there and back is the identity", "weight " + name + " and back", get(P, M, S5, back, "Weight"), L(w))
        # boundary points
        n = vec("n")
        S6 = S.copy()
        bp = ipoint(M, S6, P, "queso::BoundaryIntegrationPoint", [arr(p), L(w), arr(n)])
        v = M.call(fbnd, [bp, B], None, S6)
        comps(R, M, fbnd, "boundary point is mapped by the point map", name, get(P, M, S6, v, "Point"), want)
        cof = [n[0] * ratio[1] * ratio[2], n[1] * ratio[0] * ratio[2], n[2] * ratio[0] * ratio[1]]
        nrm = alg.sqrt(cof[0] * cof[0] + cof[1] * cof[1] + cof[2] * cof[2])
        compare(R, fbnd, "boundary weight scales with the cofactor length", name, get(P, M, S6, v, "Weight"), L(w * nrm))
        tol = const_of(P, "ZEROTOL")
        g = alg.gt(L(nrm), L(tol))
        nv = get(P, M, S6, v, "Normal")
        for i in range(3):
            compare(R, fbnd, "boundary normal is the normalised cofactor image", "%s [%d]" % (name, i), M.field_of(nv, i, vn.TD), ite(g, L(cof[i] / nrm), L(rf(0))))
    alg.reset()
    M = vn.VN(P); S = vn.State()
    G, GS, Pm, PS, B = setup(M, S)
    f = pick(P, "queso::mapping::DetJ", 1)
    detj = GS[0] / PS[0] * (GS[1] / PS[1]) * (GS[2] / PS[2])
    compare(R, f, "determinant is the ratio of the cell volumes", "DetJ", M.call(f, [B], None, S.copy()), L(detj))
    elements(R, P, tier)
    R.expect("obligations", 55)


def vol_t(P, q):
    rec = [r for r in P.records.values() if r.q == q]
    return vn._Ty(s=q, rec=rec[0].name)


def ipoint(M, S, P, q, args):
    ctor = [f for f in P.by_q(q + "::" + q.split("::")[-1]) if f.decl.ctor and len(f.params) == len(args)]
    if not ctor:
        raise qa.Broken("anchor vanished: constructor of " + q)
    r = mem(M, S, "ip" + q, L(Agg({}, None, None)), vol_t(P, q))
    M.call(ctor[0], [mem(M, S, "a%d%s" % (i, q), a) if ctor[0].params[i].t.ref else a for i, a in enumerate(args)], r, S)
    return r


def get(P, M, S, v, acc):
    """value of an accessor on an integration point value"""
    for q in ("queso::IntegrationPoint", "queso::BoundaryIntegrationPoint"):
        pass
    if v.c is None and isinstance(v.leaf, Ref):
        r = v
        q = M.rtype.get(v.leaf.root).s
    else:
        ag = [x for x in alg.leaves(v) if isinstance(x, Agg)]
        q = "queso::BoundaryIntegrationPoint" if any("ormal" in str(k) for x in ag for k in x.f) else "queso::IntegrationPoint"
        M.n += 1
        r = mem(M, S, "acc%d" % M.n, v, vol_t(P, q))
    f = pick(P, q + "::" + acc, 0)
    x = M.call(f, [], r, S)
    if x.c is None and isinstance(x.leaf, Ref):
        x = M.load(S, x)
    return x


def comps(R, M, fn, rule, inst, v, want):
    for i in range(3):
        compare(R, fn, rule, "%s [%d]" % (inst, i), M.field_of(v, i, vn.TD), L(want[i]))


def elements(R, P, tier):
    """the elements and their views offer the same maps: determinant, cell bounds, parametric and global points"""
    seen = 0
    for kind in ("UntrimmedElement", "TrimmedElement"):
        ctor = [f for f in P.funcs.values() if f.decl.ctor and f.decl.n == kind and f.params and f.params[0].t.int]
        if not ctor:
            raise qa.Broken("anchor vanished: constructor of " + kind)
        ctor = ctor[0]; rec = ctor.decl.rec
        for count in (2, 0) if tier == "quick" else (2, 0, 3):
            alg.reset()
            M = vn.VN(P); S = vn.State()
            G, GS, Pm, PS, B = setup(M, S)
            root = ("loc", "in", "el"); M.rtype[root] = vn._Ty(s=rec, rec=rec); S.st[root] = L(Agg({}, None, None))
            obj = L(Ref(root, (), M.rtype[root]))
            a = [L(rf(1)), B]
            for x in ctor.params[2:]:
                a.append(mem(M, S, "x" + x.n, L(Opq(("in", "x"), x.t.p)), x.t.p) if x.t.ref else L(Agg({}, None, x.t)))
            M.call(ctor, a, obj, S)
            mut = [f for f in methods(P, rec, "GetIntegrationPoints") if not f.decl.cm and not f.params]
            if not mut:
                raise qa.Broken("anchor vanished: ElementBase::GetIntegrationPoints")
            pts = [(vec("p%d_" % j), atomrf(("in", "w%d" % j))) for j in range(count)]
            items = {j: M.load(S, ipoint2(M, S, P, j, p, w)) for j, (p, w) in enumerate(pts)}
            M.store(S, M.call(mut[0], [], obj, S), L(Agg(items, None, None)))
            vw = [f for f in methods(P, rec, "View") if not f.params]
            if not vw:
                raise qa.Broken("anchor vanished: ElementBase::View")
            v = M.call(vw[0], [], obj, S)
            vrec = [r.name for r in P.records.values() if r.q.startswith("queso::ElementView") and any(f.decl.rec == r.name and f.body is not None for f in P.funcs.values())]
            if not vrec:
                raise qa.Broken("anchor vanished: ElementView")
            view = mem(M, S, "view", v, vn._Ty(s=vrec[0], rec=vrec[0]))
            detj = GS[0] / PS[0] * (GS[1] / PS[1]) * (GS[2] / PS[2])
            maps = {"global": [[(x - l) * (t / s) + m for x, l, s, m, t in zip(p, Pm, PS, G, GS)] + [w * detj] for p, w in pts], "parametric": [p + [w] for p, w in pts]}
            for who, o, r in ((kind, obj, rec), ("view of " + kind, view, vrec[0])):
                dj = methods(P, r, "DetJ")
                gp = [f for f in methods(P, r, "GetIntegrationPoints") if f.decl.cm or "View" in who]
                if not dj or not gp:
                    raise qa.Broken("anchor vanished: accessors of " + who)
                for f in dj:
                    compare(R, f, "determinant is the ratio of the cell volumes", who, M.call(f, [], o, S.copy()), L(detj))
                for f in methods(P, r, "GetCellBounds"):
                    sp = space(P, f)
                    b = M.call(f, [], o, S.copy())
                    b = M.load(S, b) if b.c is None and isinstance(b.leaf, Ref) else b
                    for fld, off in (("lower", 0), ("upper", 1)):
                        l, s = (G, GS) if sp == "global" else (Pm, PS)
                        cv = M.field_of(b, fld, vn.TD)
                        for k in range(3):
                            compare(R, f, "cell bounds are those of the element", "%s, %s %s[%d]" % (who, sp, fld, k), M.field_of(cv, k, vn.TD), L(l[k] + s[k] * rf(off)))
                for f in gp:
                    sp = space(P, f)
                    S2 = S.copy()
                    got = plist(M, P, S2, M.call(f, [], o, S2))
                    want = maps[sp]
                    R.count("element accessors")
                    inst = "%s, %s, %d points" % (who, sp, count)
                    if got is None or len(got) != len(want):
                        R.violation(f.loc, "integration points are those of the element, mapped", inst, "%s, expected %d points" % ("not a list of points" if got is None else "%d points" % len(got), len(want)))
                        continue
                    for j, (g, w) in enumerate(zip(got, want)):
                        for k in range(4):
                            compare(R, f, "integration points are those of the element, mapped", "%s, point %d, %s" % (inst, j, ("x", "y", "z", "weight")[k]), g[k], L(w[k]))
                seen += 1
    R.expect("element accessors", 6)


def methods(P, rec, name):
    recs = {rec} | {b.rec for b in c26.bases(P, rec)}
    return [f for f in P.funcs.values() if f.decl.rec in recs and f.decl.n == name and f.body is not None]


def space(P, f):
    """coordinate space a member is instantiated for"""
    e = [x["e"] for q, x in P.enums.items() if q.endswith("::CoordinateSpace")]
    if not e:
        raise qa.Broken("anchor vanished: CoordinateSpace")
    for x in e[0]:
        if "CoordinateSpace::%s>" % x["n"] in f.key or "CoordinateSpace)%s>" % x["v"] in f.key:
            return x["n"]
    raise qa.Broken("coordinate space of %s not recognised" % f.key)


def ipoint2(M, S, P, tag, p, w):
    ctor = [f for f in P.by_q("queso::IntegrationPoint::IntegrationPoint") if f.decl.ctor and len(f.params) == 2]
    if not ctor:
        raise qa.Broken("anchor vanished: constructor of IntegrationPoint")
    r = mem(M, S, "ip%s" % tag, L(Agg({}, None, None)), vol_t(P, "queso::IntegrationPoint"))
    M.call(ctor[0], [mem(M, S, "pp%s" % tag, arr(p), ctor[0].params[0].t.noref), L(w)], r, S)
    return r


def plist(M, P, S, v):
    """[[x, y, z, weight]] of a folded container or range of integration points"""
    if v.c is not None:
        return None
    if isinstance(v.leaf, alg.Rng):
        n = M.rngsize(S, v.leaf)
        if n is None:
            return None
        xs = []
        for j in range(n):
            x = M.rngelem(S, v.leaf, L(rf(j)))
            if x is None:
                return None
            xs.append(M.load(S, x[1]) if x[1].c is None and isinstance(x[1].leaf, Ref) else x[1])
    else:
        v = M.load(S, v) if isinstance(v.leaf, Ref) else v
        if v.c is not None or not isinstance(v.leaf, Agg) or v.leaf.base is not None:
            return None
        xs = [v.leaf.f[k] for k in sorted(k for k in v.leaf.f if isinstance(k, int))]
    out = []
    for j, x in enumerate(xs):
        S2 = S.copy()
        o = mem(M, S2, "pl%d" % j, x, vol_t(P, "queso::IntegrationPoint"))
        p = M.call(pick(P, "queso::IntegrationPoint::Point", 0), [], o, S2)
        p = M.load(S2, p) if p.c is None and isinstance(p.leaf, Ref) else p
        out.append([M.field_of(p, k, vn.TD) for k in range(3)] + [M.call(pick(P, "queso::IntegrationPoint::Weight", 0), [], o, S2)])
    return out
