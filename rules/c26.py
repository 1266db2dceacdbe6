"""C26: untrimmed cells carry the tensor product of the one-dimensional rules.
Rule: by value numbering over symbolic cell boxes, (1) the points assembled for one cell are, as a set, the images of all
triples of one-dimensional points under the affine map of the cell, each axis with the rule of its own order, weighted by
the product of the weights and lengths, and replace what was there; (2) for a box of cells the generalised rules put
every triple of points of the box into exactly one cell of the box, the one that contains it, at its place and with the
product of weights; (3) the builder of untrimmed cells hands over the order and method of the settings unless one of the
generalised rules is selected, in which case no points are assembled per cell."""
import itertools
from fractions import Fraction as Fr
import qa, alg, vn
import c07
import c15
from vnlib import *

Q1 = c15.Q


def element(P, M, S, name, par, glob, eid=1):
    """an untrimmed element built by its own constructor"""
    c = [f for f in P.funcs.values() if f.decl.ctor and f.decl.n == "UntrimmedElement" and len(f.params) in (2, 3) and f.params[0].t.int]
    if not c:
        raise qa.Broken("anchor vanished: constructor of UntrimmedElement")
    f = c[0]
    rec = f.decl.rec
    bt = f.params[1].t.p
    box = lambda b: L(Agg({"lower": arr(b[0]), "upper": arr(b[1])}, None, None))
    root = ("loc", "in", name)
    M.rtype[root] = vn._Ty(s=rec, rec=rec); S.st[root] = L(Agg({}, None, None))
    this = L(Ref(root, (), M.rtype[root]))
    b = mem(M, S, name + "b", L(Agg({"global": box(glob), "parametric": box(par)}, None, bt)), bt)
    a = [L(rf(eid)), b]
    if len(f.params) == 3:
        a.append(L(Agg({}, None, f.params[2].t)))
    M.call(f, a, this, S)
    return this


def accessor(P, rec, name, n=0, pred=None):
    c = [f for f in P.funcs.values() if f.decl.n == name and len(f.params) == n and f.body is not None and (pred is None or pred(f)) and
         (f.decl.rec == rec or any(f.decl.rec == b.rec for b in bases(P, rec)))]
    if not c:
        raise qa.Broken("anchor vanished: %s of %s" % (name, rec))
    return c[0]


def bases(P, rec):
    R = P.records.get(rec)
    out = []
    for b in (R.bases if R else ()):
        out.append(b)
        out += bases(P, b.rec)
    return out


def points(P, M, S, v):
    """[(x, y, z, weight)] of a folded container of integration points"""
    if v.c is not None or not isinstance(v.leaf, Agg) or v.leaf.base is not None:
        return None
    g = pick(P, "queso::IntegrationPoint::Point", 0); gw = pick(P, "queso::IntegrationPoint::Weight", 0)
    rec = [r for r in P.records.values() if r.q == "queso::IntegrationPoint"][0]
    out = []
    for i in sorted(v.leaf.f):
        S2 = S.copy()
        o = mem(M, S2, ("ip", i), v.leaf.f[i], vn._Ty(s=rec.q, rec=rec.name))
        p = M.call(g, [], o, S2)
        p = M.load(S2, p) if p.c is None and isinstance(p.leaf, Ref) else p
        out.append(tuple(M.field_of(p, k, vn.TD) for k in range(3)) + (M.call(gw, [], o, S2),))
    return out


def match(R, f, rule, inst, got, want, tol=None):
    """the two lists are the same set of points"""
    R.count("obligations", len(want))
    if got is None:
        R.violation(f.loc, rule, inst, "the assembled points do not fold to a list"); return
    left = {}
    for p in got:
        left.setdefault(tuple(alg.lkey(x.leaf) if x.c is None else x.id for x in p), []).append(p)
    missing = []
    for w in want:
        k = tuple(alg.lkey(x) for x in w)
        if left.get(k):
            left[k].pop()
        else:
            missing.append(w)
    extra = [p for l in left.values() for p in l]
    if missing or extra:
        R.violation(f.loc, rule, inst, "%d of %d points differ; expected %s, assembled %s" % (max(len(missing), len(extra)), len(want),
                    str(missing[0])[:250] if missing else "none", str(extra[0])[:250] if extra else "none"))


def run(R, tier):
    P = load(R, [c15.X + f for f in ("gauss_legendre_integration_points.cpp", "integration_points_factory_1d.cpp", "precomputed_ggq_rules_optimal.cpp",
                                     "precomputed_ggq_rules_reduced1.cpp", "precomputed_ggq_rules_reduced2.cpp")], tables=True)
    E = c15.methods(P)
    single(R, P, E, tier)
    boxes(R, P, E, tier)
    growth(R, P, tier)
    grids(R, P, E, tier)
    builder(R, P, E)
    R.expect("obligations", 500); R.expect("cells of grids", 12); R.expect("single cells", 12)


def gauss(P, E, p, name):
    M = vn.VN(P); S = vn.State()
    return c15.rule(M, S, M.call(pick(P, Q1 + "GetGauss", 2), [L(rf(p)), L(rf(E[name]))], None, S))


def single(R, P, E, tier):
    fs = [f for f in P.funcs.values() if f.decl.n == "AssembleIPs" and "QuadratureSingleElement" in f.q]
    vecf = [f for f in fs if len(f.params) == 5]; elf = [f for f in fs if len(f.params) == 3 and "UntrimmedElement" in f.q]
    if not vecf or not elf:
        raise qa.Broken("anchor vanished: QuadratureSingleElement::AssembleIPs")
    orders = [(1, 2, 3), (3, 1, 2), (2, 3, 1), (1, 1, 1), (2, 2, 2), (3, 3, 3), (1, 1, 4), (4, 1, 1), (1, 4, 1), (2, 1, 6), (7, 1, 2), (1, 8, 1), (3, 4, 2)] + ([(o, 1, 2) for o in range(1, 9)] + [(2, o, 1) for o in range(1, 9)] + [(1, 2, o) for o in range(1, 9)] + [(4, 4, 4), (5, 4, 3), (3, 5, 5)] if tier != "quick" else [])
    for f in vecf + elf:
        for name in ("gauss", "gauss_reduced_1", "gauss_reduced_2"):
            for o in orders:
                if name == "gauss_reduced_2":
                    o = tuple(x + 1 for x in o)
                alg.reset()
                rules = [gauss(P, E, p, name) for p in o]
                if any(isinstance(r, str) for r in rules):
                    continue  # C15 reports it
                M = vn.VN(P); S = vn.State()
                lo = vec("lo"); d = vec("len", pos=True); hi = [a + b for a, b in zip(lo, d)]
                ov = mem(M, S, "order", arr([rf(x) for x in o]))
                junk = L(Agg({0: L(Agg({"mWeight": L(rf(7))}, None, None))}, None, None))
                if len(f.params) == 5:
                    out = mem(M, S, "out", junk, f.params[0].t.p)
                    M.call(f, [out, mem(M, S, "lo", arr(lo)), mem(M, S, "hi", arr(hi)), ov, L(rf(E[name]))], None, S)
                    v = M.load(S, out)
                else:
                    gl = [vec("glo"), vec("ghi")]
                    el = element(P, M, S, "element", (lo, hi), gl)
                    M.call(f, [el, ov, L(rf(E[name]))], None, S)
                    g = accessor(P, el.leaf.t.rec, "GetIntegrationPoints", 0, lambda x: not x.decl.cm)
                    v = M.load(S, M.call(g, [], el, S))
                want = []
                for a in rules[0]:
                    for b in rules[1]:
                        for c in rules[2]:
                            pt = [lo[k] + d[k] * rf(q[0]) for k, q in enumerate((a, b, c))]
                            want.append(tuple(pt) + (d[0] * d[1] * d[2] * rf(a[1] * b[1] * c[1]),))
                match(R, f, "points of a cell are the tensor product of the rules", "%s %s, orders %s" % (f.q, name, o), points(P, M, S, v), want)
                R.count("single cells")


def boxes(R, P, E, tier):
    fs = [f for f in P.funcs.values() if f.decl.n == "AssembleGGQRulesOnBox"]
    if not fs:
        R.notes.append("no separate assembly on boxes: covered by the assembly of whole grids only"); return
    f = fs[0]
    eps = Fr(1, 10**9)
    cases = [((2, 1, 3), (2, 3, 2), "ggq_optimal"), ((1, 4, 2), (3, 2, 4), "ggq_reduced_2"), ((3, 2, 1), (2, 2, 3), "ggq_reduced_1")]
    if tier != "quick":
        cases += [((2, 2, 2), (4, 4, 4), "ggq_optimal"), ((5, 1, 1), (2, 2, 2), "ggq_reduced_2"), ((1, 1, 6), (3, 3, 2), "ggq_optimal")]
    for n, o, name in cases:
        alg.reset()
        rules = []
        for k in range(3):
            M = vn.VN(P); S = vn.State()
            rules.append(c15.rule(M, S, M.call(pick(P, Q1 + "GetGGQ", 3), [L(rf(o[k])), L(rf(n[k])), L(rf(E[name]))], None, S)))
        if any(isinstance(r, str) for r in rules):
            continue  # C15 reports it
        M = vn.VN(P); S = vn.State()
        lo = vec("lo"); g = vec("g", nn=True); h = [rf(Fr(1, 100)) + x for x in g]
        hi = [a + b * rf(m) for a, b, m in zip(lo, h, n)]
        els = []
        cells = list(itertools.product(*[range(m) for m in n]))
        for c in cells:
            l = [a + b * rf(i) for a, b, i in zip(lo, h, c)]; u = [a + b * rf(i + 1) for a, b, i in zip(lo, h, c)]
            els.append(element(P, M, S, "el%d%d%d" % c, (l, u), (vec("gl"), vec("gh"))))
        ev = mem(M, S, "els", L(Agg({i: e for i, e in enumerate(els)}, None, f.params[0].t.p)), f.params[0].t.p)
        bb = mem(M, S, "bounds", L(Agg({"lower": arr(lo), "upper": arr(hi)}, None, f.params[2].t.p)), f.params[2].t.p)
        M.call(f, [ev, mem(M, S, "n", arr([rf(x) for x in n])), bb, mem(M, S, "o", arr([rf(x) for x in o])), L(rf(E[name]))], None, S)
        acc = accessor(P, els[0].leaf.t.rec, "GetIntegrationPoints", 0, lambda x: not x.decl.cm)
        for c, e in zip(cells, els):
            R.count("cells of boxes")
            per = [[(x, w) for x, w in rules[k] if c[k] <= x * n[k] + eps and x * n[k] + eps < c[k] + 1] for k in range(3)]
            got = points(P, M, S, M.load(S, M.call(acc, [], e, S)))
            inst = "%s, box %s, orders %s, cell %s" % (name, n, o, c)
            cnt = len(per[0]) * len(per[1]) * len(per[2])
            R.count("obligations", max(1, cnt))
            if got is None or len(got) != cnt:
                R.violation(f.loc, "each point of the box rule lies in exactly one cell", inst, "%s points in the cell, expected %d" % (None if got is None else len(got), cnt)); continue
            want = []
            for a, b, d in itertools.product(*per):
                want.append((tuple(lo[k] + h[k] * rf(q[0] * n[k]) for k, q in enumerate((a, b, d))), h[0] * h[1] * h[2] * rf(a[1] * b[1] * d[1] * n[0] * n[1] * n[2])))
            bad = None
            for p in got:
                hit = None
                for i, (x, w) in enumerate(want):
                    if all(close(p[k], x[k], eps) for k in range(3)) and p[3].c is None and isinstance(p[3].leaf, RF) and p[3].leaf.fp == w.fp:
                        hit = i; break
                if hit is None:
                    bad = p; break
                want.pop(hit)
            if bad is not None:
                R.violation(f.loc, "points of a box of cells are the tensor product of the generalised rules", inst, "assembled %s; expected e.g. %s" % (str(bad)[:250], str(want[0])[:250]))


def close(v, w, eps):
    """equal, or moved into the cell by less than eps"""
    if v.c is not None or not isinstance(v.leaf, RF):
        return False
    c = (v.leaf - w).const
    return c is not None and abs(c) <= eps


def scene(P, N, present, coeff=None, root=("loc", "in", "cells")):
    """a background grid with the given untrimmed cells"""
    M, S, gi, lo, d, ul, ud = c07.make(P, [rf(x) for x in N])
    cells = [(i, j, k) for k in range(N[2]) for j in range(N[1]) for i in range(N[0])]
    base = vec("lo"); g = vec("g", nn=True); h = [rf(Fr(1, 100)) + x for x in g]
    bgr = [r for r in P.records.values() if r.q == "queso::BackgroundGrid"]
    if not bgr:
        raise qa.Broken("anchor vanished: BackgroundGrid")
    rec = bgr[0]
    fld = {("grid" if "GridIndexer" in x.t.s else "cells" if x.t.tmpl == "std::vector" and "UntrimmedElement" in x.t.s else None): x for x in rec.fields if x.t is not None}
    if "grid" not in fld or "cells" not in fld:
        raise qa.Broken("anchor vanished: members of BackgroundGrid")
    broot = ("loc", "in", "bg")
    M.rtype[broot] = vn._Ty(s=rec.name, rec=rec.name)
    ct = fld["cells"].t; et = ct.args[0]
    objs = {}
    for n in present:
        c = cells[n]
        l = [b + x * rf(i) for b, x, i in zip(base, h, c)]; u = [b + x * rf(i + 1) for b, x, i in zip(base, h, c)]
        objs[n] = M.load(S, element(P, M, S, "el%d" % n, (l, u), (vec("gl"), vec("gh")), n + 1))
    S.st[broot] = L(Agg({fld["grid"].n: M.load(S, gi), fld["cells"].n: L(Agg({i: objs[n] for i, n in enumerate(present)}, None, ct))}, None, None))
    bg = L(Ref(broot, (), M.rtype[broot]))
    els = {n: L(Ref(broot, (fld["cells"].n, i), et)) for i, n in enumerate(present)}

    def same(a, b):
        return a.c is None and isinstance(a.leaf, Ref) and (a.leaf.root, a.leaf.path) == (b.leaf.root, b.leaf.path)

    def get(M, S, fr, n):
        i = M.rv(S, fr, n.args[0])
        if i.c is not None or not isinstance(i.leaf, RF) or i.leaf.const is None:
            return None
        return els.get(int(i.leaf.const) - 1, L(Ref(("null",))))

    def who(M, S, fr, n):
        o = M.objof(S, fr, n)
        w = [k for k, e in els.items() if same(o, e)]
        return w[0] if w else None

    def setv(M, S, fr, n):
        w = who(M, S, fr, n)
        if w is None:
            return None
        S.st[("dv", w, key_of(n.args[0]))] = M.rv(S, fr, n.args[1])
        return L(None)

    def getv(M, S, fr, n):
        w = who(M, S, fr, n)
        return None if w is None else L(Ref(("dv", w, key_of(n.args[0])), (), None))
    for g in P.funcs.values():
        if g.decl.n == "pGetElement" and "BackgroundGrid" in g.q:
            M.hooks[g.q] = get
    for tu in P.tus:
        for dd in tu.decls:
            if dd.k == "fn" and dd.rtmpl == "queso::UntrimmedElement" and dd.n in ("SetValue", "GetValue"):
                M.hooks[dd.q] = setv if dd.n == "SetValue" else getv
    for n in present:
        S.st[("dv", n, "is_visited")] = L(False)
        S.st[("dv", n, "neighbor_coefficient")] = L(rf(1 if coeff is None else coeff(n, len(cells))))
    return M, S, bg, els, same, cells, base, h





def growth(R, P, tier):
    """boxes of cells grow by whole layers of adjacent, not yet visited cells"""
    f = [g for g in P.funcs.values() if g.decl.n == "TryToExpandCurrentBox" and g.body is not None and len(g.params) == 4]
    if not f:
        R.notes.append("no separate growth routine: covered by the assembly of whole grids only"); return
    f = f[0]
    pats = [((2, 2, 1), (0, 1, 2), (1,)), ((2, 2, 1), (0, 1, 2, 3), (3,)), ((2, 1, 2), (0, 1, 2), (1,)), ((3, 2, 1), (0, 1, 2, 3, 4), (2,)),
            ((3, 3, 1), (0, 1, 2, 3, 5, 6, 7, 8), (5,)), ((2, 2, 2), (0, 1, 2, 3, 4, 6), (0,)), ((1, 3, 2), (0, 1, 2, 3), (2,)), ((2, 2, 3), (0, 1, 4, 5, 8), (4,)), ((2, 2, 2), (0, 1, 2, 3, 4, 5, 6), (0, 3)), ((2, 3, 2), (0, 1, 2, 3, 4, 5, 6, 7, 8, 11), (0,))]
    for N, present, seeds in pats:
        for seed in seeds:
            for rot in range(6 if tier != "quick" else 3):
                grow(R, P, f, N, present, seed, rot)


def grow(R, P, f, N, present, seed, rot):
    alg.reset()
    M, S, bg, els, same, cells, base, h = scene(P, N, present, lambda n, m: 1 + (n * 7 + rot * 5) % (m + 1))
    S.st[("dv", seed, "is_visited")] = L(True)
    box = mem(M, S, "box", L(Agg({0: els[seed]}, None, f.params[1].t.p)), f.params[1].t.p)
    size = mem(M, S, "size", arr([rf(1)] * 3))
    c = cells[seed]
    bounds = lambda ext: L(Agg({"lower": arr([x + y * rf(p) for x, y, (p, q) in zip(base, h, ext)]), "upper": arr([x + y * rf(q + 1) for x, y, (p, q) in zip(base, h, ext)])}, None, f.params[3].t.p))
    b = mem(M, S, "bb", bounds([(i, i) for i in c]), f.params[3].t.p)
    have = {seed}
    inst = "grid %s, cells %s, start %d, coefficients %d" % (N, present, seed, rot)
    for it in range(len(present) + 1):
        M.steps = 0; M.budget = 40000
        try:
            r = M.call(f, [bg, box, size, b], None, S)
        except vn.Budget:
            R.violation(f.loc, "a growth step finishes", inst, "more than %d statements" % M.budget); return
        M.budget = None
        R.count("growth steps"); R.count("obligations")
        if r.c is not None or not isinstance(r.leaf, bool):
            R.violation(f.loc, "a box grows by a whole layer of adjacent cells", inst, "whether the box grows does not fold: %s" % str(r)[:200]); return
        v = M.load(S, box)
        refs = [v.leaf.f[i] for i in sorted(v.leaf.f)] if v.c is None and isinstance(v.leaf, Agg) and v.leaf.base is None else None
        ids = [next((k for k, e in els.items() if same(x, e)), None) for x in refs or ()]
        if refs is None or None in ids:
            R.violation(f.loc, "a box grows by a whole layer of adjacent cells", inst, "the cells of the box do not fold"); return
        if len(set(ids)) != len(ids):
            R.violation(f.loc, "no cell enters a box twice", inst, "cells %s" % ids); return
        new = set(ids) - have
        cs = [cells[i] for i in ids]
        ext = [(min(x[k] for x in cs), max(x[k] for x in cs)) for k in range(3)]
        dims = [q - p + 1 for p, q in ext]
        if dims[0] * dims[1] * dims[2] != len(ids):
            R.violation(f.loc, "a box grows by a whole layer of adjacent cells", inst, "the cells %s do not form a box" % sorted(cs)); return
        if r.leaf is False and new or r.leaf is True and not new:
            R.violation(f.loc, "growth is reported when the box grew", inst, "reported %s, added %s" % (r.leaf, sorted(new))); return
        compare(R, f, "the sizes of the box count its cells", inst, M.load(S, size), arr([rf(x) for x in dims]))
        compare(R, f, "the bounds of the box enclose its cells", inst, M.load(S, b), bounds(ext))
        for k in new:
            w = S.st[("dv", k, "is_visited")]
            if w.c is not None or w.leaf is not True:
                R.violation(f.loc, "cells of a box are marked as taken", inst, "cell %d is not marked" % k); return
        have |= new
        if r.leaf is False:
            break


def grids(R, P, E, tier):
    """whole grids: the boxes partition the untrimmed cells and each cell carries the points of its box"""
    fs = [f for f in P.funcs.values() if f.decl.n == "AssembleIPs" and "QuadratureMultipleElements" in f.q and len(f.params) == 3]
    if not fs:
        raise qa.Broken("anchor vanished: QuadratureMultipleElements::AssembleIPs")
    f = fs[0]
    cases = [((2, 2, 1), (0, 1, 2), (2, 2, 2), "ggq_optimal"), ((2, 1, 2), (0, 1, 3), (2, 3, 2), "ggq_reduced_2"), ((3, 2, 1), (0, 1, 2, 4), (2, 2, 3), "ggq_reduced_1"),
             ((1, 2, 2), (1, 2, 3), (2, 2, 2), "ggq_optimal")]
    if tier != "quick":
        cases += [((2, 2, 2), (0, 1, 2, 3, 4, 6), (2, 2, 2), "ggq_optimal"), ((3, 3, 1), (0, 1, 2, 3, 5, 6, 7, 8), (2, 2, 2), "ggq_reduced_2"), ((3, 2, 2), (0, 1, 2, 3, 4, 5, 6, 7, 9), (2, 2, 2), "ggq_reduced_2")]
    eps = Fr(1, 10**9)
    for N, present, o, name in cases:
        alg.reset()
        rules = {}
        ok = True
        for k in range(3):
            for m in range(1, N[k] + 1):
                M0 = vn.VN(P); S0 = vn.State()
                rules[k, m] = c15.rule(M0, S0, M0.call(pick(P, Q1 + "GetGGQ", 3), [L(rf(o[k])), L(rf(m)), L(rf(E[name]))], None, S0))
                ok = ok and not isinstance(rules[k, m], str)
        if not ok:
            continue  # C15 reports it
        M, S, bg, els, same, cells, base, h = scene(P, N, present)
        M.steps = 0; M.budget = 150000
        try:
            M.call(f, [bg, mem(M, S, "o", arr([rf(x) for x in o])), L(rf(E[name]))], None, S)
        except vn.Budget:
            R.violation(f.loc, "the assembly finishes", "%s, grid %s, cells %s, orders %s" % (name, N, present, o), "more than %d statements for %d cells" % (M.budget, len(present))); return
        M.budget = None
        acc = accessor(P, els[present[0]].leaf.t.rec, "GetIntegrationPoints", 0, lambda x: not x.decl.cm)
        inst = "%s, grid %s, cells %s, orders %s" % (name, N, present, o)
        fits = {}
        for n in present:
            R.count("cells of grids"); R.count("obligations")
            got = points(P, M, S, M.load(S, M.call(acc, [], els[n], S)))
            if got is None:
                R.violation(f.loc, "each cell carries the points of one box", inst, "the points of cell %d do not fold" % n); return
            fits[n] = [b for b in cuboids(cells, present) if n in b[0] and carries(got, cells[n], b, rules, base, h, eps)]
            if not fits[n]:
                R.violation(f.loc, "each cell carries the points of one box", inst, "the %d points of cell %d belong to no box of untrimmed cells containing it" % (len(got), n))
        if all(fits.values()) and not partition(set(present), fits):
            R.violation(f.loc, "the boxes partition the untrimmed cells", inst, "the cells carry points of %s" % {n: [sorted(b[0]) for b in fits[n]] for n in fits})


def cuboids(cells, present):
    """all boxes of present cells"""
    at = {cells[n]: n for n in present}
    r = [range(max(c[k] for c in cells) + 1) for k in range(3)]
    out = []
    for lo in itertools.product(*r):
        for hi in itertools.product(*[range(a, x.stop) for a, x in zip(lo, r)]):
            b = [c for c in itertools.product(*[range(p, q + 1) for p, q in zip(lo, hi)])]
            if all(c in at for c in b):
                out.append((frozenset(at[c] for c in b), lo, hi))
    return out


def carries(got, c, box, rules, base, h, eps):
    """the points are those of the rule of the box that lie in the cell"""
    _, lo, hi = box
    n = [q - p + 1 for p, q in zip(lo, hi)]
    rel = [c[k] - lo[k] for k in range(3)]
    per = [[(x, w) for x, w in rules[k, n[k]] if rel[k] <= x * n[k] + eps and x * n[k] + eps < rel[k] + 1] for k in range(3)]
    if len(got) != len(per[0]) * len(per[1]) * len(per[2]):
        return False
    want = []
    for a, b, d in itertools.product(*per):
        want.append((tuple(base[k] + h[k] * rf(lo[k]) + h[k] * rf(q[0] * n[k]) for k, q in enumerate((a, b, d))), h[0] * h[1] * h[2] * rf(a[1] * b[1] * d[1] * n[0] * n[1] * n[2])))
    for p in got:
        i = next((i for i, (x, w) in enumerate(want) if p[3].c is None and isinstance(p[3].leaf, RF) and p[3].leaf.fp == w.fp and all(close(p[k], x[k], eps) for k in range(3))), None)
        if i is None:
            return False
        want.pop(i)
    return True


def partition(left, fits):
    if not left:
        return True
    n = min(left)
    return any(b[0] <= left and all(b in fits[m] for m in b[0]) and partition(left - b[0], fits) for b in fits[n])


def builder(R, P, E):
    """the builder of untrimmed cells"""
    fs = [f for f in P.funcs.values() if f.decl.n == "Build" and "UntrimmedElementBuilder" in f.q and f.body is not None]
    if not fs:
        raise qa.Broken("anchor vanished: UntrimmedElementBuilder::Build")
    f = fs[0]
    ctor = [g for g in P.funcs.values() if g.decl.ctor and g.decl.rec == f.decl.rec and len(g.params) == 1 and not g.decl.raw.get("sp")]
    asm = [g.q for g in P.funcs.values() if g.decl.n == "AssembleIPs" and "QuadratureSingleElement" in g.q]
    for name, val in E.items():
        if name.startswith("_"):
            continue
        alg.reset()
        order = vec("order", isint=True)

        def value(k, t):
            if k == "polynomial_order":
                return arr(order)
            if k == "integration_method":
                return L(rf(val))
            return None
        seen = []

        def rec(M, S, fr, n):
            d = n.decl
            if len(n.args) < 2 or len(n.args) > 3:
                return None
            o = M.load(S, M.lv(S, fr, n.args[1])); m = M.rv(S, fr, n.args[2]) if len(n.args) > 2 else L(rf(E["gauss"]))
            el = M.lv(S, fr, n.args[0])
            seen.append((el, o, m, tuple(M.guards)))
            return L(None)
        h = hook_names(P, settings_hooks(value))
        for q in asm:
            h[q] = rec
        M = vn.VN(P, hooks=h); S = vn.State()
        root = ("loc", "in", "builder"); M.rtype[root] = vn._Ty(s=f.decl.rec, rec=f.decl.rec); S.st[root] = L(Agg({}, None, None))
        this = L(Ref(root, (), M.rtype[root]))
        M.call(ctor[0], [L(M.objref(("obj", ("in", "settings")), ctor[0].params[0].t.p))], this, S)
        b = mem(M, S, "b", L(Agg({"global": L(Agg({"lower": arr(vec("gl")), "upper": arr(vec("gu"))}, None, None)), "parametric": L(Agg({"lower": arr(vec("pl")), "upper": arr(vec("pu"))}, None, None))}, None, f.params[1].t.p)), f.params[1].t.p)
        M.call(f, [L(rf(5)), b], this, S)
        R.count("obligations"); R.count("builder cases")
        ggq = name.startswith("ggq")
        if ggq and seen:
            R.violation(f.loc, "no points per cell under a generalised rule", name, "AssembleIPs is called")
        if not ggq:
            if len(seen) != 1 or any(g.c is not None or g.leaf is not True for g in seen[0][3]):
                R.violation(f.loc, "points are assembled for every untrimmed cell", name, "AssembleIPs is called %d times" % len(seen)); continue
            compare(R, f, "the rule has the orders of the settings", name, seen[0][1], arr(order))
            compare(R, f, "the rule has the method of the settings", name, seen[0][2], L(rf(val)))
        want = {"PolynomialOrder": arr(order), "GetIntegrationMethod": L(rf(val)), "UsesGgqRule": L(ggq)}
        for g in P.funcs.values():
            if g.decl.rec == f.decl.rec and g.decl.n in want and not g.params:
                v = M.call(g, [], this, S)
                compare(R, g, "the builder reports the rule of the settings", "%s, %s" % (name, g.decl.n), M.load(S, v, g.decl.t.p) if g.decl.t.ref else v, want[g.decl.n])
