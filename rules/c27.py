"""C27: the octree of a trimmed cell halves its cells, skips what lies outside and offers the Gauss points inside.
Rule: the octree is built, refined and asked for its counts and points by value numbering; boxes are symbolic (lower corner
and positive size in both spaces, so children are recognised by their exact share of the root); the two questions put to the
geometry (state of a box, is a point inside) are scripted per scenario and recorded. Compared with an independent model:
(1) the questions asked about boxes are about the eight halves of a refined box, in global space; (2) counts of leaves and
nodes, levels; (3) the points are, leaf by leaf, the tensor-product Gauss points of the leaf in parametric space with the
weights of its size, all of them in leaves inside, and in the others those whose image in global space was answered to be
inside; (4) minimum levels above maximum levels are refused."""
import itertools
from fractions import Fraction as Fr
import qa, alg, vn, c15, c26
from vnlib import *

OC = "queso/embedding/octree.cpp"
X = c15.X


def share(v, l, s):
    """exact fraction (v - l) / s"""
    if v.c is not None or not isinstance(v.leaf, RF):
        return None
    return ((v.leaf - l) / s).const


class Scenario:
    def __init__(self, name, refines, state, inside, order):
        self.name = name; self.refines = refines; self.state = state; self.inside = inside; self.order = order


def cells(sc):
    """independent model: dict of nodes key=(level, i, j, k) -> (state, children or None), refined as specified"""
    nodes = {(0, 0, 0, 0): "trimmed"}; kids = {}; asked = []

    def refine(key, lo, hi):
        lv = key[0]
        if key in kids:
            for c in kids[key]:
                refine(c, lo, hi)
            return
        if lv < lo or (lv < hi and nodes[key] == "trimmed"):
            ch = []
            for d in itertools.product((0, 1), repeat=3):
                c = (lv + 1,) + tuple(2 * a + b for a, b in zip(key[1:], d))
                asked.append(c)
                st = sc.state(c)
                if st != "outside":
                    nodes[c] = st; ch.append(c)
            if ch:
                kids[key] = ch
            for c in ch:
                refine(c, lo, hi)
    for lo, hi in sc.refines:
        refine((0, 0, 0, 0), lo, hi)
    return nodes, kids, asked


def scenarios(tier):
    pat = lambda c: ("inside", "trimmed", "outside", "trimmed")[(c[1] + 2 * c[2] + 3 * c[3]) % 4]
    allt = lambda c: "trimmed"
    alli = lambda c: "inside"
    none = lambda c: "outside"
    corner = lambda c: "trimmed" if not any(c[1:]) else "outside"
    deep = lambda c: "inside" if c[0] > 1 and c[1] % 2 else "trimmed"
    yes = lambda p: True
    no = lambda p: False
    half = lambda p: p[0] + 2 * p[1] < 3 * p[2]
    out = [
        Scenario("root only", [], allt, half, (1, 1, 1)),
        Scenario("levels 0 to 1, mixed", [(0, 1)], pat, half, (1, 2, 1)),
        Scenario("level 1, all inside", [(1, 1)], alli, no, (2, 1, 1)),
        Scenario("levels 1 to 2, mixed", [(1, 2)], pat, half, (1, 1, 1)),
        Scenario("levels 0 to 2, all trimmed", [(0, 2)], allt, half, (1, 1, 1)),
        Scenario("levels 0 to 2, deep inside", [(0, 2)], deep, yes, (1, 1, 1)),
        Scenario("level 1, then 1 to 2", [(1, 1), (1, 2)], pat, half, (1, 1, 1)),
        Scenario("level 2 everywhere", [(2, 2)], alli, no, (1, 1, 1)),
        Scenario("levels 0 to 3, one corner", [(0, 3)], corner, half, (1, 1, 2)),
        Scenario("levels 0 to 1, 0 to 2, 2 to 3, corner", [(0, 1), (0, 2), (2, 3)], corner, yes, (1, 1, 1)),
        Scenario("level 1, then level 2, all inside", [(1, 1), (2, 2)], alli, no, (1, 1, 1)),
        Scenario("levels 0 to 1, then level 2, mixed", [(0, 1), (2, 2)], pat, half, (1, 1, 1)),
        Scenario("level 1, then levels 2 to 3", [(1, 1), (2, 3)], lambda c: "trimmed" if not any(c[1:]) else "inside" if c[3] * 2 < 2 ** c[0] else "outside", half, (1, 1, 1)),
        Scenario("level 2, then less", [(2, 2), (0, 1), (1, 3)], lambda c: pat(c) if c[1] == c[2] else "inside" if c[3] % 2 else "outside", half, (1, 1, 1)),
        Scenario("everything outside", [(1, 2)], none, half, (1, 1, 1)),
        Scenario("no level", [(0, 0)], pat, half, (2, 2, 2)),
    ]
    if tier != "quick":
        out += [Scenario("levels 2 to 3, mixed", [(2, 3)], pat, half, (1, 1, 1)), Scenario("orders 3 2 1", [(0, 1)], pat, half, (3, 2, 1)),
                Scenario("levels 0 to 4, corner", [(0, 4)], corner, half, (1, 1, 1))]
    return out


def run(R, tier):
    P = load(R, [qa.VERIF + "/tu/octree.cpp", OC] + [X + f for f in ("gauss_legendre_integration_points.cpp", "integration_points_factory_1d.cpp", "precomputed_ggq_rules_optimal.cpp",
                                        "precomputed_ggq_rules_reduced1.cpp", "precomputed_ggq_rules_reduced2.cpp")], tables=True)
    E = c15.methods(P)
    st = [x["e"] for q, x in P.enums.items() if q.endswith("::IntersectionState")]
    if not st:
        raise qa.Broken("anchor vanished: IntersectionState")
    states = {x["n"]: x["v"] for x in st[0]}
    rules = {}
    for p in (1, 2, 3):
        alg.reset()
        rules[p] = c26.gauss(P, E, p, "gauss")
        if isinstance(rules[p], str):
            raise qa.Broken("Gauss rule of order %d does not fold" % p)
    for sc in scenarios(tier):
        scenario(R, P, sc, states, rules)
    refused_levels(R, P, states)
    R.expect("scenarios", 12); R.expect("obligations", 300)


def members(P):
    recs = [r for r in P.records.values() if r.q == "queso::Octree" or (r.q or "").startswith("queso::Octree<") and "::Node" not in r.q]
    recs = [r for r in recs if "::Node" not in r.name]
    fs = {}
    for f in P.funcs.values():
        if f.decl.rec in {r.name for r in recs} and f.body is not None:
            fs.setdefault("ctor" if f.decl.ctor else f.decl.n, []).append(f)
    for need, n in (("Refine", 2), ("NumberOfLeafs", 0), ("NumberOfNodes", 0), ("MinRefinementLevel", 0), ("MaxRefinementLevel", 0)):
        if need not in fs:
            raise qa.Broken("anchor vanished: Octree::" + need)
    ctor = [f for f in fs.get("ctor", ()) if len(f.params) == 3]
    pts = fs.get("AddIntegrationPoints", []) + fs.get("pGetIntegrationPoints", [])
    if not ctor or not pts:
        raise qa.Broken("anchor vanished: construction or points of Octree")
    return ctor[0], fs, pts


def world(P, sc, states):
    alg.reset()
    gl, gs, pl, ps = vec("gl"), vec("gs", pos=True), vec("pl"), vec("ps", pos=True)
    asked, questions, bad = [], [], []
    known = set(cells(sc)[2]); extra = set()

    def xyz(M, S, r, n):
        l, s = (pl, ps) if "CoordinateSpace::parametric>" in n.decl.key else (gl, gs)
        v = M.load(S, r) if r.c is None and isinstance(r.leaf, Ref) else r
        v = M.load(S, v) if v.c is None and isinstance(v.leaf, Ref) else v
        return [share(M.field_of(v, k, vn.TD), l[k], s[k]) for k in range(3)]

    def state(M, S, fr, n):
        a = M.bindargs(S, fr, n.decl, n.args)
        lo, hi = xyz(M, S, a[0], n), xyz(M, S, a[1], n)
        sz = None
        if all(x is not None for x in lo + hi):
            d = {b - a for a, b in zip(lo, hi)}
            if len(d) == 1 and min(d) > 0:
                s = d.pop(); lv = 0
                while s < 1 and lv < 12:
                    s *= 2; lv += 1
                key = (lv,) + tuple(a * 2 ** lv for a in lo)
                if s == 1 and all(Fr(k).denominator == 1 for k in key):
                    key = tuple(int(k) for k in key); asked.append(key)
                    extra.update({key} - known)
                    return L(rf(states[sc.state(key) if len(extra) <= 8 and len(asked) <= 4 * len(known) + 100 and not bad else "outside"]))
        bad.append((lo, hi))
        return L(rf(states["outside"]))

    def inside(M, S, fr, n):
        p = xyz(M, S, M.bindargs(S, fr, n.decl, n.args)[0], n)
        if any(x is None for x in p):
            bad.append(p)
            return L(False)
        questions.append(tuple(p))
        return L(bool(sc.inside(p)))
    h = {}
    for tu in P.tus:
        for d in tu.decls:
            if d.k == "fn" and d.n == "GetIntersectionState" and d.q.startswith("queso::"):
                h[d.q] = state
            if d.k == "fn" and d.n == "IsInsideActiveDomain" and d.q.startswith("queso::"):
                h[d.q] = inside
    if not h:
        raise qa.Broken("anchor vanished: GetIntersectionState, IsInsideActiveDomain")
    M = vn.VN(P, hooks=h); S = vn.State()
    ctor, fs, pts = members(P)
    box = lambda l, s: L(Agg({"lower": arr(l), "upper": arr([a + b for a, b in zip(l, s)])}, None, None))
    bt = ctor.params[1].t.noref if hasattr(ctor.params[1].t, "noref") else None
    op = L(M.objref(("obj", ("in", "element")), ctor.params[0].t.p))
    oc = mem(M, S, "octree", L(Agg({}, None, None)), vn._Ty(s=ctor.decl.rec, rec=ctor.decl.rec))
    M.call(ctor, [op, mem(M, S, "bx", box(gl, gs), bt), mem(M, S, "bu", box(pl, ps), bt)], oc, S)
    return M, S, oc, fs, pts, (gl, gs, pl, ps), asked, questions, bad


def scenario(R, P, sc, states, rules):
    M, S, oc, fs, pts, (gl, gs, pl, ps), asked, questions, bad = world(P, sc, states)
    R.count("scenarios")
    for lo, hi in sc.refines:
        M.call([f for f in fs["Refine"] if len(f.params) == 2][0], [L(rf(lo)), L(rf(hi))], oc, S)
    f = fs["Refine"][0]
    nodes, kids, want = cells(sc)
    R.count("obligations", 2)
    if bad:
        R.violation(f.loc, "a refined cell is divided into its eight halves", sc.name, "the state is asked of a box that is no cell: %s" % (bad[0],))
        return
    if set(want) - set(asked):
        w = sorted(set(want) - set(asked))
        R.violation(f.loc, "a refined cell is divided into its eight halves", sc.name, "%d cells asked, expected %d; e.g. (level, position) %s" % (len(asked), len(want), w[0]))
        return
    leaves = [k for k in nodes if k not in kids]
    num = lambda name: M.call(fs[name][0], [], oc, S)
    lv = sc.refines[-1] if sc.refines else (0, 0)
    for name, w in (("NumberOfLeafs", len(leaves)), ("NumberOfNodes", len(nodes)), ("MinRefinementLevel", lv[0]), ("MaxRefinementLevel", lv[1])):
        compare(R, fs[name][0], "numbers of nodes, leaves and levels", "%s, %s" % (sc.name, name), num(name), L(rf(w)))
    exp = []; q = []
    for k in leaves:
        h = Fr(1, 2 ** k[0])
        for a in itertools.product(*[rules[o] for o in sc.order]):
            u = [(k[1 + i] + a[i][0]) * h for i in range(3)]
            if nodes[k] != "inside":
                q.append(tuple(u))
                if not sc.inside(u):
                    continue
            exp.append(tuple(pl[i] + ps[i] * rf(u[i]) for i in range(3)) + (ps[0] * ps[1] * ps[2] * rf(h ** 3 * a[0][1] * a[1][1] * a[2][1]),))
    for f in pts:
        S1 = S.copy()
        ov = mem(M, S1, "order", arr([rf(o) for o in sc.order]))
        del questions[:], bad[:]
        if f.decl.n.startswith("Add"):
            out = mem(M, S1, "out", L(Agg({}, None, None)), f.params[0].t.p)
            M.call(f, [out, ov], oc, S1)
            v = M.load(S1, out)
        else:
            r = M.call(f, [ov], oc, S1)
            v = M.load(S1, r) if r.c is None and isinstance(r.leaf, Ref) else r
        R.count("obligations")
        if bad or set(q) - set(questions):
            R.violation(f.loc, "points of a leaf that is not inside are tested at their place in global space", "%s, %s" % (sc.name, f.decl.n), "%d points tested, expected %d%s" % (
                len(questions), len(q), "; a point has no definite place" if bad else "; e.g. %s" % ([tuple(map(str, x)) for x in set(q) - set(questions)][:1])))
            continue
        c26.match(R, f, "points are the Gauss points of the leaves that lie inside", "%s, %s" % (sc.name, f.decl.n), c26.points(P, M, S1, v), exp)


def refused_levels(R, P, states):
    sc = Scenario("x", [], lambda c: "outside", lambda p: True, (1, 1, 1))
    for lo in range(4):
        for hi in range(4):
            M, S, oc, fs, pts, b, asked, questions, bad = world(P, sc, states)
            f = [f for f in fs["Refine"] if len(f.params) == 2][0]
            v = M.call(f, [L(rf(lo)), L(rf(hi))], oc, S)
            R.count("obligations")
            bot = v.c is None and isinstance(v.leaf, Bot) or S.jump is not None and S.jump.c is None and isinstance(S.jump.leaf, Bot)
            if lo > hi and not bot:
                R.violation(f.loc, "a minimum level above the maximum is refused", "levels %d and %d" % (lo, hi), "accepted")
            if lo <= hi and bot:
                R.violation(f.loc, "a minimum level up to the maximum is accepted", "levels %d and %d" % (lo, hi), "refused")
