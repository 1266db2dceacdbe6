"""C06: the background grid stores each element once, under the id it asked for.
Rule: the insertions, look-ups, counters and traversals of the grid are folded by value numbering over every history of
up to three insertions (kind, id, built or not), with space reserved at any point, starting from the empty grid. An insertion succeeds exactly if an element
was built and its id is new; a taken id is refused with an error and changes nothing; look-ups by id return the inserted
element of the kind asked for or nothing; counters and ranges agree with what was inserted; traversal returns the id of
the neighbouring cell and the element stored there."""
import itertools
import qa, alg, vn
import c07
from vnlib import *

B = "queso::BackgroundGrid"


def grid_rec(P):
    r = [r for r in P.records.values() if r.q == B]
    if not r:
        raise qa.Broken("anchor vanished: BackgroundGrid")
    return r[0]


def method(P, rec, name, part=None, n=None):
    c = [f for f in P.funcs.values() if f.decl.rec == rec and f.decl.n == name and f.body is not None and (part is None or part in f.key) and (n is None or len(f.params) == n)]
    if not c:
        raise qa.Broken("anchor vanished: %s of %s" % (name, rec))
    return c[0]


def make(P, N):
    M, S, gi, lo, d, ul, ud = c07.make(P, [rf(x) for x in N])
    rec = grid_rec(P)
    root = ("loc", "in", "bg"); M.rtype[root] = vn._Ty(s=rec.name, rec=rec.name); S.st[root] = L(Agg({}, None, None))
    this = L(Ref(root, (), M.rtype[root]))
    c = [f for f in P.funcs.values() if f.decl.ctor and f.decl.rec == rec.name and len(f.params) == 1 and not f.decl.raw.get("sp")]
    if not c:
        raise qa.Broken("anchor vanished: constructor of BackgroundGrid")
    M.call(c[0], [L(M.objref(("obj", ("in", "settings")), c[0].params[0].t.p))], this, S)
    return M, S, this, rec


def element(P, M, S, trimmed, eid, tag, size=None):
    """an element built by its own constructor, with cell bounds named after the insertion"""
    nm = "TrimmedElement" if trimmed else "UntrimmedElement"
    c = [f for f in P.funcs.values() if f.decl.ctor and f.decl.n == nm and f.params and f.params[0].t.int]
    if not c:
        raise qa.Broken("anchor vanished: constructor of " + nm)
    f = c[0]; rec = f.decl.rec
    root = ("loc", "in", "new", tag); M.rtype[root] = vn._Ty(s=rec, rec=rec); S.st[root] = L(Agg({}, None, None))
    box = lambda s: L(Agg({"lower": arr(vec("%sl%s" % (s, tag))), "upper": arr(vec("%su%s" % (s, tag)) if size is None else [l + d for l, d in zip(vec("%sl%s" % (s, tag)), vec("%sd%s" % (s, tag), nn=True))])}, None, None))
    bt = f.params[1].t.p
    b = mem(M, S, "b%s" % tag, L(Agg({"global": box("g"), "parametric": box("p")}, None, bt)), bt)
    a = [L(rf(eid)), b]
    for p in f.params[2:]:
        a.append(mem(M, S, "x%s%s" % (tag, p.n), L(Opq(("in", "x%s" % tag), p.t.p)), p.t.p) if p.t.ref else L(Agg({}, None, p.t)))
    M.call(f, a, L(Ref(root, (), M.rtype[root])), S)
    return M.load(S, L(Ref(root, (), M.rtype[root])))


def run(R, tier):
    P = load(R)
    rec = grid_rec(P)
    mk = [f for f in P.funcs.values() if f.decl.rec == rec.name and f.decl.n == "MakeElement"]
    mt = [f for f in mk if "UntrimmedElementBuilder" not in f.key]; mu = [f for f in mk if "UntrimmedElementBuilder" in f.key]
    if not mt or not mu:
        raise qa.Broken("anchor vanished: BackgroundGrid::MakeElement for both builders")
    ops = [(k, i, ok) for k in ("t", "u") for i in (1, 3) for ok in (True, False)]
    nlen = 3 if tier != "quick" else 2
    hist = list(itertools.product(ops, repeat=nlen))
    # longer histories without failing builds
    hist += list(itertools.product([(k, i, True) for k in ("t", "u") for i in ((1, 2, 4) if tier == "quick" else (1, 2, 3, 4))], repeat=3))
    # reserving space at any point keeps what was inserted
    hist += [h[:i] + (("r", n, m),) + h[i:] for h in itertools.product([(k, i, True) for k in ("t", "u") for i in (1, 3)], repeat=2) for i in (0, 1, 2) for n, m in ((0, 0), (1, 5), (5, 1))]
    done = set()
    for h in hist:
        history(R, P, rec, mt[0], mu[0], h, tier, done)
    R.expect("histories", 200); R.expect("obligations", 2000)


def history(R, P, rec, mt, mu, hist, tier, done):
    alg.reset()
    N = (2, 1, 2)
    M, S, bg, _ = make(P, N)
    inst = " ".join("reserve(%d,%d)" % (i, ok) if k == "r" else "%s%d%s" % (k, i, "" if ok else "(none)") for k, i, ok in hist)
    want = {}
    cur = [None]

    def build(M, S, fr, n):
        k, i, ok, tag = cur[0]
        el = element(P, M, S, k == "t", i, tag) if ok else None
        return L(Agg({"has": L(True), 0: el}, None, n.type)) if ok else L(Agg({"has": L(False)}, None, n.type))
    for f in P.funcs.values():
        if f.decl.n == "Build" and "ElementBuilder" in f.q:
            M.hooks[f.q] = build
    order = {"t": [], "u": []}
    S = S.copy()
    for step, (k, i, ok) in enumerate(hist):
        if k == "r":
            r = M.call(method(P, rec.name, "ReserveElements"), [L(rf(i)), L(rf(ok))], bg, S)
            R.count("obligations")
            if r.c is None and isinstance(r.leaf, Bot): R.violation(rec.name, "reserving space succeeds", inst, str(r)[:100]); return
            continue
        f = mt if k == "t" else mu
        cur[0] = (k, i, ok, step)
        S.jump = L("go")
        b = mem(M, S, "bounds%d" % step, L(Agg({}, Opq(("in", "bnd%d" % step), None), f.params[2].t.p)), f.params[2].t.p)
        bd = mem(M, S, "builder%s" % k, L(Opq(("in", "builder"), f.params[0].t.p)), f.params[0].t.p)
        r = M.call(f, [bd, L(rf(i)), b], bg, S)
        S.jump = L("go")
        R.count("obligations"); R.count("insertions")
        dup = ok and i in want
        if dup:
            if not (r.c is None and isinstance(r.leaf, Bot)):
                R.violation(f.loc, "inserting an id twice is refused", inst, "insertion %d returns %s" % (step, str(r)[:100])); return
        elif not (r.c is None and r.leaf is ok):
            R.violation(f.loc, "an insertion reports whether the element was stored", inst, "insertion %d returns %s" % (step, str(r)[:100])); return
        if ok and not dup:
            want[i] = (k, step); order[k].append(i)
    R.count("histories")
    M.call(method(P, rec.name, "LockElements"), [], bg, S)
    num = {"NumberOfActiveElements": len(want), "NumberOfTrimmedElements": len(order["t"]), "NumberOfUntrimmedElements": len(order["u"])}
    for nm, w in num.items():
        f = method(P, rec.name, nm)
        compare(R, f, "counters equal the number of stored elements", "%s after %s" % (nm, inst), M.call(f, [], bg, S), L(rf(w)))
    FL = {"all": ("t", "u"), "trimmed": ("t",), "untrimmed": ("u",)}
    for i in (1, 2, 3, 4):
        for fl, kinds in FL.items():
            w = want.get(i) if i in want and want[i][0] in kinds else None
            f = method(P, rec.name, "GetElementView", "ElementFilter::%s>(" % fl)
            view(R, P, M, S, f, "a look-up returns the element of that id and kind or nothing", "view %d %s after %s" % (i, fl, inst), M.call(f, [L(rf(i))], bg, S), i, w)
            if fl != "all":
                f = method(P, rec.name, "pGetElement", "ElementFilter::%s>(" % fl)
                pointer(R, P, M, S, f, "a look-up returns the element of that id and kind or nothing", "pointer %d %s after %s" % (i, fl, inst), M.call(f, [L(rf(i))], bg, S), i, w)
    for fl, kinds in FL.items():
        if fl == "all":
            continue
        for f in [f for f in P.funcs.values() if f.decl.rec == rec.name and f.decl.n == "GetElements" and "ElementFilter::%s>(" % fl in f.key]:
            R.count("obligations")
            v = M.call(f, [], bg, S)
            c = M.load(S, v) if v.c is None and isinstance(v.leaf, Ref) else None
            ids = [eid(P, M, S, L(v.leaf.sub(j, vn._Ty(s="", rec=None))), e) for j, e in sorted(c.leaf.f.items())] if c is not None and c.c is None and isinstance(c.leaf, Agg) else None
            if ids is None or sorted(ids, key=repr) != sorted(order[kinds[0]], key=repr):
                R.violation(f.loc, "ranges hold exactly the stored elements of the kind", "%s after %s" % (fl, inst), "holds %s, stored %s" % (ids, order[kinds[0]])); return
    for fl, kinds in FL.items():
        for f in [f for f in P.funcs.values() if f.decl.rec == rec.name and f.decl.n == "GetElementViews" and "ElementFilter::%s>(" % fl in f.key]:
            R.count("obligations")
            v = M.call(f, [], bg, S)
            m = M.rngsize(S, v.leaf) if v.c is None and isinstance(v.leaf, alg.Rng) else None
            if m is None:
                R.violation(f.loc, "ranges hold exactly the stored elements of the kind", "views %s after %s" % (fl, inst), "does not fold: %s" % str(v)[:100]); return
            ids = []
            for j in range(m):
                x = M.rngelem(S, v.leaf, L(rf(j)))
                o = mem(M, S, "rview", x[1]) if x is not None and x[1].c is None and isinstance(x[1].leaf, Agg) else None
                ids.append(viewid(P, M, S, o))
            if sorted(ids, key=repr) != sorted([i for k in kinds for i in order[k]], key=repr):
                R.violation(f.loc, "ranges hold exactly the stored elements of the kind", "views %s after %s" % (fl, inst), "holds %s, stored %s" % (ids, [i for k in kinds for i in order[k]])); return
    # traversal
    key = tuple(sorted(want.items())) if tier != "quick" else tuple(sorted((i, w[0]) for i, w in want.items()))
    if len(hist) != 3 or key in done:
        return
    done.add(key)
    R.count("traversals")
    cells = [(a, b, c) for c in range(N[2]) for b in range(N[1]) for a in range(N[0])]
    dirs = c07.enumc(P, c07.G + "::Direction")
    for dn, dv in dirs.items():
        ax = "xyz".index(dn[0]); st = 1 if "forward" in dn else -1
        for i in (1, 2, 3, 4):
            c = list(cells[i - 1]); c[ax] += st
            inside = 0 <= c[ax] < N[ax]
            nid = cells.index(tuple(c)) + 1 if inside else None
            for fl, kinds in FL.items():
                for nm in ("GetNextElementView", "GetNextElement"):
                    if nm == "GetNextElement" and fl == "all":
                        continue
                    f = method(P, rec.name, nm, "ElementFilter::%s>(" % fl)
                    v = M.call(f, [L(rf(i)), L(rf(dv))], bg, S)
                    here = "%s %s from %d %s after %s" % (nm, fl, i, dn, inst)
                    if v.c is not None or not isinstance(v.leaf, Agg):
                        R.count("obligations"); R.violation(f.loc, "traversal returns the neighbouring cell", here, "result does not fold"); return
                    end = v.leaf.f.get("is_end")
                    w = want.get(nid) if inside and nid in want and want[nid][0] in kinds else None
                    compare(R, f, "traversal reports the end of the line or a missing element", here, end, L(not (inside and w is not None)))
                    if inside:
                        compare(R, f, "traversal returns the id of the neighbouring cell", here, v.leaf.f.get("next_id"), L(rf(nid)))
                        if nm == "GetNextElement":
                            pointer(R, P, M, S, f, "traversal returns the element of the neighbouring cell", here, v.leaf.f.get("p_element"), nid, w)
                        else:
                            view(R, P, M, S, f, "traversal returns the element of the neighbouring cell", here, v.leaf.f.get("element"), nid, w)


def viewid(P, M, S, o):
    g = [x for x in P.funcs.values() if x.decl.n == "GetId" and "ElementView<" in x.q]
    v = M.call(g[0], [], o, S) if g and o is not None else None
    return int(v.leaf.const) if v is not None and v.c is None and isinstance(v.leaf, RF) and v.leaf.const is not None else None


def eid(P, M, S, ref, e=None):
    t = e.leaf.t if e is not None and isinstance(e.leaf, Agg) else None
    g = [f for f in P.funcs.values() if f.decl.n == "GetId" and "ElementBase" in f.q]
    v = M.call(g[0], [], ref, S)
    return int(v.leaf.const) if v.c is None and isinstance(v.leaf, RF) and v.leaf.const is not None else None


def tagged(P, M, S, bounds, tag):
    """the bounds are those of the insertion"""
    b = M.load(S, bounds) if bounds.c is None and isinstance(bounds.leaf, Ref) else bounds
    x = M.field_of(M.field_of(b, "lower", None), 0, vn.TD)
    w = atomrf(("in", "gl%s0" % tag))
    return x.c is None and isinstance(x.leaf, RF) and x.leaf.fp == w.fp


def pointer(R, P, M, S, f, rule, inst, v, i, w):
    R.count("obligations")
    if v.c is not None or not isinstance(v.leaf, Ref):
        R.violation(f.loc, rule, inst, "does not fold: %s" % str(v)[:150]); return
    null = v.leaf.root == ("null",)
    if null != (w is None):
        R.violation(f.loc, rule, inst, "%s, expected %s" % ("nothing" if null else "an element", "nothing" if w is None else "the element")); return
    if w is not None:
        b = [g for g in P.funcs.values() if g.decl.n == "GetCellBounds" and "ElementBase" in g.q and "global" in g.key and (("TrimmedDomain" in g.q) == (w[0] == "t"))] or \
            [g for g in P.funcs.values() if g.decl.n == "GetCellBounds" and "ElementBase" in g.q and "global" in g.key]
        if eid(P, M, S, v) != i or not tagged(P, M, S, M.call(b[0], [], v, S), w[1]):
            R.violation(f.loc, rule, inst, "another element is returned")


def view(R, P, M, S, f, rule, inst, v, i, w):
    R.count("obligations")
    if v is None or v.c is not None or not isinstance(v.leaf, Agg) or "has" not in v.leaf.f or v.leaf.f["has"].c is not None:
        R.violation(f.loc, rule, inst, "does not fold: %s" % str(v)[:150]); return
    has = v.leaf.f["has"].leaf
    if has is not (w is not None):
        R.violation(f.loc, rule, inst, "%s, expected %s" % ("an element" if has else "nothing", "nothing" if w is None else "the element")); return
    if w is not None:
        o = mem(M, S, "view", v.leaf.f[0])
        g = lambda n, p=None: [x for x in P.funcs.values() if x.decl.n == n and "ElementView<" in x.q and (p is None or p in x.key)][0]
        i2 = M.call(g("GetId"), [], o, S); tr = M.call(g("IsTrimmed"), [], o, S); b = M.call(g("GetCellBounds", "global"), [], o, S)
        if not (i2.c is None and isinstance(i2.leaf, RF) and i2.leaf.const == i) or not tagged(P, M, S, b, w[1]):
            R.violation(f.loc, rule, inst, "another element is returned")
        elif not (tr.c is None and tr.leaf is (w[0] == "t")):
            R.violation(f.loc, rule, inst, "the view reports the wrong kind")
