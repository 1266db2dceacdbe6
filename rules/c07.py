"""C07: every cell of the background grid has one index and one box, and stepping through a partition is consistent.
Rule: the index maps, cell boxes, navigation steps and end tests of GridIndexer, reduced by value numbering to
polynomial normal forms over the settings (bounds, numbers of elements) and one symbolic cell of one symbolic
partition, equal their specification in every ordering case of the cell inside the partition (4 cases per axis)."""
import itertools
import qa, alg, vn
from vnlib import *

G = "queso::GridIndexer"


def enumc(P, q):
    e = P.enums.get(q)
    if e is None:
        raise qa.Broken("anchor vanished: enum " + q)
    return {x["n"]: x["v"] for x in e["e"]}


def run(R, tier):
    P = load(R)
    info = enumc(P, G + "::IndexInfo"); dirs = enumc(P, G + "::Direction"); gt = enumc(P, "queso::GridType")
    want_dirs = ["x_forward", "x_backward", "y_forward", "y_backward", "z_forward", "z_backward"]
    if set(want_dirs) != set(dirs):
        raise qa.Broken("directions changed: %s" % sorted(dirs))
    cells(R, P, gt, tier)
    navigation(R, P, info, dirs, tier)
    R.expect("obligations", 400)


def make(P, N, grid_type=None, opq=()):
    """a GridIndexer built by its own constructor from named settings"""
    lo = vec("lo"); d = vec("size", pos=True); ul = vec("ulo"); ud = vec("usize", pos=True)
    vals = {"lower_bound_xyz": lo, "upper_bound_xyz": [a + b for a, b in zip(lo, d)],
            "lower_bound_uvw": ul, "upper_bound_uvw": [a + b for a, b in zip(ul, ud)], "number_of_elements": N}

    def value(k, t):
        if k in vals:
            return arr(vals[k], t.noref if t is not None else None)
        if k == "grid_type" and grid_type is not None:
            return L(rf(grid_type))
        return None
    h = hook_names(P, settings_hooks(value))
    M = vn.VN(P, hooks=h)
    S = vn.State()
    ctor = pick(P, G + "::GridIndexer", 1, lambda f: f.decl.ctor and not f.decl.raw.get("sp"))
    root = ("loc", "in", "grid")
    S.st[root] = L(Agg({}, None, None))
    this = L(Ref(root, ()))
    t = ctor.params[0].t
    M.call(ctor, [L(M.objref(("obj", ("in", "settings")), t.p))], this, S)
    # the object's declared type gives its field types
    for rec in P.records.values():
        if rec.q == G:
            M.rtype[root] = vn._Ty(s=G, rec=rec.name)
    return M, S, this, lo, d, ul, ud


def cells(R, P, gt, tier):
    alg.reset()
    nn = dict(nn=True, isint=True)
    I = vec("i", **nn); C = vec("c", **nn)
    N = [i + rf(1) + c for i, c in zip(I, C)]
    idx = I[0] + N[0] * (I[1] + N[1] * I[2])
    for gname, gval in [(None, None)] + list(gt.items()):
        M, S, this, lo, d, ul, ud = make(P, N, gval)
        if gname is None:
            f = pick(P, G + "::GetMatrixIndicesFromVectorIndex", 1)
            compare(R, f, "linear index decodes to its cell", "decode", M.call(f, [L(idx)], this, S.copy()), arr(I))
            f = pick(P, G + "::GetVectorIndexFromMatrixIndices", 3)
            compare(R, f, "cell encodes to its linear index (x fastest)", "encode(i,j,k)", M.call(f, [L(x) for x in I], this, S.copy()), L(idx))
            f = pick(P, G + "::GetVectorIndexFromMatrixIndices", 1)
            S2 = S.copy()
            compare(R, f, "cell encodes to its linear index (x fastest)", "encode(vector)", M.call(f, [mem(M, S2, "ijk", arr(I))], this, S2), L(idx))
            f = pick(P, G + "::NumberOfElements", 0)
            compare(R, f, "number of cells", "count", M.call(f, [], this, S.copy()), L(N[0] * N[1] * N[2]))

        def want(l, s, per):
            lowv = [a + b * (i / n if per else rf(0)) for a, b, i, n in zip(l, s, I, N)]
            up = [a + b * ((i + 1) / n if per else rf(1)) for a, b, i, n in zip(l, s, I, N)]
            return lowv, up
        for q, (l, s) in (("GetBoundingBoxXYZFromIndex", (lo, d)), ("GetBoundingBoxUVWFromIndex", (ul, ud))):
            if gname is None and "UVW" in q:
                continue
            if gname is not None and "XYZ" in q and tier == "quick":
                continue
            per = "XYZ" in q or gname == "b_spline_grid"
            w = want(l, s, per)
            for f in P.need(G + "::" + q, 3):
                S2 = S.copy()
                if len(f.params) == 3:
                    a = [L(x) for x in I]
                elif f.params[0].t.int:
                    a = [L(idx)]
                else:
                    a = [mem(M, S2, "ijk", arr(I))]
                v = M.call(f, a, this, S2)
                if v.c is None and isinstance(v.leaf, Ref):
                    v = M.load(S2, v)
                inst = "%s(%s) grid=%s" % (q, ",".join(p.t.s for p in f.params), gname or "any")
                for part, ww in zip(("lower", "upper"), w):
                    g = M.field_of(v, part, None)
                    for x in range(3):
                        compare(R, f, "cell box is the cell's share of the domain", inst + " %s[%d]" % (part, x), M.field_of(g, x, vn.TD), L(ww[x]))
        R.count("grid configurations")


def navigation(R, P, info, dirs, tier):
    one = rf(1)
    order = {0: (0, 1, 2), 1: (1, 0, 2), 2: (2, 0, 1)}
    axes = {"x": 0, "y": 1, "z": 2}
    cases = list(itertools.product(range(4), repeat=3))
    fdir = pick(P, G + "::GetNextIndex", 3); fend = pick(P, G + "::IsEnd", 3)
    fdir2 = pick(P, G + "::GetNextIndex", 2); fend2 = pick(P, G + "::IsEnd", 2)
    frev = pick(P, G + "::ReverseDirection", 1); fdirs = pick(P, G + "::GetDirections", 0)
    alg.reset()
    M = vn.VN(P)
    for name, v in dirs.items():
        w = name.replace("forward", "@").replace("backward", "forward").replace("@", "backward")
        compare(R, frev, "reversing a direction", "reverse " + name, M.call(frev, [L(v)]), L(dirs[w]))
    v = M.call(fdirs, [])
    got = sorted(int(x.leaf.const) for x in v.leaf.f.values()) if v.c is None and isinstance(v.leaf, Agg) else None
    R.count("obligations")
    if got != sorted(dirs.values()):
        R.violation(fdirs.loc, "all six directions are listed", "GetDirections", "got %s" % got)
    named = {}
    for ax in "XYZ":
        for fw, nm in ((1, "GetNextIndex"), (0, "GetPreviousIndex")):
            for f in P.by_q(G + "::" + nm + ax):
                named[(ax.lower() + ("_forward" if fw else "_backward"), len(f.params))] = f
    for glob in (False, True):
        for cs in cases:
            alg.reset()
            nn = dict(nn=True, isint=True)
            pp = dict(pos=True, isint=True)
            below = [rf(0) if cs[a] & 1 else atomrf(("in", "below%d" % a), **pp) for a in range(3)]
            above = [rf(0) if cs[a] & 2 else atomrf(("in", "above%d" % a), **pp) for a in range(3)]
            if glob:  # the partition is the whole grid
                I = below; F = [rf(0)] * 3; top = [rf(0)] * 3
            else:
                I = vec("i", **nn); top = vec("beyond", **nn)
                F = [i - b for i, b in zip(I, below)]
            Sx = [i + b for i, b in zip(I, above)]
            N = [s + one + t for s, t in zip(Sx, top)]
            M, S, this, *_ = make(P, N)
            idx = I[0] + N[0] * (I[1] + N[1] * I[2])
            enc = lambda c: c[0] + N[0] * (c[1] + N[1] * c[2])
            part = L(Agg({"first": arr(F), "second": arr(Sx)}, None, None))
            for dn, dv in dirs.items():
                ax = axes[dn[0]]; fw = dn.endswith("forward")
                atend = lambda a: bool(cs[a] & (2 if fw else 1))
                o = order[ax]
                c = list(I); inf = None
                for k, a in enumerate(o):
                    if not atend(a):
                        c[a] = c[a] + (1 if fw else -1)
                        for b in o[:k]:
                            c[b] = F[b] if fw else Sx[b]
                        inf = "middle" if k == 0 else "local_end"
                        break
                want = L(Agg({"first": L(enc(c) if inf else idx), "second": L(info[inf or "global_end"])}, None, None))
                casen = "%s, cell %s%s" % (dn, "/".join({0: "inside", 1: "at first", 2: "at last", 3: "only"}[x] for x in cs), ", whole grid" if glob else ", partition")

                def chk(f, args, w, rule):
                    S2 = S.copy()
                    if not glob:
                        args = args + [mem(M, S2, "part", part)]
                    v = M.call(f, args, this, S2)
                    compare(R, f, rule, casen, v, w)
                if glob:
                    chk(fdir2, [L(idx), L(dv)], want, "next cell in a direction")
                    chk(fend2, [L(idx), L(dv)], L(atend(ax)), "end of line test")
                    if (dn, 1) in named: chk(named[(dn, 1)], [L(idx)], want, "next cell in a direction")
                else:
                    chk(fdir, [L(idx), L(dv)], want, "next cell in a direction")
                    chk(fend, [L(idx), L(dv)], L(atend(ax)), "end of line test")
                    if (dn, 2) in named: chk(named[(dn, 2)], [L(idx)], want, "next cell in a direction")
    R.count("ordering cases", len(cases))
