"""C13: exported files describe the mesh, cells, points and conditions they are written from.
Rule: value numbering folds every writer over meshes, grids and conditions whose coordinates and weights are symbols, with
what is written to the stream (directly and through the buffered binary writer, which delivers when it is flushed or ends)
kept as a value.  The sequence of items is compared with the file format: header, counts, every coordinate, index, type and
weight in order, its size in bytes and byte order, and the number of decimals.  A file that cannot be opened or written
must end in an error.  The buffered writer is folded on its own, with its memory modelled byte by byte."""
import qa, alg, vn
import c06, c26, c29
from vnlib import *
from streams import Streams, render, W

IO = "queso::IO::"


def enumerators(P, suffix, need):
    e = [x for q, x in P.enums.items() if q.endswith(suffix) and {c["n"] for c in x["e"]} >= set(need)]
    if not e:
        raise qa.Broken("anchor vanished: enumeration " + suffix)
    return {c["n"]: int(c["v"]) for c in e[0]["e"]}


class Check:
    def __init__(self, R, P):
        self.R = R; self.P = P
        self.enc = enumerators(P, "EncodingType", ("binary", "ascii"))
        self.end = enumerators(P, "EndianType", ("little", "big"))

    def fns(self, name, n=3, first=None):
        c = [f for f in self.P.by_q(IO + name) if f.body is not None and len(f.params) == n and (first is None or first in f.params[0].t.s)]
        if not c:
            raise qa.Broken("anchor vanished: " + IO + name)
        return c

    # ---- one writer in one encoding
    def write(self, f, scene, enc, inst, want):
        R = self.R; P = self.P
        for state in ("ok", "noopen", "fail", "late"):
            alg.reset()
            M, S, obj, w = scene(enc)
            st = Streams(P, state); st.install(M)
            S.jump = L("go")
            args = [obj, mem(M, S, "file", L(vn.Str("file")), f.params[1].t.noref)]
            if len(f.params) > 2:
                args.append(L(rf(self.enc[enc])))
            r = M.call(f, args, None, S)
            R.count("obligations"); R.count("writers folded")
            bots = [isinstance(x, Bot) for x in alg.leaves(r)] + [isinstance(x, Bot) for x in alg.leaves(S.jump)]
            if state != "ok":
                if not all(isinstance(x, Bot) for x in alg.leaves(r)) and not all(isinstance(x, Bot) for x in alg.leaves(S.jump)):
                    R.violation(f.loc, "a file that cannot be %s is an error" % ("opened" if state == "noopen" else "written"), inst, "the function returns normally" + (": the failure shows only when the stream passes on its buffer, after it was last asked" if state == "late" else ""))
                continue
            if any(bots):
                R.violation(f.loc, "writing succeeds", inst, str(r)[:160]); continue
            items = st.content(S)
            if items is None or st.bad:
                R.violation(f.loc, "what is written folds to a sequence", inst, "; ".join(st.bad[:2]) or "several streams or a sequence that depends on a condition"); continue
            self.same(f, inst, render(items), w)

    def same(self, f, inst, got, want):
        R = self.R
        R.count("items compared", len(want)); R.count("obligations", len(want))
        for i, w in enumerate(want):
            g = got[i] if i < len(got) else None
            if g is None:
                R.violation(f.loc, "the file has everything its format asks for", inst, "nothing is written where %s is expected (item %d)" % (show(w), i)); return
            if not eq(g, w):
                R.violation(f.loc, "the file holds what its format asks for, in order", inst, "item %d: written %s, expected %s" % (i, show(g), show(w))); return
        if len(got) > len(want):
            R.violation(f.loc, "the file ends where its format ends", inst, "item %d: written %s after the end" % (len(want), show(got[len(want)])))


def show(x):
    return " ".join(str(y)[:120] if not isinstance(y, str) else repr(y) for y in x)


def eq(g, w):
    if g[0] != w[0]: return False
    if g[0] == "text": return squeeze(g[1]) == squeeze(w[1])
    if g[0] == "num": return alg.differ(g[1], w[1]) is None and g[2] == w[2] and g[3] and g[4] >= w[4]
    if g[0] == "value": return alg.differ(g[1], w[1]) is None and g[2] == w[2] and g[3] == w[3] and alg.differ(g[4], w[4]) is None
    if g[0] == "raw": return isinstance(g[1], str) and g[2] == w[2] and not g[1].startswith("solid")
    return False


def squeeze(s):
    """blanks at the end of a line have no meaning"""
    return "\n".join(l.rstrip() for l in s.split("\n")) if not s.endswith(" ") else "\n".join([l.rstrip() for l in s.split("\n")][:-1] + [s.split("\n")[-1]])


class Want:
    """the expected file, in the same normal form"""
    def __init__(self, C, M, enc, endian, prec):
        self.o = []; self.M = M; self.bin = enc == "binary"; self.end = L(rf(C.end[endian])); self.prec = prec

    def text(self, s):
        if self.o and self.o[-1][0] == "text": self.o[-1] = ("text", self.o[-1][1] + s)
        else: self.o.append(("text", s))
        return self

    def floats(self, vs, size, before="", after="\n"):
        if self.bin:
            for v in vs:
                v = L(v)
                if size == 4: v = self.M.cast("FloatingCast", v, FLOAT)
                self.o.append(("value", v, size, "float", self.end))
            return
        for i, v in enumerate(vs):
            if i or before: self.text(before if not i else " ")
            self.o.append(("num", L(v), "float", True, self.prec))
        self.text(after)

    def ints(self, vs, size=4, after="\n"):
        if self.bin:
            for v in vs: self.o.append(("value", L(rf(v)), size, "int", self.end))
            return
        self.text(" ".join(str(v) for v in vs) + after)


FLOAT = vn._Ty(s="float", flt=1)


def stl(C, M, enc, tris):
    w = Want(C, M, enc, "little", 6)
    if w.bin:
        w.o.append(("raw", "", 80)); w.ints([len(tris)])
        for n, ps in tris:
            w.floats(n, 4)
            for p in ps: w.floats(p, 4)
            w.ints([0], 2)
        return w.o
    w.text("solid QuESoExport\n")
    for n, ps in tris:
        w.floats(n, 4, "facet normal ", "\nouter loop\n")
        for p in ps: w.floats(p, 4, "vertex ")
        w.text("endloop\nendfacet\n")
    w.text("endsolid QuESoExport\n")
    return w.o


def vtk(C, M, enc, points, cells, kind, weights=None):
    w = Want(C, M, enc, "big", 15)
    w.text("# vtk DataFile Version 4.1\nvtk output\n%s\nDATASET UNSTRUCTURED_GRID\nPOINTS %d double\n" % (enc.upper(), len(points)))
    for p in points: w.floats(p, 8)
    w.text("CELLS %d %d\n" % (len(cells), sum(len(c) + 1 for c in cells)))
    for c in cells: w.ints([len(c)] + list(c))
    w.text("CELL_TYPES %d\n" % len(cells))
    for c in cells: w.ints([kind])
    if weights is not None:
        w.text("POINT_DATA %d\nSCALARS Weights double 1\nLOOKUP_TABLE default\n" % len(points))
        for x in weights: w.floats([x], 8)
    return w.o


V = [[atomrf(("in", "x%d%d" % (i, j))) for j in range(3)] for i in range(4)]


def symbols(tag, n):
    return [vec("%s%d_" % (tag, i)) for i in range(n)]


def meshes(C):
    P = C.P
    for tris in ([(0, 1, 2), (2, 3, 0)], [(3, 1, 0)], []):
        def scene(enc, writer):
            M = vn.VN(P); S = vn.State()
            vs, ns = symbols("x", 4), symbols("n", len(tris))
            m = c29.mesh(M, S, P, "m", vs, tris, ns)
            T = [(ns[i], [vs[k] for k in t]) for i, t in enumerate(tris)]
            want = stl(C, M, enc, T) if writer == "WriteMeshToSTL" else vtk(C, M, enc, [p for _, ps in T for p in ps], [(3 * i, 3 * i + 1, 3 * i + 2) for i in range(len(T))], 5)
            return M, S, m, want
        for writer in ("WriteMeshToSTL", "WriteMeshToVTK"):
            for enc in ("binary", "ascii"):
                inst = "%s, %s, %d triangles" % (writer, enc, len(tris))
                fm = [f for f in C.fns(writer) if "TriangleMeshView" not in f.params[0].t.s]
                fv = [f for f in C.fns(writer) if "TriangleMeshView" in f.params[0].t.s]
                for f in fm:
                    C.write(f, lambda e: scene(e, writer), enc, inst, None)
                for f in fv:
                    def through(e):
                        M, S, m, w = scene(e, writer)
                        return M, S, c29.view(M, S, P, m, "view"), w
                    C.write(f, through, enc, inst + ", through a view", None)


def gridscene(C, els):
    """a grid holding the given elements: (kind, id, number of points)"""
    P = C.P
    M, S, bg, rec = c06.make(P, (2, 1, 2))
    mk = [f for f in P.funcs.values() if f.decl.rec == rec.name and f.decl.n == "MakeElement"]
    mt = [f for f in mk if "UntrimmedElementBuilder" not in f.key]; mu = [f for f in mk if "UntrimmedElementBuilder" in f.key]
    if not mt or not mu:
        raise qa.Broken("anchor vanished: BackgroundGrid::MakeElement for both builders")
    ip = [f for f in P.funcs.values() if f.decl.ctor and f.q == "queso::IntegrationPoint::IntegrationPoint" and len(f.params) == 2]
    if not ip:
        raise qa.Broken("anchor vanished: constructor of IntegrationPoint")
    cur = [None]

    def build(M, S, fr, n):
        k, i, np, tag = cur[0]
        el = c06.element(P, M, S, k == "t", i, tag, True)
        o = mem(M, S, "built%s" % tag, el, vn._Ty(s=el.leaf.t.rec if el.leaf.t is not None else "", rec=el.leaf.t.rec) if el.leaf.t is not None else None)
        root = ("loc", "in", "new", tag)
        g = [f for f in P.funcs.values() if f.decl.n == "GetIntegrationPoints" and "ElementBase" in f.q and not f.params and not f.decl.cm and f.body is not None]
        if not g:
            raise qa.Broken("anchor vanished: ElementBase::GetIntegrationPoints")
        r = M.call(g[0], [], L(Ref(root, (), M.rtype[root])), S)
        items = {}
        for j in range(np):
            x = arr(vec("p%s_%d_" % (tag, j)))
            pr = ("loc", "in", "ip", tag, j); M.rtype[pr] = vn._Ty(s="queso::IntegrationPoint", rec=ip[0].decl.rec); S.st[pr] = L(Agg({}, None, None))
            M.call(ip[0], [mem(M, S, "pp%s%d" % (tag, j), x, ip[0].params[0].t.noref), L(atomrf(("in", "w%s_%d" % (tag, j))))], L(Ref(pr, (), M.rtype[pr])), S)
            items[j] = S.st[pr]
        M.store(S, r, L(Agg(items, None, None)))
        return L(Agg({"has": L(True), 0: M.load(S, L(Ref(root, (), M.rtype[root])))}, None, n.type))
    for f in P.funcs.values():
        if f.decl.n == "Build" and "ElementBuilder" in f.q:
            M.hooks[f.q] = build
    S = S.copy()
    info = {}
    for step, (k, i, np) in enumerate(els):
        f = (mt if k == "t" else mu)[0]
        cur[0] = (k, i, np, step)
        b = mem(M, S, "bounds%d" % step, L(Agg({}, Opq(("in", "bnd%d" % step), None), f.params[2].t.p)), f.params[2].t.p)
        bd = mem(M, S, "builder%s" % k, L(Opq(("in", "builder"), f.params[0].t.p)), f.params[0].t.p)
        r = M.call(f, [bd, L(rf(i)), b], bg, S)
        S.jump = L("go")
        info[i] = (step, np)
    M.call(c06.method(P, rec.name, "LockElements"), [], bg, S)
    # the order in which the grid hands out its elements
    f = [f for f in P.funcs.values() if f.decl.rec == rec.name and f.decl.n == "GetElementViews" and "ElementFilter::all>(" in f.key]
    if not f:
        raise qa.Broken("anchor vanished: BackgroundGrid::GetElementViews")
    v = M.call(f[0], [], bg, S)
    n = M.rngsize(S, v.leaf) if v.c is None and isinstance(v.leaf, alg.Rng) else None
    order = []
    for j in range(n or 0):
        x = M.rngelem(S, v.leaf, L(rf(j)))
        o = mem(M, S, "rview", x[1]) if x is not None and x[1].c is None and isinstance(x[1].leaf, Agg) else None
        order.append(c06.viewid(P, M, S, o))
    if sorted(order, key=repr) != sorted([i for _, i, _ in els]):
        return None
    return M, S, bg, [info[i] for i in order]


def hexahedron(l, u):
    return [[(l, u)[b][k] for k, b in enumerate(c)] for c in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))]


def grids(C):
    P = C.P
    for els in ([("t", 1, 2), ("u", 4, 1)], [("u", 2, 2), ("u", 1, 0), ("t", 3, 1)], [("t", 2, 1)], []):
        def scene(enc, points):
            g = gridscene(C, els)
            if g is None:
                return None
            M, S, bg, order = g
            def box(s, tag):
                l = vec("%sl%s" % (s, tag))
                return l, [a + d for a, d in zip(l, vec("%sd%s" % (s, tag), nn=True))]
            if not points:
                pts = [p for tag, _ in order for p in hexahedron(*box("g", tag))]
                return M, S, bg, vtk(C, M, enc, pts, [tuple(range(8 * i, 8 * i + 8)) for i in range(len(order))], 12)
            pts, ws = [], []
            for tag, np in order:
                (gl, gu), (pl, pu) = box("g", tag), box("p", tag)
                det = rf(1)
                for k in range(3): det = det * (gu[k] - gl[k]) / (pu[k] - pl[k])
                for j in range(np):
                    x = vec("p%s_%d_" % (tag, j))
                    pts.append([gl[k] + (x[k] - pl[k]) * (gu[k] - gl[k]) / (pu[k] - pl[k]) for k in range(3)])
                    ws.append(atomrf(("in", "w%s_%d" % (tag, j))) * det)
            return M, S, bg, vtk(C, M, enc, pts, [(i,) for i in range(len(pts))], 1, ws)
        alg.reset()
        if scene("ascii", False) is None:
            raise qa.Broken("the elements of a grid do not fold to a list")
        for name in ("WriteElementsToVTK", "WritePointsToVTK"):
            for enc in ("binary", "ascii"):
                for f in C.fns(name)[:1]:
                    C.write(f, lambda e: scene(e, name == "WritePointsToVTK"), enc, "%s, %s, elements %s" % (name, enc, " ".join("%s%d:%d" % e for e in els)), None)


def conditions(C):
    P = C.P
    fs = C.fns("WriteConditionToSTL")
    rec = fs[0].params[0].t.noref.rec
    add = [f for f in P.funcs.values() if f.decl.rec == rec and f.decl.n == "AddSegment" and f.body is not None]
    ctor = [f for f in P.funcs.values() if f.decl.rec == rec and f.decl.ctor and len(f.params) == 2 and f.body is not None]
    seg = [f for f in P.funcs.values() if f.decl.ctor and f.decl.n == "ConditionSegment" and len(f.params) == 2 and f.body is not None]
    clip = [f for f in P.funcs.values() if f.decl.ctor and f.q == "queso::ClippedTriangleMesh::ClippedTriangleMesh" and len(f.params) == 1 and "TriangleMesh &&" in f.params[0].t.s and "unique_ptr" not in f.params[0].t.s]
    if not add or not ctor or not seg or not clip:
        raise qa.Broken("anchor vanished: Condition, ConditionSegment or ClippedTriangleMesh")
    for parts in ([[(0, 1, 2)], [(2, 3, 0), (3, 1, 0)]], [[], [(1, 2, 3)]], []):
        def scene(enc):
            M = vn.VN(P); S = vn.State()
            c = mem(M, S, "condition", L(Agg({}, None, None)), vn._Ty(s=rec, rec=rec))
            M.call(ctor[0], [L(M.objref(("obj", ("in", "cs")), ctor[0].params[0].t.p)), L(M.objref(("obj", ("in", "ci")), ctor[0].params[1].t.p))], c, S)
            T = []
            for k, tris in enumerate(parts):
                vs, ns = symbols("x%d" % k, 4), symbols("n%d" % k, len(tris))
                m = c29.mesh(M, S, P, "m%d" % k, vs, tris, ns)
                T += [(ns[i], [vs[j] for j in t]) for i, t in enumerate(tris)]
                cm = c29.obj(M, S, P, "queso::ClippedTriangleMesh", "c%d" % k)
                M.call(clip[0], [m], cm, S)
                sg = mem(M, S, "s%d" % k, L(Agg({}, None, None)), vn._Ty(s=seg[0].decl.rec, rec=seg[0].decl.rec))
                M.call(seg[0], [L(rf(k)), cm], sg, S)
                M.call(add[0], [sg], c, S)
            return M, S, c, stl(C, M, enc, T)
        for enc in ("binary", "ascii"):
            C.write(fs[0], scene, enc, "WriteConditionToSTL, %s, segments of %s triangles" % (enc, [len(x) for x in parts]), None)


def writer(C, tier):
    """the buffered writer on its own, its buffer modelled byte by byte: every byte arrives once, in order, in the byte order asked for"""
    P = C.P; R = C.R
    F = [f for f in P.funcs.values() if f.decl.rec == W and f.body is not None]
    ctor = [f for f in F if f.decl.ctor and len(f.params) >= 2]
    dtor = [f for f in F if f.decl.n.startswith("~")]
    val = {f.params[0].t.noref.s.replace("const ", ""): f for f in F if f.decl.n == "WriteValue" and len(f.params) == 1}
    raw = [f for f in F if f.decl.n == "WriteRaw"]; arrs = [f for f in F if f.decl.n == "WriteArray"]; flush = [f for f in F if f.decl.n == "Flush"]
    if not ctor or not dtor or not raw or len(val) < 3:
        raise qa.Broken("anchor vanished: BinaryBufferWriter")
    f = ctor[0]
    hist = [["d", "i", "d"], ["r3", "d", "s", "i"], ["i", "r12", "i", "d"], ["r5", "r5", "r5", "r5"], ["a", "s", "a"], ["d", "F", "s", "F", "F", "i"], ["r0", "i"], [], ["s"] * 9]
    SZ = {"d": ("double", 8), "i": ("unsigned int", 4), "s": ("unsigned short", 2), "f": ("float", 4)}
    for cap in (1, 4, 8, 9, 16, 64) if tier == "quick" else range(1, 40):
        for endian in ("little", "big"):
            for h in hist:
                inst = "buffer of %d bytes, %s endian, %s" % (cap, endian, " ".join(h) or "nothing")
                alg.reset()
                M = vn.VN(P); M.bytes = True; S = vn.State()
                st = Streams(P, "ok", writer=False); st.install(M); M.dtors = {}
                out = mem(M, S, "out", L(Agg({}, None, None)), f.params[0].t.noref)
                w = mem(M, S, "writer", L(Agg({}, None, None)), vn._Ty(s=W, rec=W))
                S.jump = L("go")
                r = M.call(f, [out, L(rf(C.end[endian])), L(rf(cap))][:len(f.params)], w, S)
                want = []
                def number(key, size, name):
                    v = L(atomrf(("in", name)))
                    o = mem(M, S, name, v, vn._Ty(s=key, flt=1) if key in ("double", "float") else vn._Ty(s=key, int=8 * size, uns=1))
                    bs = [("byte", alg.lkey(v.leaf), size, k) for k in range(size)]
                    want.extend(bs if endian == "little" else bs[::-1])
                    return v, o
                ok = True
                for k, op in enumerate(h):
                    if op in ("d", "i", "s"):
                        key, size = SZ[op]
                        if key not in val: ok = False; break
                        M.call(val[key], [number(key, size, "v%d" % k)[1]], w, S)
                    elif op == "a":
                        a = [x for x in arrs if "float" in x.params[0].t.s]
                        if not a: ok = False; break
                        n = a[0].params[0].t.noref.n or 12
                        vs = [number("float", 4, "v%d_%d" % (k, j))[0] for j in range(n)]
                        M.call(a[0], [mem(M, S, "arr%d" % k, L(Agg(dict(enumerate(vs)), None, None)), a[0].params[0].t.noref)], w, S)
                    elif op[0] == "r":
                        n = int(op[1:])
                        bs = [("raw", k, j) for j in range(n)]; want.extend(bs)
                        root = ("loc", "in", "chars%d" % k); S.st[root] = L(Agg({j: L(Opq(b, None)) for j, b in enumerate(bs)}, None, None))
                        M.call(raw[0], [L(alg.Itr(Ref(root, (), None), rf(0))), L(rf(n))], w, S)
                    elif op == "F":
                        M.call(flush[0], [], w, S)
                if not ok:
                    R.notes.append("%s: an overload is not instantiated" % inst); continue
                M.call(dtor[0], [], w, S)
                R.count("obligations"); R.count("buffer histories")
                if any(isinstance(x, Bot) for x in alg.leaves(S.jump)):
                    R.violation(f.loc, "the buffered writer delivers every byte", inst, "an operation does not return"); continue
                items = st.content(S)
                got = [i["v"].leaf.key if i["kind"].leaf.s == "byte" and i["v"].c is None and isinstance(i["v"].leaf, Opq) else str(i.get("v")) for i in items] if items is not None and not st.bad else None
                if got is None:
                    R.violation(f.loc, "the buffered writer delivers every byte", inst, "; ".join(st.bad[:2]) or "what is written depends on a condition"); continue
                if got != want:
                    j = next((j for j in range(max(len(got), len(want))) if j >= len(got) or j >= len(want) or got[j] != want[j]), 0)
                    R.violation(f.loc, "the buffered writer delivers every byte once, in order and in the byte order asked for", inst, "byte %d of %d: written %s, expected %s" % (j, len(want), str(got[j:j + 1])[:80], str(want[j:j + 1])[:80]))


def run(R, tier):
    P = load(R, ["queso/io/io_utilities.cpp", "queso/embedded_model.cpp", "queso/utilities/mesh_utilities.cpp"])
    C = Check(R, P)
    meshes(C)
    grids(C)
    conditions(C)
    writer(C, tier)
    R.expect("obligations", 800)
