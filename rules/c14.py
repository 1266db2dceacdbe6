"""C14: reading an STL file yields its triangles, in binary and ASCII, and damaged files are refused.
Rule: value numbering folds the reader over files whose coordinates are symbols: all vertices are one symbolic position plus
distinct constant offsets, so that the look-up of equal vertices folds with the library's own comparison.  The mesh is compared
with the file triangle by triangle.  Files that end at any byte of a binary file or before any line of an ASCII facet, or that
lack a keyword or a coordinate, must be refused."""
import qa, alg, vn
import c29
from instreams import Inputs, SYM
from vnlib import *

IO = "queso::IO::"


class Case:
    """triangles as triples of offsets; the same offset is the same vertex"""
    def __init__(self, tris):
        self.tris = tris; self.pts = []
        for t in tris:
            for p in t:
                if p not in self.pts: self.pts.append(p)

    def symbols(self):
        b = vec("b")
        self.pos = {p: [b[k] + rf(p[k]) for k in range(3)] for p in self.pts}
        self.syms = []; self.ids = {}
        for ti, t in enumerate(self.tris):
            for pi, p in enumerate(t):
                for k in range(3):
                    self.ids[ti, pi, k] = len(self.syms); self.syms.append(self.pos[p][k])
        for ti in range(len(self.tris)):
            for k in range(3):
                self.ids[ti, "n", k] = len(self.syms); self.syms.append(atomrf(("in", "filenormal%d_%d" % (ti, k))))

    def binary(self, header="Some header"):
        out = Inputs.text(header)[:80]; out += [0] * (80 - len(out))
        out += list(len(self.tris).to_bytes(4, "little"))
        for ti in range(len(self.tris)):
            for w in ("n", 0, 1, 2):
                for k in range(3): out += [(self.ids[ti, w, k], 4, j) for j in range(4)]
            out += [ti % 3, 0]
        return out

    def ascii(self, indent="", name="name"):
        out = ["solid " + name]
        num = lambda t, w: " ".join(SYM % self.ids[t, w, k] for k in range(3))
        for t in range(len(self.tris)):
            out += ["facet normal " + num(t, "n"), indent + "outer loop"] + [indent * 2 + "vertex " + num(t, w) for w in range(3)] + [indent + "endloop", "endfacet"]
        return out + ["endsolid " + name]


def bytesof(lines, end=True):
    return Inputs.text("\n".join(lines) + ("\n" if end else ""))


def read(C, P, case, data, opens=True):
    """(mesh reference, VN, state, refused, inputs)"""
    f = [g for g in P.by_q(IO + "ReadMeshFromSTL") if len(g.params) == 2 and g.body is not None]
    if not f:
        raise qa.Broken("anchor vanished: IO::ReadMeshFromSTL")
    f = f[0]
    M = vn.VN(P); S = vn.State()
    I = Inputs(P, data, case.syms, opens); I.install(M)
    # the mesh held something before
    old = [vec("old%d_" % i) for i in range(3)]
    m = c29.mesh(M, S, P, "m", old, [(0, 1, 2)], [vec("oldn")])
    S.jump = L("go")
    r = M.call(f, [m, mem(M, S, "file", L(vn.Str("file.stl")), f.params[1].t.noref)], None, S)
    bots = [isinstance(x, Bot) for x in alg.leaves(r)] + [isinstance(x, Bot) for x in alg.leaves(S.jump)]
    return f, m, M, S, ("yes" if all(bots) or all(isinstance(x, Bot) for x in alg.leaves(r)) or all(isinstance(x, Bot) for x in alg.leaves(S.jump)) else "some" if any(bots) else "no"), I


def accept(R, P, case, data, inst):
    R.count("obligations"); R.count("files")
    f, m, M, S, ref, I = read(R, P, case, data)
    if I.bad:
        R.violation(f.loc, "the file is read value by value", inst, I.bad[0]); return
    if ref != "no":
        R.violation(f.loc, "a correct file is read", inst, "the file is refused"); return
    S.jump = L("go")
    c = c29.content(M, S, P, m, inst)
    if c is None:
        R.violation(f.loc, "the mesh holds the triangles of the file", inst, "the vertices of the mesh depend on unresolved conditions"); return
    V, T, N = c
    if len(T) != len(case.tris):
        R.violation(f.loc, "the mesh holds every triangle of the file once", inst, "%d triangles, expected %d" % (len(T), len(case.tris))); return
    R.count("obligations", 4 * len(T) + 1)
    if len(V) != len(case.pts):
        R.violation(f.loc, "vertices at the same position are stored once, all others apart", inst, "%d vertices, expected %d" % (len(V), len(case.pts)))
    nf = [g for g in P.by_q("queso::TriangleUtilities::Normal") if g.body is not None]
    for i, t in enumerate(case.tris):
        for j in range(3):
            x = T[i][j]
            x = x.leaf.const if x.c is None and isinstance(x.leaf, RF) else None
            if x is None or not 0 <= x < len(V):
                R.violation(f.loc, "triangles refer to vertices of the mesh", inst, "triangle %d, corner %d: index %s" % (i, j, T[i][j])); return
            for k in range(3):
                if alg.differ(V[int(x)][k], L(case.pos[t[j]][k])) is not None:
                    R.violation(f.loc, "the mesh holds the triangles of the file, in order", inst, "triangle %d, corner %d: %s, expected %s" % (i, j, [str(v) for v in V[int(x)]], [str(v) for v in case.pos[t[j]]])); return
        # the normal of the corners: perpendicular to two edges, of length one, in the direction of the corners' order
        a, b, c3 = [case.pos[p] for p in t]
        w = c29.cross(c29.sub(b, a), c29.sub(c3, a))
        n2 = sum((x.const * x.const for x in w), alg.Fraction(0))
        got = [c29.const(N[i][k]) for k in range(3)] if i < len(N) else [None] * 3
        if None in got:
            got = [c29.num(N[i][k]) for k in range(3)] if i < len(N) else [None] * 3
        if None in got or any(abs(float(g) - float(x.const) / float(n2) ** .5) > 1e-12 for g, x in zip(got, w)):
            R.violation(f.loc, "each triangle carries the normal of its corners", inst, "triangle %d: %s" % (i, [str(x) for x in (N[i] if i < len(N) else [])])); return


def refuse(R, P, case, data, inst, opens=True):
    R.count("obligations"); R.count("damaged files")
    f, m, M, S, ref, I = read(R, P, case, data, opens)
    if ref == "yes": return
    R.violation(f.loc, "a damaged file is refused", inst, "the file is %s" % ("accepted" if ref == "no" else "refused under conditions only"))


def run(R, tier):
    P = load(R, ["queso/io/io_utilities.cpp"])
    a, b, c, d, e = (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 2), (1, 0, 2)
    cases = [("one triangle", [(a, b, c)]), ("two triangles sharing an edge", [(a, b, c), (c, b, d)]), ("a tetrahedron", [(a, c, b), (a, b, d), (b, c, d), (c, a, d)]),
             ("separate triangles", [(a, b, c), ((3, 4, 5), (3, 5, 5), (3, 4, 7))]), ("corners that differ along the last axis only", [(a, d, b), (b, e, d)]), ("the same triangle in both directions", [(a, b, c), (a, c, b)]), ("corners close to each other", [(a, b, (0, 0, alg.Fraction(1, 1 << 20))), (a, (0, alg.Fraction(1, 1 << 20), 0), b), ((alg.Fraction(-1, 1 << 20), 0, 0), c, a)]), ("no triangle", [])]
    for name, tris in cases:
        alg.reset(); k = Case(tris); k.symbols()
        accept(R, P, k, k.binary(), "binary, " + name)
        for indent, solid in (("", "name"), ("  ", "")):
            alg.reset(); k.symbols()
            accept(R, P, k, bytesof(k.ascii(indent, solid)), "ASCII, %s%s" % (name, ", indented" if indent else ""))
    alg.reset(); k = Case(cases[1][1]); k.symbols()
    accept(R, P, k, bytesof(k.ascii(), False), "ASCII, no line break at the end")
    alg.reset(); k.symbols()
    refuse(R, P, k, k.binary(), "a file that cannot be opened", False)
    # binary files that end early: at every byte
    n = len(k.binary())
    step = 1 if tier == "thorough" else 3
    for t in sorted(set(range(0, n, step)) | {0, 79, 80, 83, 84, 95, 96, 131, 132, 133, 134, n - 1}):
        if t >= n: continue
        alg.reset(); k.symbols()
        refuse(R, P, k, k.binary()[:t], "binary file of two triangles cut after %d of %d bytes" % (t, n))
    lines = k.ascii()
    for i in range(2, len(lines) - 1):
        alg.reset(); k.symbols()
        l = k.ascii()
        if not l[i].startswith("facet"):
            refuse(R, P, k, bytesof(l[:i]), "ASCII file cut before line %d (%s)" % (i + 1, l[i].split()[0]))
        if not l[i].startswith("facet"):
            alg.reset(); k.symbols()
            refuse(R, P, k, bytesof(l[:i] + l[i + 1:]), "ASCII file without line %d (%s)" % (i + 1, l[i].split()[0]))
        if l[i].startswith("vertex"):
            for m in (1, 2, 3):
                alg.reset(); k.symbols()
                refuse(R, P, k, bytesof(l[:i] + [" ".join(l[i].split()[:m])] + l[i + 1:]), "ASCII file, line %d with %d coordinates" % (i + 1, m - 1))
            alg.reset(); k.symbols()
            refuse(R, P, k, bytesof(l[:i] + ["vertex " + l[i].split()[1] + " nonsense " + l[i].split()[3]] + l[i + 1:]), "ASCII file, line %d with a word for a coordinate" % (i + 1))
    R.expect("obligations", 150)
