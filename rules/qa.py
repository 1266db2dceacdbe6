"""Program model: loads the resolved AST/CFG facts that tool/qfacts extracts from
/repo's current sources and offers call resolution, CFG helpers and reporting."""
import glob, hashlib, json, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QUESO_REPO", "/repo")
QF = os.path.join(VERIF, "build", "qfacts")


class Broken(Exception):
    """the analysis itself could not run / an anchor vanished"""


def lib_tus():
    out = []
    for f in sorted(glob.glob(REPO + "/queso/**/*.cpp", recursive=True)):
        if "/tests/" in f or "/python/" in f:
            continue
        out.append(f)
    out += sorted(glob.glob(REPO + "/external_libraries/aabb_tree/*.cc"))
    return out


def py_tus():
    return sorted(glob.glob(REPO + "/queso/python/bindings/*.cpp"))


def tab_tus():
    return sorted(glob.glob(REPO + "/queso/quadrature/integration_points_1d/precomputed*.cpp"))


def flags(release=False):
    r = ["-std=gnu++20", "-fopenmp", "-w", "-ferror-limit=5", "-DQUESO_BUILD_TESTING=0",
         "-I" + VERIF + "/shim", "-I/usr/include/python3.12", "-I" + REPO, "-I" + REPO + "/queso",
         "-I" + REPO + "/external_libraries", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    if release:
        r.append("-DNDEBUG")
    return r


class Decl:
    __slots__ = ("k", "n", "q", "key", "t", "f", "l", "raw", "prog", "tu", "uid")

    def __getattr__(self, a):  # optional raw attributes
        if a.startswith("__"):
            raise AttributeError(a)
        return self.raw.get(a)

    def __repr__(self):
        return "<%s %s>" % (self.k, self.key or self.q)


class Type:
    __slots__ = ("s", "raw", "tu")

    def __init__(self, raw, tu):
        self.raw = raw; self.tu = tu; self.s = raw["s"]

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        v = self.raw.get(a)
        if a == "p":
            return self.tu.types[v] if v is not None else None
        if a == "args":
            return [self.tu.types[x] if isinstance(x, int) else x for x in (v or [])]
        return v

    @property
    def base(self):
        t = self
        while t.ref or t.ptr:
            t = t.p
        return t

    @property
    def noref(self):
        return self.p if self.ref else self

    def __repr__(self):
        return self.s


class Node:
    __slots__ = ("raw", "k", "parent", "fn", "named", "_ch", "role")
    NAMED = ("init", "range", "beg", "end", "var", "cond", "then", "else", "inc", "body", "val", "sub")

    def __init__(self, raw, fn, parent, role=None):
        self.raw = raw; self.k = raw["k"]; self.parent = parent; self.fn = fn; self.role = role
        self.named = {}
        self._ch = None
        fn.nodes.setdefault(raw["i"], self)
        ch = []
        for nm in Node.NAMED:
            r = raw.get(nm)
            if isinstance(r, dict):
                c = Node(r, fn, self, nm); self.named[nm] = c; ch.append(c)
        for r in raw.get("c", ()):
            if r is not None:
                ch.append(Node(r, fn, self, "c"))
        if self.k == "LambdaExpr":
            for i, cp in enumerate(raw.get("caps", ())):
                if isinstance(cp.get("init"), dict):
                    ch.append(Node(cp["init"], fn, self, "capinit%d" % i))
        self._ch = ch

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        if a in Node.NAMED:
            return self.named.get(a)
        return self.raw.get(a)

    @property
    def id(self): return self.raw["i"]

    @property
    def line(self): return self.raw.get("l")

    @property
    def file(self): return self.fn.tu.files[self.raw["f"]] if "f" in self.raw else self.fn.file

    @property
    def loc(self): return "%s:%s" % (rel(self.file), self.line)

    @property
    def type(self):
        t = self.raw.get("t")
        return self.fn.tu.types[t] if t is not None and t >= 0 else None

    @property
    def decl(self):
        d = self.raw.get("d")
        return self.fn.tu.decls[d] if d is not None else None

    @property
    def ch(self): return self._ch

    @property
    def args(self):
        """call arguments without the implicit object"""
        c = [x for x in self._ch if x.role == "c"]
        if self.raw.get("mc") or self.raw.get("ind"):
            return c[1:]
        return c

    @property
    def obj(self):
        return self._ch[0] if self.raw.get("mc") and self._ch else None

    @property
    def ic(self): return self.raw.get("ic") or []

    @property
    def cv(self): return self.raw.get("cv")

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n._ch))

    def up(self):
        n = self.parent
        while n is not None:
            yield n
            n = n.parent

    def is_call(self):
        return self.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "UserDefinedLiteral", "CXXInheritedCtorInitExpr")

    def __repr__(self):
        return "<%s@%s>" % (self.k, self.loc)

    def src(self):
        return expr_str(self)


def rel(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + "/") else f


class Func:
    def __init__(self, raw, tu, prog):
        self.raw = raw; self.tu = tu; self.prog = prog
        self.key = raw["key"]; self.decl = tu.decls[raw["d"]]
        self.file = tu.files[raw["f"]]; self.line = raw["l"]
        self.params = [tu.decls[x] for x in raw["params"]]
        self._body = None; self._nodes = None; self._cfg = None; self._inits = None
        self.is_lambda = "::lambda@" in self.key and bool(self.decl.lambda_)  if False else "::lambda@" in self.key

    def _load(self):
        if self._nodes is None:
            self._nodes = {}
            self._body = Node(self.raw["body"], self, None, "fnbody")
            self._inits = []
            for i in self.raw.get("inits", ()):
                if i.get("e"):
                    n = Node(i["e"], self, None, "ctorinit")
                    self._inits.append((self.tu.decls[i["d"]] if "d" in i else None, n, i))

    @property
    def nodes(self):
        if self._nodes is None:
            self._load()
        return self._nodes

    @property
    def body(self):
        self._load() if self._nodes is None else None
        return self._body

    @property
    def inits(self):
        if self._nodes is None:
            self._load()
        return self._inits

    @property
    def name(self): return self.decl.n

    @property
    def q(self): return self.decl.q

    @property
    def loc(self): return "%s:%s" % (rel(self.file), self.line)

    def walk(self):
        for _, n, _ in self.inits:
            yield from n.walk()
        yield from self.body.walk()

    def calls(self):
        for n in self.walk():
            if n.is_call():
                yield n

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg

    def __repr__(self):
        return "<Func %s>" % self.key


class CFG:
    def __init__(self, fn):
        self.fn = fn
        self.blocks = {}
        for b in fn.raw.get("cfg", ()):
            self.blocks[b["b"]] = b
        if not self.blocks:
            raise Broken("no CFG for %s" % fn.key)
        self.entry = fn.raw["entry"]; self.exit = fn.raw["exit"]
        self.succ = {b: [s for s in x["s"] if s is not None] for b, x in self.blocks.items()}
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss:
                if s in self.pred:
                    self.pred[s].append(b)
        self.pos = {}
        for b, x in self.blocks.items():
            for i, e in enumerate(x["e"]):
                if isinstance(e, int):
                    self.pos[e] = (b, i)  # last wins
        nodes = fn.nodes

    def node_pos(self, n):
        """CFG position of a node (climbs to the nearest mapped ancestor)"""
        m = n
        while m is not None:
            if m.id in self.pos:
                return self.pos[m.id]
            m = m.parent
        return None

    def reach(self, start, skip=()):
        seen = set(); st = [start]
        while st:
            b = st.pop()
            if b in seen or b in skip:
                continue
            seen.add(b); st.extend(self.succ.get(b, ()))
        return seen

    def dominators(self):
        if hasattr(self, "_dom"):
            return self._dom
        order = list(self.reach(self.entry))
        alln = set(order)
        dom = {b: set(alln) for b in order}; dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == self.entry:
                    continue
                ps = [dom[p] for p in self.pred[b] if p in dom]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd; ch = True
        self._dom = dom
        return dom

    def dominates(self, a, b):
        """node a evaluated before node b on every path reaching b"""
        pa, pb = self.node_pos(a), self.node_pos(b)
        if pa is None or pb is None:
            return False
        if pa[0] == pb[0]:
            return pa[1] < pb[1]
        return pa[0] in self.dominators().get(pb[0], ())

    def throws(self, b):
        """block ends in a throw (leads to exit through no-return)"""
        x = self.blocks[b]
        for e in x["e"]:
            if isinstance(e, int) and self.fn.nodes[e].k == "CXXThrowExpr":
                return True
        return bool(x.get("nr"))


class TU:
    def __init__(self, d, prog):
        self.files = d["files"]
        self.types = [Type(t, self) for t in d["types"]]
        self.decls = []
        for raw in d["decls"]:
            x = Decl(); x.raw = raw; x.k = raw["k"]; x.n = raw["n"]; x.q = raw.get("q"); x.prog = prog; x.tu = self
            x.key = raw.get("key")
            x.f = self.files[raw["f"]]; x.l = raw["l"]
            t = raw.get("t"); x.t = self.types[t] if t is not None and t >= 0 else None
            if x.k == "fn": x.uid = "fn:" + x.key
            elif x.k == "field": x.uid = "field:%s::%s" % (raw.get("rec"), x.n)
            elif x.k == "enumc": x.uid = "enumc:" + x.q
            elif raw.get("glob") and not raw.get("slocal"): x.uid = "glob:" + x.q + ("@" + x.f if 0 else "")
            else: x.uid = None
            self.decls.append(x)


class Prog:
    def __init__(self):
        self.funcs = {}; self.records = {}; self.enums = {}; self.vars = {}; self.tus = []; self.bydecl = {}
        self.over = {}

    def add(self, d):
        tu = TU(d, self); self.tus.append(tu)
        for r in d["funcs"]:
            if r["key"] not in self.funcs:
                self.funcs[r["key"]] = Func(r, tu, self)
        for r in d["records"]:
            if r["n"] not in self.records:
                R = Record(r, tu); self.records[r["n"]] = R
        for r in d["enums"]:
            self.enums.setdefault(r["q"], {"q": r["q"], "file": tu.files[r["f"]], "line": r["l"], "e": r["e"]})
        for r in d["vars"]:
            dc = tu.decls[r["d"]]
            k = (dc.q, dc.f if dc.slocal else "", dc.l if dc.slocal else 0, dc.infn or "")
            if k not in self.vars or ("init" in r and not self.vars[k].raw.get("init")):
                self.vars[k] = Var(r, tu, self)
        for x in tu.decls:
            if x.k == "fn":
                for o in x.raw.get("over", ()):
                    self.over.setdefault(o, set()).add(x.key)

    def by_q(self, q):
        """functions by unqualified-template qualified name"""
        if not hasattr(self, "_byq"):
            self._byq = {}
            for f in self.funcs.values():
                self._byq.setdefault(f.q, []).append(f)
        return self._byq.get(q, [])

    def need(self, q, n=1):
        r = self.by_q(q)
        if len(r) < n:
            raise Broken("anchor vanished: function %s" % q)
        return r

    def targets(self, call):
        """resolved callee functions with bodies (virtual: all overriders)"""
        d = call.decl
        if d is None or d.k != "fn":
            return []
        out = []
        if d.key in self.funcs:
            out.append(self.funcs[d.key])
        if call.vc:
            st = [d.key]; seen = set()
            while st:
                k = st.pop()
                for o in self.over.get(k, ()):
                    if o not in seen:
                        seen.add(o); st.append(o)
                        if o in self.funcs:
                            out.append(self.funcs[o])
        return out

    def lambdas_in_args(self, call):
        out = []
        for a in call.args:
            out += self.lambda_funcs(a)
        return out

    def lambda_funcs(self, a):
        """lambda bodies an expression may denote (direct LambdaExpr or local variable initialised by one)"""
        out = []
        if a.k == "LambdaExpr":
            ds = [a.decl] if a.raw.get("d") is not None else [a.fn.tu.decls[x] for x in a.raw.get("gen", ())]
            for d in ds:
                if d.key in self.funcs:
                    out.append(self.funcs[d.key])
        elif a.k in ("CXXConstructExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "InitListExpr", "CXXTemporaryObjectExpr", "CallExpr"):
            for c in a.ch:
                out += self.lambda_funcs(c)
        elif a.k == "DeclRefExpr" and a.decl is not None:
            rec = a.decl.t.base.rec if a.decl.t is not None else None
            if rec and "lambda" in rec:
                for f in self.funcs.values():
                    if f.decl.rec == rec and f.decl.lambda_fn():
                        out.append(f)
        return out

    def file_funcs(self, pat):
        return [f for f in self.funcs.values() if pat in f.file]


class Record:
    def __init__(self, raw, tu):
        self.raw = raw; self.tu = tu; self.name = raw["n"]; self.q = raw["q"]
        self.file = tu.files[raw["f"]]; self.line = raw["l"]
        self.fields = [tu.decls[x["d"]] for x in raw["fields"]]
        self.finit = {tu.decls[x["d"]].n: x for x in raw["fields"]}
        self.methods = [tu.decls[x] for x in raw["methods"]]
        self.bases = [tu.types[x] for x in raw["bases"]]
        self.friends = raw.get("friends", [])

    @property
    def loc(self): return "%s:%s" % (rel(self.file), self.line)


class Var:
    def __init__(self, raw, tu, prog):
        self.raw = raw; self.tu = tu; self.decl = tu.decls[raw["d"]]; self.type = tu.types[raw["t"]]
        self.prog = prog; self.nodes = {}; self._i = None; self.key = self.decl.q
        self.file = self.decl.f

    @property
    def init(self):
        if self._i is None and self.raw.get("init"):
            self._i = Node(self.raw["init"], self, None, "init")
        return self._i

    @property
    def loc(self): return "%s:%s" % (rel(self.decl.f), self.decl.l)


def _lam(self):
    return bool(self.raw.get("lambda")) and "operator()" in (self.q or "")
Decl.lambda_fn = _lam


def _run(tu, release, outdir):
    out = os.path.join(outdir, hashlib.md5(tu.encode()).hexdigest() + ".json")
    cmd = [QF, "--out=" + out, "--root=" + REPO + "/queso/", "--root=" + REPO + "/external_libraries/aabb_tree/",
           "--root=" + REPO + "/external_libraries/nnls/", "--root=" + VERIF + "/tu/", "--exclude=/queso/tests/", tu, "--"] + flags(release)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise Broken("cannot analyse %s:\n%s" % (tu, p.stdout[-2000:]))
    with open(out) as f:
        return json.load(f)


def load(tus=None, release=False, tables=False):
    if not os.path.exists(QF):
        r = subprocess.run([VERIF + "/tool/build.sh"])
        if r.returncode:
            raise Broken("cannot build tool/qfacts")
    if tus is None:
        tus = lib_tus() + py_tus()
    if not tables:
        tt = set(tab_tus())
        tus = [t for t in tus if t not in tt]
    P = Prog(); P.tu_names = [rel(t) for t in tus]; P.release = release
    with tempfile.TemporaryDirectory(prefix="qfacts") as td:
        with ThreadPoolExecutor(8) as ex:
            for d in ex.map(lambda t: _run(t, release, td), tus):
                P.add(d)
    return P


# ---------------------------------------------------------------- printing
def expr_str(n, depth=0):
    if n is None or depth > 12:
        return "..."
    e = lambda x: expr_str(x, depth + 1)
    k = n.k
    if k in ("DeclRefExpr",): return n.decl.n
    if k == "MemberExpr":
        o = e(n.ch[0]) if n.ch else "this"
        return (o + "." if o != "this" else "") + n.decl.n
    if k == "CXXThisExpr": return "this"
    if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"): return str(n.cv if n.cv is not None else n.raw.get("cvs"))
    if k == "StringLiteral": return json.dumps(n.s or "")
    if k in ("BinaryOperator", "CompoundAssignOperator"): return "(%s %s %s)" % (e(n.ch[0]), n.op, e(n.ch[1]))
    if k == "UnaryOperator": return ("%s%s" % (e(n.ch[0]), n.op[1:])) if n.op.startswith("p") else "%s%s" % (n.op, e(n.ch[0]))
    if k == "ArraySubscriptExpr": return "%s[%s]" % (e(n.ch[0]), e(n.ch[1]))
    if k == "CXXOperatorCallExpr":
        a = [e(x) for x in n.ch]
        if n.op == "[]": return "%s[%s]" % (a[0], a[1])
        if n.op == "()": return "%s(%s)" % (a[0], ", ".join(a[1:]))
        if len(a) == 1: return "%s%s" % (n.op, a[0])
        return "(%s %s %s)" % (a[0], n.op, a[1]) if len(a) == 2 else "%s(%s)" % (n.op, ",".join(a))
    if k == "CXXMemberCallExpr" and n.decl is not None:
        o = e(n.obj)
        return "%s%s(%s)" % (o + "." if o != "this" else "", n.decl.n, ", ".join(e(x) for x in n.args))
    if n.is_call():
        return "%s(%s)" % (n.decl.n if n.decl is not None else "?", ", ".join(e(x) for x in n.args))
    if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"): return "%s(%s)" % (n.type.s, ", ".join(e(x) for x in n.ch))
    if k == "ConditionalOperator": return "(%s ? %s : %s)" % tuple(e(x) for x in n.ch)
    if k == "InitListExpr": return "{%s}" % ", ".join(e(x) for x in n.ch)
    if k == "VarDecl": return "%s %s" % (n.decl.t.s, n.decl.n) + ((" = " + e(n.ch[0])) if n.ch else "")
    return k + ("(%s)" % ", ".join(e(x) for x in n.ch[:3]) if n.ch else "")


# ---------------------------------------------------------------- reporting
class Report:
    """collects violations and coverage of one check"""

    def __init__(self, pid, rule):
        self.pid = pid; self.rule = rule; self.viol = []; self.cov = {}; self.notes = []; self.insts = []; self.assume = []

    def violation(self, where, rule, inst, detail=""):
        v = {"where": where, "rule": rule, "instance": inst, "detail": detail}
        if v not in self.viol:
            self.viol.append(v)

    def count(self, what, n=1):
        self.cov[what] = self.cov.get(what, 0) + n

    def expect(self, what, minimum):
        if self.cov.get(what, 0) < minimum:
            raise Broken("rule instances below the confirmed minimum: %s = %d < %d" % (what, self.cov.get(what, 0), minimum))


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                out.append(ln.split(" ", 2)[2])
    return out
