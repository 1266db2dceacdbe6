"""Value numbering of C++ functions: every function is reduced to gated normal forms (alg.V) of its
result and of the memory it writes.  Calls are inlined, both sides of a branch are evaluated and joined
by a gate, loops whose guard folds are unrolled, all other loops are summarised (see `Loop`)."""
from fractions import Fraction
import functools
import struct
import qa, alg
from alg import (RF, rf, atomrf, V, L, Agg, Opq, Ref, Bot, Fn, Str, ite, apply, AND, OR, NOT, gt0, eq0)

MAXUNROLL = 300
MAXDEPTH = 24


def lk(t):
    return t


def isnum(t):
    return t is not None and (t.flt or (t.int and not t.ref) or t.enum) and not t.ptr and not t.ref


class State:
    __slots__ = ("st", "jump", "ret")

    def __init__(self, st=None, jump=None, ret=None):
        self.st = {} if st is None else st
        self.jump = jump if jump is not None else L("go")
        self.ret = ret

    def copy(self):
        return State(dict(self.st), self.jump, self.ret)


class Loop:
    """summary of a loop whose trip count is not a constant: one generic iteration
    modified: location -> (value at entry, generic value at iteration start, value at iteration end)"""
    def __init__(self, node, fn):
        self.node = node; self.fn = fn; self.mod = {}; self.cond = None; self.events = []; self.rangevar = None; self.container = None; self.loops = []; self.jump = None; self.guards = ()


class Budget(Exception):
    """more statements evaluated than allowed"""


class Unsupported(Exception):
    pass


def tname(t):
    return t.s if t is not None else "?"


class Frame:
    def __init__(self, fn, this=None, parent=None):
        self.fn = fn; self.vars = dict(parent.vars) if parent else {}; self.this = this


class VN:
    def __init__(self, P, opaque=(), hooks=None, maxdepth=MAXDEPTH, budget=None):
        self.steps = 0; self.budget = budget
        self.P = P; self.opaque = set(opaque); self.hooks = hooks or {}
        self.depth = 0; self.n = 0; self.loops = []; self.events = []; self.bytes = False
        self.rtype = {}; self.unmodelled = {}; self.funcs_seen = set(); self.maxdepth = maxdepth
        self.curloops = self.loops; self.guards = []; self.lstack = []

    # ---------------------------------------------------------------- values from types
    def fresh(self, kind="t"):
        self.n += 1
        return (kind, self.n)

    def opaque_of(self, key, t):
        """unknown value of a type, named by key"""
        if t is None:
            return L(Opq(key, None))
        if t.ref:
            return L(self.objref(("obj", key), t.p))
        if t.int == 1:
            return alg.cond(("bool", key))
        if t.int or t.enum:
            return L(atomrf(key, nn=bool(t.uns), isint=True))
        if t.flt:
            return L(atomrf(key))
        if t.ptr:
            return L(self.objref(("obj", key), t.p))
        if t.tmpl == "std::span":
            e = t.args[0]
            return L(self.objref(("obj", key), None))
        if t.s.startswith("std::nullptr"):
            return L(Ref(("null",)))
        return L(Opq(key, t))

    def objref(self, root, t):
        self.rtype.setdefault(root, t)
        return Ref(root, (), t)

    def elem_type(self, t):
        if t is None:
            return None
        t = t.base if t.ref else t
        if t.arr or t.ptr:
            return t.p
        if t.tmpl in ("std::array", "std::vector", "std::span", "std::deque", "std::list", "std::optional", "std::unique_ptr", "std::shared_ptr"):
            return t.args[0] if not isinstance(t.args[0], str) else None
        return None

    def field_of(self, v, k, t):
        """field k of a gated object value"""
        def f(x):
            if isinstance(x, Agg):
                if k in x.f:
                    return x.f[k]
                if x.base is not None:
                    return self.opaque_of(("f", x.base.key, k), t)
                if isinstance(k, int) or isinstance(k, str) and x.f:
                    return self.zero(t) if t is not None and isnum(t) else L(Opq(("unset", k), t))
                return L(Opq(("unset", k), t))
            if isinstance(x, Opq):
                return self.opaque_of(("f", x.key, k), t)
            if isinstance(x, Bot):
                return L(x)
            return L(Opq(("f", alg.lkey(x), k), t))
        return apply(f, v)

    def zero(self, t):
        if t is None:
            return L(rf(0))
        if t.int == 1:
            return L(False)
        if isnum(t):
            return L(rf(0))
        if t.ptr:
            return L(Ref(("null",)))
        if t.arr and t.n is not None:
            return L(Agg({i: self.zero(t.p) for i in range(t.n)}, None, t))
        if t.tmpl == "std::array":
            return L(Agg({i: self.zero(t.args[0]) for i in range(int(t.args[1].rstrip("UL")))}, None, t))
        if t.tmpl in ("std::unique_ptr", "std::shared_ptr"):
            return L(Ref(("null",)))
        if t.tmpl == "std::variant" and t.args and not isinstance(t.args[0], str):
            return L(Agg({"alt": L(Str(unconst(t.args[0].s))), 0: self.zero(t.args[0])}, None, t))
        if t.tmpl in ("std::basic_string", "std::basic_string_view"):
            return L(Str(""))
        return L(Agg({}, None, t))

    # ---------------------------------------------------------------- memory
    def load(self, S, ref, t=None):
        def f(r):
            if not isinstance(r, Ref):
                return L(r) if isinstance(r, Bot) else L(Opq(("load", alg.lkey(r)), t))
            return self.load1(S, r, t)
        return apply(f, ref)

    def load1(self, S, r, t=None):
        v = self.root(S, r.root, t if not r.path else None)
        ty = self.rtype.get(r.root)
        for i, k in enumerate(r.path):
            kt = self.sub_type(ty, k)
            last = i == len(r.path) - 1
            if kt is None and last:
                kt = t or r.t
            v = self.field_of(v, k, kt)
            ty = kt
        return v

    def sub_type(self, ty, k):
        if ty is None:
            return None
        if isinstance(k, int) or isinstance(k, tuple):
            return self.elem_type(ty)
        if ty.rec and isinstance(k, str):
            R = self.P.records.get(ty.rec)
            st = [R] if R else []
            while st:
                q = st.pop()
                for fd in q.fields:
                    if fd.n == k:
                        return fd.t
                for b in q.bases:
                    if b.rec in self.P.records:
                        st.append(self.P.records[b.rec])
            if ty.tmpl == "std::pair":
                return ty.args[0] if k == "first" else ty.args[1]
        return None

    def root(self, S, root, t=None):
        v = S.st.get(root)
        if v is None:
            d = self.globd().get(root) if root[0] == "glob" else None
            if d is not None:
                self.rtype.setdefault(root, d.t)
                v = self.globinit(d)
                if v is not None:
                    S.st[root] = v
                    return v
            ty = self.rtype.get(root) or t
            if root[0] == "obj":
                v = self.opaque_of(root[1], ty)
            else:
                v = L(Opq(root, ty))
            S.st[root] = v
        return v

    def globd(self):
        """declarations of the globals met so far, by the place that stands for them"""
        g = getattr(self.P, "_globd", None)
        if g is None:
            g = self.P._globd = {}
        return g

    def store(self, S, ref, val):
        ref = L(ref)
        if ref.c is None:
            if isinstance(ref.leaf, Ref):
                self.store1(S, ref.leaf, val)
            return
        # gated target: every possible target is gated
        for lf, g in self.paths(ref):
            if isinstance(lf, Ref):
                old = self.load1(S, lf)
                self.store1(S, lf, ite(g, val, old))

    def paths(self, v):
        out = []
        def go(x, g):
            if x.c is None:
                out.append((x.leaf, g)); return
            c = alg.mk(x.c, L(True), L(False))
            go(x.hi, AND(g, c)); go(x.lo, AND(g, NOT(c)))
        go(v, L(True))
        return out

    def store1(self, S, r, val):
        cur = self.root(S, r.root, r.t if not r.path else None)
        S.st[r.root] = self.upd(cur, r.path, val, self.rtype.get(r.root))

    def upd(self, cur, path, val, ty):
        if not path:
            return val
        k = path[0]

        def f(x):
            if isinstance(x, Agg):
                sub = x.f.get(k)
                if isinstance(k, tuple):  # symbolic index: forget aliasing elements
                    f2 = {k: self.upd(sub if sub is not None else L(Opq(("f", x.base.key if x.base else ("agg", alg.lkey(x)), k), None)), path[1:], val, self.sub_type(ty, k))}
                    for kk, vv in x.f.items():
                        if isinstance(kk, int) or (isinstance(kk, tuple) and kk != k):
                            continue
                        if kk != k:
                            f2[kk] = vv
                    return L(Agg(f2, Opq(("upd", alg.lkey(x), k, val.id), ty), x.t))
                if sub is None and len(path) > 1:
                    sub = self.field_of(L(x), k, self.sub_type(ty, k))
                elif sub is None:
                    sub = val
                f2 = dict(x.f); f2[k] = self.upd(sub, path[1:], val, self.sub_type(ty, k))
                return L(Agg(f2, x.base, x.t))
            if isinstance(x, Opq):
                sub = self.field_of(L(x), k, self.sub_type(ty, k)) if len(path) > 1 else val
                base = x if not isinstance(k, tuple) else Opq(("upd", x.key, k, val.id), x.t)
                return L(Agg({k: self.upd(sub, path[1:], val, self.sub_type(ty, k))}, base, ty))
            return L(x)
        return apply(f, cur)

    # ---------------------------------------------------------------- running functions
    def call(self, fn, args, this=None, S=None, argrefs=None, parent=None):
        """inline fn with argument values (V; Ref values for reference parameters)"""
        S = S if S is not None else State()
        self.funcs_seen.add(fn.key)
        fr = Frame(fn, this, parent)
        self.n += 1
        fid = self.n
        for i, p in enumerate(fn.params):
            if p.t is not None and p.t.ref:
                a = args[i] if i < len(args) else L(Opq(("arg", i), p.t))
                if not any(isinstance(x, Ref) for x in alg.leaves(a)):
                    root = ("tmp", fid, i); self.rtype[root] = p.t.p; S.st[root] = a
                    a = L(Ref(root, (), p.t.p))
                fr.vars[id(p)] = a
            else:
                root = ("loc", fid, p.n); self.rtype[root] = p.t
                S.st[root] = args[i] if i < len(args) else self.opaque_of(("arg", fid, i), p.t)
                fr.vars[id(p)] = L(Ref(root, (), p.t))
        sj, sr = S.jump, S.ret
        S.jump = L("go"); S.ret = None
        self.depth += 1
        try:
            if fn.decl.ctor:
                self.ctor_inits(S, fr, fn)
            self.stmt(S, fr, fn.body)
        finally:
            self.depth -= 1
        ret = S.ret if S.ret is not None else L(None)
        # abnormal ends dominate the result
        bots = [x for x in alg.leaves(S.jump) if isinstance(x, Bot)]
        if bots:
            ret = apply(lambda j, r: r, S.jump, ret)
            S.jump = apply(lambda j: "go", S.jump)
        else:
            S.jump = L("go")
        if sj.c is None and sj.leaf == "go":
            if bots:
                S.jump = apply(lambda j: j, S.jump)
        S.ret = sr
        return ret

    def ctor_inits(self, S, fr, fn):
        rec = self.P.records.get(fn.decl.rec)
        done = set()
        for d, n, raw in fn.inits:
            if d is not None:
                done.add(d.n)
                ref = apply(lambda r: r.sub(d.n, d.t) if isinstance(r, Ref) else r, fr.this)
                if d.t.ref:
                    self.store(S, ref, self.lv(S, fr, n))
                else:
                    self.store(S, ref, self.rv(S, fr, n))
            elif "base" in raw or raw.get("deleg"):
                if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
                    self.construct(S, fr, n, into=fr.this)

    # ---------------------------------------------------------------- statements
    def stmt(self, S, fr, n):
        self.steps += 1
        if self.budget is not None and self.steps > self.budget:
            raise Budget()
        j = S.jump
        if j.c is None and j.leaf != "go":
            return
        if j.c is not None:
            live = apply(lambda x: x == "go", self.nobot(j))
            S2 = S.copy(); S2.jump = L("go")
            with Path(self, live):
                self.stmt1(S2, fr, n)
            self.join(S, live, S2, S.copy())
            return
        self.stmt1(S, fr, n)

    def nobot(self, v):
        if not any(isinstance(x, Bot) for x in alg.leaves(v)):
            return v
        memo = {}
        def go(x):
            if x.id in memo: return memo[x.id]
            if x.c is None:
                r = L("bot") if isinstance(x.leaf, Bot) else x
            else:
                r = alg.mk(x.c, go(x.hi), go(x.lo))
            memo[x.id] = r
            return r
        return go(v)

    def join(self, S, c, A, B):
        """S := c ? A : B"""
        if c.c is None and not isinstance(c.leaf, Bot):
            src = A if c.leaf else B
            S.st = dict(src.st); S.jump = src.jump; S.ret = src.ret
            return
        st = {}
        for k in set(A.st) | set(B.st):
            a, b = A.st.get(k), B.st.get(k)
            if a is b:
                st[k] = a
            elif a is None or b is None:
                if k[0] == "obj":
                    T = A if a is None else B
                    o = self.root(T, k)
                    st[k] = ite(c, a if a is not None else o, b if b is not None else o)
                else:
                    st[k] = a if a is not None else b
            else:
                st[k] = self.gate(c, a, b)
        S.st = st
        S.jump = ite(c, A.jump, B.jump)
        S.ret = A.ret if A.ret is B.ret else self.gate(c, A.ret if A.ret is not None else L(Opq(("noret",), None)), B.ret if B.ret is not None else L(Opq(("noret",), None)))

    def gate(self, c, a, b):
        if a is b:
            return a
        if a.c is None and b.c is None and isinstance(a.leaf, Agg) and isinstance(b.leaf, Agg):
            x, y = a.leaf, b.leaf
            bk = lambda z: z.base.key if z.base else None
            if bk(x) == bk(y):
                f = {}
                for k in set(x.f) | set(y.f):
                    p, q = x.f.get(k), y.f.get(k)
                    if p is None: p = self.field_of(a, k, None if q is None else self.leaft(q))
                    if q is None: q = self.field_of(b, k, self.leaft(p))
                    f[k] = self.gate(c, p, q)
                return L(Agg(f, x.base, x.t))
        if a.c is None and b.c is None and isinstance(a.leaf, Agg) and isinstance(b.leaf, Opq) and a.leaf.base is not None and a.leaf.base.key == b.leaf.key:
            return self.gate(c, a, L(Agg({}, b.leaf, a.leaf.t)))
        if a.c is None and b.c is None and isinstance(b.leaf, Agg) and isinstance(a.leaf, Opq) and b.leaf.base is not None and b.leaf.base.key == a.leaf.key:
            return self.gate(c, L(Agg({}, a.leaf, b.leaf.t)), b)
        return ite(c, a, b)

    class _T:  # minimal type for re-creating a scalar of the same kind
        pass

    def leaft(self, v):
        for x in alg.leaves(v):
            if isinstance(x, bool): return TB
            if isinstance(x, RF): return TD
            if isinstance(x, Opq): return x.t
            if isinstance(x, Agg): return x.t
        return None

    def stmt1(self, S, fr, n):
        k = n.k
        h = self.hooks.get(k)
        if k in ("CompoundStmt",):
            for c in n.ch:
                self.stmt(S, fr, c)
            if self.dtors:
                self.ended(S, fr, n)
        elif k == "DeclStmt":
            for c in n.ch:
                self.vardecl(S, fr, c)
        elif k == "VarDecl":
            self.vardecl(S, fr, n)
        elif k == "ReturnStmt":
            v = L(None)
            if n.ch:
                t = fr.fn.decl.t
                v = self.lv(S, fr, n.ch[0]) if t is not None and t.ref else self.rv(S, fr, n.ch[0])
            S.ret = v
            S.jump = apply(lambda x: "ret", v) if False else self.bots_of(v, "ret")
        elif k == "IfStmt":
            if n.init is not None: self.stmt(S, fr, n.init)
            if n.var is not None: self.stmt(S, fr, n.var)
            c = self.boolv(self.rv(S, fr, n.cond))
            if c.c is None:
                if isinstance(c.leaf, Bot):
                    S.jump = c; return
                if c.leaf:
                    self.stmt(S, fr, n.then)
                elif n.named.get("else") is not None:
                    self.stmt(S, fr, n.named["else"])
                return
            A, B = S.copy(), S.copy()
            with Path(self, c):
                self.stmt(A, fr, n.then)
            if n.named.get("else") is not None:
                with Path(self, NOT(c)):
                    self.stmt(B, fr, n.named["else"])
            self.join(S, c, A, B)
        elif k == "SwitchStmt":
            self.switch(S, fr, n)
        elif k in ("ForStmt", "WhileStmt", "DoStmt"):
            self.loop(S, fr, n)
        elif k == "CXXForRangeStmt":
            self.rangefor(S, fr, n)
        elif k == "BreakStmt":
            S.jump = L("brk")
        elif k == "ContinueStmt":
            S.jump = L("cnt")
        elif k in ("NullStmt", "StaticAssertDecl"):
            pass
        elif k == "CXXTryStmt":
            self.stmt(S, fr, n.body)
        elif k.startswith("OMP"):
            if n.body is not None:
                self.stmt(S, fr, n.body)
        elif k in ("CaseStmt", "DefaultStmt"):
            if n.sub is not None:
                self.stmt(S, fr, n.sub)
        else:
            v = self.eff(S, fr, n)
            if v is not None:
                S.jump = self.bots_of(v, "go") if S.jump.c is None and S.jump.leaf == "go" else S.jump

    dtors = {}
    construct_stream = None

    def ended(self, S, fr, n):
        """objects with a modelled destructor that are declared directly in a block end with it, last one first"""
        for c in reversed(n.ch):
            if c.k != "DeclStmt":
                continue
            for v in reversed(c.ch):
                t = v.decl.t if v.k == "VarDecl" and v.decl is not None else None
                r = fr.vars.get(id(v.decl)) if t is not None and not t.ref else None
                if r is None or r.c is not None or not isinstance(r.leaf, Ref):
                    continue
                h = self.dtors.get(t.rec) or self.dtors.get(t.s.replace("const ", ""))
                if h is not None and r.leaf.root in S.st:
                    h(self, S, r.leaf)

    def bots_of(self, v, j):
        if v is None or not any(isinstance(x, Bot) for x in alg.leaves(v)):
            return L(j)
        return apply(lambda x: j, v)

    def vardecl(self, S, fr, n):
        d = n.decl
        t = d.t
        self.n += 1
        if d.slocal or d.glob and not d.slocal and False:
            pass
        root = ("loc", self.n, d.n)
        binds = n.raw.get("binds")
        if t is not None and t.ref:
            v = self.lv(S, fr, n.ch[0])
            fr.vars[id(d)] = v
        else:
            self.rtype[root] = t
            v = self.rv(S, fr, n.ch[0]) if n.ch else L(Opq(("uninit",) + root, t))
            if n.ch and n.ch[0].k == "CXXConstructExpr" and False:
                pass
            S.st[root] = v
            fr.vars[id(d)] = L(Ref(root, (), t))
            bj = self.bots_of(v, "go")
            if bj.c is not None or isinstance(bj.leaf, Bot):
                S.jump = bj
        if binds:
            base = fr.vars[id(d)]
            tb = t.base if t is not None else None
            for i, bi in enumerate(binds):
                b = fr.fn.tu.decls[bi]
                key = i
                if tb is not None and tb.tmpl == "std::pair":
                    key = ("first", "second")[i]
                elif tb is not None and tb.rec in self.P.records:
                    key = self.P.records[tb.rec].fields[i].n
                bt = b.t
                r = apply(lambda x: x.sub(key, bt.noref if bt is not None else None) if isinstance(x, Ref) else x, base)
                fr.vars[id(b)] = r

    def switch(self, S, fr, n):
        if n.init is not None:
            self.stmt(S, fr, n.init)
        v = self.rv(S, fr, n.cond)
        items = []
        body = n.body
        stmts = body.ch if body.k == "CompoundStmt" else [body]
        flat = []
        def flatten(s):
            if s.k in ("CaseStmt", "DefaultStmt"):
                flat.append(("label", s))
                if s.sub is not None:
                    flatten(s.sub)
            else:
                flat.append(("stmt", s))
        for s in stmts:
            flatten(s)
        labels = [x for k, x in flat if k == "label"]
        conds = {}
        rest = L(True)
        dflt = None
        for lb in labels:
            if lb.k == "CaseStmt":
                cv = lb.val.cv
                c = apply(lambda x: eq0(x - rf(Fraction(cv))) if isinstance(x, RF) else (x == bool(cv) if isinstance(x, bool) else alg.cond(("case", alg.lkey(x), cv))), v)
                conds[lb.id] = c
                rest = AND(rest, NOT(c))
            else:
                dflt = lb
        if dflt is not None:
            conds[dflt.id] = rest
        # evaluate from each label to the end (until a jump), gate by label condition
        out = None
        base = S.copy()
        total = L(False)
        res = S.copy() if dflt is None else None
        for lb in labels:
            c = conds[lb.id]
            if c.c is None and c.leaf is False:
                continue
            T = base.copy()
            i = [x for x in range(len(flat)) if flat[x][1] is lb][0]
            with Path(self, c):
                for kind, s in flat[i + 1:]:
                    if kind == "stmt":
                        self.stmt(T, fr, s)
                        if T.jump.c is None and T.jump.leaf != "go":
                            break
            T.jump = self.mapj(T.jump, {"brk": "go"})
            if res is None:
                res = T
            else:
                X = State()
                self.join(X, c, T, res)
                res = X
        if res is None:
            return
        S.st, S.jump, S.ret = res.st, res.jump, res.ret

    def mapj(self, j, m):
        return apply(lambda x: m.get(x, x), j)

    # ---------------------------------------------------------------- loops
    def loop(self, S, fr, n):
        if n.init is not None:
            self.stmt(S, fr, n.init)
        it = 0
        first = n.k == "DoStmt"
        while True:
            if not first:
                if n.cond is not None:
                    T = S.copy()
                    c = self.boolv(self.rv(S, fr, n.cond))
                else:
                    c = L(True)
                if c.c is not None or isinstance(c.leaf, Bot):
                    if it == 0 or True:
                        if it > 0 and n.k != "DoStmt":
                            # trip count not constant: summarise from here
                            pass
                        S.st = T.st
                        return self.summarise(S, fr, n)
                if not c.leaf:
                    return
            first = False
            it += 1
            if it > MAXUNROLL:
                return self.summarise(S, fr, n)
            self.stmt(S, fr, n.body)
            j = self.mapj(S.jump, {"cnt": "go"})
            S.jump = j
            if j.c is not None:
                # conditional exit: continue the remaining iterations under the gate
                live = apply(lambda x: x == "go", self.nobot(j))
                S2 = S.copy(); S2.jump = L("go")
                with Path(self, live):
                    if n.inc is not None:
                        self.eff(S2, fr, n.inc)
                    self.loop_rest(S2, fr, n, it)
                self.join(S, live, S2, S.copy())
                S.jump = self.mapj(S.jump, {"brk": "go"})
                return
            if j.leaf != "go":
                S.jump = self.mapj(j, {"brk": "go"})
                return
            if n.inc is not None:
                self.eff(S, fr, n.inc)

    def loop_rest(self, S, fr, n, it):
        """continue an unrolled loop (its init already done)"""
        class N:
            pass
        x = N()
        x.k = "WhileStmt" if n.k == "DoStmt" else n.k; x.init = None; x.cond = n.cond; x.body = n.body; x.inc = n.inc; x.fn = n.fn; x.orig = getattr(n, "orig", n); x.loc = n.loc
        x.it = it
        if it > 60:
            return self.summarise(S, fr, n)
        self.loop(S, fr, x)

    def rangefor(self, S, fr, n):
        rng = n.range.ch[0] if n.range.k == "DeclStmt" else n.range
        init = rng.ch[0]
        cont = self.lv(S, fr, init)
        lv = n.var.ch[0] if n.var.k == "DeclStmt" else n.var
        ct = init.type
        if ct is not None and ct.noref.tmpl == "std::span":
            x = self.load(S, cont, ct.noref) if cont.c is None and isinstance(cont.leaf, Ref) else cont
            if x.c is None and isinstance(x.leaf, Ref):
                cont = x
                ct = x.leaf.t or ct
        v = self.load(S, cont, ct.noref if ct is not None else None) if cont.c is None and isinstance(cont.leaf, Ref) else cont
        if v.c is None and isinstance(v.leaf, Str):
            for ch in v.leaf.s:
                if S.jump.c is None and S.jump.leaf != "go":
                    break
                self.bindloopvar(S, fr, lv, self.temp(S, L(rf(ord(ch))), lv.decl.t.noref))
                self.stmt(S, fr, n.body)
                S.jump = self.mapj(S.jump, {"cnt": "go"})
            S.jump = self.mapj(S.jump, {"brk": "go"})
            return
        if v.c is None and isinstance(v.leaf, alg.Rng):
            m = self.rngsize(S, v.leaf)
            if m is not None:
                for i in range(m):
                    if S.jump.c is None and S.jump.leaf != "go":
                        break
                    x = self.rngelem(S, v.leaf, L(rf(i)))
                    if x is None:
                        break
                    c, x = x
                    if c.c is None and c.leaf is False:
                        continue
                    if c.c is not None:
                        return self.summarise(S, fr, n, cont=v, var=lv, ct=ct)
                    self.bindloopvar(S, fr, lv, x if isinstance(x.leaf, Ref) else self.temp(S, x, lv.decl.t.noref))
                    self.stmt(S, fr, n.body)
                    S.jump = self.mapj(S.jump, {"cnt": "go"})
                S.jump = self.mapj(S.jump, {"brk": "go"})
                return
            cont = v
        if v.c is None and isinstance(v.leaf, Agg) and v.leaf.base is None and all(isinstance(k, int) for k in v.leaf.f) and cont.c is None:
            tt = v.leaf.t
            if tt is not None and (tt.arr or tt.tmpl == "std::array") or v.leaf.f or True:
                for i in sorted(v.leaf.f):
                    ref = L(cont.leaf.sub(i, self.elem_type(ct)))
                    if S.jump.c is not None or S.jump.leaf != "go":
                        if S.jump.c is None:
                            break
                    self.bindloopvar(S, fr, lv, ref)
                    self.stmt(S, fr, n.body)
                    S.jump = self.mapj(S.jump, {"cnt": "go"})
                S.jump = self.mapj(S.jump, {"brk": "go"})
                return
        self.summarise(S, fr, n, cont=cont, var=lv, ct=ct)

    def bindloopvar(self, S, fr, lv, ref):
        d = lv.decl; t = d.t
        if t.ref:
            fr.vars[id(d)] = ref
        else:
            self.n += 1
            root = ("loc", self.n, d.n); self.rtype[root] = t
            S.st[root] = self.load(S, ref, t)
            fr.vars[id(d)] = L(Ref(root, (), t))
        binds = lv.raw.get("binds")
        if binds:
            base = fr.vars[id(d)]
            tb = t.base
            for i, bi in enumerate(binds):
                b = fr.fn.tu.decls[bi]
                key = ("first", "second")[i] if tb.tmpl == "std::pair" else (self.P.records[tb.rec].fields[i].n if tb.rec in self.P.records else i)
                fr.vars[id(b)] = apply(lambda x: x.sub(key, b.t.noref) if isinstance(x, Ref) else x, base)

    def summarise(self, S, fr, n, cont=None, var=None, ct=None):
        """generic iteration: every location the body modifies is unknown at iteration start"""
        orig = getattr(n, "orig", n)
        lp = Loop(orig, fr.fn)
        lp.guards = tuple(self.guards)
        self.n += 1
        lid = ("loop", self.n)
        saved_events, saved_loops = self.events, self.curloops
        modified = {}
        entry = S.copy()
        self.lstack.append(lp)
        for rnd in range(6):
            T = entry.copy()
            self.events = []; self.curloops = []
            frv = dict(fr.vars)
            for (root, path), t in modified.items():
                key = ("at", lid, root, path) if root[0] != "obj" else ("at", lid, root[1], path)
                self.store1(T, Ref(root, path), self.opaque_of(key, t))
            start = T.copy()
            if cont is not None:
                et = var.decl.t.noref
                # element reference of the container at this iteration
                ek = ("elem", lid)
                def mk_elem(r):
                    if isinstance(r, Ref):
                        return Ref(r.root, r.path + (("it", lid),), et)
                    return self.objref(("obj", ("elem", alg.lkey(r), lid)), et)
                ref = None
                if cont.c is None and isinstance(cont.leaf, alg.Rng):
                    r = cont.leaf
                    if r.ref is None:
                        pos = self.arith("+", r.lo, L(atomrf(("pos", lid), isint=True, nn=True)), None)
                        x = self.rngelem(T, alg.Rng(L(rf(0)), None, None, r.ad), pos)
                    else:
                        x = self.through(T, r.ad, apply(mk_elem, L(r.ref)))
                    if x is not None and x[0].c is None and x[0].leaf is True:
                        ref = x[1] if any(isinstance(y, Ref) for y in alg.leaves(x[1])) and var.decl.t.ref and not var.decl.t.p.ptr else self.temp(T, x[1], et)
                    if ref is None:
                        ref = L(self.objref(("obj", ("elem", alg.lkey(r), lid)), et))
                else:
                    ref = apply(mk_elem, cont)
                lp.container = cont
                self.bindloopvar(T, fr, var, ref)
            if getattr(n, "cond", None) is not None and cont is None:
                lp.cond = self.boolv(self.rv(T, fr, n.cond))
            cg = lp.cond if lp.cond is not None else L(True)
            with Path(self, cg):
                self.stmt(T, fr, n.body)
            lp.jump = T.jump
            T.jump = L("go")
            lp.end_before_inc = T.copy()
            if cont is None and getattr(n, "inc", None) is not None:
                self.eff(T, fr, n.inc)
            fr.vars = frv
            new = dict(modified)
            for root, v in T.st.items():
                if root in entry.st or root[0] == "obj":
                    o = start.st.get(root)
                    if o is None:
                        if root[0] == "obj":
                            o = self.opaque_of(root[1], self.rtype.get(root))
                        else:
                            continue
                    self.diffs(o, v, root, (), new, self.rtype.get(root))
            lp.events = self.events; lp.loops = self.curloops
            if set(new) == set(modified):
                break
            modified = new
        self.lstack.pop()
        self.events, self.curloops = saved_events, saved_loops
        lp.start = start; lp.end = T
        for (root, path), t in modified.items():
            r = Ref(root, path)
            lp.mod[(root, path)] = (self.load1(entry.copy(), r, t), self.load1(start, r, t), self.load1(T, r, t))
        lp.id = lid
        # after the loop: unknown values
        ret = lp.jump is not None and any(x == "ret" for x in alg.leaves(lp.jump))
        for (root, path), t in modified.items():
            key = ("after", lid, root if root[0] != "obj" else root[1], path)
            self.store1(S, Ref(root, path), self.opaque_of(key, t))
        lp.retval = T.ret if ret else None
        if ret:
            c = alg.cond(("loopret", lid))
            S.jump = ite(c, L("ret"), L("go"))
            S.ret = L(Opq(("retval", lid), fr.fn.decl.t)) if fr.fn.decl.t is None or not isnum(fr.fn.decl.t) else self.opaque_of(("retval", lid), fr.fn.decl.t)
        self.curloops.append(lp)
        self.events.append(("loop", lp))

    def diffs(self, o, v, root, path, out, ty):
        if o is v:
            return
        if any((root, path[:i]) in out for i in range(len(path) + 1)):
            return
        if o.c is None and v.c is None and isinstance(v.leaf, Agg) and isinstance(o.leaf, (Agg, Opq)):
            ob = o.leaf.base.key if isinstance(o.leaf, Agg) and o.leaf.base else (o.leaf.key if isinstance(o.leaf, Opq) else None)
            vb = v.leaf.base.key if v.leaf.base else None
            if isinstance(o.leaf, Agg) and ob is None and set(o.leaf.f) != set(v.leaf.f) and (ty is None or ty.tmpl == "std::vector" or not ty.rec):
                out[(root, path)] = ty or v.leaf.t
                return
            if ob == vb:
                for k, x in v.leaf.f.items():
                    y = o.leaf.f.get(k) if isinstance(o.leaf, Agg) else None
                    if y is None:
                        y = self.field_of(o, k, self.sub_type(ty, k) or self.leaft(x))
                    self.diffs(y, x, root, path + (k,), out, self.sub_type(ty, k) or self.leaft(x))
                return
        out[(root, path)] = ty or self.leaft(v) or self.leaft(o)

    # ---------------------------------------------------------------- expressions
    def boolv(self, v):
        def f(x):
            if isinstance(x, bool): return L(x)
            if isinstance(x, RF): return NOT(eq0(x))
            if isinstance(x, Ref): return L(False) if x.root == ("null",) else (L(True) if x.root[0] in ("loc", "tmp", "heap", "glob", "fn") else alg.cond(("nonnull", x.root, x.path)))
            return alg.cond(("true", alg.lkey(x)))
        return apply(f, v)

    def casts(self, n, v):
        for c in reversed(n.ic):
            if ":" in c:
                kind, ti = c.split(":")
                v = self.cast(kind, v, n.fn.tu.types[int(ti)])
        return v

    def cast(self, kind, v, t):
        if kind in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return self.boolv(v)
        if kind in ("IntegralCast", "IntegralToFloating"):
            if any(isinstance(x, bool) for x in alg.leaves(v)):
                v = apply(lambda x: (rf(1) if x else rf(0)) if isinstance(x, bool) else x, v)
            if kind == "IntegralCast" and t.int == 1:
                return self.boolv(v)
            return self.narrow(v, t)
        if kind == "FloatingCast":
            return self.narrow(v, t)
        if kind == "FloatingToIntegral":
            def f(x):
                if not isinstance(x, RF): return x
                c = x.const
                if c is not None:
                    return rf(int(c))
                if x.isint(): return x
                return atomrf(("trunc", x.fp), isint=True, nn=alg.rsign(x) in ("+", "0+", "0"), payload=x)
            return apply(f, v)
        return v

    def narrow(self, v, t):
        """conversion to a type that does not hold every value of wider ones: float and integers of at most 32 bits"""
        if t is None or t.ptr or t.ref or t.enum:
            return v
        if t.flt and t.s.replace("const ", "").replace("volatile ", "").strip() in ("float", "_Float16", "__bf16"):
            def f(x):
                if not isinstance(x, RF): return x
                c = x.const
                if c is not None:
                    return rf(Fraction(struct.unpack("f", struct.pack("f", float(c)))[0]))
                if len(x.num) == 1 and len(x.den) == 1 and () in x.den:
                    (m, k), = x.num.items()
                    if len(m) == 1 and m[0][1] == 1 and abs(k / x.den[()]) == 1 and alg.S.atoms[m[0][0]][0] == "float32":
                        return x
                return x if x.isint() else atomrf(("float32", x.fp), nn=alg.rsign(x) in ("+", "0+", "0"), payload=x)
            return apply(f, v)
        if t.int and 1 < t.int <= 32:
            def g(x):
                if not isinstance(x, RF): return x
                c = x.const
                if c is not None and c.denominator == 1:
                    m = int(c) % (1 << t.int)
                    if not t.uns and m >= 1 << (t.int - 1): m -= 1 << t.int
                    return rf(m)
                return atomrf(("narrow", t.int, x.fp), isint=True, payload=x) if c is None and t.int <= 16 else x
            return apply(g, v)
        return v

    def rv(self, S, fr, n):
        """value of an expression"""
        cv = n.raw.get("cv")
        t = n.type
        if cv is not None and n.k not in ("FloatingLiteral",) and t is not None and not t.flt and n.k not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            ty = self.exprtype(n)
            base = bool(cv) if t.int == 1 else rf(Fraction(cv))
            return self.casts(n, L(base))
        if n.lv:
            r = self.lv(S, fr, n)
            v = self.load(S, r, t)
        else:
            v = self.rv1(S, fr, n)
        return self.casts(n, v)

    def exprtype(self, n):
        return n.type

    def eff(self, S, fr, n):
        """evaluate for effect"""
        if n.lv:
            return self.lv(S, fr, n)
        return self.rv(S, fr, n)

    def temp(self, S, v, t):
        self.n += 1
        root = ("tmp", self.n); self.rtype[root] = t; S.st[root] = v
        return L(Ref(root, (), t))

    def lv(self, S, fr, n):
        """reference (gated Ref) denoted by an expression"""
        k = n.k
        t = n.type
        if not n.lv and k not in ("MemberExpr", "ArraySubscriptExpr"):
            d = n.decl
            if n.is_call() and d is not None and d.k == "fn" and d.t is not None and d.t.ref:
                return self.callexpr(S, fr, n)
            if k in ("CXXStaticCastExpr", "CXXConstCastExpr") and n.ch and t is not None:
                if n.ch[0].lv and (n.raw.get("ck") in ("NoOp",)):
                    return self.lv(S, fr, n.ch[0])
            return self.temp(S, self.rv(S, fr, n), t)
        if k == "CXXTypeidExpr" and n.raw.get("tid") is not None:
            return self.temp(S, L(Str("typeid " + unconst(n.fn.tu.types[n.raw["tid"]].noref.s))), t)
        if k == "DeclRefExpr":
            d = n.decl
            r = fr.vars.get(id(d))
            if r is not None:
                return r
            if d.k in ("var", "parm", "binding"):
                cv = n.raw.get("cv")
                if cv is not None and isnum(d.t):
                    c = Fraction(repr(cv)) if isinstance(cv, float) else Fraction(cv)
                    root = ("const", d.q)
                    self.rtype[root] = d.t
                    S.st[root] = L(bool(cv) if d.t.int == 1 else rf(c))
                    return L(Ref(root, (), d.t))
                root = ("glob", d.q, d.slocal and d.l or 0)
                self.rtype.setdefault(root, d.t)
                self.globd()[root] = d
                if root not in S.st:
                    gv = self.globinit(d)
                    if gv is not None:
                        S.st[root] = gv
                if d.t is not None and d.t.ref:
                    return self.load(S, L(Ref(root, (), d.t)), d.t)
                return L(Ref(root, (), d.t))
            if d.k == "fn":
                return L(Ref(("fn", d.key), (), None))
            return L(Ref(("glob", d.q or d.n), (), d.t))
        if k == "MemberExpr":
            d = n.decl
            if d.k == "var":  # static member
                root = ("glob", d.q, 0); self.rtype.setdefault(root, d.t)
                cv = n.raw.get("cv")
                if cv is not None:
                    S.st[root] = L(bool(cv) if d.t.int == 1 else rf(Fraction(repr(cv)) if isinstance(cv, float) else Fraction(cv)))
                return L(Ref(root, (), d.t))
            b = n.ch[0]
            base = self.rv(S, fr, b) if n.ar else self.lv(S, fr, b)
            r = apply(lambda x: x.sub(d.n, d.t) if isinstance(x, Ref) else self.objref(("obj", ("f", alg.lkey(x), d.n)), d.t), base)
            if d.t is not None and d.t.ref:
                return self.load(S, r, d.t)
            return r
        if k == "ArraySubscriptExpr":
            base = n.ch[0]
            bt = base.type
            b = self.lv(S, fr, base) if bt is not None and bt.arr else self.rv(S, fr, base)
            ix = self.rv(S, fr, n.ch[1])
            return self.index(S, b, ix, t)
        if k == "UnaryOperator":
            if n.op == "*":
                return self.deref(S, self.rv(S, fr, n.ch[0]), t)
            if n.op in ("++", "--"):
                r = self.lv(S, fr, n.ch[0])
                o = self.load(S, r, t)
                self.store(S, r, apply(lambda x: x + (1 if n.op == "++" else -1) if isinstance(x, RF) else alg.Itr(x.ref, x.i + (1 if n.op == "++" else -1)) if isinstance(x, alg.Itr) else Opq(("inc", n.op, alg.lkey(x)), t), o))
                return r
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op == "=":
                r = self.lv(S, fr, n.ch[0])
                v = self.rv(S, fr, n.ch[1])
                self.store(S, r, v)
                return r
            if n.op == ",":
                self.eff(S, fr, n.ch[0])
                return self.lv(S, fr, n.ch[1])
            if n.raw.get("ca"):
                r = self.lv(S, fr, n.ch[0])
                o = self.load(S, r, n.ch[0].type)
                v = self.rv(S, fr, n.ch[1])
                lt_ = n.ch[0].type; rt = self.casted_type(n.ch[1])
                tt = TD if (lt_ is not None and lt_.flt) or (rt is not None and rt.flt) else lt_
                x = self.arith(n.op[:-1], o, v, tt)
                if lt_ is not None and not lt_.flt and tt is TD:
                    x = self.cast("FloatingToIntegral", x, lt_)
                self.store(S, r, self.narrow(x, lt_))
                return r
        if k == "ConditionalOperator":
            c = self.boolv(self.rv(S, fr, n.ch[0]))
            return self.gated2(S, c, lambda T: self.lv(T, fr, n.ch[1]), lambda T: self.lv(T, fr, n.ch[2]))
        if n.is_call():
            v = self.callexpr(S, fr, n)
            if any(isinstance(x, Ref) for x in alg.leaves(v)):
                return v
            return apply(lambda x: x if isinstance(x, (Ref, Bot)) else self.objref(("obj", ("lv", alg.lkey(x))), t), v)
        if k in ("CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXDynamicCastExpr", "CXXReinterpretCastExpr") and n.ch:
            return self.lv(S, fr, n.ch[0])
        if k in ("CompoundLiteralExpr", "StringLiteral", "PredefinedExpr"):
            return self.temp(S, L(Str(n.s or k)), t)
        if k == "InitListExpr" and len(n.ch) == 1:
            return self.lv(S, fr, n.ch[0])
        if k == "OpaqueValueExpr" and n.ch:
            return self.lv(S, fr, n.ch[0])
        self.note(n, "lvalue " + k)
        return L(self.objref(("obj", ("expr", n.loc, k)), t))

    def casted_type(self, n):
        for c in n.ic:
            if ":" in c:
                return n.fn.tu.types[int(c.split(":")[1])]
        return n.type

    def globinit(self, d):
        if d.n == "npos" and (d.q or "").startswith("std::"):
            return L(rf(2 ** 64 - 1))
        vs = getattr(self.P, "_gv", None)
        if vs is None:
            vs = {}
            for v in self.P.vars.values():
                vs.setdefault((v.decl.q, v.decl.l), v)
            self.P._gv = vs
        v = vs.get((d.q, d.l))
        if (v is None or v.init is None) and d.q and not d.slocal:
            c = [x for (q, l), x in vs.items() if q == d.q and x.init is not None]
            v = c[0] if len(c) == 1 else v
        t = d.t
        if v is None or v.init is None or t is None or not (t.const or d.constexpr):
            return None
        gc = alg.S.gconst
        if (d.q, d.l) in gc:
            return gc[d.q, d.l]
        if getattr(self, "_ginit", 0) > 3:
            return None
        self._ginit = getattr(self, "_ginit", 0) + 1
        try:
            fr = Frame(v)
            r = self.rv(State(), fr, v.init)
            if t.tmpl in ("std::vector", "std::array") and r.c is None and isinstance(r.leaf, Agg):
                gc[d.q, d.l] = r
            return r
        finally:
            self._ginit -= 1

    def index(self, S, b, ix, t):
        b = self.textof(S, b)
        def f(r, i):
            if isinstance(r, alg.Itr) and isinstance(i, RF):
                i = r.i + i; r = r.ref
            if isinstance(r, Str) and isinstance(i, RF) and i.const is not None and 0 <= i.const <= len(r.s):
                return self.temp(S, L(rf(ord((r.s + "\0")[int(i.const)]))), t)
            if not isinstance(r, Ref):
                return L(self.objref(("obj", ("ix", alg.lkey(r), alg.lkey(i))), t))
            c = i.const if isinstance(i, RF) else None
            if c is not None and c.denominator == 1:
                # pointer arithmetic on an already indexed path
                return L(r.sub(int(c), t))
            # symbolic index into a structure with known elements: selection
            cur = self.load1(S, r)
            if cur.c is None and isinstance(cur.leaf, Agg) and cur.leaf.base is None and isinstance(i, RF) and cur.leaf.f and all(isinstance(k, int) for k in cur.leaf.f) and len(cur.leaf.f) <= 16:
                ks = sorted(cur.leaf.f)
                out = L(r.sub(ks[-1], t))
                for k in reversed(ks[:-1]):
                    out = ite(eq0(i - rf(k)), L(r.sub(k, t)), out)
                return out
            key = ("ix", i.fp if isinstance(i, RF) else alg.lkey(i))
            self.ixname = getattr(self, "ixname", {})
            self.ixname[key] = i
            return L(r.sub(key, t))
        return apply(f, b, ix)

    def bytesof(self, S, v, t):
        """pointer to the bytes of a number in memory (least significant first, as on every supported platform)"""
        p = t.p if t is not None and t.ptr else None
        size = {"double": 8, "float": 4}.get(unconst(p.s)) if p is not None and p.flt else p.int // 8 if p is not None and p.int else None
        if v.c is not None or not isinstance(v.leaf, Ref) or not size or size == 1:
            return v
        r = v.leaf
        root = ("bytes", r.root) + tuple(r.path)
        x = self.load(S, v, p)
        if x.c is not None:
            return v
        key = alg.lkey(x.leaf)
        old = S.st.get(("bytekey", root))
        if old is None or old.leaf.key != key:
            S.st[root] = L(Agg({i: L(Opq(("byte", key, size, i), None)) for i in range(size)}, None, None))
            S.st[("bytekey", root)] = L(Opq(key, None))
        return L(alg.Itr(Ref(root, (), None), rf(0)))

    def textof(self, S, b):
        """the constant text a reference to a string or character array leads to"""
        if b.c is None and isinstance(b.leaf, Ref) and (b.leaf.root in S.st or b.leaf.root[0] == "glob"):
            t = b.leaf.t
            if t is not None and (t.tmpl in ("std::basic_string", "std::basic_string_view") or (t.arr and t.p is not None and t.p.int == 8)):
                v = self.load(S, b)
                if v.c is None and isinstance(v.leaf, Str):
                    return v
        return b

    def text(self, S, fr, n):
        """constant text of an expression of string type, or None"""
        t = n.type.noref if n.type is not None else None
        if t is None or not (t.tmpl in ("std::basic_string", "std::basic_string_view") or t.ptr or t.arr):
            return None
        v = self.rv(S, fr, n)
        if v.c is None and isinstance(v.leaf, Ref):
            v = self.textof(S, v)
        return v.leaf.s if v.c is None and isinstance(v.leaf, Str) else None

    def strings(self, S, fr, n, nm, A):
        """members of constant strings and views of constant strings"""
        o = self.objof(S, fr, n)
        v = self.textof(S, o)
        if v.c is None and isinstance(v.leaf, Ref):
            v = self.load(S, v)
        if v.c is not None or not isinstance(v.leaf, Str):
            return None
        s = v.leaf.s
        def num(i, dflt=None):
            if i >= len(A) or A[i].da:
                return dflt
            x = self.rv(S, fr, A[i])
            return int(x.leaf.const) if x.c is None and isinstance(x.leaf, RF) and x.leaf.const is not None else None
        if nm in ("size", "length"): return L(rf(len(s)))
        if nm == "empty": return L(not s)
        if nm in ("data", "c_str") or n.decl.raw.get("conv"): return L(Str(s))
        if n.op == "[]" or nm == "at":
            i = num(0)
            return self.temp(S, L(rf(ord((s + "\0")[i]))), n.type) if i is not None and 0 <= i <= len(s) else None
        if nm in ("front", "back") and s: return self.temp(S, L(rf(ord(s[0 if nm == "front" else -1]))), n.type)
        if nm == "substr":
            a = num(0, 0); b = num(1, len(s))
            if a is None or b is None or a > len(s): return None
            return L(Str(s[a:a + b]))
        if nm in ("find", "rfind", "compare", "starts_with", "ends_with", "find_first_of", "find_last_of") and A:
            x = self.text(S, fr, A[0])
            if x is None:
                i = num(0)
                if i is None or A[0].type is None or A[0].type.noref.int != 8: return None
                x = chr(i)
            if len([a for a in A if not a.da]) > 1: return None
            if nm == "compare": return L(rf((s > x) - (s < x)))
            if nm == "starts_with": return L(s.startswith(x))
            if nm == "ends_with": return L(s.endswith(x))
            i = s.find(x) if nm == "find" else s.rfind(x) if nm == "rfind" else min([s.find(c) for c in x if c in s], default=-1) if nm == "find_first_of" else max([s.rfind(c) for c in x], default=-1)
            return L(rf(i if i >= 0 else 2 ** 64 - 1))
        if n.op in ("=", "+=") or nm in ("append", "assign", "push_back"):
            if len(A) != 1: return None
            x = self.text(S, fr, A[0])
            if x is None:
                i = num(0) if A[0].type is not None and A[0].type.noref.int == 8 else None
                if i is None: return None
                x = chr(i)
            self.store(S, o, L(Str(x if n.op == "=" or nm == "assign" else s + x)))
            return o
        return None

    def deref(self, S, p, t):
        def f(x):
            if isinstance(x, Ref):
                return x
            if isinstance(x, alg.Itr):
                return self.index(S, L(x.ref), L(x.i), t)
            return self.objref(("obj", ("deref", alg.lkey(x))), t)
        return apply(f, p)

    def gated2(self, S, c, fa, fb):
        if c.c is None:
            if isinstance(c.leaf, Bot): return c
            return fa(S) if c.leaf else fb(S)
        A, B = S.copy(), S.copy()
        with Path(self, c):
            a = fa(A)
        with Path(self, NOT(c)):
            b = fb(B)
        j = S.jump
        self.join(S, c, A, B)
        return self.gate(c, a, b)

    def arith(self, op, a, b, t):
        def f(x, y):
            if isinstance(x, bool): x = rf(1 if x else 0)
            if isinstance(y, bool): y = rf(1 if y else 0)
            if isinstance(x, alg.Itr) or isinstance(y, alg.Itr):
                r = self.itarith(op, x, y)
                if r is not None:
                    return r
            if not (isinstance(x, RF) and isinstance(y, RF)):
                return Opq(("op", op, alg.lkey(x), alg.lkey(y)), t) if not isnum(t) else self.opaque_of(("op", op, alg.lkey(x), alg.lkey(y)), t)
            if op == "+": return x + y
            if op == "-": return x - y
            if op == "*": return x * y
            if op == "/":
                if t is not None and t.flt:
                    return x / y
                return idiv(x, y)[0]
            if op == "%":
                return idiv(x, y)[1]
            cx, cy = x.const, y.const
            if cx is not None and cy is not None and cx.denominator == 1 and cy.denominator == 1:
                p, q = int(cx), int(cy)
                if op == "<<": return rf(p << q)
                if op == ">>": return rf(p >> q)
                if op == "&": return rf(p & q)
                if op == "|": return rf(p | q)
                if op == "^": return rf(p ^ q)
            return atomrf(("op", op, x.fp, y.fp), isint=True)
        return apply(f, a, b)

    def itarith(self, op, x, y):
        if isinstance(x, alg.Itr) and isinstance(y, RF) and op in "+-":
            return alg.Itr(x.ref, x.i + y if op == "+" else x.i - y)
        if isinstance(y, alg.Itr) and isinstance(x, RF) and op == "+":
            return alg.Itr(y.ref, y.i + x)
        if isinstance(x, alg.Itr) and isinstance(y, alg.Itr) and op == "-" and (x.ref.root, x.ref.path) == (y.ref.root, y.ref.path):
            return x.i - y.i
        return None

    def compare(self, op, a, b):
        def f(x, y):
            if isinstance(x, bool) and isinstance(y, RF): x = rf(1 if x else 0)
            if isinstance(y, bool) and isinstance(x, RF): y = rf(1 if y else 0)
            if isinstance(x, RF) and isinstance(y, RF):
                if op == "<": return gt0(y - x)
                if op == ">": return gt0(x - y)
                if op == "<=": return NOT(gt0(x - y))
                if op == ">=": return NOT(gt0(y - x))
                if op == "==": return eq0(x - y)
                if op == "!=": return NOT(eq0(x - y))
            if isinstance(x, bool) and isinstance(y, bool):
                if op == "==": return L(x == y)
                if op == "!=": return L(x != y)
            if isinstance(x, alg.Itr) and isinstance(y, alg.Itr) and (x.ref.root, x.ref.path) == (y.ref.root, y.ref.path):
                return f(x.i, y.i)
            kx, ky = alg.lkey(x), alg.lkey(y)
            if op in ("==", "!="):
                if kx == ky and not isinstance(x, (Bot,)):
                    v = L(True)
                elif isinstance(x, Ref) and isinstance(y, Ref) and (x.root[0] in ("loc", "tmp") or y.root[0] in ("loc", "tmp") or
                                                                    x.root != y.root and x.root[0] in PLACES and y.root[0] in PLACES):
                    v = L(False)
                elif isinstance(x, Str) and isinstance(y, Str):
                    v = L(x.s == y.s)
                elif any(isinstance(i, Ref) and i.root == ("null",) for i in (x, y)) and all(isinstance(i, (Ref, Opq)) for i in (x, y)):
                    v = NOT(self.boolv(L(y if isinstance(x, Ref) and x.root == ("null",) else x)))
                else:
                    v = alg.cond(("same",) + tuple(sorted((kx, ky), key=repr)))
                return v if op == "==" else NOT(v)
            if op == ">": return alg.cond(("less", ky, kx))
            if op == "<": return alg.cond(("less", kx, ky))
            if op == ">=": return NOT(alg.cond(("less", kx, ky)))
            if op == "<=": return NOT(alg.cond(("less", ky, kx)))
            return alg.cond(("cmp", op, kx, ky))
        return apply(f, a, b)

    def rv1(self, S, fr, n):
        k = n.k; t = n.type
        if k == "IntegerLiteral":
            return L(rf(Fraction(n.raw["cv"] if "cv" in n.raw else int(n.raw["cvs"]))))
        if k == "FloatingLiteral":
            src = (n.raw.get("src") or "").replace("'", "").rstrip("fFlL")
            try:
                return L(rf(Fraction(src)))
            except Exception:
                return L(rf(Fraction(repr(n.raw["cv"]))))
        if k == "CXXBoolLiteralExpr":
            return L(bool(n.raw["cv"]))
        if k == "CharacterLiteral":
            return L(rf(n.raw["cv"]))
        if k == "StringLiteral":
            return L(Str(n.s or ""))
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
            return L(Ref(("null",)))
        if k == "CXXThisExpr":
            return fr.this if fr.this is not None else L(Ref(("obj", "this"), (), t.p if t else None))
        if k == "DeclRefExpr":
            d = n.decl
            if d.k == "enumc":
                return L(rf(d.v))
            if d.k == "fn":
                return L(Ref(("fn", d.key)))
            return self.load(S, self.lv(S, fr, n), t)
        if k == "MemberExpr" or k == "ArraySubscriptExpr":
            return self.load(S, self.lv(S, fr, n), t)
        if k == "UnaryOperator":
            op = n.op
            if op == "!":
                return NOT(self.boolv(self.rv(S, fr, n.ch[0])))
            if op == "-":
                return apply(lambda x: -x if isinstance(x, RF) else (rf(-1) if x is True else rf(0) if x is False else atomrf(("neg", alg.lkey(x)))), self.rv(S, fr, n.ch[0]))
            if op == "+":
                return self.rv(S, fr, n.ch[0])
            if op == "&":
                return self.lv(S, fr, n.ch[0])
            if op in ("p++", "p--"):
                r = self.lv(S, fr, n.ch[0])
                o = self.load(S, r, t)
                self.store(S, r, apply(lambda x: x + (1 if op == "p++" else -1) if isinstance(x, RF) else alg.Itr(x.ref, x.i + (1 if op == "p++" else -1)) if isinstance(x, alg.Itr) else Opq(("inc", op, alg.lkey(x)), t), o))
                return o
            if op == "~":
                return apply(lambda x: atomrf(("~", alg.lkey(x)), isint=True), self.rv(S, fr, n.ch[0]))
            return self.load(S, self.lv(S, fr, n), t)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = n.op
            if op == "&&":
                a = self.boolv(self.rv(S, fr, n.ch[0]))
                return self.gated2(S, a, lambda T: self.boolv(self.rv(T, fr, n.ch[1])), lambda T: L(False))
            if op == "||":
                a = self.boolv(self.rv(S, fr, n.ch[0]))
                return self.gated2(S, a, lambda T: L(True), lambda T: self.boolv(self.rv(T, fr, n.ch[1])))
            if op == ",":
                self.eff(S, fr, n.ch[0])
                return self.rv(S, fr, n.ch[1])
            if op == "=" or n.raw.get("ca"):
                return self.load(S, self.lv(S, fr, n), t)
            a = self.rv(S, fr, n.ch[0]); b = self.rv(S, fr, n.ch[1])
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return self.compare(op, a, b)
            if t is not None and t.ptr:
                def element(x, e):
                    # pointer to an element of an array: the array decays, or the address of one of its elements is taken
                    if not isinstance(x, Ref): return x
                    while e.k == "ParenExpr" and e.ch: e = e.ch[0]
                    if e.k == "ImplicitCastExpr" and e.ch and e.ch[0].type is not None and e.ch[0].type.noref.arr: return alg.Itr(x, rf(0))
                    if x.path and isinstance(x.path[-1], int): return alg.Itr(Ref(x.root, x.path[:-1], None), rf(x.path[-1]))
                    return x
                if n.ch[0].type is not None and n.ch[0].type.noref.ptr: a = apply(lambda x: element(x, n.ch[0]), a)
                elif op == "+": b = apply(lambda x: element(x, n.ch[1]), b)
                if any(isinstance(z, alg.Itr) for z in alg.leaves(a) + alg.leaves(b)):
                    return self.arith(op, a, b, t)
                return apply(lambda x, y: x.sub(("+", alg.lkey(y)), None) if isinstance(x, Ref) else Opq(("ptr", op, alg.lkey(x), alg.lkey(y)), t), a, b)
            return self.arith(op, a, b, t)
        if k in ("ConditionalOperator",):
            c = self.boolv(self.rv(S, fr, n.ch[0]))
            return self.gated2(S, c, lambda T: self.rv(T, fr, n.ch[1]), lambda T: self.rv(T, fr, n.ch[2]))
        if k == "InitListExpr":
            return self.initlist(S, fr, n)
        if k == "ImplicitValueInitExpr" or k == "CXXScalarValueInitExpr":
            return self.zero(t)
        if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr"):
            c = n.ch[0]
            if t is not None and t.ptr or (t is not None and t.ref):
                v = self.rv(S, fr, c)
                if self.bytes and t.ptr and t.p is not None and (t.p.int == 8 or t.p.s.split("::")[-1] in ("byte", "const byte")):
                    return self.bytesof(S, v, c.type)
                return v
            if n.raw.get("ck") in ("NoOp", "ConstructorConversion", "UserDefinedConversion") or True:
                v = self.rv(S, fr, c)
                st = self.casted_type(c)
                if t is not None and t.int == 1 and st is not None and st.int != 1:
                    return self.boolv(v)
                if t is not None and (t.int or t.enum) and st is not None and st.flt:
                    return self.cast("FloatingToIntegral", v, t)
                if isnum(t) and t.int != 1 and any(isinstance(x, bool) for x in alg.leaves(v)):
                    return apply(lambda x: (rf(1) if x else rf(0)) if isinstance(x, bool) else x, v)
                return self.narrow(v, t) if isnum(t) else v
        if k == "CXXThrowExpr":
            b = L(Bot("throw %s" % (n.fn.tu.types[n.raw["tt"]].s if "tt" in n.raw else "")))
            S.jump = b
            return b
        if k == "LambdaExpr":
            return self.lambda_(S, fr, n)
        if k in ("CXXDefaultArgExpr", "CXXDefaultInitExpr", "CXXStdInitializerListExpr", "OpaqueValueExpr", "SubstNonTypeTemplateParmExpr", "ExprWithCleanups", "PackExpansionExpr") and n.ch:
            return self.rv(S, fr, n.ch[0])
        if n.is_call():
            v = self.callexpr(S, fr, n)
            d = n.decl
            if d is not None and d.k == "fn" and d.t is not None and d.t.ref and not d.ctor:
                return self.load(S, v, d.t.p)
            return v
        if k == "UnaryExprOrTypeTraitExpr" or k in ("TypeTraitExpr", "SizeOfPackExpr", "ConceptSpecializationExpr", "CXXNoexceptExpr", "RequiresExpr"):
            return L(atomrf(("sizeof", n.loc), pos=True, isint=True))
        if k == "CXXNewExpr":
            return L(Ref(("new", n.loc, self.fresh()), (), t.p if t else None))
        if k in ("DeclStmt", "CompoundStmt", "IfStmt", "ForStmt"):
            self.stmt(S, fr, n)
            return L(None)
        for c in n.ch:
            self.eff(S, fr, c)
        self.note(n, k)
        return self.opaque_of(("expr", n.loc, k), t) if t is not None else L(None)

    def note(self, n, what):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def initlist(self, S, fr, n):
        t = n.type
        if t is None:
            return L(Opq(("init", n.loc), t))
        if isnum(t) or t.ptr or t.int == 1:
            return self.rv(S, fr, n.ch[0]) if n.ch else self.zero(t)
        if t.arr:
            f = {i: self.rv(S, fr, c) for i, c in enumerate(n.ch)}
            if t.n is not None:
                for i in range(len(n.ch), min(t.n, 64)):
                    f[i] = self.zero(t.p)
            return L(Agg(f, None, t))
        if t.tmpl == "std::array":
            if not n.ch:
                return self.zero(t)
            c = n.ch[0]
            if len(n.ch) == 1 and (c.k in ("InitListExpr", "ImplicitValueInitExpr")):
                v = self.rv(S, fr, c)
                if v.c is None and isinstance(v.leaf, Agg):
                    N = int(t.args[1].rstrip("UL"))
                    f = dict(v.leaf.f)
                    for i in range(len(f), min(N, 64)):
                        f[i] = self.zero(t.args[0])
                    return L(Agg(f, None, t))
                return v
            if len(n.ch) == 1:
                return self.rv(S, fr, c)
        if len(n.ch) == 1 and t.rec and n.ch[0].type is not None and n.ch[0].type.noref.rec == t.rec:
            return self.rv(S, fr, n.ch[0])
        R = self.P.records.get(t.rec) if t.rec else None
        if R is not None:
            f = {}
            ch = list(n.ch)
            nb = len(R.bases)
            for b, c in zip(R.bases, ch[:nb]):
                v = self.rv(S, fr, c)
                if v.c is None and isinstance(v.leaf, Agg):
                    f.update(v.leaf.f)
            for fd, c in zip(R.fields, ch[nb:]):
                if fd.t is not None and fd.t.ref:
                    f[fd.n] = self.lv(S, fr, c)
                else:
                    f[fd.n] = self.rv(S, fr, c)
            if "union" in t.s and len(n.ch) == 1:
                # the other members of a union show the bytes of a constant, least significant first
                x = [v for v in f.values()]
                c = x[0].leaf.const if len(x) == 1 and x[0].c is None and isinstance(x[0].leaf, RF) else None
                if c is not None:
                    for fd in R.fields:
                        if fd.n not in f and fd.t is not None and fd.t.arr and fd.t.p is not None and fd.t.p.int == 8 and fd.t.n:
                            f[fd.n] = L(Agg({i: L(rf(int(c) >> 8 * i & 255)) for i in range(fd.t.n)}, None, fd.t))
            return L(Agg(f, None, t))
        if len(n.ch) == 1:
            return self.rv(S, fr, n.ch[0])
        f = {i: self.rv(S, fr, c) for i, c in enumerate(n.ch)}
        return L(Agg(f, None, t))

    def lambda_(self, S, fr, n):
        fs = self.P.lambda_funcs(n)
        fr2 = Frame(fr.fn, fr.this, fr)
        for i, cp in enumerate(n.raw.get("caps", ())):
            if "d" in cp and "init" in cp:
                d = n.fn.tu.decls[cp["d"]]
                e = [c for c in n.ch if c.role == "capinit%d" % i][0]
                if cp["ref"] or d.t is not None and d.t.ref:
                    fr2.vars[id(d)] = self.lv(S, fr, e)
                    continue
                self.n += 1
                root = ("loc", self.n, d.n); self.rtype[root] = d.t.noref if d.t else None
                S.st[root] = self.rv(S, fr, e)
                fr2.vars[id(d)] = L(Ref(root, (), None))
                continue
            if "d" in cp and not cp["ref"]:
                d = n.fn.tu.decls[cp["d"]]
                r = fr.vars.get(id(d))
                if r is not None and not (d.t is not None and d.t.ref and False):
                    self.n += 1
                    root = ("loc", self.n, d.n); self.rtype[root] = d.t.noref if d.t else None
                    S.st[root] = self.load(S, r, d.t.noref if d.t else None)
                    fr2.vars[id(d)] = L(Ref(root, (), None))
        return L(Fn(fs, fr2, fr.this))

    # ---------------------------------------------------------------- calls
    def construct(self, S, fr, n, into=None):
        d = n.decl; t = n.type
        if n.k == "InitListExpr":
            v = self.rv(S, fr, n)
            if into is not None and v.c is None and isinstance(v.leaf, Agg):
                for k, x in v.leaf.f.items():
                    self.store(S, apply(lambda r: r.sub(k, None), into), x)
            return v
        args = n.args
        sp = d.raw.get("sp") if d is not None else None
        fn = self.P.funcs.get(d.key) if d is not None else None
        h = self.hooks.get(d.q) if d is not None else None
        if h is not None:
            r = h(self, S, fr, n)
            if r is not None:
                return r
        if self.construct_stream is not None and into is None:
            r = self.construct_stream(self, S, fr, n)
            if r is not None:
                return r
        if sp in ("copyctor", "movector") and (fn is None or not d.user):
            return self.rv(S, fr, args[0])
        if t is not None and t.tmpl == "std::span" and args:
            a = args[0]
            at = a.type
            if at is not None and at.noref.tmpl == "std::span":
                return self.rv(S, fr, a)
            return self.lv(S, fr, a)
        if t is not None and t.s.startswith(ITER) and len(args) == 1:
            x = self.rv(S, fr, args[0])
            if all(isinstance(l, alg.Itr) for l in alg.leaves(x)):
                return x
        if t is not None and t.tmpl == "std::reference_wrapper" and len(args) == 1:
            return self.rv(S, fr, args[0]) if args[0].type is not None and args[0].type.noref.tmpl == "std::reference_wrapper" else self.lv(S, fr, args[0])
        if t is not None and t.rec == "std::type_index" and len(args) == 1:
            return self.rv(S, fr, args[0])
        if t is not None and t.tmpl == "std::function" and len(args) == 1:
            return self.rv(S, fr, args[0])
        if t is not None and t.tmpl == "std::pair" and len(args) == 2:
            return L(Agg({"first": self.rv(S, fr, args[0]), "second": self.rv(S, fr, args[1])}, None, t))
        if t is not None and t.tmpl == "std::pair" and not args:
            return L(Agg({"first": self.zero(t.args[0]), "second": self.zero(t.args[1])}, None, t))
        if t is not None and t.tmpl == "std::tuple":
            return L(Agg({i: self.rv(S, fr, a) for i, a in enumerate(args)}, None, t))
        if t is not None and (t.tmpl in ("std::unique_ptr", "std::shared_ptr")):
            if not args:
                return L(Ref(("null",)))
            return self.rv(S, fr, args[0])
        if t is not None and t.tmpl == "std::variant":
            v = self.variant(S, fr, t, args)
            if v is not None:
                return v
        if t is not None and t.tmpl == "std::optional":
            if not args or (args[0].type is not None and "nullopt" in args[0].type.s):
                return L(Agg({"has": L(False)}, None, t))
            v = self.rv(S, fr, args[0])
            return L(Agg({"has": L(True), 0: v}, None, t))
        if t is not None and t.tmpl == "std::vector":
            ra = [a for a in args if not a.da]
            if not ra:
                return L(Agg({}, None, t))
            a = ra[0]
            if len(ra) == 1 and a.k == "CXXStdInitializerListExpr":
                x = a.ch[0]
                while x.k not in ("InitListExpr",) and x.ch:
                    x = x.ch[0]
                return L(Agg({i: self.rv(S, fr, c) for i, c in enumerate(x.ch)}, None, t))
            r = self.vecof(S, fr, ra, t)
            if r is not None:
                return r
        if t is not None and t.tmpl in ASSOC and args and args[0].k == "CXXStdInitializerListExpr":
            x = args[0].ch[0]
            while x.k != "InitListExpr" and x.ch:
                x = x.ch[0]
            self.n += 1
            root = ("tmp", self.n); self.rtype[root] = t; S.st[root] = L(Agg({}, None, t))
            for c in x.ch:
                self.insert(S, L(Ref(root, (), t)), t, self.rv(S, fr, c))
            return self.load(S, L(Ref(root, (), t)), t)
        if t is not None and t.tmpl in ADAPT + ASSOC and not [a for a in args if not a.da]:
            return L(Agg({}, None, t))
        if t is not None and t.tmpl in ("std::basic_string", "std::basic_string_view") and not [a for a in args if not a.da]:
            return L(Str(""))
        if t is not None and t.tmpl in ("std::basic_string", "std::basic_string_view") and len([a for a in args if not a.da]) == 1:
            x = self.text(S, fr, args[0])
            if x is not None:
                return L(Str(x))
        if t is not None and t.tmpl == "std::basic_string" and len(args) >= 1:
            v = self.rv(S, fr, args[0])
            if v.c is None and isinstance(v.leaf, (Str, Opq)):
                return v
        if fn is not None and self.depth < self.maxdepth and d.q not in self.opaque:
            self.n += 1
            if into is None:
                root = ("tmp", self.n); self.rtype[root] = t; S.st[root] = L(Agg({}, None, t))
                this = L(Ref(root, (), t))
            else:
                this = into
            a = self.bindargs(S, fr, d, args)
            r = self.call(fn, a, this, S)
            if into is None:
                v = self.load(S, this, t)
                if any(isinstance(x, Bot) for x in alg.leaves(r)):
                    v = apply(lambda x, y: y, r, v)
                return v
            return r
        if fn is None and not args and sp == "defctor":
            R = self.P.records.get(t.rec) if t is not None and t.rec else None
            return L(Agg({}, None, t)) if R is not None or (t is not None and t.rec) else self.zero(t)
        vals = [self.rv(S, fr, a) for a in args]
        return self.opaque_of(("new", tname(t), tuple(v.id for v in vals)), t)

    def altof(self, t, at):
        """the alternative of a variant type an argument of some type selects (exact match only)"""
        at = at.noref if at is not None else None
        if at is None:
            return None
        for x in t.args:
            if not isinstance(x, str) and unconst(x.s) == unconst(at.s):
                return x
        return None

    def variant(self, S, fr, t, args):
        if not args:
            return L(Agg({"alt": L(Str(unconst(t.args[0].s))), 0: self.zero(t.args[0])}, None, t))
        x = self.altof(t, args[0].type)
        if x is None:
            return None
        v = self.rv(S, fr, args[0])
        return L(Agg({"alt": L(Str(unconst(x.s))), 0: v}, None, t))

    def variants(self, S, fr, n, nm, A):
        """std::visit, std::get<T>, std::get_if<T>, std::holds_alternative<T> on variants with a known alternative"""
        if nm == "visit" and len(A) == 2:
            f = self.rv(S, fr, A[0])
            vt = A[1].type.noref
            r = self.lv(S, fr, A[1])
            v = self.load(S, r, vt)
            if r.c is None and v.c is None and isinstance(v.leaf, Agg) and "alt" in v.leaf.f and f.c is None:
                alt = v.leaf.f["alt"]
                if alt.c is not None or not isinstance(alt.leaf, Str):
                    return None
                want = alt.leaf.s
                x = [y for y in vt.args if not isinstance(y, str) and unconst(y.s) == want]
                el = L(r.leaf.sub(0, x[0] if x else None))
                if isinstance(f.leaf, Fn):
                    c = [g for g in f.leaf.funcs if len(g.params) == 1 and g.params[0].t is not None and unconst(g.params[0].t.noref.s) == want]
                    if len(c) == 1:
                        g = c[0]
                        return self.call(g, [el if g.params[0].t.ref else self.load(S, el, g.params[0].t)], f.leaf.this, S, parent=f.leaf.frame)
                elif isinstance(f.leaf, Agg) and A[0].type is not None and A[0].type.noref.rec:
                    c = [g for g in self.P.funcs.values() if g.decl.rec == A[0].type.noref.rec and g.decl.n == "operator()" and len(g.params) == 1 and unconst(g.params[0].t.noref.s) == want]
                    if len(c) == 1:
                        g = c[0]
                        return self.call(g, [el if g.params[0].t.ref else self.load(S, el, g.params[0].t)], self.lv(S, fr, A[0]), S)
            return None
        d = n.decl
        if nm in ("get", "get_if", "holds_alternative") and len(A) == 1 and d.raw.get("targs"):
            at = A[0].type
            at = at.base if at is not None else None
            if at is None or at.tmpl != "std::variant":
                return None
            ta = d.raw["targs"][0]
            ptr = nm == "get_if"
            r = self.rv(S, fr, A[0]) if ptr else self.lv(S, fr, A[0])
            v = self.load(S, r, at)
            if r.c is None and v.c is None and isinstance(v.leaf, Agg) and "alt" in v.leaf.f and v.leaf.f["alt"].c is None:
                have = v.leaf.f["alt"].leaf
                want = unconst(d.tu.types[ta].s if isinstance(ta, int) else str(ta))
                hit = isinstance(have, Str) and have.s == want
                if nm == "holds_alternative":
                    return L(hit)
                if ptr:
                    return L(r.leaf.sub(0, d.t.p)) if hit else L(Ref(("null",)))
                if not hit:
                    b = L(Bot("throw std::bad_variant_access")); S.jump = b
                    return b
                return L(r.leaf.sub(0, d.t.p if d.t is not None else None))
            if nm == "holds_alternative" and v.c is None and isinstance(v.leaf, Opq):
                return self.holds(v.leaf, unconst(d.tu.types[ta].s if isinstance(ta, int) else str(ta)))
        return None

    def holds(self, x, alt):
        return alg.cond(("holds_alternative", x.key, alt))

    def varindex(self, S, fr, n, ot):
        """index of the alternative a variant holds"""
        v = self.load(S, self.objof(S, fr, n), ot)
        alts = [unconst(y.s) if not isinstance(y, str) else y for y in ot.args]
        def f(x):
            if isinstance(x, Agg) and "alt" in x.f and x.f["alt"].c is None and isinstance(x.f["alt"].leaf, Str) and x.f["alt"].leaf.s in alts:
                return L(rf(alts.index(x.f["alt"].leaf.s)))
            if isinstance(x, Opq):
                out = L(rf(len(alts) - 1))
                for i in reversed(range(len(alts) - 1)):
                    out = ite(self.holds(x, alts[i]), L(rf(i)), out)
                return out
            return L(Opq(("variantindex", alg.lkey(x)), None))
        return apply(f, v)

    def bindargs(self, S, fr, d, args):
        out = []
        pts = d.raw.get("pt", [])
        for i, a in enumerate(args):
            pt = d.tu.types[pts[i]] if i < len(pts) else None
            if pt is not None and pt.ref:
                out.append(self.lv(S, fr, a))
            else:
                out.append(self.rv(S, fr, a))
        return out

    def callexpr(self, S, fr, n):
        d = n.decl
        t = n.type
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr"):
            return self.construct(S, fr, n)
        if d is None or d.k != "fn":
            # call through a member pointer
            c = n.ch[0] if n.ch else None
            if c is not None and c.k == "BinaryOperator" and c.op in (".*", "->*"):
                this = self.lv(S, fr, c.ch[0]) if c.op == ".*" else self.rv(S, fr, c.ch[0])
                f = self.rv(S, fr, c.ch[1])
                if f.c is None and isinstance(f.leaf, Ref) and f.leaf.root[0] == "fn" and f.leaf.root[1] in self.P.funcs and self.depth < self.maxdepth:
                    fn = self.P.funcs[f.leaf.root[1]]
                    a = [self.lv(S, fr, x) if p.t is not None and p.t.ref else self.rv(S, fr, x) for p, x in zip(fn.params, n.ch[1:])]
                    return self.call(fn, a, this, S)
            # call through a value
            f = self.rv(S, fr, n.ch[0]) if n.ch else None
            vals = [self.rv(S, fr, a) for a in n.ch[1:]]
            if f is not None and f.c is None and isinstance(f.leaf, Ref) and f.leaf.root[0] == "fn" and f.leaf.root[1] in self.P.funcs:
                return self.call(self.P.funcs[f.leaf.root[1]], vals, None, S)
            return self.opaque_of(("call", f.id if f is not None else n.loc, tuple(v.id for v in vals)), t)
        h = self.hooks.get(d.q) or self.hooks.get(d.n if d.n in ("?",) else None)
        if h is not None:
            r = h(self, S, fr, n)
            if r is not None:
                return r
        if d.lambda_fn():
            return self.lambda_call(S, fr, n)
        q = d.q or d.n
        if q.startswith("std::ranges::") or q.startswith("std::views::"):
            r = self.ranges(S, fr, n)
            if r is not None:
                return r
        if q.startswith("std::") or q.startswith("__") or not q.startswith("queso"):
            r = self.stdcall(S, fr, n)
            if r is not None:
                return r
        tg = self.P.targets(n)
        if d.raw.get("virt") and n.vc:
            if len(tg) != 1:
                tg = self.dynamic(S, fr, n, tg)
        else:
            tg = [self.P.funcs[d.key]] if d.key in self.P.funcs else []
        sp = d.raw.get("sp")
        if sp in ("copyassign", "moveassign") and not d.user:
            r = self.lv(S, fr, n.obj)
            v = self.rv(S, fr, n.args[0])
            self.store(S, r, v)
            return r
        if tg and q not in self.opaque and self.depth < self.maxdepth:
            fn = tg[0]
            this = None
            if n.raw.get("mc"):
                this = self.objof(S, fr, n)
            a = self.bindargs(S, fr, d, n.args)
            return self.call(fn, a, this, S)
        return self.opaque_call(S, fr, n)

    def dynamic(self, S, fr, n, tg):
        """the override a virtual call reaches when the object's type is known"""
        o = self.objof(S, fr, n)
        if o.c is not None or not isinstance(o.leaf, Ref) or o.leaf.path:
            return []
        dt = self.rtype.get(o.leaf.root)
        if dt is None and o.leaf.root in self.globd():
            dt = self.globd()[o.leaf.root].t
        if dt is None or not dt.rec:
            return []
        r = [f for f in tg if f.decl.raw.get("rec") == dt.rec]
        return r if len(r) == 1 else []

    def objof(self, S, fr, n):
        o = n.obj
        if n.raw.get("ar") or (o.type is not None and o.type.ptr):
            return self.rv(S, fr, o)
        return self.lv(S, fr, o)

    def lambda_call(self, S, fr, n):
        d = n.decl
        o = self.rv(S, fr, n.obj)
        if o.c is None and isinstance(o.leaf, Fn):
            f = o.leaf
            own = [g for g in f.funcs if g.key == d.key]
            if not own:
                # the printed key of a closure's caller does not tell instantiations of the enclosing template apart
                sig = d.key.rsplit("::lambda@", 1)[-1]
                own = [g for g in f.funcs if g.key.rsplit("::lambda@", 1)[-1] == sig]
            fn = own[0] if own else f.funcs[0] if len(f.funcs) == 1 else self.P.funcs.get(d.key) or (f.funcs[0] if f.funcs else None)
            if fn is not None and self.depth < self.maxdepth:
                a = self.bindargs(S, fr, d, n.args)
                return self.call(fn, a, f.this, S, parent=f.frame)
        fn = self.P.funcs.get(d.key)
        if fn is not None and captureless(fn) and self.depth < self.maxdepth:
            return self.call(fn, self.bindargs(S, fr, d, n.args), None, S)
        return self.opaque_call(S, fr, n)

    def opaque_call(self, S, fr, n):
        """uninterpreted call: result and everything reachable through non-const references is unknown, named
        by the callee and the values of its arguments"""
        d = n.decl
        t = d.t
        ids = []
        targets = []
        if n.raw.get("mc"):
            r = self.objof(S, fr, n)
            ids.append(self.load(S, r).id if r.c is None and isinstance(r.leaf, Ref) and r.leaf.root[0] != "fn" else r.id)
            if not d.cm:
                targets.append((r, None))
        pts = d.raw.get("pt", [])
        for i, a in enumerate(n.args):
            pt = d.tu.types[pts[i]] if i < len(pts) else None
            if pt is not None and pt.ref:
                r = self.lv(S, fr, a)
                ids.append(self.load(S, r, pt.p).id)
                if pt.ref == 1 and not pt.p.const:
                    targets.append((r, pt.p))
            else:
                v = self.rv(S, fr, a)
                if pt is not None and pt.ptr and v.c is None and isinstance(v.leaf, Ref):
                    ids.append(v.id)
                    if not pt.p.const and not (pt.p.fn if pt.p else None):
                        targets.append((v, pt.p))
                else:
                    ids.append(v.id)
        key = (d.q, tuple(d.raw.get("targs") or ()) and None, tuple(ids))
        self.events.append(("call", d, n, tuple(ids), tuple(self.guards)))
        for i, (r, ty) in enumerate(targets):
            for lf in alg.leaves(r):
                if isinstance(lf, Ref) and lf.root != ("null",):
                    self.store1(S, lf, self.opaque_of(("post", d.q, i, tuple(ids)), ty or lf.t or self.rtype.get(lf.root)))
        if t is None or t.s == "void":
            return L(None)
        return self.opaque_of(("call", d.q, tuple(ids)), t)

    # ---------------------------------------------------------------- standard library
    def stdcall(self, S, fr, n):
        d = n.decl; q = d.q or d.n; nm = d.n; t = n.type
        rt = d.rtmpl if d.raw.get("rtmpl") else None
        if n.raw.get("mc"):
            ot = n.obj.type
            ot = ot.base if ot is not None and (ot.ref or ot.ptr) else ot
            rec = (d.raw.get("rtmpl") or d.rec or "")
            if rec.startswith("std::reference_wrapper") and (nm == "get" or nm.startswith("operator")) and n.op != "()":
                return self.rv(S, fr, n.obj)
            if rec in ("std::array", "std::span", "std::vector") or rec.startswith("std::array<") or rec.startswith("std::span<") or rec.startswith("std::vector<"):
                isspan = rec.startswith("std::span")
                def base():
                    return self.rv(S, fr, n.obj) if isspan else self.objof(S, fr, n)
                if n.op == "[]" or nm == "at":
                    b = base()
                    ix = self.rv(S, fr, n.args[0])
                    return self.index(S, b, ix, self.elem_type(ot))
                if nm in ("front",):
                    return self.index(S, base(), L(rf(0)), self.elem_type(ot))
                if nm == "data":
                    return apply(lambda x: alg.Itr(x, rf(0)) if isinstance(x, Ref) else x, base())
                if nm in ("begin", "cbegin", "end", "cend"):
                    b = base()
                    if nm in ("begin", "cbegin"):
                        return apply(lambda x: alg.Itr(x, rf(0)) if isinstance(x, Ref) else x, b)
                    return apply(lambda x: apply(lambda m: alg.Itr(x, m), self.sizeof(S, x, ot)) if isinstance(x, Ref) else x, b)
                if nm == "size" and ot is not None:
                    if ot.tmpl == "std::array":
                        return L(rf(int(ot.args[1].rstrip("UL"))))
                    if ot.tmpl == "std::span" and isinstance(ot.args[1], str) and len(ot.args[1]) < 6:
                        return L(rf(int(ot.args[1].rstrip("UL"))))
                if nm in ("size", "empty") and isspan:
                    b = base()
                    m = self.sizeof(S, b.leaf) if b.c is None and isinstance(b.leaf, Ref) else None
                    if m is not None and m.c is None and isinstance(m.leaf, RF):
                        return m if nm == "size" else self.compare("==", m, L(rf(0)))
                if n.op == "=" and len(n.args) == 1:
                    r = self.lv(S, fr, n.obj)
                    a = n.args[0]
                    v = self.rv(S, fr, a)
                    self.store(S, r, v)
                    return r
                if nm == "fill" and ot.tmpl == "std::array":
                    v = self.rv(S, fr, n.args[0])
                    N = int(ot.args[1].rstrip("UL"))
                    self.store(S, base(), L(Agg({i: v for i in range(N)}, None, ot)))
                    return L(None)
                if rec.startswith("std::vector") and nm in ("resize", "insert", "erase", "assign", "swap", "shrink_to_fit", "capacity"):
                    x = self.vecedit(S, fr, n, nm, base(), ot)
                    if x is not None:
                        return x
                if rec.startswith("std::vector") and nm in ("push_back", "emplace_back", "size", "reserve", "clear", "empty", "back", "pop_back"):
                    r = base()
                    v = self.load(S, r, ot)
                    if nm == "reserve":
                        self.rv(S, fr, n.args[0])
                        return L(None)
                    if v.c is None and isinstance(v.leaf, Agg) and v.leaf.base is None and all(isinstance(k, int) for k in v.leaf.f):
                        m = len(v.leaf.f)
                        et = self.elem_type(ot)
                        if nm == "size": return L(rf(m))
                        if nm == "empty": return L(m == 0)
                        if nm == "clear":
                            self.store(S, r, L(Agg({}, None, ot))); return L(None)
                        if nm == "pop_back" and m:
                            f = dict(v.leaf.f); del f[m - 1]
                            self.store(S, r, L(Agg(f, None, ot))); return L(None)
                        if nm == "back" and m:
                            return apply(lambda x: x.sub(m - 1, et), r)
                        if nm in ("push_back", "emplace_back"):
                            x = self.emplace(S, fr, n, et)
                            f = dict(v.leaf.f); f[m] = x
                            self.store(S, r, L(Agg(f, None, ot)))
                            return apply(lambda y: y.sub(m, et), r) if nm == "emplace_back" else L(None)
                    if nm in ("push_back", "emplace_back"):
                        et = self.elem_type(ot)
                        x = self.emplace(S, fr, n, et)
                        self.events.append(("push", r, x, n, tuple(self.guards)))
                        for lf in alg.leaves(r):
                            if isinstance(lf, Ref):
                                self.store1(S, lf, L(Opq(("pushed", alg.lkey(v.leaf) if v.c is None else v.id, x.id), ot)))
                        return apply(lambda y: y.sub(("ix", "last"), et) if isinstance(y, Ref) else y, r)
            if rec.split("<")[0] in ("std::basic_string", "std::basic_string_view", "std::__cxx11::basic_string"):
                x = self.strings(S, fr, n, nm, n.args)
                if x is not None:
                    return x
            if rec.split("<")[0] in ASSOC:
                r = self.assoc(S, fr, n, nm, rec.split("<")[0], ot)
                if r is not None:
                    return r
            if rec in ADAPT or rec.split("<")[0] in ADAPT:
                r = self.adaptor(S, fr, n, nm, rec.split("<")[0], ot)
                if r is not None:
                    return r
            if rec.startswith(ITER) or rec.startswith("std::ranges::") and rec.split("::")[-1].startswith(("_Iterator", "_Sentinel")):
                r = self.itmember(S, fr, n, nm)
                if r is not None:
                    return r
            if nm == "index" and n.raw.get("mc") and not n.args and n.obj is not None and n.obj.type is not None and n.obj.type.noref.tmpl == "std::variant":
                return self.varindex(S, fr, n, n.obj.type.noref)
            if rec.startswith("std::variant") and n.op == "=" and n.args:
                r = self.objof(S, fr, n)
                at = n.args[-1].type
                vt = n.obj.type.noref if n.obj is not None and n.obj.type is not None else None
                if vt is not None and vt.tmpl == "std::variant" and at is not None:
                    if at.noref.tmpl == "std::variant":
                        v = self.rv(S, fr, n.args[-1])
                    else:
                        v = self.variant(S, fr, vt, [n.args[-1]])
                    if v is not None:
                        self.store(S, r, v)
                        return r
            if rec.startswith("std::optional"):
                if nm == "has_value" or d.raw.get("conv"):
                    v = self.rv(S, fr, n.obj)
                    return self.field_of(v, "has", TB)
                if nm == "value_or":
                    v = self.rv(S, fr, n.obj); d0 = self.rv(S, fr, n.args[0])
                    return ite(self.boolv(self.field_of(v, "has", TB)), self.field_of(v, 0, t), d0)
                if n.op in ("*", "->") or nm == "value":
                    r = self.lv(S, fr, n.obj)
                    return apply(lambda x: x.sub(0, self.elem_type(ot)) if isinstance(x, Ref) else x, r)
            if rec.startswith(("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr")):
                if n.op in ("*", "->") or nm == "get":
                    v = self.rv(S, fr, n.obj)
                    et = self.elem_type(ot)
                    return apply(lambda x: x if isinstance(x, (Ref, Bot)) else self.objref(("obj", ("deref", alg.lkey(x))), et), v)
                if d.raw.get("conv"):
                    v = self.rv(S, fr, n.obj)
                    return self.boolv(v)
            if rec.startswith(("std::unique_ptr", "std::shared_ptr")) and (n.op == "=" or nm == "reset"):
                r = self.lv(S, fr, n.obj)
                self.store(S, r, self.rv(S, fr, n.args[0]) if n.args else L(Ref(("null",))))
                return r
            if rec in ("std::type_index", "std::type_info") and n.op in ("==", "!=") and len(n.args) == 1:
                return self.compare(n.op, self.rv(S, fr, n.obj), self.rv(S, fr, n.args[0]))
            if rec.startswith("std::function") and n.op == "=" and n.args:
                r = self.lv(S, fr, n.obj)
                self.store(S, r, self.rv(S, fr, n.args[0]))
                return r
            if rec.startswith("std::function") and n.op == "()":
                v = self.rv(S, fr, n.obj)
                r = self.invoke(S, fr, v, [self.lv(S, fr, a) if a.lv else self.rv(S, fr, a) for a in n.args], t)
                if r is not None:
                    return r
            if rec.startswith("std::pair") and n.op == "=":
                r = self.lv(S, fr, n.obj)
                self.store(S, r, self.rv(S, fr, n.args[0]))
                return r
            if d.raw.get("sp") in ("copyassign", "moveassign"):
                r = self.lv(S, fr, n.obj)
                self.store(S, r, self.rv(S, fr, n.args[0]))
                return r
            return None
        A = n.args
        r = self.algorithm(S, fr, n, nm, A)
        if r is not None:
            return r
        if q in ("std::ref", "std::cref") and len(A) == 1:
            return self.lv(S, fr, A[0])
        if q in ("std::move", "std::forward", "std::as_const", "std::launder", "std::addressof", "std::move_if_noexcept"):
            return self.lv(S, fr, A[0])
        if nm in ("abs", "fabs") and len(A) == 1:
            return apply(self.abs1, self.rv(S, fr, A[0]))
        if nm == "sqrt":
            return apply(lambda x: alg.sqrt(x) if isinstance(x, RF) else Opq(("sqrt", alg.lkey(x)), t), self.rv(S, fr, A[0]))
        if nm in ("min", "max", "fmin", "fmax") and len(A) == 2:
            va = self.load(S, self.lv(S, fr, A[0]), t.noref if t else None) if (d.t is not None and d.t.ref) else self.rv(S, fr, A[0])
            vb = self.load(S, self.lv(S, fr, A[1]), t.noref if t else None) if (d.t is not None and d.t.ref) else self.rv(S, fr, A[1])
            r = ite(self.compare("<", va, vb), vb, va) if "max" in nm else ite(self.compare("<", vb, va), vb, va)
            return self.temp(S, r, t) if d.t is not None and d.t.ref else r
        if nm in ("min", "max") and len(A) == 1:
            v = self.rv(S, fr, A[0])
            if v.c is None and isinstance(v.leaf, Agg) and v.leaf.f:
                ks = sorted(v.leaf.f)
                r = v.leaf.f[ks[0]]
                for k in ks[1:]:
                    x = v.leaf.f[k]
                    r = ite(self.compare("<", r, x), x, r) if nm == "max" else ite(self.compare("<", x, r), x, r)
                return r
        if nm == "pow" and len(A) == 2:
            b = self.rv(S, fr, A[0]); e = self.rv(S, fr, A[1])
            def f(x, y):
                c = y.const if isinstance(y, RF) else None
                if isinstance(x, RF) and c is not None and c.denominator == 1 and 0 <= c <= 40:
                    return x ** int(c)
                return atomrf(("pow", alg.lkey(x), alg.lkey(y)))
            return apply(f, b, e)
        if nm == "make_pair":
            return L(Agg({"first": self.rv(S, fr, A[0]), "second": self.rv(S, fr, A[1])}, None, t))
        if nm == "make_tuple":
            return L(Agg({i: self.rv(S, fr, a) for i, a in enumerate(A)}, None, t))
        if nm in ("visit", "get", "get_if", "holds_alternative"):
            r = self.variants(S, fr, n, nm, A)
            if r is not None:
                return r
        if nm == "get" and len(A) == 1 and d.raw.get("targs"):
            at = A[0].type
            at = at.base if at is not None else None
            ta = d.raw["targs"][0]
            if at is not None and at.tmpl in ("std::pair", "std::tuple", "std::array") and isinstance(ta, str) and ta.rstrip("UL").isdigit():
                i = int(ta.rstrip("UL"))
                key = ("first", "second")[i] if at.tmpl == "std::pair" else i
                r = self.lv(S, fr, A[0])
                return apply(lambda x: x.sub(key, d.t.p if d.t is not None else None) if isinstance(x, Ref) else x, r)
        if nm == "swap" and len(A) == 2:
            r1, r2 = self.lv(S, fr, A[0]), self.lv(S, fr, A[1])
            v1, v2 = self.load(S, r1), self.load(S, r2)
            self.store(S, r1, v2); self.store(S, r2, v1)
            return L(None)
        if nm in ("make_unique", "make_shared"):
            et = self.elem_type(t)
            v = self.emplace(S, fr, n, et)
            self.n += 1
            root = ("heap", self.n); self.rtype[root] = et; S.st[root] = v
            return L(Ref(root, (), et))
        if nm in ("isfinite", "isnan", "isinf"):
            v = self.rv(S, fr, A[0])
            return apply(lambda x: alg.cond((nm, alg.lkey(x))), v)
        if nm in ("floor", "ceil", "round", "exp", "log", "sin", "cos", "tan", "acos", "hypot", "atan2", "cbrt", "trunc", "fmod"):
            vs = [self.rv(S, fr, a) for a in A]
            if nm in ("floor", "ceil", "trunc", "round") and len(vs) == 1 and vs[0].c is None and isinstance(vs[0].leaf, RF) and vs[0].leaf.const is not None:
                import math
                c = vs[0].leaf.const
                return L(rf({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda x: math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)}[nm](c)))
            return apply(lambda *xs: atomrf((nm,) + tuple(alg.lkey(x) for x in xs)), *vs)
        if n.op in ("==", "!=") and len(A) == 2:
            a = self.rv(S, fr, A[0]); b = self.rv(S, fr, A[1])
            return self.compare(n.op, a, b)
        if nm == "abort" or nm == "terminate" or nm == "__assert_fail" or nm == "exit":
            b = L(Bot(nm)); S.jump = b
            return b
        return None

    def adaptor(self, S, fr, n, nm, rec, ot):
        """stack, queue and priority queue as lists"""
        r = self.objof(S, fr, n)
        v = self.load(S, r, ot)
        if v.c is not None or not isinstance(v.leaf, Agg) or v.leaf.base is not None or not all(isinstance(k, int) for k in v.leaf.f):
            return None
        f = v.leaf.f
        ks = sorted(f)
        if nm == "size": return L(rf(len(f)))
        if nm == "empty": return L(not f)
        if nm in ("push", "emplace"):
            et = ot.args[0]
            x = self.rv(S, fr, n.args[0]) if nm == "push" or len(n.args) == 1 else None
            if x is None:
                return None
            g = dict(f); g[ks[-1] + 1 if ks else 0] = x
            self.store(S, r, L(Agg(g, None, ot)))
            return L(None)
        if nm in ("top", "front", "pop", "back") and f:
            if rec == "std::stack" or nm == "back":
                k = ks[-1]
            elif rec == "std::queue":
                k = ks[0]
            else:
                k = ks[0]
                for j in ks[1:]:
                    c = self.ordered(S, ot, r, k, j)
                    if c is None:
                        return None
                    if c:
                        k = j
            if nm == "pop":
                g = {i: f[j] for i, j in enumerate([x for x in ks if x != k])}
                self.store(S, r, L(Agg(g, None, ot)))
                return L(None)
            return apply(lambda x: x.sub(k, ot.args[0]) if isinstance(x, Ref) else x, r)
        return None

    def vecedit(self, S, fr, n, nm, r, ot):
        """resize, insert, erase, assign and swap of vectors with known elements"""
        if nm == "shrink_to_fit":
            return L(None)
        f = self.entries(S, r, ot)
        if f is None or nm == "capacity":
            return None
        A = [a for a in n.args if not a.da]
        es = [f[i] for i in sorted(f)]
        put = lambda xs: self.store(S, r, L(Agg(dict(enumerate(xs)), None, ot)))
        et = self.elem_type(ot)
        def num(v):
            return int(v.leaf.const) if v.c is None and isinstance(v.leaf, RF) and v.leaf.const is not None and v.leaf.const.denominator == 1 else None
        def pos(v):
            return int(v.leaf.i.const) if v.c is None and isinstance(v.leaf, alg.Itr) and v.leaf.i.const is not None and (v.leaf.ref.root, v.leaf.ref.path) == (r.leaf.root, r.leaf.path) else None
        def span(a, b):
            sp = self.span_of(self.rv(S, fr, a), self.rv(S, fr, b))
            return None if sp is None else [self.load(S, self.index(S, L(sp[0]), L(rf(j)), None)) for j in range(sp[1], sp[2])]
        if nm in ("resize", "assign") and A and A[0].type is not None and A[0].type.noref.int:
            m = num(self.rv(S, fr, A[0]))
            if m is None or m > 4096:
                return None
            v = self.rv(S, fr, A[1]) if len(A) > 1 else self.zero(et)
            put(es[:m] + [v] * (m - len(es)) if nm == "resize" else [v] * m)
            return L(None)
        if nm == "assign" and len(A) == 2:
            xs = span(*A)
            if xs is None:
                return None
            put(xs)
            return L(None)
        if nm == "swap" and len(A) == 1:
            o = self.lv(S, fr, A[0])
            g = self.entries(S, o, ot)
            if g is None:
                return None
            self.store(S, o, self.load(S, r, ot)); put([g[i] for i in sorted(g)])
            return L(None)
        if nm == "insert" and len(A) in (2, 3):
            p = pos(self.rv(S, fr, A[0]))
            if p is None:
                return None
            xs = [self.rv(S, fr, A[1])] if len(A) == 2 else span(A[1], A[2])
            if xs is None:
                return None
            put(es[:p] + xs + es[p:])
            return L(alg.Itr(r.leaf, rf(p)))
        if nm == "erase" and len(A) in (1, 2):
            p = pos(self.rv(S, fr, A[0])); q = p + 1 if len(A) == 1 and p is not None else pos(self.rv(S, fr, A[1])) if len(A) == 2 else None
            if p is None or q is None or not 0 <= p <= q <= len(es):
                return None
            put(es[:p] + es[q:])
            return L(alg.Itr(r.leaf, rf(p)))
        return None

    def entries(self, S, r, ot):
        v = self.load(S, r, ot)
        if v.c is not None or not isinstance(v.leaf, Agg) or v.leaf.base is not None or not all(isinstance(k, int) for k in v.leaf.f) or r.c is not None:
            return None
        return v.leaf.f

    def keyof(self, e, ot):
        return self.field_of(e, "first", ot.args[0]) if "map" in ot.tmpl else e

    def keyorder(self, S, ot, a, b):
        """does key a order before key b under the comparator of the project that the container is given; None if it has none"""
        i = 2 if "map" in ot.tmpl else 1
        ct = ot.args[i] if len(ot.args) > i and not isinstance(ot.args[i], str) else None
        if ot.tmpl.startswith("std::unordered") or ct is None or ct.rec is None or ct.rec.startswith("std::"):
            return None
        fs = [g for g in self.P.funcs.values() if g.decl.n == "operator()" and g.decl.rec == ct.rec and len(g.params) == 2 and g.body is not None]
        if len(fs) != 1:
            return None
        at = [self.temp(S, x, p.t.noref) if p.t is not None and p.t.ref else x for x, p in zip((a, b), fs[0].params)]
        return self.boolv(self.call(fs[0], at, self.temp(S, L(Agg({}, None, ct)), ct), S))

    def findkey(self, f, ot, k, miss, S=None):
        """index of the entry with key k as gated value"""
        if S is not None and f and self.keyorder(S, ot, k, k) is not None:
            out = L(("key", miss))
            for i in sorted(f, reverse=True):
                e = self.keyof(f[i], ot)
                same = alg.AND(NOT(self.keyorder(S, ot, e, k)), NOT(self.keyorder(S, ot, k, e)))
                out = ite(same, L(("key", i)), out)
            return out
        c = constkey(k)
        if c is not None:
            ks = [constkey(self.keyof(f[i], ot)) for i in f]
            if all(x is not None for x in ks):
                return L(("key", dict(zip(ks, f)).get(c, miss)))
        out = L(("key", miss))
        for i in sorted(f, reverse=True):
            out = ite(self.compare("==", self.keyof(f[i], ot), k), L(("key", i)), out)
        return out

    def insert(self, S, r, ot, entry, overwrite=False):
        """(index, inserted) of an associative insertion; None when it is not a constant"""
        f = self.entries(S, r, ot)
        if f is None:
            return None
        i = self.findkey(f, ot, self.keyof(entry, ot), None, S)
        if i.c is not None or not isinstance(i.leaf, tuple):
            return None
        i = i.leaf[1]
        g = dict(f)
        if i is None:
            k = lambda e: self.keyof(e, ot)
            num = lambda e: constkey(k(e))
            es = [g[j] for j in sorted(g)] + [entry]
            pos = len(es) - 1
            if g and self.keyorder(S, ot, k(entry), k(entry)) is not None:
                pos = 0
                while pos < len(es) - 1:
                    c = self.keyorder(S, ot, k(es[pos]), k(entry))
                    if c.c is not None or c.leaf is not True:
                        break
                    pos += 1
                es.insert(pos, es.pop())
            elif not ot.tmpl.startswith("std::unordered") and all(num(e) is not None for e in es):
                es.sort(key=num)
                pos = [j for j, e in enumerate(es) if e is entry][0]
            self.store(S, r, L(Agg(dict(enumerate(es)), None, ot)))
            return pos, True
        if overwrite:
            g[i] = entry
            self.store(S, r, L(Agg(g, None, ot)))
        return i, False

    def assoc(self, S, fr, n, nm, rec, ot):
        r = self.objof(S, fr, n)
        f = self.entries(S, r, ot)
        if f is None or ot is None or not ot.args:
            return None
        end = len(f)
        it = lambda i: L(alg.Itr(r.leaf, rf(i)))
        ismap = "map" in rec
        if nm == "size": return L(rf(end))
        if nm == "empty": return L(end == 0)
        if nm == "clear": self.store(S, r, L(Agg({}, None, ot))); return L(None)
        if nm in ("reserve", "rehash"): self.rv(S, fr, n.args[0]); return L(None)
        if nm in ("begin", "cbegin"): return it(0)
        if nm in ("end", "cend"): return it(end)
        if nm in ("find", "contains", "count") and len(n.args) == 1:
            k = self.rv(S, fr, n.args[0])
            i = self.findkey(f, ot, k, end if nm == "find" else -1, S)
            if nm == "find": return apply(lambda x: alg.Itr(r.leaf, rf(x[1])) if isinstance(x, tuple) else x, i)
            return apply(lambda x: (x[1] >= 0 if nm == "contains" else rf(1 if x[1] >= 0 else 0)) if isinstance(x, tuple) else x, i)
        if nm in ("at",) or n.op == "[]":
            k = self.rv(S, fr, n.args[0])
            i = self.findkey(f, ot, k, None, S)
            if i.c is not None or not isinstance(i.leaf, tuple):
                return None
            i = i.leaf[1]
            if i is None:
                if nm == "at":
                    b = L(Bot("throw std::out_of_range")); S.jump = b
                    return b
                x = self.insert(S, r, ot, L(Agg({"first": k, "second": self.zero(ot.args[1])}, None, None)))
                return None if x is None else L(r.leaf.sub(x[0], None).sub("second", ot.args[1]))
            return L(r.leaf.sub(i, None).sub("second", ot.args[1]))
        if nm in ("emplace", "insert", "try_emplace", "insert_or_assign"):
            if ismap and len(n.args) == 2:
                e = L(Agg({"first": self.rv(S, fr, n.args[0]), "second": self.rv(S, fr, n.args[1])}, None, None))
            elif len(n.args) == 1:
                e = self.rv(S, fr, n.args[0])
            elif len(n.args) == 2:
                a, b = self.rv(S, fr, n.args[0]), self.rv(S, fr, n.args[1])
                sp = self.span_of(a, b)
                if sp is None:
                    return None
                for j in range(sp[1], sp[2]):
                    if self.insert(S, r, ot, self.load(S, self.index(S, L(sp[0]), L(rf(j)), None))) is None:
                        return None
                return L(None)
            else:
                return None
            x = self.insert(S, r, ot, e, nm == "insert_or_assign")
            if x is None:
                return None
            return L(Agg({"first": it(x[0]), "second": L(x[1])}, None, n.type))
        if nm == "erase" and len(n.args) == 1:
            k = self.rv(S, fr, n.args[0])
            if k.c is None and isinstance(k.leaf, alg.Itr):
                i = int(k.leaf.i.const) if k.leaf.i.const is not None else None
            else:
                i = self.findkey(f, ot, k, -1, S)
                i = i.leaf[1] if i.c is None and isinstance(i.leaf, tuple) else None
            if i is None:
                return None
            es = [f[j] for j in sorted(f) if j != i]
            self.store(S, r, L(Agg(dict(enumerate(es)), None, ot)))
            return it(i) if k.c is None and isinstance(k.leaf, alg.Itr) else L(rf(end - len(es)))
        return None

    def ordered(self, S, ot, r, i, j):
        """does element i of a priority queue order before element j, as a constant"""
        a, b = [L(r.leaf.sub(k, ot.args[0])) for k in (i, j)]
        ct = ot.args[2] if len(ot.args) > 2 else None
        if ct is None or ct.tmpl == "std::less":
            c = self.compare("<", self.load(S, a), self.load(S, b))
        elif ct.tmpl == "std::greater":
            c = self.compare(">", self.load(S, a), self.load(S, b))
        else:
            fs = [g for g in self.P.funcs.values() if g.decl.n == "operator()" and g.decl.rec == ct.rec]
            if not fs:
                return None
            av = [x if p.t.ref else self.load(S, x, p.t) for p, x in zip(fs[0].params, (a, b))]
            c = self.boolv(self.call(fs[0], av, None, S))
        return c.leaf if c.c is None and isinstance(c.leaf, bool) else None

    def sizeof(self, S, ref, t=None):
        """number of elements of a sequence"""
        ty = t
        if ty is not None and ty.tmpl == "std::array":
            return L(rf(int(ty.args[1].rstrip("UL"))))
        v = self.load1(S, ref, t)
        def f(x):
            if isinstance(x, Agg) and x.base is None and all(isinstance(k, int) for k in x.f):
                return rf(len(x.f))
            return atomrf(("size", alg.lkey(x)), nn=True, isint=True)
        return apply(f, v)

    def itmember(self, S, fr, n, nm):
        t = n.type
        et = t.p if t is not None and (t.ref or t.ptr) else t
        if n.op in ("*", "->") and not n.args:
            return apply(lambda x: self.deref(S, L(x), et), self.rv(S, fr, n.obj))
        if n.op == "[]":
            return self.index(S, self.rv(S, fr, n.obj), self.rv(S, fr, n.args[0]), et)
        if n.op in ("+", "-") and len(n.args) == 1:
            return self.arith(n.op, self.rv(S, fr, n.obj), self.rv(S, fr, n.args[0]), None)
        if n.op in ("+=", "-="):
            r = self.lv(S, fr, n.obj)
            self.store(S, r, self.arith(n.op[0], self.load(S, r), self.rv(S, fr, n.args[0]), None))
            return r
        if n.op in ("++", "--"):
            r = self.lv(S, fr, n.obj)
            o = self.load(S, r)
            v = self.arith(n.op[0], o, L(rf(1)), None)
            self.store(S, r, v)
            return o if n.args else r
        if nm == "base":
            return self.rv(S, fr, n.obj)
        return None

    # -- lazy ranges
    def ranges(self, S, fr, n):
        """views over index intervals and containers, and the adaptors piped onto them"""
        A = n.args
        if n.op == "|" and len(A) == 2:
            a, b = self.rangeval(S, fr, A[0]), self.rv(S, fr, A[1])
            if a is not None and b.c is None and isinstance(b.leaf, Agg) and "adaptor" in b.leaf.f:
                k = b.leaf.f["adaptor"].leaf
                return L(alg.Rng(a.lo, a.hi, a.ref, a.ad + ((k, b.leaf.f[0]),)))
            return None
        if n.op == "()":
            o = n.obj or (n.ch[0] if n.ch else None)
            cl = o.type.noref.s if o is not None and o.type is not None else ""
            A = [a for a in A if a is not o]
            nm = [k for k in ("_Iota", "_Transform", "_Filter", "_All") if cl.split("::")[-1].startswith(k)]
            if not nm:
                return None
            nm = nm[0]
            if nm == "_Iota" and len(A) == 2:
                return L(alg.Rng(self.rv(S, fr, A[0]), self.rv(S, fr, A[1])))
            if nm == "_All" and len(A) == 1:
                r = self.rangeval(S, fr, A[0])
                return None if r is None else L(r)
            if nm in ("_Transform", "_Filter") and A:
                k = nm[1:].lower()
                f = self.rv(S, fr, A[-1])
                if len(A) == 1:
                    return L(Agg({"adaptor": L(("adaptor", k)), 0: f}, None, n.type))
                r = self.rangeval(S, fr, A[0])
                return None if r is None else L(alg.Rng(r.lo, r.hi, r.ref, r.ad + ((("adaptor", k), f),)))
            return None
        if n.raw.get("mc"):
            o = self.lv(S, fr, n.obj) if not n.raw.get("ar") else self.rv(S, fr, n.obj)
            v = self.load(S, o, n.obj.type.noref if n.obj.type is not None else None) if o.c is None and isinstance(o.leaf, Ref) else o
            if v.c is None and isinstance(v.leaf, alg.Rng):
                r = v.leaf; nm = n.decl.n
                if nm in ("size", "empty") and not any(k[1] == "filter" for k, _ in r.ad):
                    m = self.arith("-", r.hi, r.lo, None) if r.ref is None else self.sizeof(S, r.ref, r.ref.t)
                    return m if nm == "size" else self.compare("==", m, L(rf(0)))
                if nm in ("begin", "end", "cbegin", "cend"):
                    m = self.rngsize(S, r)
                    if m is None:
                        return None
                    o = self.rngplace(S, r, m, nm.endswith("begin"))
                    return None if o is None else L(alg.Itr(o, rf(0 if nm.endswith("begin") else m)))
                if nm in ("operator[]", "front"):
                    x = self.rngelem(S, r, self.rv(S, fr, A[0]) if A else L(rf(0)))
                    if x is not None and x[0].c is None and x[0].leaf is True:
                        return x[1]
        return None

    def rangeval(self, S, fr, e):
        """the range an expression denotes: a view value, or a container seen through its reference"""
        t = e.type.noref if e.type is not None else None
        v = self.lv(S, fr, e)
        for _ in range(2):
            if v.c is not None:
                return None
            if isinstance(v.leaf, alg.Rng):
                return v.leaf
            if not isinstance(v.leaf, Ref):
                return None
            x = self.load(S, v, t)
            if x.c is None and isinstance(x.leaf, alg.Rng):
                return x.leaf
            if t is not None and t.tmpl in ("std::span", "std::ranges::ref_view", "std::ranges::owning_view") and x.c is None and isinstance(x.leaf, Ref):
                v = x; t = x.leaf.t or t
                continue
            return alg.Rng(ref=v.leaf)
        return alg.Rng(ref=v.leaf) if isinstance(v.leaf, Ref) else None

    def rngsize(self, S, r):
        """number of base elements as a Python integer"""
        if r.ref is None:
            m = self.fold(r.lo, r.hi)
            if m is None or not all(isinstance(x, RF) and x.const is not None for x in m):
                return None
            return int(m[1].const - m[0].const)
        v = self.load(S, L(r.ref), r.ref.t)
        if v.c is None and isinstance(v.leaf, Agg) and v.leaf.base is None and all(isinstance(k, int) for k in v.leaf.f):
            return len(v.leaf.f)
        return None

    def rngplace(self, S, r, m, fill):
        """the place the iterators of a range point into: the container itself, or one that holds the transformed elements"""
        if not r.ad and r.ref is not None:
            return r.ref
        if any(k[1] == "filter" for k, _ in r.ad):
            return None
        fk = tuple(f.leaf.funcs[0].key if f.c is None and isinstance(f.leaf, Fn) and f.leaf.funcs else repr(f)[:200] for _, f in r.ad)
        root = ("loc", "rng", r.ref.root if r.ref is not None else (r.lo.fp if hasattr(r.lo, "fp") else repr(r.lo), repr(r.hi)), r.ref.path if r.ref is not None else (), fk)
        if fill:
            items = {}
            for i in range(m):
                x = self.rngelem(S, r, L(rf(i)))
                if x is None or any(isinstance(y, Ref) for y in alg.leaves(x[1])):
                    return None
                items[i] = x[1]
            S.st[root] = L(Agg(items, None, None))
        return Ref(root, (), None)

    def rngelem(self, S, r, i):
        """(kept, element) at position i of the base range"""
        return self.through(S, r.ad, self.arith("+", r.lo, i, None) if r.ref is None else self.index(S, L(r.ref), i, None))

    def through(self, S, ad, x):
        keep = L(True)
        for (_, k), f in ad:
            a = x
            y = self.invoke(S, None, f, [a])
            if y is None:
                return None
            if k == "filter":
                y = self.boolv(y)
                keep = ite(y, keep, L(False))
            else:
                x = y
        return keep, x

    def fold(self, *vs):
        """all arguments are plain leaves"""
        return [v.leaf for v in vs] if all(v.c is None for v in vs) else None

    def span_of(self, a, b):
        """index range of two iterators into one sequence"""
        x = self.fold(a, b)
        if x is None or not all(isinstance(i, alg.Itr) for i in x) or (x[0].ref.root, x[0].ref.path) != (x[1].ref.root, x[1].ref.path):
            return None
        lo, hi = x[0].i.const, x[1].i.const
        if lo is None or hi is None or lo.denominator != 1 or hi.denominator != 1:
            return None
        return x[0].ref, int(lo), int(hi)

    def invoke(self, S, fr, f, args, t=None):
        """call a function value with argument values (references for elements)"""
        if f.c is not None:
            return None
        f = f.leaf
        if isinstance(f, Fn) and f.funcs:
            fn = f.funcs[0]
            if len(f.funcs) > 1:
                c = [g for g in f.funcs if len(g.params) == len(args)]
                fn = c[0] if c else fn
            av = []
            for p, a in zip(fn.params, args):
                av.append(a if p.t is not None and p.t.ref else (self.load(S, a, p.t) if any(isinstance(x, Ref) for x in alg.leaves(a)) and not (p.t is not None and p.t.ptr) else a))
            return self.call(fn, av, f.this, S, parent=f.frame)
        if isinstance(f, Ref) and f.root[0] == "fn" and f.root[1] in self.P.funcs:
            return self.call(self.P.funcs[f.root[1]], args, None, S)
        return None

    def algorithm(self, S, fr, n, nm, A):
        d = n.decl
        if n.op in ("+", "-", "==", "!=", "<", ">", "<=", ">=") and len(A) == 2:
            a, b = [self.rv(S, fr, x) if x.type is not None and any(i in x.type.noref.s for i in ("__normal_iterator", "_Node_iterator", "_Node_const_iterator", "_Rb_tree_iterator", "_Rb_tree_const_iterator", "_view<")) else None for x in A]
            if a is None and b is None:
                return None
            a = a if a is not None else self.rv(S, fr, A[0]); b = b if b is not None else self.rv(S, fr, A[1])
            return self.arith(n.op, a, b, None) if n.op in "+-" else self.compare(n.op, a, b)
        q = d.q or ""
        if not q.startswith("std::"):
            return None
        rng = q.startswith("std::ranges::")
        if nm in ("begin", "end", "cbegin", "cend", "size", "distance", "next", "prev", "advance") and not rng:
            if nm in ("distance",):
                return self.arith("-", self.rv(S, fr, A[1]), self.rv(S, fr, A[0]), None)
            if nm in ("next", "prev"):
                return self.arith("+" if nm == "next" else "-", self.rv(S, fr, A[0]), self.rv(S, fr, A[1]) if len(A) > 1 and A[1].k != "CXXDefaultArgExpr" else L(rf(1)), None)
            if nm == "advance":
                r = self.lv(S, fr, A[0]); self.store(S, r, self.arith("+", self.load(S, r), self.rv(S, fr, A[1]), None)); return L(None)
            if len(A) == 1:
                ot = A[0].type.noref if A[0].type is not None else None
                if ot is not None and ot.tmpl in ("std::vector", "std::array"):
                    b = self.lv(S, fr, A[0])
                    if nm in ("begin", "cbegin"):
                        return apply(lambda x: alg.Itr(x, rf(0)) if isinstance(x, Ref) else x, b)
                    return apply(lambda x: apply(lambda m: alg.Itr(x, m) if nm != "size" else m, self.sizeof(S, x, ot)) if isinstance(x, Ref) else x, b)
            return None
        if nm in ("sort", "stable_sort", "remove_if", "any_of", "all_of", "none_of", "count_if", "find_if", "find_if_not") and not rng:
            if len(A) < 2 or A[0].type is None or not ("__normal_iterator" in A[0].type.noref.s or A[0].type.ptr):
                return None
            return self.predicated(S, fr, nm, A)
        seq2 = ("copy", "reverse_copy", "for_each", "fill", "transform", "accumulate", "inner_product", "reverse", "min_element", "max_element", "minmax_element")
        if nm == "copy_n" and len(A) == 3:
            a, m = self.rv(S, fr, A[0]), self.rv(S, fr, A[1])
            b = self.arith("+", a, m, None)
            s = self.span_of(a, b); dst = self.rv(S, fr, A[2])
            return self.copyto(S, s, dst, False)
        if nm in seq2 and len(A) >= 2:
            if rng or A[0].type is None or not ("__normal_iterator" in A[0].type.noref.s or "_view<" in A[0].type.noref.s and "Iterator" in A[0].type.noref.s or A[0].type.ptr):
                return None
            a, b = self.rv(S, fr, A[0]), self.rv(S, fr, A[1])
            s = self.span_of(a, b)
            if s is None:
                return None
            ref, lo, hi = s
            el = lambda i: self.index(S, L(ref), L(rf(i)), None)
            val = lambda i: self.load(S, el(i))
            if nm in ("copy", "reverse_copy") and len(A) == 3:
                return self.copyto(S, s, self.rv(S, fr, A[2]), nm == "reverse_copy")
            if nm == "for_each" and len(A) == 3:
                f = self.rv(S, fr, A[2])
                for i in range(lo, hi):
                    if self.invoke(S, fr, f, [el(i)]) is None:
                        return None
                return f
            if nm == "fill":
                v = self.load(S, self.lv(S, fr, A[2])) if A[2].lv else self.rv(S, fr, A[2])
                for i in range(lo, hi):
                    self.store(S, el(i), v)
                return L(None)
            if nm == "reverse":
                vs = [val(i) for i in range(lo, hi)]
                for i, v in zip(range(lo, hi), reversed(vs)):
                    self.store(S, el(i), v)
                return L(None)
            if nm == "transform" and len(A) == 4:
                o = self.rv(S, fr, A[2]); f = self.rv(S, fr, A[3])
                if o.c is not None or not isinstance(o.leaf, alg.Itr):
                    return None
                for k, i in enumerate(range(lo, hi)):
                    r = self.invoke(S, fr, f, [el(i)])
                    if r is None:
                        return None
                    self.store(S, self.deref(S, self.arith("+", o, L(rf(k)), None), None), r)
                return self.arith("+", o, L(rf(hi - lo)), None)
            if nm == "accumulate":
                acc = self.rv(S, fr, A[2])
                f = self.rv(S, fr, A[3]) if len(A) > 3 else None
                for i in range(lo, hi):
                    acc = self.arith("+", acc, val(i), TD) if f is None else self.invoke(S, fr, f, [acc, el(i)])
                    if acc is None:
                        return None
                return acc
            if nm == "inner_product" and len(A) == 4:
                o = self.rv(S, fr, A[2]); acc = self.rv(S, fr, A[3])
                for k, i in enumerate(range(lo, hi)):
                    y = self.load(S, self.deref(S, self.arith("+", o, L(rf(k)), None), None))
                    acc = self.arith("+", acc, self.arith("*", val(i), y, TD), TD)
                return acc
            if nm in ("min_element", "max_element", "minmax_element") and len(A) == 2 and hi > lo:
                def best(mx):
                    bi, bv = L(alg.Itr(ref, rf(lo))), val(lo)
                    for i in range(lo + 1, hi):
                        x = val(i)
                        c = self.compare("<", bv, x) if mx == "max" else self.compare("<", x, bv)
                        if mx == "last":
                            c = NOT(self.compare("<", x, bv))
                        bi = ite(c, L(alg.Itr(ref, rf(i))), bi); bv = ite(c, x, bv)
                    return bi
                if nm == "min_element": return best("min")
                if nm == "max_element": return best("max")
                return L(Agg({"first": best("min"), "second": best("last")}, None, n.type))
        return None

    def predicated(self, S, fr, nm, A):
        """std algorithms steered by a predicate or comparator, where every answer folds to a constant"""
        s = self.span_of(self.rv(S, fr, A[0]), self.rv(S, fr, A[1]))
        if s is None:
            return None
        ref, lo, hi = s
        el = lambda i: self.index(S, L(ref), L(rf(i)), None)
        f = self.rv(S, fr, A[2]) if len(A) > 2 else None

        def truth(v):
            if v is None or v.c is not None: return None
            x = v.leaf
            if isinstance(x, RF) and x.const is not None: return x.const != 0
            return x if isinstance(x, bool) else None
        if nm in ("sort", "stable_sort"):
            n = hi - lo
            if n < 2: return L(None)
            if n > 2000: return None
            if f is None:
                vs = [self.load(S, el(lo + i)) for i in range(n)]
                less = lambda i, j: truth(self.compare("<", vs[i], vs[j]))
            else:
                less = lambda i, j: truth(self.invoke(S, fr, f, [el(lo + i), el(lo + j)]))

            class Unknown(Exception):
                pass

            def cmp(i, j):
                a = less(i, j)
                if a is None: raise Unknown()
                if a: return -1
                b = less(j, i)
                if b is None: raise Unknown()
                return 1 if b else 0
            try:
                order = sorted(range(n), key=functools.cmp_to_key(cmp))
            except Unknown:
                return None
            vs = [self.load(S, el(lo + i)) for i in order]
            for i, v in enumerate(vs):
                self.store(S, el(lo + i), v)
            return L(None)
        if f is None:
            return None
        hits = []
        for i in range(lo, hi):
            t = truth(self.invoke(S, fr, f, [el(i)]))
            if t is None:
                return None
            hits.append(t)
            if nm in ("find_if", "any_of", "none_of") and t or nm in ("find_if_not", "all_of") and not t:
                break
        if nm == "find_if": return L(alg.Itr(ref, rf(lo + len(hits) - 1 if hits and hits[-1] else hi)))
        if nm == "find_if_not": return L(alg.Itr(ref, rf(lo + len(hits) - 1 if hits and not hits[-1] else hi)))
        if nm == "any_of": return L(any(hits))
        if nm == "none_of": return L(not any(hits))
        if nm == "all_of": return L(all(hits))
        if nm == "count_if": return L(rf(sum(hits)))
        keep = [self.load(S, el(i)) for i, t in zip(range(lo, hi), hits) if not t]
        for i, v in enumerate(keep):
            self.store(S, el(lo + i), v)
        return L(alg.Itr(ref, rf(lo + len(keep))))

    def copyto(self, S, s, dst, rev):
        if s is None or dst.c is not None or not isinstance(dst.leaf, alg.Itr) or dst.leaf.i.const is None:
            return None
        ref, lo, hi = s
        vs = [self.load(S, self.index(S, L(ref), L(rf(i)), None)) for i in range(lo, hi)]
        if rev:
            vs.reverse()
        o = dst.leaf
        for k, v in enumerate(vs):
            self.store(S, self.index(S, L(o.ref), L(o.i + k), None), v)
        return L(alg.Itr(o.ref, o.i + len(vs)))

    def abs1(self, x):
        if not isinstance(x, RF):
            return L(Opq(("abs", alg.lkey(x)), TD)) if not isinstance(x, Bot) else L(x)
        s = alg.rsign(x)
        if s in ("+", "0+", "0"): return L(x)
        if s in ("-", "0-"): return L(-x)
        c = x.const
        lead = x.num[max(x.num)]
        y = x * rf(1 / lead)
        return L(atomrf(("abs", y.fp), nn=True, payload=y) * rf(abs(lead)))

    def vecof(self, S, fr, ra, t):
        """std::vector(n), (n, value), (first, last)"""
        if not ra or ra[0].type is None:
            return None
        if isnum(ra[0].type.noref) and len(ra) <= 2:
            m = self.rv(S, fr, ra[0])
            if m.c is None and isinstance(m.leaf, RF) and m.leaf.const is not None and 0 <= m.leaf.const <= 4096:
                z = (self.load(S, self.lv(S, fr, ra[1])) if ra[1].lv else self.rv(S, fr, ra[1])) if len(ra) == 2 else self.zero(self.elem_type(t))
                return L(Agg({i: z for i in range(int(m.leaf.const))}, None, t))
        if len(ra) == 2 and "__normal_iterator" in ra[0].type.noref.s:
            s = self.span_of(self.rv(S, fr, ra[0]), self.rv(S, fr, ra[1]))
            if s is not None:
                return L(Agg({k: self.load(S, self.index(S, L(s[0]), L(rf(i)), None)) for k, i in enumerate(range(s[1], s[2]))}, None, t))
        return None

    def tmplctors(self, rec):
        """constructors instantiated from templates (not listed among the members of their class)"""
        ix = getattr(self.P, "_tctors", None)
        if ix is None:
            ix = self.P._tctors = {}
            for f in self.P.funcs.values():
                if f.decl.ctor and f.decl.raw.get("rec"):
                    ix.setdefault(f.decl.raw["rec"], []).append(f.decl)
        known = {m.key for m in self.P.records[rec].methods} if rec in self.P.records else set()
        return [d for d in ix.get(rec, ()) if d.key not in known]

    def emplace(self, S, fr, n, et):
        A = n.args
        if et is not None and et.tmpl == "std::vector":
            r = self.vecof(S, fr, A, et) if A else L(Agg({}, None, et))
            if r is not None:
                return r
        if len(A) == 1:
            at = A[0].type
            if at is not None and et is not None and at.noref.s.replace("const ", "") == et.s.replace("const ", ""):
                return self.rv(S, fr, A[0])
        if et is not None and isnum(et):
            return self.rv(S, fr, A[0]) if A else self.zero(et)
        if et is not None and et.rec:
            # find the constructor in the model by arity (arguments forwarded)
            vals = [self.lv(S, fr, a) if (a.lv or (a.type is not None and a.type.rec)) else self.rv(S, fr, a) for a in A]
            R = self.P.records.get(et.rec)
            if R is not None:
                cands = []
                for m in list(R.methods) + self.tmplctors(et.rec):
                    if m.ctor and m.key in self.P.funcs and len(m.raw.get("pt", [])) == len(A) and m.raw.get("sp") not in ("copyctor", "movector"):
                        sc = 0
                        for a, p in zip(A, m.raw["pt"]):
                            pt = m.tu.types[p].base; at = a.type.base if a.type is not None else None
                            if at is not None and pt.s.replace("const ", "") == at.s.replace("const ", ""): sc += 2
                            elif at is not None and isnum(pt) and isnum(at): sc += 1
                            elif at is not None and pt.tmpl == "std::span" and at.tmpl in ("std::array", "std::span"): sc += 1
                            else: sc -= 10
                        if sc >= 0:
                            cands.append((sc, m))
                if cands:
                    m = max(cands, key=lambda x: x[0])[1]
                    fn = self.P.funcs[m.key]
                    av = []
                    for a, p, v in zip(A, m.raw["pt"], vals):
                        pt = m.tu.types[p]
                        isref = any(isinstance(x, Ref) for x in alg.leaves(v))
                        if pt.ref:
                            av.append(v)
                        elif pt.tmpl == "std::span":
                            at = a.type.noref
                            av.append(self.load(S, v, at) if at.tmpl == "std::span" and isref else v)
                        else:
                            av.append(self.load(S, v, a.type.noref) if isref else v)
                    self.n += 1
                    root = ("tmp", self.n); self.rtype[root] = et; S.st[root] = L(Agg({}, None, et))
                    self.call(fn, av, L(Ref(root, (), et)), S)
                    return self.load(S, L(Ref(root, (), et)), et)
            ids = tuple((self.load(S, v).id if any(isinstance(x, Ref) for x in alg.leaves(v)) else v.id) for v in vals)
            return self.opaque_of(("new", et.s, ids), et)
        return self.opaque_of(("emplace", n.loc), et)


PLACES = ("null", "glob", "heap", "fn", "loc", "tmp")  # distinct roots of these kinds are distinct objects


class Path:
    """gate facts while one side of a branch is evaluated"""
    def __init__(self, vn, c):
        self.vn = vn; self.c = c; self.set = []

    def __enter__(self):
        self.vn.guards.append(self.c)
        v = self.c
        # literals implied by c: walk while one side is constant False
        while v.c is not None:
            F = lambda x: x.c is None and x.leaf is False
            if F(v.lo):
                self.set.append((v.c, True)); v = v.hi
            elif F(v.hi):
                self.set.append((v.c, False)); v = v.lo
            else:
                break
        self.old = dict(alg.S.facts)
        for c, b in self.set:
            alg.S.facts[c] = b

    def __exit__(self, *a):
        alg.S.facts = self.old
        self.vn.guards.pop()


class _Ty:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return None

    @property
    def base(self): return self

    @property
    def noref(self): return self

    def __repr__(self): return self.s


TD = _Ty(s="double", flt=1)
TI = _Ty(s="unsigned long", int=64, uns=1)
TB = _Ty(s="bool", int=1)


ITER = ("__gnu_cxx::__normal_iterator", "std::__detail::_Node", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::reverse_iterator")
ASSOC = ("std::unordered_map", "std::map", "std::set", "std::unordered_set")
ADAPT = ("std::stack", "std::queue", "std::priority_queue")


def constkey(v):
    """a constant value as a Python tuple that orders like the value (numbers, strings, pairs, tuples and arrays)"""
    if v.c is not None:
        return None
    x = v.leaf
    if isinstance(x, RF):
        return None if x.const is None else (x.const,)
    if isinstance(x, Str):
        return (x.s,)
    if isinstance(x, Agg) and x.base is None and x.f:
        ks = [constkey(x.f[i]) for i in sorted(x.f, key=str)] if set(x.f) == {"first", "second"} or all(isinstance(i, int) and i < 10 for i in x.f) else [None]
        return None if None in ks else tuple(ks)
    return None


def unconst(s):
    return s[6:] if s.startswith("const ") else s


def captureless(fn):
    """the body of a lambda names nothing of the function around it (so any object of its type is the same)"""
    r = getattr(fn, "_nocap", None)
    if r is None:
        own = {id(p) for p in fn.params}
        r = fn.body is not None
        nodes = list(fn.body.walk()) if r else []
        own |= {id(n.decl) for n in nodes if n.k in ("VarDecl", "Var", "BindingDecl", "DecompositionDecl") and n.decl is not None}
        for n in nodes:
            if n.k == "CXXThisExpr":
                r = False
            if n.k == "DeclRefExpr" and n.decl is not None and n.decl.k in ("var", "parm", "binding") and id(n.decl) not in own and not (n.decl.raw.get("glob") or n.decl.raw.get("smember")):
                r = False
        fn._nocap = r
    return r


def idiv(x, y):
    """(quotient, remainder) of non-negative integers, folded when the sign domain proves 0<=r<y"""
    cx, cy = x.const, y.const
    if cx is not None and cy is not None and cy != 0:
        q = abs(int(cx)) // abs(int(cy))
        if (cx < 0) != (cy < 0): q = -q
        return rf(q), rf(int(cx) - q * int(cy))
    if cy == 1:
        return x, rf(0)
    q = rf(0); r = x
    if x.poly and y.poly:
        for _ in range(6):
            moved = False
            # whole monomial groups: coefficient of each atom divisible by y
            for a in sorted(r.atoms(), reverse=True):
                A = {}
                for m, c in r.num.items():
                    e = dict(m).get(a, 0)
                    if e == 1:
                        A[tuple(z for z in m if z[0] != a)] = c
                if not A:
                    continue
                d = alg.pdivexact(A, y.num)
                if d:
                    dq = RF(d) * RF({((a, 1),): Fraction(1)})
                    if dq.isint():
                        q = q + dq; r = r - dq * y; moved = True
            if not moved:
                break
        if alg.rsign(r) in ("+", "0+", "0") and alg.rsign(y - r) == "+":
            return q, r
        if alg.rsign(r) == "0":
            return q, r
    k = ("idiv", x.fp, y.fp)
    qa_ = atomrf(k, isint=True, nn=True)
    return qa_, x - y * qa_
