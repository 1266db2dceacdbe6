"""What references and views refer to (used by C12).

A dependence is (root, level).  Roots: ('this',), ('parm', i), ('local', decl), ('temp', node), ('glob',).  Level 0 is the
storage of the root including what it owns (elements of a vector, pointee of a unique_ptr), level 1 what the root, being a
pointer, view or range itself, refers to.  place(n) is the storage a glvalue denotes, refs(n) what a value refers to; both
flow-insensitive, calls by summaries."""
import qa

OWN = {"std::vector", "std::array", "std::optional", "std::pair", "std::tuple", "std::variant", "std::map", "std::unordered_map", "std::set", "std::unordered_set",
       "std::deque", "std::list", "std::unique_ptr", "std::basic_string", "std::queue", "std::stack", "std::initializer_list"}
SELF = {"operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator++", "operator--", "operator<<", "operator>>", "swap", "assign", "append"}
COPY = {"make_pair", "make_tuple", "make_optional", "make_unique", "make_shared", "to_string", "accumulate", "reduce", "transform_reduce", "exchange"}
EMPLACE = {"emplace", "emplace_back", "try_emplace", "emplace_front", "emplace_hint"}
CASTS = ("CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr", "CXXFunctionalCastExpr")
WRAP = ("ParenExpr", "ExprWithCleanups", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "CXXStdInitializerListExpr", "SubstNonTypeTemplateParmExpr", "OpaqueValueExpr", "ConstantExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr")
VIEWISH = ("iterator", "span", "reference_wrapper", "string_view", "ranges", "subrange", "_view", "std::function", "insert_iterator")


class Summary:
    def __init__(self):
        self.ret = set(); self.stores = set()


class Life:
    def __init__(self, P):
        self.P = P; self.sum = {}; self.ev = {}; self._car = {}; self._open = set()

    # ---------------------------------------------------------------- types
    def carrier(self, t):
        """copying a value of the type copies what it refers to, not the referred data"""
        if t is None:
            return False
        if t.ptr:
            p = t.p
            return not (p is not None and p.s.endswith(")"))
        if t.ref:
            return self.carrier(t.p)
        k = (id(t.tu), t.s)
        if k in self._car:
            return self._car[k]
        if k in self._open:
            return False
        self._open.add(k)
        r = self._carrier(t)
        self._open.discard(k)
        if r or not self._open:
            self._car[k] = r
        return r

    def _carrier(self, t):
        if t.arr:
            return self.carrier(t.p) if t.p is not None else False
        rec = t.rec or ""
        if t.tmpl in OWN:
            return any(self.carrier(a) for a in t.args if isinstance(a, qa.Type) and a.tmpl not in ("std::allocator", "std::default_delete", "std::hash", "std::less", "std::equal_to", "std::char_traits"))
        if t.tmpl in ("std::shared_ptr", "std::weak_ptr"):
            return False
        if "lambda" in rec or "(lambda" in t.s:
            return True
        if rec.startswith(("std::", "__gnu_cxx::")):
            return any(v in rec.split("<")[0] for v in VIEWISH)
        R = self.P.records.get(rec) or self.P.records.get(t.s.replace("const ", ""))
        if R is None or not R.file.startswith(qa.REPO):
            return False
        return any(f.t is not None and (f.t.ref or self.carrier(f.t)) for f in R.fields) or any(self.carrier(b) for b in R.bases)

    def owner(self, t):
        return t is not None and (t.tmpl in OWN or not self.carrier(t))

    # ------------------------------------------------------------- summaries
    def eval(self, fn):
        e = self.ev.get(fn.key)
        if e is None:
            e = self.ev[fn.key] = Ev(self, fn)
        return e

    def summary(self, fn):
        s = self.sum.get(fn.key)
        if s is None:
            s = self.sum[fn.key] = Summary()
            for _ in range(2):
                n0 = len(s.ret), len(s.stores)
                e = self.ev[fn.key] = Ev(self, fn)
                e.run()
                s.ret |= {d for d in e.ret() if d[0][0] in ("this", "parm")}
                s.stores |= {(dst, src) for dst, src, n in e.out if src[0][0] in ("this", "parm")}
                if (len(s.ret), len(s.stores)) == n0:
                    break
        return s


class Ev:
    def __init__(self, A, fn, outer=None):
        self.A = A; self.P = A.P; self.fn = fn; self.outer = outer
        self.vdecl = {}; self.bindof = {}; self.rm = outer.rm if outer is not None else {}; self.out = []; self.moved = set(); self._busy = set()
        self.stored = []; self._outset = set(); self.subs = {}
        for n in fn.walk():
            if n.k == "VarDecl":
                self.vdecl[id(n.decl)] = n
                for b in n.raw.get("binds", ()):
                    self.bindof[id(fn.tu.decls[b])] = n
            if n.is_call() and n.decl is not None and n.decl.q in ("std::move", "std::forward") and n.args and n.args[0].k == "DeclRefExpr":
                self.moved.add(id(n.args[0].decl))
            if n.is_call() and n.decl is not None and n.decl.n == "release" and n.obj is not None and n.obj.k == "DeclRefExpr":
                self.moved.add(id(n.obj.decl))
        self.pix = {id(p): i for i, p in enumerate(fn.params)}
        self.lam = fn.decl.lambda_fn() if outer is None else outer.lam
        for i, p in enumerate(fn.params):
            if p.t is not None and not p.t.ref and A.carrier(p.t) and outer is None:
                self.rm[id(p)] = {(("parm", i), 1)}

    def mine(self, d):
        return id(d) in self.vdecl or id(d) in self.pix or id(d) in self.bindof

    # ---------------------------------------------------------------- places
    def varplace(self, d):
        if d.k not in ("var", "parm", "binding", "bind"):
            return set()
        if d.glob or d.slocal:
            return {(("glob",), 0)}
        if id(d) in self.pix:
            if d.t is not None and d.t.ref:
                return {(("parm", self.pix[id(d)]), 0)} if self.outer is None else set()
            return {(("local", d), 0)}
        if id(d) in self.bindof:
            n = self.bindof[id(d)]
            if n.decl.t is not None and n.decl.t.ref:
                return self.bound(n)
            return {(("local", n.decl), 0)}
        if id(d) in self.vdecl:
            n = self.vdecl[id(d)]
            if d.t is not None and d.t.ref:
                return self.bound(n)
            return {(("local", d), 0)}
        return self.outer.varplace(d) if self.outer is not None else set()   # captured from the enclosing function

    def bound(self, n):
        """what a local reference refers to; a temporary bound directly lives as long as the reference"""
        if not n.ch:
            # loop variable of a range-for without initialiser in the tree
            return set()
        if id(n) in self._busy:
            return set()
        self._busy.add(id(n))
        e = n.ch[0]
        t = e
        while t.k in WRAP + CASTS or t.k == "MemberExpr" and not t.ar and not (t.decl is not None and t.decl.t is not None and t.decl.t.ref):
            if not t.ch:
                break
            if t.k != "MemberExpr" and not self.prvalue(t) and t.k in CASTS:
                pass
            t = t.ch[0]
        r = self.place(e)
        if self.prvalue(t):
            r = {((("local", n.decl), 0) if d == (("temp", t), 0) or d == (("temp", e), 0) else d) for d in r}
            self.rm.setdefault(id(n.decl), set()).update(self.refs(t) if self.A.carrier(t.type) else ())
        self._busy.discard(id(n))
        return r

    def prvalue(self, n):
        return not n.lv and not (n.is_call() and n.decl is not None and n.decl.k == "fn" and n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.decl.t is not None and n.decl.t.ref)

    def place(self, n):
        k = n.k
        if k in WRAP and n.ch:
            return self.place(n.ch[0])
        if k == "DeclRefExpr":
            return self.varplace(n.decl)
        if k == "CXXThisExpr":
            return set() if self.lam else {(("this",), 0)}
        if k == "MemberExpr":
            d = n.decl
            if d is None or d.k not in ("field",):
                return {(("glob",), 0)} if d is not None and d.k == "var" else self.place(n.ch[0]) if n.ch else set()
            b = n.ch[0]
            if n.ar:
                base = set() if b.k == "CXXThisExpr" and self.lam else {(("this",), 0)} if b.k == "CXXThisExpr" else self.refs(b)
            else:
                base = self.place(b)
            if d.t is not None and d.t.ref:
                return self.lift(base)
            return base
        if k == "ArraySubscriptExpr":
            a, i = n.ch
            if a.type is not None and a.type.int:
                a, i = i, a
            return self.place(a) if a.type is not None and a.type.arr or "ArrayToPointerDecay" in a.ic else self.refs(a)
        if k == "UnaryOperator":
            if n.op == "*":
                return self.refs(n.ch[0])
            if n.op in ("++", "--"):
                return self.place(n.ch[0])
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op == ",":
                return self.place(n.ch[1])
            if n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                return self.place(n.ch[0])
        if k == "ConditionalOperator" and n.lv:
            return self.place(n.ch[-2]) | self.place(n.ch[-1])
        if k in CASTS and n.ch:
            if n.lv or not self.prvalue(n.ch[0]) or n.type is not None and n.ch[0].type is not None and n.type.noref.s == n.ch[0].type.noref.s:
                return self.place(n.ch[0])
        if k == "StringLiteral":
            return {(("glob",), 0)}
        if n.is_call() and n.decl is not None and n.decl.t is not None and n.decl.t.ref and n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.call(n)
        if n.lv and k == "LambdaExpr":
            return {(("temp", n), 0)}
        if n.is_call() and n.lv:
            return self.call(n)
        if n.lv:
            return set()
        return {(("temp", n), 0)}

    def lift(self, deps):
        out = set()
        for r, l in deps:
            if r[0] == "glob":
                continue
            if l == 1:
                out.add((r, 1))
            elif r[0] == "local":
                out |= self.rm.get(id(r[1]), set())
            elif r[0] == "temp":
                if id(r[1]) in self._busy:
                    continue
                self._busy.add(id(r[1]))
                out |= self.refs(r[1])
                self._busy.discard(id(r[1]))
            else:
                out.add((r, 1))
        return out

    # ---------------------------------------------------------------- values
    def refs(self, n):
        k = n.k
        if "ArrayToPointerDecay" in n.ic:
            return self.place(n)
        if k in WRAP and n.ch:
            out = set()
            for c in n.ch:
                out |= self.refs(c)
            return out
        if k == "CXXThisExpr":
            return set() if self.lam else {(("this",), 0)}
        if k == "UnaryOperator":
            if n.op == "&":
                return self.place(n.ch[0])
            if n.op in ("++", "--", "p++", "p--"):
                return self.refs(n.ch[0])
            if n.op == "*":
                return self.lift(self.refs(n.ch[0]))
            return set()
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op in ("+", "-", "+=", "-="):
                out = set()
                for c in n.ch:
                    if self.A.carrier(c.type) or c.type is not None and c.type.arr:
                        out |= self.refs(c)
                return out
            if n.op in ("=", ","):
                return self.refs(n.ch[1])
            return set()
        if k == "ConditionalOperator":
            return self.refs(n.ch[-2]) | self.refs(n.ch[-1])
        if k in CASTS:
            return self.refs(n.ch[0]) if n.ch and (self.A.carrier(n.ch[0].type) or n.ch[0].type is not None and n.ch[0].type.arr or not n.ch[0].lv and n.ch[0].is_call()) else set()
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr", "IntegerLiteral", "FloatingLiteral", "StringLiteral", "CXXScalarValueInitExpr", "ImplicitValueInitExpr"):
            return set()
        if k == "LambdaExpr":
            return self.closure(n)
        if k == "CXXNewExpr":
            out = set()
            for c in n.ch:
                if c.type is not None and not c.type.int:
                    out |= self.refs(c)
            return out
        if k == "InitListExpr":
            return self.initlist(n)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(n.type, n.decl, n.args, n)
        if n.is_call():
            d = n.decl
            if d is not None and d.t is not None and d.t.ref or n.lv:
                return self.lift(self.call(n))
            if self.A.carrier(n.type):
                return self.call(n)
            return set()
        return self.lift(self.place(n)) if n.lv else set()

    def arg(self, a):
        """what a value copied from expression a refers to"""
        return self.refs(a)

    def closure(self, n):
        out = set()
        for i, cp in enumerate(n.raw.get("caps", ())):
            if cp.get("this"):
                if not self.lam:
                    out.add((("this",), 0 if not cp.get("starthis") else 1))
                continue
            if "d" not in cp:
                continue
            d = n.fn.tu.decls[cp["d"]]
            init = [c for c in n.ch if c.role == "capinit%d" % i]
            if init:
                out |= self.place(init[0]) if cp["ref"] or d.t is not None and d.t.ref else self.refs(init[0]) if self.A.carrier(d.t) else set()
            elif cp["ref"]:
                out |= self.varplace(d)
            elif self.A.carrier(d.t):
                out |= self.lift(self.varplace(d))
        return out

    def initlist(self, n):
        out = set()
        t = n.type
        R = self.P.records.get(t.rec or "") if t is not None else None
        ch = n.ch
        if R is not None:
            nb = len(R.bases)
            for fd, c in zip(R.fields, ch[nb:]):
                out |= self.place(c) if fd.t is not None and fd.t.ref else self.refs(c) if self.A.carrier(fd.t) else set()
            for c in ch[:nb]:
                out |= self.refs(c)
            return out
        for c in ch:
            if self.A.carrier(c.type):
                out |= self.refs(c)
        return out

    def construct(self, t, d, args, n):
        args = [a for a in args if not a.da]
        if d is None:
            return set()
        sp = d.raw.get("sp")
        f = self.P.funcs.get(d.key)
        if sp in ("copyctor", "movector") and (f is None or not d.user) and args:
            return self.refs(args[0]) if self.A.carrier(args[0].type) else set()
        if f is not None:
            s = self.A.sum.get(f.key) or self.A.summary(f)
            out = set()
            for dst, src in s.stores:
                if dst == ("this",):
                    out |= self.subst(src, n, args, None)
            return out
        out = set()
        own = t is not None and t.tmpl in OWN
        pts = d.raw.get("pt", [])
        if t is not None and t.tmpl == "std::reference_wrapper" and len(args) == 1 and (args[0].type is None or args[0].type.noref.tmpl != "std::reference_wrapper"):
            return self.place(args[0])
        for i, a in enumerate(args):
            if self.A.carrier(a.type) and (own or a.type.noref.tmpl not in OWN):
                out |= self.refs(a)
            elif not own and (t is None or "ranges" not in t.s or a.lv) and a.type is not None and not a.type.noref.int and not a.type.noref.flt and self.A.carrier(t):
                pt = n.fn.tu.types[pts[i]] if i < len(pts) else None
                if pt is None or pt.ref:
                    out |= self.place(a)
        return out

    # ----------------------------------------------------------------- calls
    def subst(self, dep, n, args, obj):
        (r, l) = dep
        if r[0] == "this":
            if obj is None:
                return set()
            ar = n.raw.get("ar") or obj.type is not None and obj.type.ptr
            if ar:
                b = ({(("this",), 0)} if not self.lam else set()) if obj.k == "CXXThisExpr" else self.refs(obj)
            else:
                b = self.place(obj)
            return b if l == 0 else self.lift(b)
        i = r[1]
        if i >= len(args):
            return set()
        a = args[i]
        while a.k == "CXXDefaultArgExpr" and a.ch:
            a = a.ch[0]
        return self.place(a) if l == 0 else self.refs(a)

    def call(self, n):
        """place of the returned reference, or what the returned value refers to"""
        d = n.decl
        args = n.args
        if d is None:
            return set()
        if d.lambda_fn():
            out = set()
            if n.obj is not None and d.t is not None and (d.t.ref or self.A.carrier(d.t)):
                f = self.P.funcs.get(d.key)
                if f is not None:
                    s = self.A.sum.get(f.key) or self.A.summary(f)
                    for x in s.ret:
                        if x[0][0] == "parm":
                            out |= self.subst(x, n, args, None)
                out |= self.lift(self.place(n.obj))
            return out
        tg = self.P.targets(n)
        if tg:
            out = set()
            for f in tg:
                s = self.A.sum.get(f.key) or self.A.summary(f)
                for x in s.ret:
                    out |= self.subst(x, n, args, n.obj)
            return out
        ref = d.t is not None and d.t.ref
        name = d.n
        obj = n.obj
        fo = set()
        if obj is not None and name == "operator()":
            fo = self.lift(self.place(obj)) if self.A.carrier(obj.type) else set()
            obj = None
        if obj is not None:
            ot = obj.type
            ar = n.raw.get("ar") or ot is not None and ot.ptr
            t = ot.p if ot is not None and ot.ptr else ot.noref if ot is not None else None
            base = (({(("this",), 0)} if not self.lam else set()) if obj.k == "CXXThisExpr" else self.refs(obj)) if ar else self.place(obj)
            if name in SELF and ref:
                return base
            if t is not None and t.tmpl == "std::unique_ptr":
                if obj.k == "DeclRefExpr" and id(obj.decl) in self.moved or name == "release":
                    return self.lift(base)
                return base
            if self.A.owner(t) or t is not None and t.tmpl in OWN:
                if not ref and not self.A.carrier(n.type):
                    return set()
                return base
            return self.lift(base)   # iterator, span, view
        if name in ("make_unique", "make_optional", "construct_at") and (d.q or "").startswith("std::") and n.type is not None and n.type.args and isinstance(n.type.args[0], qa.Type):
            return self.emplaced(n.type.args[0], args, n)
        out = set(fo)
        rng = "ranges" in (d.q or "") or "views" in (d.q or "") or n.type is not None and "ranges::" in n.type.s
        for a in args:
            at = a.type.noref if a.type is not None else None
            if at is None or not ref and (at.int or at.flt or at.enum):
                continue
            if not ref and name in ("ref", "cref", "addressof", "__addressof"):
                out |= self.place(a)
            elif ref:
                if name in SELF and name.startswith("operator") and a is not args[0]:
                    continue
                out |= self.place(a) if not rng else (self.place(a) if a.lv and not self.A.carrier(at) else self.refs(a))
            elif self.A.carrier(at) and (at.tmpl not in OWN or name in COPY):
                out |= self.refs(a)
            elif name in COPY:
                continue
            elif a.lv or not self.prvalue(a):
                out |= self.place(a)
            elif not rng:
                out |= self.place(a)
        return out

    # ---------------------------------------------------------------- stores
    def store(self, dst, src, n):
        ch = False
        for r, l in dst:
            if r[0] == "local":
                for s in src:
                    if s[0] == ("glob",):
                        continue
                    m = self.rm.setdefault(id(r[1]), set())
                    if s not in m:
                        m.add(s); ch = True
                    self.stored.append((r, s, n, self))
            elif r[0] in ("this", "parm", "glob"):
                for s in src:
                    if s[0] == ("glob",) or s[0] == r:
                        continue
                    x = (r, s, n)
                    if x not in self._outset:
                        self._outset.add(x); self.out.append(x); ch = True
        return ch

    def run(self):
        car = self.A.carrier
        for rnd in range(4):
            ch = False
            self.stored = []
            for d, e, i in self.fn.inits:
                if d is not None and d.t is not None:
                    if d.t.ref:
                        ch |= self.store({(("this",), 0)}, self.place(e), e)
                    elif car(d.t):
                        ch |= self.store({(("this",), 0)}, self.refs(e), e)
                elif d is None and e.is_call():
                    ch |= self.store({(("this",), 0)}, self.refs(e), e)
            for n in self.fn.walk():
                if n.k == "VarDecl":
                    if n.ch and n.decl.t is not None:
                        if n.decl.slocal:
                            if car(n.decl.t):
                                ch |= self.store({(("glob",), 0)}, self.refs(n.ch[0]), n)
                        elif n.decl.t.ref:
                            for s in self.bound(n):
                                if s[0][0] in ("temp", "local"):
                                    self.stored.append((("local", n.decl), s, n, self))
                        elif car(n.decl.t):
                            ch |= self.store({(("local", n.decl), 0)}, self.refs(n.ch[0]), n)
                elif n.k == "BinaryOperator" and n.op == "=" and car(n.ch[0].type):
                    ch |= self.store(self.place(n.ch[0]), self.refs(n.ch[1]), n)
                elif n.is_call() and n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    ch |= self.callstores(n)
                elif n.k == "LambdaExpr":
                    for f in self.P.lambda_funcs(n):
                        o = self
                        while o is not None and o.fn.key != f.key:
                            o = o.outer
                        if o is not None:
                            continue
                        sub = self.subs.get(f.key)
                        if sub is None:
                            sub = self.subs[f.key] = Ev(self.A, f, self)
                        n0 = len(self.out)
                        sub.run()
                        for x in sub.out:
                            if x not in self._outset:
                                self._outset.add(x); self.out.append(x)
                        self.stored += sub.stored
                        ch |= len(self.out) != n0
            if not ch:
                break

    def callstores(self, n):
        d = n.decl
        ch = False
        if d is None or d.lambda_fn():
            return False
        tg = self.P.targets(n)
        args = n.args
        if tg:
            for f in tg:
                s = self.A.sum.get(f.key) or self.A.summary(f)
                for dst, src in s.stores:
                    if dst == ("glob",):
                        D = {(("glob",), 0)}
                    elif dst == ("this",):
                        D = self.subst((dst, 0), n, args, n.obj)
                    else:
                        D = self.subst((dst, 0), n, args, None)
                    ch |= self.store(D, self.subst(src, n, args, n.obj), n)
            return ch
        if n.obj is None or d.cm or not args:
            return False
        ot = n.obj.type
        t = ot.p if ot is not None and ot.ptr else ot.noref if ot is not None else None
        if t is None or not self.A.carrier(t) or t.tmpl not in OWN and d.n != "operator=":
            return False
        base = self.refs(n.obj) if (n.raw.get("ar") or ot.ptr) and n.obj.k != "CXXThisExpr" else self.place(n.obj)
        if d.n in EMPLACE:
            el = [a for a in t.args if isinstance(a, qa.Type)]
            el = el[1] if t.tmpl in ("std::map", "std::unordered_map") and len(el) > 1 else el[0] if el else None
            return self.store(base, self.emplaced(el, args, n), n)
        if d.n in ("push_back", "push_front", "insert", "operator=", "assign", "push", "reset", "resize", "insert_or_assign", "swap"):
            src = set()
            for a in args:
                if self.A.carrier(a.type):
                    src |= self.refs(a)
            return self.store(base, src, n)
        return False

    def emplaced(self, el, args, n):
        out = set()
        R = self.P.records.get(el.rec or "") if el is not None else None
        done = False
        if len(args) == 1 and el is not None and args[0].type is not None and args[0].type.noref.rec == el.rec and el.rec:
            return self.refs(args[0]) if self.A.carrier(el) else set()
        if R is not None:
            cs = [self.P.funcs.get(m.key) for m in R.methods if m.n == R.q.split("::")[-1] and m.raw.get("sp") not in ("copyctor", "movector")]
            cs = [f for f in cs if f is not None and len(f.params) >= len(args)]
            def same(f):
                for p, a in zip(f.params, args):
                    x = p.t.base.rec if p.t is not None else None; y = a.type.base.rec if a.type is not None else None
                    if x != y:
                        return False
                return True
            for f in [f for f in cs if same(f)] or cs:
                s = self.A.summary(f); done = True
                for dst, src in s.stores:
                    if dst == ("this",):
                        out |= self.subst(src, n, args, None)
        for a in args:
            if self.A.carrier(a.type) and (not done or a.type.noref.rec and el is not None and a.type.noref.rec == el.rec):
                out |= self.refs(a)
        return out

    def ret(self):
        out = set()
        for r, deps in self.returns():
            out |= deps
        return out

    def returns(self):
        t = self.fn.decl.t
        if t is None or not (t.ref or self.A.carrier(t)):
            return
        for n in self.fn.walk():
            if n.k == "ReturnStmt" and n.ch:
                yield n, (self.place(n.ch[0]) if t.ref else self.refs(n.ch[0]))
