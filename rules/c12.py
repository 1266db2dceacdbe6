"""C12: references, views and ranges stay valid.
Rules over the dependence analysis of life.py:
 A  no function or lambda returns a reference, view, iterator or closure that refers to its locals, its by-value parameters or
    its temporaries;
 A2 member functions of view classes (classes that merely refer to other storage) return nothing that refers to the view itself;
 B  no local reference, view or range refers to a temporary that has ended;
 E  what is stored in an object that outlives the function refers to no local, and nothing stored in an outer variable
    refers to a variable of an inner block that has ended;
 F  a class with a member that refers to its own storage re-creates that member when it is copied or moved;
    members are initialised from members that are initialised before;
 G  no reference or iterator into a container is used after the container was changed;
 H  nothing is used after it was moved from;
 C  everything the Python bindings hand out that refers to an argument keeps that argument alive, everything that stores a
    reference to an argument keeps it alive, and an object taken out of a holder is kept alive for the holder's references."""
import os, re
import qa
from life import Life, Ev, OWN

INVAL = {"push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "reserve", "assign", "pop_back", "shrink_to_fit", "operator=", "swap"}
NODE_INVAL = {"erase", "clear", "operator=", "swap"}
INTO = {"operator[]", "at", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "find", "lower_bound", "upper_bound", "emplace_back", "insert", "emplace"}
VECTORS = ("std::vector", "std::basic_string", "std::deque")
NODES = ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::list")


def proj(f):
    return f is not None and f.startswith(qa.REPO) and "/pybind11/" not in f and "/tests/" not in f


def show(d):
    r, l = d
    s = {"this": "the object", "glob": "static storage"}.get(r[0])
    if r[0] == "parm": s = "parameter %d" % r[1]
    if r[0] == "local": s = "local '%s'" % r[1].n
    if r[0] == "temp": s = "temporary at line %s" % r[1].line
    return s if l == 0 else "what %s refers to" % s


def name(f):
    return re.sub(r"\(anonymous class\)::", "", re.sub(r"lambda at [^)]*", "lambda", f.q or f.decl.n)) if "lambda" in (f.q or "") else f.q


# ------------------------------------------------------------------ A, A2, B, E
def rule_refs(R, P, A):
    for k, f in sorted(P.funcs.items()):
        if not proj(f.file) or f.body is None:
            continue
        R.count("functions")
        A.summary(f); e = A.eval(f)
        cls = None
        if f.decl.rec and not f.decl.lambda_fn():
            cls = P.records.get(f.decl.rec)
        for r, deps in e.returns():
            R.count("returned references and views"); R.count("obligations")
            for d in sorted(deps, key=str):
                if d[1] == 0 and (d[0][0] == "temp" or d[0][0] == "local" and e.mine(d[0][1])):
                    R.violation(r.loc, "returned references outlive the call", name(f), "returns a %s that refers to %s" % (f.decl.t.s[:80], show(d)))
                    break
            if cls is not None and view_class(A, cls) and not f.decl.t.ref:
                R.count("obligations"); R.count("returns of view classes")
                if (("this",), 0) in deps:
                    R.violation(r.loc, "what views hand out does not refer to the view", name(f), "the returned %s refers to the view object itself" % f.decl.t.s[:80])
        for dst, src, nd in e.out:
            R.count("stored references"); R.count("obligations")
            if src[1] == 0 and src[0][0] in ("local", "temp") and (src[0][0] == "temp" or not e_outer(e, src[0][1])):
                R.violation(nd.loc, "stored references outlive the call", name(f), "what is stored in %s refers to %s" % (show((dst, 0)), show(src)))
        seen = set()
        for dst, src, nd, ev in e.stored:
            if src[1] != 0 or (dst, src) in seen:
                continue
            seen.add((dst, src))
            R.count("local references"); R.count("obligations")
            if src[0][0] == "temp":
                if not proj(nd.file):
                    continue
                R.violation(nd.loc, "local references do not refer to temporaries that ended", name(f), "'%s' refers to %s" % (dst[1].n, show(src)))
            elif src[0][0] == "local":
                escape(R, f, e, dst[1], src[0][1], nd)


def e_outer(e, d):
    """a lambda stores a reference to a variable of the enclosing function: checked there"""
    return False


def view_class(A, cls):
    """refers to other storage and owns none"""
    if not proj(cls.file) or not any(x.t is not None and (x.t.ref or A.carrier(x.t)) for x in cls.fields):
        return False
    def owns(t, depth=0):
        if t is None or t.ref or t.ptr or depth > 6:
            return False
        if t.tmpl in ("std::optional", "std::variant", "std::array", "std::pair", "std::tuple"):
            return any(owns(a, depth + 1) for a in t.args if isinstance(a, qa.Type))
        if t.tmpl in OWN or t.tmpl == "std::shared_ptr":
            return True
        r = A.P.records.get(t.rec or "")
        return r is not None and proj(r.file) and any(owns(y.t, depth + 1) for y in r.fields)
    for x in cls.fields:
        t = x.t
        if owns(t):
            return False
        if t is None or t.ref or t.ptr:
            continue
        if t.tmpl in OWN and t.tmpl not in ("std::optional", "std::variant", "std::array", "std::pair", "std::tuple"):
            return False
        if t.tmpl in ("std::shared_ptr",):
            return False
        if t.rec and not t.rec.startswith("std::") and not A.carrier(t):
            return False
    # classes with a destructor or that cannot be copied own something
    if any(m.raw.get("sp") == "copyctor" and m.raw.get("deleted") for m in cls.methods) or any(m.n.startswith("~") and m.user for m in cls.methods):
        return False
    return True


def scope_of(n):
    for u in n.up():
        if u.k in ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "IfStmt", "WhileStmt", "SwitchStmt", "LambdaExpr"):
            return u
    return None


def escape(R, f, e, outer, inner, nd):
    vo, vi = e.vdecl.get(id(outer)), e.vdecl.get(id(inner))
    if vi is None or vo is None or vo is vi:
        return
    si = scope_of(vi); so = scope_of(vo)
    if si is None or so is si or so is not None and any(u is si for u in [so] + list(so.up())):
        return
    # inner block ends before outer: any use of the outer variable after the block
    inside = {id(x) for x in si.walk()}
    loop = next((u for u in si.up() if u.k in ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt")), None)
    for n in f.walk():
        if n.k == "DeclRefExpr" and n.decl is outer and id(n) not in inside:
            try:
                pn, pv = f.cfg.node_pos(n), f.cfg.node_pos(nd)
            except qa.Broken:
                return
            if pn is None or pv is None:
                continue
            after = pn[0] in f.cfg.reach(pv[0]) and (pn[0] != pv[0] or pn[1] > pv[1])
            p = n.parent
            if after and not (p is not None and p.k in ("BinaryOperator", "CXXOperatorCallExpr") and p.op == "=" and p.ch[0] is n):
                R.violation(n.loc, "references do not outlive the block of what they refer to", name(f), "'%s' refers to '%s', whose block has ended" % (outer.n, inner.n))
                return


# ------------------------------------------------------------------ F
def rule_self(R, P, A):
    for k, f in sorted(P.funcs.items()):
        if not proj(f.file) or not f.inits or not f.decl.rec:
            continue
        cls = P.records.get(f.decl.rec)
        if cls is None:
            continue
        order = {x.n: i for i, x in enumerate(cls.fields)}
        for d, e, i in f.inits:
            if d is None or d.n not in order:
                continue
            for m in e.walk():
                if m.k == "MemberExpr" and m.decl is not None and m.decl.k == "field" and m.ch and m.ch[0].k == "CXXThisExpr" and m.decl.n in order:
                    R.count("members initialised from members"); R.count("obligations")
                    if order[m.decl.n] >= order[d.n]:
                        R.violation(m.loc, "members are initialised from members that exist", name(f), "'%s' is initialised before '%s', which it uses" % (d.n, m.decl.n))
    selfref = {}
    for k, f in sorted(P.funcs.items()):
        if not proj(f.file) or not f.decl.rec or f.decl.rec not in P.records or f.decl.n != P.records[f.decl.rec].q.split("::")[-1]:
            continue
        A.summary(f); e = A.eval(f)
        for d, n, i in f.inits:
            if d is not None and d.t is not None and (A.carrier(d.t) or d.t.ref):
                deps = e.place(n) if d.t.ref else e.refs(n)
                if (("this",), 0) in deps:
                    selfref.setdefault(f.decl.rec, {}).setdefault(d.n, f)
        for n in f.body.walk():
            if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op == "=" and n.ch and n.ch[0].k == "MemberExpr" and n.ch[0].ch and n.ch[0].ch[0].k == "CXXThisExpr":
                m = n.ch[0].decl
                if m.t is not None and A.carrier(m.t) and (("this",), 0) in e.refs(n.ch[1] if n.k == "BinaryOperator" else n.args[-1]):
                    selfref.setdefault(f.decl.rec, {}).setdefault(m.n, f)
    for rec, ms in sorted(selfref.items()):
        cls = P.records[rec]
        R.count("classes that refer to themselves", 1)
        sp = {}
        for m in cls.methods:
            s = m.raw.get("sp")
            if s in ("copyctor", "movector", "copyassign", "moveassign") and not m.raw.get("impl"):
                sp[s] = m
        dtor = any(m.n.startswith("~") and not m.raw.get("impl") for m in cls.methods)
        for s in ("copyctor", "movector", "copyassign", "moveassign"):
            R.count("obligations"); R.count("copy and move operations of such classes")
            m = sp.get(s)
            if m is None:
                moves = "movector" in sp or "moveassign" in sp
                copies = "copyctor" in sp or "copyassign" in sp
                exists = not moves and (s.startswith("copy") or not copies and not dtor)
                if exists:
                    R.violation(cls.loc, "members that refer to the object itself follow it", "%s %s" % (cls.q, s), "is generated member by member, but %s refers to the object it was created in" % ", ".join(ms))
                continue
            if m.raw.get("deleted"):
                continue
            f = P.funcs.get(m.key)
            if f is None or not m.user:
                R.violation(cls.loc, "members that refer to the object itself follow it", "%s %s" % (cls.q, s), "copies %s member by member" % ", ".join(ms))
                continue
            A.summary(f); e = A.eval(f)
            for mn in ms:
                got = None
                for d, n, i in f.inits:
                    if d is not None and d.n == mn:
                        got = e.place(n) if d.t.ref else e.refs(n)
                for n in f.body.walk():
                    if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op == "=" and n.ch and n.ch[0].k == "MemberExpr" and n.ch[0].decl.n == mn and n.ch[0].ch and n.ch[0].ch[0].k == "CXXThisExpr":
                        got = e.refs(n.ch[1] if n.k == "BinaryOperator" else n.args[-1])
                    if n.k == "CXXMemberCallExpr" and n.decl is not None and n.decl.n in ("emplace", "reset", "swap") and n.obj is not None and n.obj.k == "MemberExpr" and n.obj.decl.n == mn:
                        got = set()
                        for a in n.args:
                            got |= e.refs(a) if A.carrier(a.type) else e.place(a)
                bad = got is None or (("this",), 0) not in got or any(x[0][0] == "parm" for x in got)
                if bad:
                    R.violation(f.loc, "members that refer to the object itself follow it", "%s %s" % (cls.q, s), "'%s' refers to %s afterwards" % (mn, "the object copied from" if got is None or any(x[0][0] == "parm" for x in got) else "something else"))


# ------------------------------------------------------------------ G, H
def key_of(e, n, depth=0):
    """identity of the container an expression denotes: (root decl or 'this', fields)"""
    if n is None or depth > 8:
        return None
    if n.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr") and n.ch:
        return key_of(e, n.ch[0], depth + 1)
    if n.k == "CXXThisExpr":
        return ("this", ())
    if n.k == "DeclRefExpr":
        d = n.decl
        if d.k == "var" and not d.glob and d.t is not None and d.t.ref and id(d) in e.vdecl:
            v = e.vdecl[id(d)]
            return key_of(e, v.ch[0], depth + 1) if v.ch else None
        if d.k in ("var", "parm"):
            return (d, ())
        return None
    if n.k == "MemberExpr" and n.decl is not None and n.decl.k == "field" and n.ch:
        b = key_of(e, n.ch[0], depth + 1) if (not n.ar or n.ch[0].k == "CXXThisExpr") else None
        return (b[0], b[1] + (n.decl.n,)) if b is not None else None
    if n.is_call() and n.decl is not None and n.decl.q in ("std::move", "std::as_const", "std::forward") and n.args:
        return key_of(e, n.args[0], depth + 1)
    if n.is_call() and n.decl is not None and n.obj is not None and not n.decl.lambda_fn() and n.decl.t is not None and n.decl.t.ref and proj(n.decl.f):
        b = key_of(e, n.obj, depth + 1)
        if b is None:
            return None
        gs = [g for g in e.A.P.targets(n) if g.body is not None]
        ks = set()
        for g in gs:
            for x in g.walk():
                if x.k == "ReturnStmt" and x.ch:
                    k = key_of(e.A.eval(g), x.ch[0], depth + 1)
                    ks.add(k if k is None else (k[0] if isinstance(k[0], str) else id(k[0]), k[1]))
        if len(ks) == 1:
            k = ks.pop()
            if k is not None and k[0] == "this":
                return (b[0], b[1] + k[1])
        # the container an accessor hands out: identified by the accessor and its arguments
        txt = []
        for a in n.args:
            ds = [x for x in a.walk() if x.k in ("DeclRefExpr", "IntegerLiteral", "StringLiteral")]
            txt.append("/".join(x.decl.q or x.decl.n if x.decl is not None else str(x.raw.get("v", x.raw.get("s"))) for x in ds))
        return (b[0], b[1] + ("%s(%s)" % (n.decl.n, ", ".join(txt)),))
    return None


def contype(n):
    t = n.type
    if t is None:
        return None
    t = t.noref
    return t.tmpl


def into(e, n, depth=0):
    """containers a reference or iterator points into"""
    if n is None or depth > 10:
        return set()
    if n.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.ch:
        return into(e, n.ch[0], depth + 1)
    if n.k == "MemberExpr" and n.ch and n.decl is not None and n.decl.k == "field":
        if n.ar:
            return into(e, n.ch[0], depth + 1) if n.ch[0].k != "CXXThisExpr" and n.ch[0].is_call() and n.ch[0].op == "->" else set()
        return into(e, n.ch[0], depth + 1)
    if n.k == "UnaryOperator" and n.op in ("*", "&", "++", "--"):
        return into(e, n.ch[0], depth + 1)
    if n.k == "ConditionalOperator":
        return into(e, n.ch[-1], depth + 1) | into(e, n.ch[-2], depth + 1)
    if n.k == "DeclRefExpr":
        d = n.decl
        if d.k == "var" and id(d) in e.vdecl and d.t is not None and (d.t.ref or d.t.ptr or "iterator" in (d.t.rec or "") or d.t.tmpl == "std::span"):
            v = e.vdecl[id(d)]
            return into(e, v.ch[0], depth + 1) if v.ch else set()
        return set()
    if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.args and n.type is not None and ("iterator" in (n.type.rec or "") or n.type.tmpl == "std::span"):
        out = set()
        for a in n.args:
            out |= into(e, a, depth + 1)
            if n.type.tmpl == "std::span" and contype(a) in VECTORS:
                k = key_of(e, a)
                if k is not None:
                    out.add((k, "v"))
        return out
    if n.is_call() and n.decl is not None:
        if n.obj is not None:
            ct = contype(n.obj)
            if ct in VECTORS + NODES and n.decl.n in INTO:
                k = key_of(e, n.obj)
                return {(k, "v" if ct in VECTORS else "n")} if k is not None else set()
            if "iterator" in ((n.obj.type.noref.rec if n.obj.type is not None else "") or "") and n.decl.n in ("operator*", "operator->", "operator[]", "operator+", "operator-", "operator++", "operator--"):
                return into(e, n.obj, depth + 1)
            if ct == "std::span":
                return into(e, n.obj, depth + 1)
        t = n.decl.t
        if proj(n.decl.f) and not n.decl.lambda_fn() and t is not None and (t.ref or t.ptr or t.tmpl == "std::span" or "iterator" in (t.rec or "")):
            out = set()
            for g in e.A.P.targets(n):
                if g.body is None:
                    continue
                for root, fields, kind in returned_into(e.A, g):
                    b = None
                    if root == "this":
                        b = key_of(e, n.obj) if n.obj is not None else None
                    elif root < len(n.args):
                        b = key_of(e, n.args[root])
                    if b is not None:
                        out.add(((b[0], b[1] + fields), kind))
            return out
        if n.obj is not None:
            return set()
        if n.decl.q in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::data") and n.args and contype(n.args[0]) in VECTORS + NODES:
            k = key_of(e, n.args[0])
            return {(k, "v" if contype(n.args[0]) in VECTORS else "n")} if k is not None else set()
        if (n.decl.q or "").startswith("std::") and n.type is not None and ("iterator" in (n.type.noref.rec or "")):
            out = set()
            for a in n.args[:2]:
                out |= into(e, a, depth + 1)
            return out
    return set()


def returned_into(A, g):
    """containers of g's object or reference parameters its result points into"""
    memo = A.__dict__.setdefault("_rinto", {})
    if g.key in memo:
        return memo[g.key]
    memo[g.key] = set()
    e = A.eval(g); out = set()
    pix = {id(p): i for i, p in enumerate(g.params)}
    for x in g.walk():
        if x.k == "ReturnStmt" and x.ch:
            for k, kind in into(e, x.ch[0]):
                if k[0] == "this":
                    out.add(("this", k[1], kind))
                elif id(k[0]) in pix and k[0].t is not None and k[0].t.ref:
                    out.add((pix[id(k[0])], k[1], kind))
    memo[g.key] = out
    return out


def invalidated(P, A, f, e, memo):
    """containers of f's object or parameters f may change: set of (root, fields, kind of change)"""
    if f.key in memo:
        return memo[f.key]
    memo[f.key] = set()
    out = set()
    pix = {id(p): i for i, p in enumerate(f.params)}
    for n, k, nm in changes(P, A, f, e, memo):
        if k[0] == "this":
            out.add((("this",), k[1], nm))
        elif k[0] not in ("this",) and id(k[0]) in pix and k[0].t is not None and k[0].t.ref:
            out.add((("parm", pix[id(k[0])]), k[1], nm))
    memo[f.key] = out
    return out


def changes(P, A, f, e, memo, depth=0):
    """(call, container key, operation) of every change of a container in f, own and through project functions"""
    if depth > 4:
        return
    for n in f.walk():
        if not n.is_call() or n.decl is None or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            continue
        if n.obj is not None and contype(n.obj) in VECTORS + NODES and n.decl.n in INVAL and not n.decl.cm:
            if n.decl.n in NODE_INVAL or contype(n.obj) in VECTORS:
                k = key_of(e, n.obj)
                if k is not None:
                    yield n, k, n.decl.n
            continue
        if n.decl.lambda_fn():
            for g in P.targets(n):
                if g.body is not None and proj(g.file):
                    for n2, k, nm in changes(P, A, g, A.eval(g), memo, depth + 1):
                        if k[0] != "this" and id(k[0]) not in {id(p) for p in g.params} and id(k[0]) not in A.eval(g).vdecl:
                            yield n, k, nm
            continue
        for g in P.targets(n):
            if not proj(g.file):
                continue
            for root, fields, nm in invalidated(P, A, g, A.eval(g), memo):
                if root == ("this",):
                    b = key_of(e, n.obj) if n.obj is not None else None
                else:
                    b = key_of(e, n.args[root[1]]) if root[1] < len(n.args) else None
                if b is not None:
                    yield n, (b[0], b[1] + fields), nm


def covers(ck, k):
    """changing container ck invalidates references into container k"""
    return ck[0] is k[0] or ck[0] == k[0] if isinstance(ck[0], str) or isinstance(k[0], str) else ck[0] is k[0]


def rule_changed(R, P, A):
    memo = {}
    for kk, f in sorted(P.funcs.items()):
        if not proj(f.file) or f.body is None:
            continue
        A.summary(f); e = A.eval(f)
        binds = []
        for n in f.walk():
            if n.k == "VarDecl" and n.ch and n.decl.t is not None and (n.decl.t.ref or n.decl.t.ptr or "iterator" in (n.decl.t.rec or "") or n.decl.t.tmpl == "std::span"):
                for k, kind in into(e, n.ch[0]):
                    binds.append((n, n.decl, k, kind))
                for b in n.raw.get("binds", ()):
                    for k, kind in into(e, n.ch[0]):
                        binds.append((n, f.tu.decls[b], k, kind))
        if not binds:
            continue
        ch = list(changes(P, A, f, e, memo))
        try:
            cfg = f.cfg
        except qa.Broken:
            continue
        if os.environ.get("DBG") and os.environ["DBG"] in f.q:
            print(f.q, [(d.n, k, kind) for v, d, k, kind in binds], [(n.line, ck, nm) for n, ck, nm in ch])
        for v, d, k, kind in binds:
            R.count("references into containers"); R.count("obligations")
            for n, ck, nm in ch:
                if not (ck[0] is k[0] or ck[0] == k[0]) or ck[1] != k[1][:len(ck[1])] or any(x is n for x in v.walk()):
                    continue
                if len(ck[1]) < len(k[1]) and nm not in ("operator=", "clear", "swap") and False:
                    continue
                if kind == "n" and nm not in NODE_INVAL:
                    continue
                if nm in ("push_back", "emplace_back") and any(nm2 == "reserve" and ck2 == ck for _, ck2, nm2 in ch):
                    continue
                if nm == "pop_back":
                    continue
                if nm in ("push_back", "emplace_back") and fixed_capacity(P, f):
                    R.count("appends within a capacity reserved up front"); continue
                u = used_after(f, cfg, v, d, n)
                if u is not None and nm == "erase" and unchanged(f, e, u, ck):
                    R.count("uses guarded by an unchanged size"); continue
                if u is not None:
                    R.violation(u.loc, "references into containers are not used after the container changed", name(f), "'%s' refers into %s, which %s at line %s changed" % (d.n, ".".join([k[0] if isinstance(k[0], str) else k[0].n] + list(k[1])), nm, n.line))
                    break


# classes that reserve all their containers before the first element is inserted and rely on it (capacity argued in DESIGN.md)
RESERVED = {"queso::TrimmedDomainOnPlane"}


def fixed_capacity(P, f):
    rec = (f.decl.rec or f.q or "")
    for c in RESERVED:
        if rec == c or rec.startswith(c + "::") or (f.q or "").startswith(c + "::"):
            return any(n.is_call() and n.decl is not None and n.decl.n == "reserve" and n.obj is not None and contype(n.obj) == "std::vector"
                       for g in P.funcs.values() if g.body is not None and g.decl.rec == c for n in g.walk())
    return False


def unchanged(f, e, u, ck):
    """the use runs only if the container's size was found unchanged"""
    def sizes(x, depth=0):
        for m in x.walk():
            if m.is_call() and m.decl is not None and m.decl.n == "size" and m.obj is not None and key_of(e, m.obj) == ck:
                if any(p.k == "BinaryOperator" and p.op in ("==", "!=") for p in [m.parent] + list(m.up()) if p is not None):
                    return True
            if m.k == "DeclRefExpr" and m.decl is not None and m.decl.k == "var" and depth < 2:
                for a in f.walk():
                    if a.k == "BinaryOperator" and a.op == "=" and a.ch[0].k == "DeclRefExpr" and a.ch[0].decl is m.decl and sizes(a.ch[1], depth + 1):
                        return True
                    if a.k == "VarDecl" and a.decl is m.decl and a.ch and sizes(a.ch[0], depth + 1):
                        return True
        return False
    return any(p.k == "IfStmt" and p.named.get("cond") is not None and sizes(p.named["cond"]) for p in u.up())


def is_rebind(n, d):
    p = n.parent
    return p is not None and p.k in ("BinaryOperator", "CXXOperatorCallExpr") and p.op == "=" and p.ch and p.ch[0] is n


def used_after(f, cfg, v, d, n, reset=()):
    """a use of d that may run after node n without d being bound anew, provided v may run before n"""
    pv, pn = cfg.node_pos(v), cfg.node_pos(n)
    if pv is None or pn is None:
        return None
    if not (pv[0] == pn[0] and pv[1] <= pn[1] or pn[0] in set().union(*[cfg.reach(s) for s in cfg.succ[pv[0]]] or [set()])):
        return None
    if d is None:
        return None
    uses, stops = {}, {}
    skip = {id(x) for x in n.walk()}
    for u in f.walk():
        if u.k == "VarDecl" and u is v:
            p = cfg.node_pos(u)
            stops.setdefault(p[0], []).append(p[1])
        if u.k == "DeclRefExpr" and u.decl is d:
            p = cfg.node_pos(u)
            if p is None:
                continue
            if is_rebind(u, d):
                q = cfg.node_pos(u.parent) or p
                stops.setdefault(q[0], []).append(q[1]); continue
            pa = u.parent
            if pa is not None and pa.is_call() and pa.obj is u and pa.decl is not None and pa.decl.n in reset:
                stops.setdefault(p[0], []).append(p[1]); continue
            uses.setdefault(p[0], []).append((p[1], u))
        elif u.is_call() and u.decl is not None and u.decl.lambda_fn() and u is not n:
            if any(x.k == "DeclRefExpr" and x.decl is d for g in f.prog.targets(u) if g.body is not None for x in g.walk()):
                p = cfg.node_pos(u)
                if p is not None:
                    uses.setdefault(p[0], []).append((p[1], u))
    seen = set(); st = [(pn[0], pn[1])]
    while st:
        b, i = st.pop()
        stop = min([x for x in stops.get(b, ()) if x > i], default=None)
        us = [(x, u) for x, u in uses.get(b, ()) if x > i and (stop is None or x <= stop) and not (id(u) in skip and b == pn[0] and x <= pn[1])]
        if us:
            return min(us, key=lambda z: z[0])[1]
        if stop is not None:
            continue
        for s in cfg.succ[b]:
            if s not in seen:
                seen.add(s); st.append((s, -1))
    return None


def heavy(P, t, depth=0):
    if t is None or t.ref or t.ptr or depth > 4:
        return False
    if t.tmpl in ("std::unique_ptr", "std::vector", "std::basic_string", "std::map", "std::unordered_map", "std::function", "std::set", "std::shared_ptr", "std::deque"):
        return True
    if t.tmpl in ("std::optional", "std::pair", "std::tuple", "std::array"):
        return any(heavy(P, a, depth + 1) for a in t.args if isinstance(a, qa.Type))
    R = P.records.get(t.rec or "")
    return R is not None and any(heavy(P, x.t, depth + 1) for x in R.fields)


def rule_moved(R, P, A):
    for k, f in sorted(P.funcs.items()):
        if not proj(f.file) or f.body is None:
            continue
        for n in f.walk():
            if not (n.is_call() and n.decl is not None and n.decl.q == "std::move" and n.args and n.args[0].k == "DeclRefExpr"):
                continue
            d = n.args[0].decl
            t = d.t.noref if d.t is not None else None
            if d.k not in ("var", "parm") or d.glob or not heavy(P, t):
                continue
            R.count("moved variables"); R.count("obligations")
            # the call that consumes it
            p = n.parent
            while p is not None and p.k in ("CXXConstructExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "InitListExpr", "CXXFunctionalCastExpr"):
                n2 = p; p = p.parent
                if n2.parent is None:
                    break
            # a call that takes it by value, reference to non-const rvalue, or constructs from it
            ctor = n.role == "ctorinit" or any(u.role == "ctorinit" for u in n.up())
            try:
                cfg = f.cfg
            except qa.Broken:
                continue
            if p is not None and p.is_call():
                start = p
            else:
                start = n.parent if n.parent is not None else n
            v = next((x for x in f.walk() if x.k == "VarDecl" and x.decl is d), None)
            u = moved_use(f, cfg, v, d, n, start)
            if u is not None:
                R.violation(u.loc, "nothing is used after it was moved from", name(f), "'%s' was moved from at line %s" % (d.n, n.line))


RESET = ("clear", "reset", "assign", "emplace", "swap", "resize")


def moved_use(f, cfg, v, d, n, start):
    ps, pn = cfg.node_pos(start), cfg.node_pos(n)
    if pn is None:
        return None
    if ps is None or ps[0] != pn[0] or ps[1] < pn[1]:
        ps = pn
    skip = {id(x) for x in n.walk()}
    uses, stops = {}, {}
    inlam = False
    for u in f.walk():
        if v is not None and u is v:
            p = cfg.node_pos(u)
            if p is not None:
                stops.setdefault(p[0], []).append(p[1])
        if u.k == "DeclRefExpr" and u.decl is d:
            p = cfg.node_pos(u)
            if p is None:
                continue
            if is_rebind(u, d):
                q = cfg.node_pos(u.parent) or p
                stops.setdefault(q[0], []).append(q[1]); continue
            pa = u.parent
            if pa is not None and pa.is_call() and pa.obj is u and pa.decl is not None and pa.decl.n in RESET:
                stops.setdefault(p[0], []).append(p[1]); continue
            uses.setdefault(p[0], []).append((p[1], u))
    seen = set(); st = [(ps[0], ps[1], True)]
    while st:
        b, i, first = st.pop()
        stop = min([x for x in stops.get(b, ()) if x > i], default=None)
        us = [(x, u) for x, u in uses.get(b, ()) if x > i and (stop is None or x < stop) and not (first and id(u) in skip)]
        if us:
            return min(us, key=lambda z: z[0])[1]
        if stop is not None:
            continue
        for s in cfg.succ[b]:
            if s not in seen:
                seen.add(s); st.append((s, -1, False))
    return None


# ------------------------------------------------------------------ C
POLICY = {0: "automatic", 1: "automatic_reference", 2: "take_ownership", 3: "copy", 4: "move", 5: "reference", 6: "reference_internal"}


def callee(P, n):
    out = []
    for m in n.walk():
        if m.k == "LambdaExpr":
            return P.lambda_funcs(m), [x.decl for x in P.lambda_funcs(m)]
        if m.k == "DeclRefExpr" and m.decl is not None and m.decl.k == "fn" and (m.decl.f or "").startswith(qa.REPO) and "/pybind11/" not in m.decl.f:
            f = P.funcs.get(m.decl.key)
            return ([f] if f is not None else []), [m.decl]
    return [], []


def rule_python(R, P, A):
    for k, f in sorted(P.funcs.items()):
        if not proj(f.file) or "/python/" not in f.file:
            continue
        A.summary(f)
        for n in f.walk():
            if not n.is_call() or n.decl is None:
                continue
            q = n.decl.q or ""
            if q == "pybind11::cast" and n.args and A.carrier(n.args[0].type) and n.type is not None and (n.type.rec or "").startswith("pybind11"):
                e = A.eval(f)
                if not any(x[0][0] in ("parm", "this") for x in e.refs(n.args[0])):
                    continue
                R.count("obligations"); R.count("views handed to Python")
                v = next((u for u in n.up() if u.k == "VarDecl"), None)
                ok = v is not None and any(c.is_call() and c.decl is not None and c.decl.n == "keep_alive_impl" and c.args and any(x.k == "DeclRefExpr" and x.decl is v.decl for x in c.args[0].walk()) and f.cfg.dominates(n, c)
                                           and not any(u.k == "IfStmt" for u in up_to(c, scope_of(v))) for c in f.walk())
                if len(n.args) >= 3 and pol(n.args[1]) == 6:
                    ok = True
                if not ok:
                    R.violation(n.loc, "what Python gets keeps what it refers to alive", name(f), "a %s is handed to Python without keeping its owner alive" % n.args[0].type.s[:80])
            if n.decl.n == "append" and q.startswith("pybind11::list") and n.args and A.carrier(n.args[0].type) and not n.args[0].type.noref.ptr:
                R.violation(n.loc, "what Python gets keeps what it refers to alive", name(f), "appends a %s without keeping its owner alive" % n.args[0].type.s[:80])
            if not (n.decl.n.startswith("def") and (n.decl.rec or "").startswith("pybind11::")) or not n.args:
                continue
            binding(R, P, A, f, n)


def up_to(n, stop):
    for u in n.up():
        if u is stop:
            return
        yield u


def pol(n):
    for m in n.walk():
        if m.cv is not None and m.type is not None and "return_value_policy" in m.type.s:
            return m.cv
        if m.k == "DeclRefExpr" and m.decl is not None and m.decl.k == "enumc":
            return m.cv if m.cv is not None else m.decl.raw.get("cv")
    return None


def binding(R, P, A, f, n):
    R.count("python bindings")
    lits = [m.s for m in n.args[0].walk() if m.k == "StringLiteral"]
    init = not lits
    what = "%s %s" % (short(n.decl.rec), lits[0] if lits else "constructor")
    cal = n.args[0] if init else (n.args[1] if len(n.args) > 1 else None)
    if cal is None:
        return
    extra = n.args[1:] if init else n.args[2:]
    policy = 6 if n.decl.n.startswith("def_property") or n.decl.n.startswith("def_read") else 0
    keep = set()
    for a in extra:
        t = a.type.s if a.type is not None else ""
        m = re.search(r"keep_alive<(\d+), (\d+)>", t)
        if m:
            keep.add((int(m.group(1)), int(m.group(2))))
        if "return_value_policy" in t:
            policy = pol(a) if pol(a) is not None else policy
    static = n.decl.n == "def_static" or n.decl.rec.startswith("pybind11::module_")
    fs, ds = callee(P, cal)
    if init and not fs:
        # py::init<Args...>: the constructor of the bound class
        cls = re.match(r"pybind11::class_<([^,<>]+(?:<.*?>)?)", n.decl.rec or "")
        return
    for g in fs:
        s = A.summary(g)
        lam = g.decl.lambda_fn()
        member = not lam and bool(g.decl.rec) and not g.decl.raw.get("static")
        ix = lambda r: (1 if r == ("this",) else r[1] + (2 if member or init else 1))
        t = g.decl.t
        R.count("obligations")
        if not init and t is not None:
            base = t.noref
            deps = {d for d in s.ret}
            if (base.rec or "").startswith("pybind11::") and "iterator" in (base.rec or ""):
                e = A.eval(g)
                for r in g.walk():
                    if r.k == "ReturnStmt" and r.ch:
                        for c in r.walk():
                            if c.is_call() and c.decl is not None and c.decl.n.startswith("make_") and "iterator" in c.decl.n:
                                for a in c.args:
                                    deps |= {d for d in (e.refs(a) if not a.type.ref else e.refs(a)) if d[0][0] in ("parm", "this")}
                        if r.ch[0].is_call() and r.ch[0].decl is not None:
                            pass
            carrier = A.carrier(base) and not (base.ptr and base.p is not None and base.p.s in ("const char", "char")) and "string_view" not in base.s
            iterator = (base.rec or "").startswith("pybind11::") and "iterator" in (base.rec or "")
            need = set()
            if iterator:
                need = {ix(d[0]) for d in deps}
                R.count("iterators handed to Python")
                if not deps:
                    R.notes.append("no source found for " + what)
            elif t.ref or t.ptr:
                if carrier and t.ref and policy in (0, 1, 2, 3, 4):
                    need = {ix(d[0]) for d in deps}
                elif policy in (5,) or t.ptr and policy == 1:
                    need = {ix(d[0]) for d in deps}
                elif t.ptr and policy in (0, 2) and deps and not (base.p is not None and base.p.s in ("const char", "char")):
                    R.violation(n.loc, "what Python gets keeps what it refers to alive", what, "Python takes ownership of an object that is owned elsewhere (policy %s)" % POLICY.get(policy))
                elif policy == 6:
                    need = {ix(d[0]) for d in deps} - {1}
            elif carrier:
                need = {ix(d[0]) for d in deps}
            for i in sorted(need):
                R.count("references handed to Python"); R.count("obligations")
                if (0, i) not in keep:
                    R.violation(n.loc, "what Python gets keeps what it refers to alive", what, "the result refers to argument %d, which nothing keeps alive (policy %s)" % (i, POLICY.get(policy)))
            if policy == 6 and (t.ref or t.ptr) and static:
                R.violation(n.loc, "what Python gets keeps what it refers to alive", what, "reference_internal on a function without object")
        for dst, src in s.stores:
            if dst not in (("this",), ("parm", 0)) or src[0][0] != "parm" or dst == src[0]:
                continue
            i = ix(src[0])
            if not init and dst == ("parm", 0) and i == 1:
                continue
            R.count("obligations"); R.count("arguments remembered")
            if (1, i) not in keep:
                R.violation(n.loc, "what Python gives is kept alive while it is referred to", what, "the object remembers a reference to argument %d, which nothing keeps alive" % i)
        # objects taken out of a holder
        for c in g.walk():
            if c.is_call() and c.decl is not None and c.decl.n == "Release" and "UniqueHolder" in (c.decl.rec or "") and c.obj is not None and c.obj.k == "DeclRefExpr" and c.obj.decl.k == "parm":
                i = [j for j, p in enumerate(g.params) if p is c.obj.decl]
                if not i:
                    continue
                i = i[0] + (2 if init else 1)
                R.count("obligations"); R.count("holders emptied")
                if (i, 1) not in keep:
                    R.violation(n.loc, "references obtained from a holder stay valid", what, "takes the object out of holder argument %d, but nothing keeps the new owner alive for references obtained from the holder" % i)


def short(rec):
    m = re.match(r"pybind11::class_<(?:queso::)?(?:Python::)?([\w:]+)", rec or "")
    return m.group(1).split("::")[-1] if m else (rec or "").split("::")[-1]


def run(R, tier):
    P = qa.load(tus=qa.lib_tus() + qa.py_tus() + [qa.VERIF + "/tu/inst.cpp"])
    R.count("translation units", len(P.tu_names))
    A = Life(P)
    rule_refs(R, P, A)
    rule_self(R, P, A)
    rule_changed(R, P, A)
    rule_moved(R, P, A)
    rule_python(R, P, A)
    R.expect("functions", 800); R.expect("returned references and views", 300); R.expect("stored references", 50)
    R.expect("python bindings", 60); R.expect("classes that refer to themselves", 1)
