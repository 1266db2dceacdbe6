"""C21: no hidden state, read-only arguments stay unchanged.
Rule: (a) every variable with static or thread lifetime defined in the project is constant and its initialiser refers to no
argument, object or local of the call that happens to come first; (b) no function writes to storage of static lifetime;
(c) a const member function or a parameter taken as const reference or pointer to const is written by nothing the function
calls (interprocedural effects, also through pointers held by the object, const_cast and mutable members); a mutable member
may only be set to a constant or filled under a test of that same member; (d) clocks, environment and random numbers are
consulted by the timer and the ray tests only."""
import qa
from effects import Effects, FnEval

SOURCES = ("std::rand", "rand", "std::srand", "srand", "std::time", "time", "std::clock", "clock", "std::getenv", "getenv", "setenv", "std::setlocale", "setlocale",
           "std::random_device::random_device", "std::chrono::system_clock::now", "std::chrono::steady_clock::now", "std::localtime", "localtime",
           "std::chrono::high_resolution_clock::now", "gettimeofday", "clock_gettime", "std::this_thread::get_id", "drand48", "random")


def proj(f):
    return f is not None and f.startswith(qa.REPO) and "/pybind11/" not in f and "/tests/" not in f


def fields_of(P):
    """record -> names of the fields it, its bases or classes derived from it have"""
    by = {}
    for r in P.records.values():
        by.setdefault(r.q, []).append(r)
    base = {}
    for q, rs in by.items():
        for r in rs:
            for b in r.bases:
                bq = (b.rec or b.s).split("<")[0]
                base.setdefault(q, set()).add(bq)
    der = {}
    for q, bs in base.items():
        for b in bs:
            der.setdefault(b, set()).add(q)

    def close(q, rel, seen):
        for x in rel.get(q, ()):
            if x not in seen:
                seen.add(x); close(x, rel, seen)
        return seen

    def names(q):
        ds = close(q, der, {q})
        allq = set(ds)
        for d in ds:
            close(d, base, allq)
        if q not in by:
            return None
        return {f.n for x in allq for r in by.get(x, ()) for f in r.fields}
    return names


def mutable(P):
    out = {}
    for r in P.records.values():
        for f in r.fields:
            if f.raw.get("mut"):
                out.setdefault(f.n, r.q)
    return out


def target(node):
    """the member written at an effect's node"""
    n = node
    for m in [n] + ([n.ch[0]] if n.ch else []):
        while m is not None:
            if m.k == "MemberExpr" and m.decl is not None and m.decl.k == "field":
                return m
            m = m.ch[0] if m.ch else None
    return None


def const_value(n):
    while n.k in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "ExprWithCleanups", "ConstantExpr") and n.ch:
        n = n.ch[0]
    return n.k in ("CXXBoolLiteralExpr", "IntegerLiteral", "FloatingLiteral", "CXXNullPtrLiteralExpr")


def sources(f, n, out, seen):
    """parameters the value of n is computed from (through locals)"""
    for m in n.walk():
        if m.k == "DeclRefExpr" and m.decl is not None:
            if m.decl.k == "parm":
                out.append(m.decl)
            elif m.decl.k == "var" and not m.decl.glob and id(m.decl) not in seen:
                seen.add(id(m.decl))
                for v in f.walk():
                    if v.k == "VarDecl" and v.decl is m.decl and v.ch:
                        sources(f, v.ch[0], out, seen)
                    if v.k == "BinaryOperator" and v.op == "=" and v.ch[0].k == "DeclRefExpr" and v.ch[0].decl is m.decl:
                        sources(f, v.ch[1], out, seen)
    return out


def own_arg(P, f, d, depth=0):
    """at every call in the project, parameter d of f is bound to a member of an object (never to a free value)"""
    ix = [i for i, p in enumerate(f.params) if p is d]
    if not ix or depth > 5:
        return False
    calls = 0
    for g in P.funcs.values():
        if not proj(g.file):
            continue
        for c in g.walk():
            if c.is_call() and c.decl is not None and c.decl.key == f.decl.key:
                calls += 1
                a = c.args[ix[0]] if ix[0] < len(c.args) else None
                while a is not None and a.k in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXConstructExpr") and a.ch:
                    a = a.ch[0]
                if a is not None and a.k == "MemberExpr" and a.decl is not None and a.decl.k == "field":
                    continue
                if a is not None and a.k == "DeclRefExpr" and a.decl.k == "parm" and any(a.decl is p for p in g.params) and own_arg(P, g, a.decl, depth + 1):
                    continue
                return False
    return calls > 0


def own(P, n):
    """a cache may only depend on the object that holds it"""
    f = n.fn
    rhs = n.args if n.is_call() else n.ch[1:]
    for d in [d for r in rhs for d in sources(f, r, [], set())]:
        if not own_arg(P, f, d):
            return False, "the value kept depends on argument '%s' of the first call" % d.n
    return True, "filled under a test of itself"


def accepted(P, e):
    """write to a mutable member: constant flag, or cache filled under a test of itself"""
    m = target(e.node)
    if m is None or not m.decl.raw.get("mut"):
        return False, "not a mutable member"
    n = e.node
    if n.k == "BinaryOperator" and n.op == "=" and const_value(n.ch[1]):
        return True, "constant flag"
    f = n.fn
    name = m.decl.n
    for c in f.walk():
        if c.k in ("IfStmt", "ConditionalOperator"):
            cond = c.named.get("cond") or c.ch[0]
            if any(x.k == "MemberExpr" and x.decl is not None and x.decl.n == name for x in cond.walk()) and f.cfg.dominates(cond, n):
                return own(P, n)
        if c.k == "BinaryOperator" and c.op in ("&&", "||"):
            if any(x.k == "MemberExpr" and x.decl is not None and x.decl.n == name for x in c.ch[0].walk()) and any(x is n for x in c.ch[1].walk()):
                return own(P, n)
    return False, "mutable member is neither set to a constant nor filled under a test of itself"


def run(R, tier):
    P = qa.load(tus=qa.lib_tus() + qa.py_tus() + [qa.VERIF + "/tu/inst.cpp"])
    R.count("translation units", len(P.tu_names))
    E = Effects(P)
    # (a) variables
    seen = set()
    inits = {}
    for v in P.vars.values():
        inits[v.decl.q or v.decl.n] = v
    for tu in P.tus:
        for d in tu.decls:
            if d is None or d.k != "var" or not (d.glob or d.slocal) or not proj(d.f):
                continue
            k = (d.f, d.l, d.n)
            if k in seen:
                continue
            seen.add(k)
            R.count("static variables"); R.count("obligations")
            t = d.t.s if d.t is not None else ""
            if d.n.startswith("pybind11_module_def") or t.endswith("PyModuleDef"):
                R.notes.append("generated: " + d.n); continue
            if not (d.t is not None and (d.t.const or d.raw.get("cx") or t.startswith("const ") and not t.rstrip().endswith(("*", "&")))):
                R.violation("%s:%s" % (d.f.replace(qa.REPO + "/", ""), d.l), "variables of static or thread lifetime are constant", d.q or d.n, "is a modifiable %s" % t)
    n = 0
    for k, f in P.funcs.items():
        if not proj(f.file) or f.body is None:
            continue
        n += 1
        for s in f.walk():
            if s.k == "VarDecl" and s.decl is not None and s.decl.slocal and s.ch:
                R.count("obligations"); R.count("initialisers of local statics")
                lam = [m for m in s.walk() if m.k == "LambdaExpr"]
                for m in s.walk():
                    bad = None
                    if m.k == "CXXThisExpr":
                        bad = "the object"
                    if m.k == "DeclRefExpr" and (m.decl.k == "parm" or m.decl.k == "var" and not m.decl.glob and not m.decl.slocal and m.raw.get("cv") is None and not m.decl.raw.get("cx")):
                        inside = False
                        u = m
                        while u is not None and u is not s:
                            if u.k == "LambdaExpr":
                                inside = True
                            u = u.parent
                        if inside or m.decl.t is not None and m.decl.t.const and m.decl.t.s.split()[-1] in ("int", "double", "long", "bool", "char", "short") and const_local(f, m.decl):
                            continue
                        bad = "'%s'" % m.decl.n
                    if bad:
                        R.violation(s.loc, "static variables do not remember arguments", "%s: %s" % (f.decl.q, s.decl.n), "its initial value depends on %s of the first call" % bad)
                        break
            # (d)
            if (s.is_call() or s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr")) and s.decl is not None and s.decl.q in SOURCES:
                R.count("clock, environment and random sources"); R.count("obligations")
                timer = (f.decl.q or "").startswith("queso::Timer::")
                rays = f.file.endswith("/embedding/brep_operator.cpp")
                if not (timer or rays):
                    R.violation(s.loc, "results depend on arguments only", f.decl.q, "consults %s" % s.decl.q)
    R.count("functions", n)
    # (b), (c)
    names = fields_of(P)
    allf = {x.n for r in P.records.values() if r.q.startswith("queso::") for x in r.fields} - {"first", "second"}
    ok = {}
    for k, f in sorted(P.funcs.items()):
        if not proj(f.file):
            continue
        for e in E.summary(f).eff.values():
            if not e.w:
                continue
            root, path = e.loc
            what = None
            if root[0] == "glob":
                vn = root[1] if len(root) > 1 else ""
                g = inits.get(vn)
                if "mRegistry" in str(root) and any(p == "..." or p == "*" or isinstance(p, tuple) for p in path) and path and path[0] == ("ix", "?"):
                    # what a registered factory function returned (freshly made, modelled as stored in the table)
                    if e.node is None or len(path) > 2 and path[1] == "second":
                        continue
                if root[1] in ("std::cout", "std::cerr", "std::clog") or "std::" in str(root[1]):
                    continue
                what = ("no write to storage of static lifetime", "writes %s%s" % (root[1], list(path)))
            elif root == ("this",) and f.decl.cm:
                what = ("const members leave the object unchanged", "writes this%s" % list(path))
            elif root[0] == "parm" and isinstance(root[1], int) and root[1] < len(f.params):
                p = f.params[root[1]]
                if p.t is not None and (p.t.ref and p.t.bconst or p.t.ptr and p.t.p is not None and p.t.p.const):
                    rec = p.t.base.rec
                    if rec and rec.startswith("std::") and path and path[0] in allf:
                        continue   # path of another object
                    if rec:
                        fs = names(rec.split("<")[0])
                        if fs is not None and path and isinstance(path[0], str) and path[0] not in fs and path[0] not in ("*", "..."):
                            continue   # path of another object
                    what = ("read-only arguments stay unchanged", "writes %s%s" % (p.n, list(path)))
            if what is None:
                continue
            R.count("writes examined"); R.count("obligations")
            key = id(e.node)
            if key not in ok:
                ok[key] = accepted(P, e)
            if ok[key][0]:
                continue
            tr = " via " + " > ".join("%s %s" % (t[0], t[1]) if isinstance(t, tuple) else str(t) for t in e.trace[:4]) if e.trace else ""
            R.violation(e.node.loc, what[0], f.decl.q, "%s: %s; %s%s" % (what[1], e.note, ok[key][1], tr))
    R.count("const members and functions with read-only parameters", sum(1 for f in P.funcs.values() if proj(f.file) and (f.decl.cm or any(p.t is not None and p.t.ref and p.t.bconst for p in f.params))))
    R.expect("static variables", 20); R.expect("const members and functions with read-only parameters", 200)


def const_local(f, d):
    for n in f.walk():
        if n.k == "VarDecl" and n.decl is d and n.ch:
            return all(m.k not in ("DeclRefExpr", "CXXThisExpr") or m.raw.get("cv") is not None or m.decl is not None and (m.decl.k not in ("parm", "var") or m.decl.glob) for m in n.ch[0].walk())
    return False
