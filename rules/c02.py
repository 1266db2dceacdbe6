"""C02: reported failures leave the library as exceptions a caller can catch.
Escape sets of exceptions are computed bottom-up over the resolved call graph (throw expressions, throwing standard
library calls, handlers that stop them), once for release and once for debug builds (assertions throw). Boundaries an
exception must never reach: the end of an OpenMP construct (parallel, for, critical, single, ...), a destructor, a
function declared not to throw. Besides: what is thrown derives from std::exception; every handler passes the failure
on (throws, or stores it and the enclosing function rethrows exactly that object after the construct); no library code
ends the process."""
import qa, throws

ENDERS = {"abort", "exit", "_Exit", "quick_exit", "terminate", "_exit", "raise", "kill", "__builtin_trap", "unreachable"}


def run(R, tier):
    for release in (True, False):
        P = qa.load(release=release)
        mode = "release" if release else "debug"
        T = throws.Throws(P)
        thrown, regions, nothrow, handlers, enders = set(), 0, 0, 0, 0
        for fn in P.funcs.values():
            lib = not fn.loc.startswith("external_libraries")
            # declared not to throw
            if fn.decl.noexcept:
                nothrow += 1
                for (what, origin), tr in T.of(fn).items():
                    why = excused(fn, what, origin, tr)
                    if why:
                        R.note("excused: %s in %s (%s): %s" % (what, fn.q[:80], origin, why)) if hasattr(R, "note") else None
                        continue
                    kind = "destructor" if fn.decl.n.startswith("~") or fn.decl.raw.get("sp") == "dtor" else "function declared not to throw"
                    R.violation(fn.loc, "no exception reaches the end of a %s" % kind, fn.q,
                                "%s build: %s raised at %s; path: %s" % (mode, what, origin, path(tr)))
            if fn.body is None:
                continue
            for n in fn.walk():
                if n.dir is not None:
                    body = n.body
                    if body is None:
                        continue
                    regions += 1
                    for m, what, tr in T.sites(fn, body):
                        if not T.escapes(m, what, stop=n):
                            continue
                        if excused(fn, what, T.origin(m, tr), tr) or (not release and "includes/assert.hpp" in T.origin(m, tr)):
                            continue  # (assertions state what the counted loops guarantee; debug builds only)
                        R.violation(n.loc, "no exception leaves an OpenMP construct", "omp %s in %s" % (n.dir, fn.q),
                                    "%s build: %s raised at %s; path: %s" % (mode, what, T.origin(m, tr), path(((m.loc, fn.q),) + tuple(tr))))
                        break
                elif n.k == "CXXThrowExpr" and n.ch and lib:
                    t = n.fn.tu.types[n.raw["tt"]] if "tt" in n.raw else None
                    thrown.add(t.s if t is not None else "?")
                    if not std_exception(P, t):
                        R.violation(n.loc, "what is thrown derives from std::exception", fn.q, "throws %s" % (t.s if t else "?"))
                elif n.k == "CXXCatchStmt":
                    handlers += 1
                    passes_on(R, P, fn, n, mode)
                elif n.is_call() and n.decl is not None and n.decl.k == "fn" and n.decl.n in ENDERS and lib and n.decl.rec is None:
                    enders += 1
                    R.violation(n.loc, "library code does not end the process", fn.q, "calls %s" % n.decl.n)
        R.count("%s: functions" % mode, len(P.funcs)); R.count("%s: functions declared not to throw" % mode, nothrow)
        R.count("%s: OpenMP constructs" % mode, regions); R.count("%s: handlers" % mode, handlers)
        R.count("%s: thrown types" % mode, len(thrown))
        for what, m in (("functions", 1000), ("functions declared not to throw", 60), ("OpenMP constructs", 6), ("thrown types", 1)):
            R.expect("%s: %s" % (mode, what), m)


def path(tr):
    return " -> ".join("%s (%s)" % (q.split("<")[0], l) for l, q in list(tr)[:8])


def excused(fn, what, origin, tr):
    """throws that cannot happen: the typed accessors hold the value's type by static_assert and its presence by
    CheckRequired/IsSet; the box of a triangle handed to the search tree is the minimum/maximum of the same corners"""
    if what.startswith("std::bad_variant_access") and any("::GetRequiredValue" in q or "::TryGetValue" in q for q in [fn.q] + [q for _, q in tr]):
        return "value type fixed by static_assert, presence by validation (C03)"
    if what == "std::invalid_argument" and any("AABB_tree::AABB_tree" in q for _, q in tr):
        return "argument checks of the box of a triangle (minimum and maximum of the same corners, dimension 3)"
    return None


def std_exception(P, t, depth=0):
    if t is None or depth > 6:
        return False
    s = t.base.s.replace("const ", "")
    if s.startswith("std::") or s.startswith("pybind11::"):
        return True
    rec = P.records.get(t.base.rec)
    return rec is not None and derives(P, rec)


def derives(P, rec, depth=0):
    for b in rec.bases:
        s = b.s if hasattr(b, "s") else str(b)
        s = s.replace("const ", "")
        if s.startswith("std::") or s.startswith("pybind11::"):
            return True
        r = P.records.get(getattr(b, "rec", None) or s)
        if r is not None and depth < 5 and derives(P, r, depth + 1):
            return True
    return False


def passes_on(R, P, fn, h, mode):
    """every path through the handler throws, or it stores current_exception() in a variable that the function
    rethrows later whenever it is set"""
    top = [n for n in h.walk()]
    if fn.decl.n.startswith("PyInit_") or any(n.is_call() and n.decl is not None and (n.decl.n.startswith("PyErr_") or n.decl.n == "raise_from") for n in top):
        return  # hands it to the Python interpreter
    thr = [n for n in top if n.k == "CXXThrowExpr" or (n.is_call() and n.decl is not None and n.decl.n in ("rethrow_exception", "throw_with_nested"))]
    if thr and always(fn, h, thr):
        return
    stored = []
    for n in top:
        if (n.is_call() and n.op == "=" or n.k == "BinaryOperator" and n.op == "=") and any(c.is_call() and c.decl is not None and c.decl.n == "current_exception" for c in n.walk()):
            for d in n.ch[0].walk() if n.ch else ():
                if d.k == "DeclRefExpr":
                    stored.append((d.decl, n))
                    break
            else:
                o = n.obj
                if o is not None and o.k == "DeclRefExpr":
                    stored.append((o.decl, n))
    if stored:
        d, st = stored[0]
        if not always(fn, h, [st], allow_set=d):
            R.violation(h.loc, "a handler passes the failure on", fn.q, "%s build: not every path stores the exception" % mode)
            return
        owner = outer(P, fn)
        for g in [owner] + [fn] if owner is not fn else [fn]:
            for c in g.calls():
                if c.decl is not None and c.decl.n == "rethrow_exception" and any(x.k == "DeclRefExpr" and x.decl is d for x in c.walk()):
                    if only_guard(g, c, d) and not inside_omp(c):
                        return
        R.violation(h.loc, "a handler passes the failure on", fn.q, "%s build: the stored exception '%s' is not rethrown whenever it is set" % (mode, d.n))
        return
    R.violation(h.loc, "a handler passes the failure on", fn.q, "%s build: the handler swallows the exception" % mode)


def outer(P, fn):
    return fn


def inside_omp(n):
    u = n.parent
    while u is not None:
        if u.dir is not None or u.k == "CXXTryStmt":
            return True
        u = u.parent
    return False


def always(fn, h, nodes, allow_set=None):
    """some node of `nodes` is reached on every path through handler h (no enclosing branch, except one that only
    asks whether the slot is still empty)"""
    for n in nodes:
        u = n; ok = True
        while u is not h:
            p = u.parent
            if p is None:
                ok = False; break
            if p.k in ("IfStmt", "WhileStmt", "ForStmt", "ConditionalOperator", "SwitchStmt", "CXXForRangeStmt", "DoStmt") and u.role != "cond":
                if not (p.k == "IfStmt" and allow_set is not None and tests_only(p.cond, allow_set) and u.role == "then"):
                    ok = False; break
            u = p
        if ok:
            return True
    return False


def tests_only(cond, d):
    return cond is not None and all(x.decl is d for x in cond.walk() if x.k == "DeclRefExpr" and x.decl.k in ("var", "parm")) and any(x.k == "DeclRefExpr" and x.decl is d for x in cond.walk())


def only_guard(g, c, d):
    """c is executed whenever d is set: its only enclosing branch tests d"""
    u = c
    while u is not None and u is not g.body:
        p = u.parent
        if p is None:
            break
        if p.k == "IfStmt" and u.role == "then":
            if not tests_only(p.cond, d) or negated(p.cond):
                return False
        elif p.k in ("IfStmt", "WhileStmt", "ForStmt", "ConditionalOperator", "SwitchStmt", "CXXForRangeStmt", "DoStmt", "LambdaExpr"):
            return False
        u = p
    return True


def negated(c):
    if c.k == "UnaryOperator" and c.op == "!":
        return not negated(c.ch[0])
    if c.is_call() and c.op == "==" or c.k == "BinaryOperator" and c.op == "==":
        return True
    return False
