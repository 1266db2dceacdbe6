"""C03: settings are validated before a model is computed.
Rules: (1) value numbering of the validation routine over symbolic polynomial orders (all orderings of the three axes,
minimum 0, 1, or 2 and more), symbolic element counts (with and without an empty axis), every integration method and
every grid kind: the gated condition under which it refuses equals the specified one; it checks that required values
are present before it reads any; (2) every construction of a model is dominated by the validation of the settings it
takes; the constructor is not public and the settings it keeps cannot be changed; (3) condition settings are checked for
required values before the first read, in every route that leads to the computation of a condition; (4) the check for
required values covers the data set, every sub-dictionary and every list entry, and the data set refuses exactly when a
required value is missing."""
import itertools
import qa, alg, vn
from vnlib import *

CS = "queso::CheckDictionaryUtilities::CheckSettings"


def enum_of(P, suffix):
    for q, e in P.enums.items():
        if q.endswith("::" + suffix):
            return {x["n"]: x["v"] for x in e["e"]}
    raise qa.Broken("anchor vanished: enum " + suffix)


def run(R, tier):
    P = load(R, extra=["queso/embedded_model.cpp"])
    refusal_condition(R, P, tier)
    constructions(R, P)
    conditions(R, P)
    required(R, P)
    R.expect("obligations", 60)


def refusal_condition(R, P, tier):
    f = pick(P, CS, 1)
    meth = enum_of(P, "IntegrationMethod"); grid = enum_of(P, "GridType")
    for need in ("gauss", "gauss_reduced_1", "gauss_reduced_2", "ggq_optimal", "ggq_reduced_1", "ggq_reduced_2"):
        if need not in meth:
            raise qa.Broken("integration methods changed: %s" % sorted(meth))
    perms = list(itertools.permutations(range(3))) if tier == "thorough" else [(0, 1, 2), (1, 2, 0), (2, 1, 0)]
    for perm in perms:
        for lowest in (0, 1, 2):
            for empty in (None, 0, 1, 2):
                if empty is not None and (lowest != 2 or perm != perms[0]):
                    continue
                for mn, mv in meth.items():
                    for gn, gv in grid.items():
                        alg.reset()
                        nn = dict(nn=True, isint=True)
                        m = rf(lowest) if lowest < 2 else rf(2) + atomrf(("in", "m"), **nn)
                        o = {}
                        o[perm[0]] = m; o[perm[1]] = m + atomrf(("in", "d1"), **nn); o[perm[2]] = o[perm[1]] + atomrf(("in", "d2"), **nn)
                        mx = o[perm[2]]
                        N = [rf(1) + atomrf(("in", "n%d" % a), **nn) if a != empty else rf(0) for a in range(3)]
                        vals = {"polynomial_order": arr([o[i] for i in range(3)]), "number_of_elements": arr(N), "integration_method": L(rf(mv)), "grid_type": L(rf(gv))}
                        state = {"checked": False, "early": None}
                        h = hook_names(P, settings_hooks(lambda k, t: vals.get(k)))
                        for q, g in list(h.items()):
                            if q.endswith("GetRequiredValue"):
                                def wrap(M, S, fr, n, g=g):
                                    if not state["checked"] and state["early"] is None:
                                        state["early"] = n.loc
                                    return g(M, S, fr, n)
                                h[q] = wrap

                        def chk(M, S, fr, n):
                            if not M.guards:
                                state["checked"] = True
                            return L(None)
                        for tu in P.tus:
                            for d in tu.decls:
                                if d.k == "fn" and d.rtmpl == "queso::Dictionary" and d.n == "CheckRequired":
                                    h[d.q] = chk
                        M = vn.VN(P, hooks=h); S = vn.State()
                        v = M.call(f, [L(M.objref(("obj", ("in", "settings")), f.params[0].t.p))], None, S)
                        R.count("obligations"); R.count("settings cases")
                        got = refused(v)
                        ggq = mn.startswith("ggq")
                        want = L(False)
                        if lowest < 1 or empty is not None:
                            want = L(True)
                        if lowest < 2 and (mn == "gauss_reduced_2" or ggq):
                            want = L(True)
                        if ggq:
                            want = alg.OR(want, alg.gt(L(mx), L(4)))
                            if gn != "b_spline_grid":
                                want = L(True)
                        want = alg.OR(want, alg.gt(L(mx), L(9)))
                        inst = "lowest order %s, axes %s, %s on %s%s" % (lowest if lowest < 2 else ">=2", perm, mn, gn, "" if empty is None else ", axis %d without cells" % empty)
                        d = differ(got, want)
                        if d:
                            path, a, b = d
                            R.violation(f.loc, "settings are refused exactly when invalid", inst, "when %s: %s, expected %s" % (
                                " and ".join("%s%s" % ("" if hh else "not ", c) for c, hh in path)[:200] or "always", "refused" if a else "accepted", "refused" if b else "accepted"))
                        if not state["checked"] or state["early"]:
                            R.violation(state["early"] or f.loc, "required values are checked before any is read", "CheckSettings", "a value is read before the presence check")
    return


def refused(v):
    memo = {}
    def go(x):
        if x.id not in memo:
            memo[x.id] = L(isinstance(x.leaf, Bot)) if x.c is None else alg.ordmk(x.c, go(x.hi), go(x.lo))
        return memo[x.id]
    return go(v)


def base_decl(n):
    """the variable an expression ultimately reads"""
    if n is None:
        return None
    n = n.args[0] if n.is_call() and n.decl is not None and n.decl.n in ("move", "forward") and n.args else n
    if n.is_call() and n.decl is not None and n.decl.q in ("std::move", "std::forward"):
        return base_decl(n.args[0])
    if n.k in ("CXXOperatorCallExpr",) and n.op in ("*", "->", "[]"):
        return base_decl(n.obj if n.obj is not None else n.ch[0])
    if n.k == "UnaryOperator" and n.op in ("*", "&"):
        return base_decl(n.ch[0])
    if n.k == "DeclRefExpr":
        return n.decl
    if n.k == "CXXMemberCallExpr" and n.decl is not None and n.decl.n == "get":
        return base_decl(n.obj)
    if n.k in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups") and len(n.ch) >= 1:
        return base_decl(n.ch[0])
    if n.k == "ImplicitCastExpr" and n.ch:
        return base_decl(n.ch[0])
    return None


def constructions(R, P):
    rec = [r for r in P.records.values() if r.q == "queso::EmbeddedModel"]
    if not rec:
        raise qa.Broken("anchor vanished: EmbeddedModel")
    rec = rec[0]
    found = 0
    for fn in list(P.funcs.values()):
        for n in fn.body.walk() if fn.body is not None else ():
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.decl is not None and n.decl.rec == rec.name and n.decl.raw.get("sp") not in ("copyctor", "movector"):
                found += 1
                R.count("obligations")
                target = base_decl(n.args[0]) if n.args else None
                ok = False
                for c in fn.calls():
                    if c.decl is not None and c.decl.q == CS and c.args and base_decl(c.args[0]) is target and target is not None:
                        if fn.cfg.dominates(c, n):
                            ok = True
                if not ok:
                    R.violation(n.loc, "a model is only constructed from validated settings", fn.q, "construction in %s is not dominated by the validation of the settings it takes" % fn.q)
    R.count("constructions", found)
    R.expect("constructions", 1)
    for fn in P.funcs.values():
        if fn.decl.ctor and fn.decl.rec == rec.name and not fn.decl.raw.get("sp") and fn.decl.raw.get("acc") in ("public", 0, None) and fn.decl.raw.get("acc") is not None:
            R.violation(fn.loc, "the constructor that takes settings is not public", fn.q, "")
    for fd in rec.fields:
        t = fd.t
        if t is not None and t.tmpl == "std::unique_ptr" and fd.n.lower().endswith("settings"):
            R.count("obligations")
            if not t.args[0].const:
                R.violation(rec.loc if hasattr(rec, "loc") else fn.loc, "validated settings cannot be changed afterwards", fd.n, "the model holds mutable settings")


def conditions(R, P):
    f = pick(P, "queso::EmbeddedModel::ComputeCondition", 2)
    par = [p for p in f.params if p.t.base.tmpl == "queso::Dictionary" or "Dictionary" in p.t.s]
    if not par:
        raise qa.Broken("anchor vanished: condition settings parameter")
    checked(R, P, f, par[0], 0, set())


def reads(fn, d):
    return [c for c in fn.calls() if c.decl is not None and c.decl.n in ("GetRequiredValue",) and c.obj is not None and base_decl(c.obj) is d]


def checks(fn, d):
    return [c for c in fn.calls() if c.decl is not None and c.decl.n in ("CheckRequired",) and c.obj is not None and base_decl(c.obj) is d] + \
           [c for c in fn.calls() if c.decl is not None and c.decl.q == CS and c.args and base_decl(c.args[0]) is d]


def checked(R, P, fn, d, depth, seen):
    """every use of d in fn happens after a check, or every caller passes something checked"""
    if (fn.key, d.n) in seen or depth > 4:
        return
    seen.add((fn.key, d.n))
    ch = checks(fn, d)
    uses = [n for n in fn.body.walk() if n.k == "DeclRefExpr" and n.decl is d and not any(n in set(c.walk()) for c in ch)]
    uses = [u for u in uses if not any(fn.cfg.dominates(c, u) for c in ch)]
    R.count("obligations")
    if not uses:
        return
    callers = [(g, c) for g in P.funcs.values() if g.body is not None for c in g.calls() if c.decl is not None and c.decl.key == fn.key]
    if not callers:
        R.violation(uses[0].loc, "condition settings are checked before the first read", fn.q, "'%s' reaches here unchecked" % d.n)
        return
    ix = [i for i, p in enumerate(fn.params) if p is d]
    if not ix:
        R.violation(uses[0].loc, "condition settings are checked before the first read", fn.q, "'%s' is not checked" % d.n)
        return
    for g, c in callers:
        a = base_decl(c.args[ix[0]])
        if a is None:
            R.violation(c.loc, "condition settings are checked before the first read", g.q, "argument of unknown origin"); continue
        if any(fn2 for fn2 in [g] if any(g.cfg.dominates(x, c) for x in checks(g, a))):
            R.count("obligations"); continue
        if from_settings_list(g, a):
            R.count("obligations"); continue
        if a in g.params:
            checked(R, P, g, a, depth + 1, seen)
        else:
            R.violation(c.loc, "condition settings are checked before the first read", g.q, "'%s' is passed on unchecked" % a.n)


def from_settings_list(g, d):
    """loop variable over (or element of) a list of the model's own validated settings"""
    def init_of(x):
        for n in g.body.walk():
            if n.k == "CXXForRangeStmt":
                v = n.var.ch[0] if n.var.k == "DeclStmt" else n.var
                if v.decl is x:
                    rg = n.range.ch[0] if n.range.k == "DeclStmt" else n.range
                    return rg.ch[0]
            if n.k == "VarDecl" and n.decl is x and n.ch:
                return n.ch[0]
        return None
    seen = set(); st = [d]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        e = init_of(x)
        if e is None:
            continue
        for m in e.walk():
            if m.k == "CXXMemberCallExpr" and m.decl is not None and m.decl.n == "GetSettings":
                return True
            if m.k == "MemberExpr" and m.decl is not None and m.decl.n.lower().endswith("settings") and m.decl.k == "field":
                return True
            if m.k == "DeclRefExpr":
                st.append(m.decl)
    return False


def required(R, P):
    # the data set's own check
    f = pick(P, "queso::DataSet::CheckRequired", 0, None) if P.by_q("queso::DataSet::CheckRequired") else None
    fs = [g for g in P.funcs.values() if g.decl.n == "CheckRequired" and (g.decl.rtmpl == "queso::DataSet" or g.q.startswith("queso::DataSet<"))]
    fs = fs or ([f] if f else [])
    ds = [g for g in P.funcs.values() if g.decl.n == "CheckRequired" and (g.decl.rtmpl == "queso::Dictionary" or g.q.startswith("queso::Dictionary<"))]
    if not fs or not ds:
        raise qa.Broken("anchor vanished: CheckRequired")
    g = fs[0]
    alg.reset()
    M = vn.VN(P); S = vn.State()
    root = mem(M, S, "data", M.opaque_of(("in", "data"), None), vn._Ty(s="DataSet", rec=g.decl.rec))
    v = M.call(g, [], root, S)
    R.count("obligations")
    lps = M.loops
    if len(lps) != 1:
        raise qa.Broken("required check of the data set is not one loop over its keys (%d loops)" % len(lps))
    lp = lps[0]
    # refuses in the generic iteration iff required and unset
    j = lp.jump
    ref = refused(j)
    conds = [alg.S.conds[c] for c in alg.conds_of(ref)]
    reqc = [c for c in alg.conds_of(ref) if "IsRequired" in repr(alg.S.conds[c])]
    unset = [c for c in alg.conds_of(ref) if "holds_alternative" in repr(alg.S.conds[c]) or "index" in repr(alg.S.conds[c])]
    good = False
    if len(reqc) == 1 and len(unset) == 1 and len(conds) == 2:
        want = alg.AND(alg.mk(reqc[0], L(True), L(False)), alg.mk(unset[0], L(True), L(False)))
        good = alg.differ(ref, want) is None
    if not good:
        R.violation(g.loc, "the presence check refuses exactly when a required value is missing", g.q, "refuses when %s" % str(ref)[:300])
    if any(x in ("brk", "ret") for x in alg.leaves(M.nobot(j))):
        R.violation(g.loc, "the presence check looks at every key", g.q, "the loop over the keys can stop early")
    R.count("obligations")
    g = ds[0]
    alg.reset()
    calls = []

    def hk(M, S, fr, n):
        calls.append((list(M.guards), list(M.lstack), n, n.decl.rtmpl or n.decl.q, [l.cond for l in M.lstack]))
        return L(None)
    M = vn.VN(P, hooks={x.q: hk for x in fs + ds}); S = vn.State()
    root = mem(M, S, "dict", M.opaque_of(("in", "dict"), None), vn._Ty(s="Dictionary", rec=g.decl.rec))
    M.call(g, [], root, S)
    own = [c for c in calls if "DataSet" in c[3] and not c[1]]
    sub = [c for c in calls if "DataSet" not in c[3] and len(c[1]) == 1]
    lst = [c for c in calls if "DataSet" not in c[3] and len(c[1]) == 2]
    for what, cs in (("the dictionary's own values", own), ("every sub-dictionary", sub), ("every list entry", lst)):
        R.count("obligations")
        if not cs:
            R.violation(g.loc, "the presence check covers the dictionary, its sub-dictionaries and lists", what, "the presence check does not cover %s" % what)
            continue
        for guards, loops, n, _, conds in cs:
            lc = {c.id for c in conds if c is not None}
            for gd in guards:
                if gd.id in lc or gd is L(True):
                    continue
                for c, pos in clauses(gd):
                    k = alg.S.conds[c]
                    if not (pos and repr(k)[:10].lstrip("(").startswith(("'true'", "'nonnull'"))):
                        R.violation(n.loc, "the presence check covers the dictionary, its sub-dictionaries and lists", what, "skipped unless %s%s" % ("" if pos else "not ", alg.cname(c)))
            for l in loops:
                if any(x in ("brk", "ret") for x in alg.leaves(M.nobot(l.jump))):
                    R.violation(n.loc, "the presence check visits every entry", what, "a loop over the entries can stop early")
        counted = [c for c in cs if c[1] and c[1][-1].container is None and c[4][-1] is not None]
        if counted and not any(from_zero(c[4][-1]) for c in counted):
            R.violation(g.loc, "the presence check visits every entry", what, "the counted loop does not start with the first entry")


def clauses(v):
    """(condition, truth) conjuncts of a guard; a guard that is not a conjunction yields its top condition"""
    while v.c is not None:
        if v.hi.c is None and v.hi.leaf is False:
            yield v.c, False; v = v.lo
        elif v.lo.c is None and v.lo.leaf is False:
            yield v.c, True; v = v.hi
        else:
            yield v.c, False
            return


def from_zero(v):
    """the loop condition of a first iteration: 'size > 0'"""
    if v.c is None:
        return False
    i = alg.S.cinfo[v.c]
    if i is None:
        return True  # iterator comparison
    return i[0] == "eq" or (len(i[1].num) == 1 and () not in i[1].num)
