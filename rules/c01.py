"""C01: no unsynchronised conflicting access inside any parallel region."""
import qa
from effects import Effects, FnEval, is_ptr_like, FRESH

PAR_LIBS = ("std::thread::thread", "std::jthread::jthread", "std::async")


def var_origin(ev, d):
    o = ev.owner(d)
    return o or ev


def part_of(ev, n, depth=0):
    """does expression n denote a partition box?  returns ('elem', looptoken) for container[loopvar],
    ('parm', i) for a parameter, else None"""
    if n is None or depth > 6:
        return None
    if n.k == "DeclRefExpr":
        d = n.decl
        o = ev.owner(d)
        if o is None:
            return None
        for i, p in enumerate(o.fn.params):
            if p is d:
                return ("parm", i)
        vd = o.vdecl.get(id(d)) if o.defs() is not None else None
        if vd is not None and vd.ch and not o.assigned(d):
            return part_of(o, vd.ch[0], depth + 1)
        return None
    if n.is_call() and n.op == "[]" or n.k == "ArraySubscriptExpr":
        ix = n.ch[1]
        t = ev.token(ix)
        if t != "?" and t[0] == "lin":
            return ("elem", t)
        return None
    if n.k in ("CXXConstructExpr",) and len(n.ch) == 1:
        return part_of(ev, n.ch[0], depth + 1)
    if n.is_call() and n.decl is not None and n.decl.n in ("at",) and n.args:
        t = ev.token(n.args[0])
        return ("elem", t) if t != "?" and t[0] == "lin" else None
    return None


def part_tok(ev, n):
    p = part_of(ev, n)
    if p is None:
        return None
    if p[0] == "elem":
        return ("part", p[1])
    return ("partparm", p[1])


def coord_part(ev, n, depth=0):
    """partition token if n is a loop coordinate running from P.first[..] to P.second[..]"""
    if n is None or depth > 4:
        return None
    if n.k in ("CXXStaticCastExpr", "CXXFunctionalCastExpr"):
        return coord_part(ev, n.ch[0], depth + 1)
    if n.k != "DeclRefExpr":
        return None
    d = n.decl
    o = ev.owner(d)
    if o is None:
        return None

    def box(e, field):
        for m in e.walk():
            if m.k == "MemberExpr" and m.decl.n == field:
                return part_tok(o, m.ch[0])
            if m.is_call() and m.decl is not None and m.decl.n == "get" and m.args:
                t0 = (m.decl.raw.get("targs") or [None])[0]
                if str(t0) == ("0" if field == "first" else "1"):
                    return part_tok(o, m.args[0])
        return None
    lo = None
    for kind, e in o.defs().get(id(d), ()):
        if kind == "init":
            b = box(e, "first")
            if b is None:
                return None
            lo = b if lo in (None, b) else False
    if not lo:
        return None
    for u in n.up():
        c = u.cond if u.k in ("ForStmt", "WhileStmt", "DoStmt") else None
        if c is not None:
            for m in c.walk():
                if m.k == "BinaryOperator" and m.op in ("<=", "<", "!="):
                    if any(x.k == "DeclRefExpr" and x.decl is d for x in m.ch[0].walk()):
                        if box(m.ch[1], "second") == lo:
                            return lo
    return None


def guarded_middle(ev, info_decl, at):
    cfg = ev.fn.cfg
    pos = cfg.node_pos(at)
    if pos is None:
        return False
    for bid, b in cfg.blocks.items():
        tc = b.get("tc")
        if tc is None or len(b["s"]) != 2:
            continue
        c = ev.fn.nodes.get(tc)
        if c is None:
            continue
        neg = False
        while c.k == "UnaryOperator" and c.op == "!":
            c = c.ch[0]; neg = not neg
        if c.k != "BinaryOperator" or c.op not in ("!=", "=="):
            continue
        names = [(x.decl.n, x.decl) for y in c.ch for x in y.walk() if x.k == "DeclRefExpr"]
        if not any(d is info_decl for _, d in names) or not any(nm == "middle" for nm, _ in names):
            continue
        ne = (c.op == "!=") != neg
        bad = b["s"][0] if ne else b["s"][1]
        if bid not in cfg.dominators().get(pos[0], ()):
            continue
        if bad is not None and pos[0] in cfg.reach(bad, skip={bid}):
            continue
        return True
    return False


def index_part(ev, n, depth=0):
    """partition token if the index expression is confined to the iteration's own partition"""
    if n is None or depth > 6:
        return None
    if n.k in ("CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstructExpr") and len(n.ch) == 1:
        return index_part(ev, n.ch[0], depth + 1)
    if n.is_call() and n.decl is not None and n.decl.n.startswith("GetVectorIndexFromMatrixIndices"):
        ps = {coord_part(ev, a) for a in n.args}
        if len(ps) == 1 and None not in ps:
            return ps.pop()
        return None
    if n.k == "DeclRefExpr":
        d = n.decl
        o = ev.owner(d)
        if o is None:
            return None
        if d.k == "binding":
            for kind, vd in o.defs().get(id(d), ()):
                if kind == "bind" and vd.ch and d.raw.get("ix") == 0:
                    c = vd.ch[0]
                    while c.k in ("CXXConstructExpr",) and len(c.ch) == 1:
                        c = c.ch[0]
                    if c.is_call() and c.decl is not None and c.decl.n.startswith("GetNextIndex") and len(c.args) == 3:
                        info = [o.fn.tu.decls[b] for b in vd.raw["binds"] if o.fn.tu.decls[b].raw.get("ix") == 1]
                        if info and guarded_middle(o, info[0], n):
                            return part_tok(o, c.args[2])
            return None
        if o.assigned(d):
            return None
        ds = o.defs().get(id(d), ())
        if len(ds) == 1 and ds[0][0] == "init":
            return index_part(o, ds[0][1], depth + 1)
    if n.k == "MemberExpr" and n.decl.n == "first" and n.ch[0].k == "DeclRefExpr":
        return None
    return None


def hook(ev, n, call, part=False):
    if part:
        return part_tok(ev, n)
    return index_part(ev, n)


def disjoint(p, q, loopvars):
    """two accesses of different iterations cannot touch the same memory"""
    for a, b in zip(p, q):
        if a == "..." or b == "...":
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            x, y = a[1], b[1]
            if x == "?" or y == "?":
                continue
            if x[0] == "c" and y[0] == "c":
                if x[1] != y[1]:
                    return True
                continue
            if x[0] == "lin" and y[0] == "lin" and x[1] == y[1] and x[1] in loopvars and x[2] == y[2]:
                return True
            if x[0] == "part" and y[0] == "part" and x == y and x[1][1] in loopvars:
                return True
            continue
        if a != b:
            if isinstance(a, str) and isinstance(b, str) and "*" not in (a, b):
                return True
            if isinstance(a, str) and isinstance(b, str):
                return True
            return False
    return False


def locstr(l):
    r, p = l
    s = r[0] if len(r) == 1 else "%s %s" % (r[0], r[1])
    for x in p:
        s += "[%s]" % (x[1],) if isinstance(x, tuple) else "." + x if x != "*" else "->"
    return s


def regions(P):
    out = []
    for f in P.funcs.values():
        for n in f.walk():
            if n.dir and "parallel" in n.dir:
                if any(u.dir and "parallel" in u.dir for u in n.up()):
                    continue
                out.append((f, n, "omp " + n.dir))
            if n.is_call() and n.decl is not None:
                q = n.decl.q or ""
                if any(q.startswith(x) for x in ("std::thread::thread", "std::jthread", "std::async")) or any(
                        (a.type is not None and "execution" in a.type.s) for a in n.args):
                    for a in n.args:
                        if a.k == "LambdaExpr":
                            out.append((f, a, q or "parallel algorithm"))
    return out


def outer_eval(E, f):
    P = E.P
    if f.decl.lambda_fn():
        pk = f.key.rsplit("::lambda@", 1)[0]
        if pk in P.funcs:
            return FnEval(E, f, outer=outer_eval(E, P.funcs[pk]))
    return FnEval(E, f)


def analyse_region(E, f, n, R, rule="unsynchronised shared access in a parallel region"):
    ev = outer_eval(E, f)
    inside = set()
    for m in n.walk():
        if m.k == "VarDecl":
            inside.add(ev.vuid(m.decl)[1])
        if m.k == "LambdaExpr":
            for lf in E.P.lambda_funcs(m):
                for mm in lf.walk():
                    if mm.k == "VarDecl":
                        inside.add(ev.vuid(mm.decl)[1])
                for p in lf.params:
                    inside.add(ev.vuid(p)[1])
    loopvars = set()
    private = set(inside)
    if n.dir:
        for d in [m for m in n.walk() if m.dir]:
            for c in d.clauses:
                if c["n"] in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                    for v in c["vars"]:
                        private.add(ev.vuid(f.tu.decls[v])[1])
            if "for" in d.dir.split():
                b = d.body
                while b is not None and b.k not in ("ForStmt", "CXXForRangeStmt"):
                    b = b.ch[0] if b.ch else None
                if b is not None and b.k == "ForStmt" and b.init is not None:
                    for v in b.init.walk():
                        if v.k == "VarDecl":
                            loopvars.add(ev.vuid(v.decl)[1]); private.add(ev.vuid(v.decl)[1])
                        elif v.k == "DeclRefExpr" and v.parent.k == "BinaryOperator" and v.parent.op == "=":
                            loopvars.add(ev.vuid(v.decl)[1]); private.add(ev.vuid(v.decl)[1])
    effs = []
    body = n.body if n.dir else n
    seen = set()
    for e in (ev.effects_of(body) if n.dir else ev.node_eff(n)):
        r, p = e.loc
        if r[0] == "fresh":
            continue
        if r[0] == "var" and r[1] in private:
            continue
        if r[0] == "glob" and r[1] in ("std::cout", "std::cerr", "std::clog"):
            continue
        k = (e.loc, e.w, e.crit, e.node.loc)
        if k in seen:
            continue
        seen.add(k); effs.append(e)
    writes = [e for e in effs if e.w]
    R.count("parallel regions")
    R.count("shared accesses examined", len(effs))
    R.count("shared writes examined", len(writes))
    R.insts.append({"region": n.loc, "in": f.q, "kind": n.dir or "task", "reads": len(effs) - len(writes), "writes": len(writes)})
    nb = 0
    for e in writes:
        # a per-iteration element/partition cannot be written by two iterations
        self_ok = disjoint(e.loc[1], e.loc[1], loopvars) or bool(e.crit)
        if not self_ok:
            nb += 1
            R.violation(e.node.loc, rule, "region %s (%s): write to %s" % (n.loc, f.q, locstr(e.loc)),
                        "%s; not private, not reduced, not in a critical/atomic construct, not indexed by the loop variable; call path %s"
                        % (e.note, " -> ".join("%s %s" % t for t in e.trace) or "direct"))
            continue
        for o in effs:
            if o is e or o.loc[0] != e.loc[0]:
                continue
            if e.crit & o.crit:
                continue
            if disjoint(e.loc[1], o.loc[1], loopvars):
                continue
            # prefix-compatible?
            R.violation(e.node.loc, rule, "region %s (%s): %s of %s at %s conflicts with write to %s" % (
                n.loc, f.q, "write" if o.w else "read", locstr(o.loc), o.node.loc, locstr(e.loc)),
                "%s protected by %s, other access by %s" % (e.note, sorted(e.crit) or "index", sorted(o.crit) or "nothing"))
            break
    return nb


def run(R, tier):
    P = qa.load()
    E = Effects(P); E.part_hook = hook
    rs = regions(P)
    for f, n, kind in rs:
        analyse_region(E, f, n, R)
    R.cov["functions summarised"] = len(E.sum)
    R.cov["functions in program"] = len(P.funcs)
    R.cov["translation units"] = len(P.tu_names)
    R.expect("parallel regions", 3)
    return P


if __name__ == "__main__":
    import sys
    R = qa.Report("C01", "race")
    run(R, "quick")
    print(R.cov)
    for i in R.insts: print(i)
    for v in R.viol:
        print(v["where"], "|", v["instance"], "|", v["detail"][:400])
