"""C17: assertions only observe.
Rule: (a) no operand of an assertion (condition or message) writes anything that outlives its evaluation, over the
interprocedural effects of every function it calls; (b) every function has the same body in builds with and without
assertions: the two resolved programs are compared statement by statement, what the assertion build has in addition must be
assertions or statements without effects."""
import qa
from effects import Effects, FnEval

ASSERT = "queso::detail::Assert"


def void0(n):
    """what an assertion becomes without assertions"""
    while n.k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr") and len(n.ch) == 1:
        n = n.ch[0]
    return n.k in ("CXXStaticCastExpr", "CStyleCastExpr") and n.type is not None and n.type.s == "void" and len(n.ch) == 1 and n.ch[0].k == "IntegerLiteral"


def is_assert(n):
    m = n
    while m.k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr") and len(m.ch) == 1:
        m = m.ch[0]
    if m.k == "ConditionalOperator" and len(m.ch) == 3:   # assert of the C library
        x = m.ch[2]
        while x.k in ("ParenExpr", "ExprWithCleanups", "CStyleCastExpr", "CXXStaticCastExpr") and len(x.ch) == 1:
            x = x.ch[0]
        return x.is_call() and x.decl is not None and x.decl.n == "__assert_fail"
    return m.is_call() and m.decl is not None and m.decl.q == ASSERT


def operands(n):
    while n.k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr") and len(n.ch) == 1:
        n = n.ch[0]
    return [n.ch[0]] if n.k == "ConditionalOperator" else n.args


class Cmp:
    def __init__(self, R, E, fd, fr):
        self.R = R; self.ev = FnEval(E, fd); self.fd = fd; self.fr = fr
        self.n = 0

    def pure(self, n, own):
        """nothing is written that the code without assertions knows"""
        for e in self.ev.effects_of(n):
            if e.w and not (e.loc[0] in own):
                return e
        for m in n.walk():
            if m.k in ("ReturnStmt", "BreakStmt", "ContinueStmt", "GotoStmt"):
                u = m
                while u is not None and u is not n and u.k not in ("LambdaExpr",) and not (m.k in ("BreakStmt", "ContinueStmt") and u.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt")):
                    u = u.parent
                if u is None or u is n and m.k == "ReturnStmt" or u is n and n.k not in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
                    return m
        return None

    def sig(self, n):
        d = n.decl
        nm = None
        if d is not None:
            nm = d.n if d.k in ("var", "parm", "field") else d.key or d.q or d.n
        v = n.raw.get("v", n.raw.get("val") if not isinstance(n.raw.get("val"), dict) else None)
        cv = n.raw.get("cv")
        return (n.k, n.op, nm, n.type.s if n.type is not None else None, v, cv, n.raw.get("s") if n.k == "StringLiteral" else None)

    def strip(self, n):
        return [c for c in n.ch if not is_assert(c) and not void0(c) and c.k != "NullStmt"]

    def eq(self, a, b):
        """structural equality; reports the first difference"""
        self.n += 1
        if is_assert(a) and void0(b):
            return None
        if a.k != b.k and a.k == "ExprWithCleanups" and len(a.ch) == 1:
            return self.eq(a.ch[0], b)
        sa, sb = self.sig(a), self.sig(b)
        if sa != sb:
            return a, "%s here, %s without assertions" % (a.src()[:80] or a.k, b.src()[:80] or b.k)
        if a.k == "CompoundStmt":
            ca, cb = self.strip(a), self.strip(b)
            i = 0; extra = []
            for s in cb:
                d = None
                while i < len(ca):
                    e = self.eq(ca[i], s)
                    if e is None:
                        break
                    d = d or e
                    extra.append(ca[i]); i += 1
                else:
                    return d or (a, "a statement exists only without assertions: %s" % s.src()[:80])
                i += 1
            extra += ca[i:]
            own = {self.ev.vuid(m.decl) for s in extra for m in s.walk() if m.k == "VarDecl" and m.decl is not None and not m.decl.slocal}
            for s in extra:
                x = self.pure(s, own)
                if x is not None:
                    return s, "exists only with assertions and has an effect: %s" % (x.note if hasattr(x, "note") else x.k)
            return None
        if len(a.ch) != len(b.ch):
            return a, "%s here, %s without assertions" % (a.src()[:80] or a.k, b.src()[:80] or b.k)
        for x, y in zip(a.ch, b.ch):
            d = self.eq(x, y)
            if d is not None:
                return d
        return None


def run(R, tier):
    Pd = qa.load(); Pr = qa.load(release=True)
    R.count("translation units", len(Pd.tu_names))
    E = Effects(Pd)
    R.count("functions with assertions", len(Pd.funcs)); R.count("functions without assertions", len(Pr.funcs))
    seen = set()
    for k, f in sorted(Pd.funcs.items()):
        if f.decl.q == ASSERT or "/queso/" not in f.file and "/external_libraries/" not in f.file or f.body is None:
            continue
        ev = None
        for n in f.walk():
            if is_assert(n) and n.k not in ("ParenExpr", "ExprWithCleanups", "ConstantExpr"):
                if n.loc not in seen:
                    seen.add(n.loc); R.count("assertions")
                ev = ev or FnEval(E, f)
                R.count("obligations")
                for a in operands(n):
                    for e in ev.effects_of(a):
                        if e.w:
                            tr = " via " + " > ".join("%s %s" % (t[0], t[1]) if isinstance(t, tuple) else str(t) for t in e.trace[:4]) if e.trace else ""
                            R.violation(n.loc, "operands of assertions have no effect", "%s: %s" % (f.decl.q, a.src()[:80]), "%s (%s)%s" % (e.note, e.loc, tr))
        g = Pr.funcs.get(k)
        if g is None or g.body is None:
            continue
        R.count("functions compared")
        c = Cmp(R, E, f, g)
        d = c.eq(f.body, g.body)
        R.count("obligations")
        if d is not None:
            R.violation(d[0].loc, "builds with and without assertions do the same", f.decl.q, d[1])
        if len(f.inits) != len(g.inits):
            R.violation(f.loc, "builds with and without assertions do the same", f.decl.q, "initialisers differ")
    # functions that exist in one build only
    for k, f in sorted(Pr.funcs.items()):
        if k not in Pd.funcs and "/queso/" in f.file:
            R.violation(f.loc, "builds with and without assertions do the same", f.decl.q, "exists only without assertions")
    R.expect("assertions", 25); R.expect("functions compared", 1000)
