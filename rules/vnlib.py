"""Shared set-up for the value-numbering rules."""
import qa, alg, vn
from alg import RF, rf, atomrf, L, Agg, Opq, Ref, Bot, ite, differ

INST = qa.VERIF + "/tu/inst.cpp"


def load(R, extra=(), release=True, tables=False):
    tus = [INST] + [e if e.startswith("/") else qa.REPO + "/" + e for e in extra]
    P = qa.load(tus=tus, release=release, tables=tables)
    R.count("translation units", len(tus)); R.count("functions in model", len(P.funcs))
    return P


def key_of(n):
    """name of a settings key expression"""
    for m in n.walk():
        if m.k == "DeclRefExpr" and m.decl.k == "var":
            return m.decl.n
    return None


def settings_hooks(values):
    """reads of the settings dictionary yield the named inputs"""
    def get(M, S, fr, n):
        k = key_of(n.args[0]) if n.args else None
        if k is None:
            return None
        t = n.type
        root = ("obj", ("setting", k))
        M.rtype.setdefault(root, t)
        if root not in S.st:
            v = values(k, t) if values else None
            S.st[root] = v if v is not None else M.opaque_of(("setting", k), t)
        return L(Ref(root, (), t))

    def sub(M, S, fr, n):
        return L(M.objref(("obj", ("in", "settings")), None))
    h = {}
    for q in ("queso::Dictionary", "queso::Dictionary<queso::key::MainValuesTypeTag>"):
        h[q + "::GetRequiredValue"] = get
        h[q + "::operator[]"] = sub
    return h


def hook_names(P, h):
    """Dictionary methods carry their template arguments in the qualified name"""
    out = dict(h)
    for tu in P.tus:
        for d in tu.decls:
            if d.k == "fn" and d.rtmpl == "queso::Dictionary":
                if d.n == "GetRequiredValue":
                    out[d.q] = h["queso::Dictionary::GetRequiredValue"]
                elif d.n == "operator[]":
                    out[d.q] = h["queso::Dictionary::operator[]"]
    return out


def vec(name, n=3, **kw):
    return [atomrf(("in", "%s%d" % (name, i)), **kw) for i in range(n)]


def arr(rfs, t=None):
    return L(Agg({i: L(x) for i, x in enumerate(rfs)}, None, t))


def mem(M, S, name, value, t=None):
    """place a value in named memory, return a reference to it"""
    root = ("loc", "in", name)
    M.rtype[root] = t
    S.st[root] = value
    return L(Ref(root, (), t))


def pick(P, q, nparams=None, pred=None, ptypes=None):
    c = [f for f in P.by_q(q) if (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
    if ptypes is not None:
        c = [f for f in c if all(x in p.t.s for x, p in zip(ptypes, f.params))]
    if not c:
        raise qa.Broken("anchor vanished: %s/%s" % (q, nparams))
    return c[0]


def compare(R, fn, rule, inst, got, want):
    """one obligation: normal form of the code equals the specification"""
    R.count("obligations")
    d = differ(got, want)
    if d is None:
        bots = [x for x in alg.leaves(got) if isinstance(x, Bot)]
        if len(bots) == len(alg.leaves(got)) and bots:
            R.violation(fn.loc, rule, inst, "%s never returns normally here (%s)" % (fn.q, bots[0]))
            return False
        return True
    path, a, b = d
    cond = " and ".join("%s%s" % ("" if h else "not ", c) for c, h in path) or "always"
    R.violation(fn.loc, rule, inst, "in %s, when %s: computed %s, expected %s" % (fn.q, cond[:300], str(a)[:300], str(b)[:300]))
    return False


def const_of(P, name):
    """value of a namespace-scope constant"""
    for v in P.vars.values():
        if v.decl.n == name:
            x = vn.VN(P).globinit(v.decl)
            if x is not None and x.c is None and isinstance(x.leaf, RF):
                return x.leaf
    raise qa.Broken("anchor vanished: constant " + name)
