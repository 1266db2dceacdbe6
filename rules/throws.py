"""Exception propagation: which functions may let an exception escape, and why."""
import re
import qa

# standard-library calls that throw on *values* (not on exhaustion of memory)
STD_THROW = {
    ("at", "std::"): "out_of_range", ("value", "std::optional"): "bad_optional_access",
    ("stoi", ""): "invalid_argument", ("stod", ""): "invalid_argument", ("stoul", ""): "invalid_argument", ("stol", ""): "invalid_argument", ("stof", ""): "invalid_argument", ("stoull", ""): "invalid_argument",
    ("any_cast", ""): "bad_any_cast", ("substr", "std::"): "out_of_range", ("rethrow_exception", ""): "rethrown exception",
    ("visit", ""): None,
}


class Throws:
    def __init__(self, P):
        self.P = P; self.memo = {}; self.busy = set()

    def std_throw(self, n):
        d = n.decl
        if d is None or d.k != "fn":
            return None
        q = d.q or ""
        if not q.startswith("std::"):
            return None
        if d.n == "at" and d.rec:
            return "std::out_of_range from at()"
        if d.n == "value" and d.rec and d.rec.startswith("std::optional"):
            return "std::bad_optional_access from value()"
        if d.n == "get" and n.args and n.args[0].type is not None and (n.args[0].type.base.rec or "").startswith("std::variant<"):
            if guarded_get(n):
                return None
            return "std::bad_variant_access from std::get"
        if d.n in ("stoi", "stod", "stof", "stol", "stoul", "stoull", "any_cast", "rethrow_exception"):
            return "std::%s" % d.n
        if q.startswith("std::filesystem::") and not any("error_code" in f for f in [n.fn.tu.types[p].s for p in d.raw.get("pt", [])]) and d.n in (
                "create_directory", "create_directories", "remove", "remove_all", "rename", "copy", "file_size", "copy_file"):
            return "std::filesystem_error from %s" % d.n
        return None

    def handler_stops(self, tr, what):
        """does some handler of try statement tr stop this exception without rethrowing?"""
        for h in [c for c in tr.ch if c.k == "CXXCatchStmt"]:
            ct = h.fn.tu.types[h.raw["ct"]] if "ct" in h.raw else None
            s = ct.base.s.replace("const ", "") if ct is not None else None
            ok = s is None or s == "std::exception" or (s == "queso::Exception" and what.startswith("queso::Exception")) or (s is not None and what.startswith(s))
            if ok:
                return h
        return None

    def escapes(self, n, what, stop=None):
        """does an exception raised at node n leave the function body (or the subtree `stop`)?"""
        u = n
        while u is not None and u is not stop:
            p = u.parent
            if p is not None and p.k == "CXXTryStmt" and u.role == "body":
                if self.handler_stops(p, what) is not None:
                    return False
            u = p
        return True

    def sites(self, fn, subtree=None):
        """(node, what, trace) exceptions raised while executing fn's body (or a subtree), before handlers"""
        it = subtree.walk() if subtree is not None else fn.walk()
        for n in it:
            if n.k == "CXXThrowExpr":
                if not n.ch:
                    yield n, "rethrow", ()
                else:
                    t = n.fn.tu.types[n.raw["tt"]].s if "tt" in n.raw else "?"
                    yield n, t, ()
            elif n.k == "LambdaExpr":
                for f in self.P.lambda_funcs(n):
                    if self.called_here(n):
                        for w, tr in self.of(f).items():
                            yield n, w[0], ((n.loc, f.q),) + tr
            elif n.is_call():
                d = n.decl
                s = self.std_throw(n)
                if s:
                    yield n, s, ()
                if d is None or d.k != "fn":
                    continue
                if d.lambda_fn():
                    o = n.obj
                    if o is not None and o.k == "LambdaExpr":
                        continue
                for f in self.P.targets(n):
                    if f.decl.noexcept and f.key != fn.key:
                        continue  # would terminate there; reported at that function
                    for w, tr in self.of(f).items():
                        yield n, w[0], ((n.loc, f.q),) + tr

    def called_here(self, lam):
        return True

    def of(self, fn):
        """dict (what, origin-loc) -> trace of exceptions escaping fn"""
        if fn.key in self.memo:
            return self.memo[fn.key]
        if fn.key in self.busy:
            return {}
        self.busy.add(fn.key)
        out = {}
        for n, what, tr in self.sites(fn):
            if self.escapes(n, what):
                origin = tr[-1][0] if tr else n.loc
                k = (what, self.origin(n, tr))
                if k not in out:
                    out[k] = tr if tr else ((n.loc, "throw " + what),)
        self.busy.discard(fn.key)
        if not self.busy:
            self.memo[fn.key] = out
        elif len(self.busy) and not self._rec(fn):
            self.memo[fn.key] = out
        return out

    def origin(self, n, tr):
        return tr[-1][0] if tr else n.loc

    def _rec(self, fn):
        return False


def _strip(n):
    while n is not None and n.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ConstantExpr") and n.ch:
        n = n.ch[0]
    return n


def _place(n):
    """identity of a variable or a member of this"""
    n = _strip(n)
    if n is None:
        return None
    if n.k == "UnaryOperator" and n.op == "&":
        return _place(n.ch[0])
    if n.k == "DeclRefExpr" and n.decl is not None:
        return ("var", n.decl.uid, n.decl.l)
    if n.k == "MemberExpr" and n.decl is not None:
        b = _strip(n.ch[0]) if n.ch else None
        if b is None or b.k == "CXXThisExpr":
            return ("this", n.decl.uid)
        q = _place(b)
        return None if q is None else q + (n.decl.uid,)
    return None


def _alt(n):
    """alternative a std::get/get_if/holds_alternative call names: index or type"""
    ta = (n.decl.raw.get("targs") or [None])[0]
    return None if ta is None else n.decl.tu.types[ta].s.replace("const ", "") if isinstance(ta, int) else str(ta)


def _test(n, place, alt, nalt, neg=False, depth=0):
    """edge (True/False) of condition n on which the variant at `place` holds `alt`, or None"""
    n = _strip(n)
    if n is None or depth > 4:
        return None
    if n.k == "UnaryOperator" and n.op == "!":
        e = _test(n.ch[0], place, alt, nalt, neg, depth + 1)
        return None if e is None else not e
    if n.k == "BinaryOperator" and n.op in ("==", "!="):
        for a, b in ((n.ch[0], n.ch[1]), (n.ch[1], n.ch[0])):
            if _strip(b).k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
                e = _test(a, place, alt, nalt, neg, depth + 1)
                return None if e is None else (e if n.op == "!=" else not e)
        return None
    if n.k == "DeclRefExpr" and n.decl is not None:
        for m in n.fn.walk():
            if m.k == "DeclStmt":
                for v in m.ch:
                    if v.decl is n.decl and v.ch:
                        return _test(v.ch[0], place, alt, nalt, neg, depth + 1)
            if m.k == "VarDecl" and m.decl is n.decl and m.ch:
                return _test(m.ch[0], place, alt, nalt, neg, depth + 1)
        return None
    if n.is_call() and n.decl is not None and n.decl.n in ("get_if", "holds_alternative") and (n.decl.q or "").startswith("std::") and n.args:
        if _place(n.args[0]) != place:
            return None
        a = _alt(n)
        if a == alt:
            return True
        return False if nalt == 2 and a is not None else None
    return None


def guarded_get(n):
    """std::get<A>(x) that is only reached where a test of x found alternative A (get_if, holds_alternative; with two
    alternatives also: did not find the other)"""
    try:
        place = _place(n.args[0]); alt = _alt(n)
        if place is None or alt is None:
            return False
        ty = n.args[0].type.base
        nalt = len([t for t in (ty.args or ()) if t is not None])
        cfg = n.fn.cfg
        cut = set()
        for b, x in cfg.blocks.items():
            tc = x.get("tc")
            if tc is None or len(x["s"]) != 2:
                continue
            e = _test(n.fn.nodes[tc], place, alt, nalt)
            if e is not None:
                cut.add((b, x["s"][0 if e else 1]))
        if not cut:
            return False
        pos = cfg.node_pos(n)
        seen = set(); st = [cfg.entry]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st.extend(s for s in cfg.succ.get(b, ()) if (b, s) not in cut)
        return pos is not None and pos[0] not in seen
    except (AttributeError, IndexError, KeyError):
        return False
