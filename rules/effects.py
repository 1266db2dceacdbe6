"""Interprocedural side-effect analysis: which abstract locations a function (or an
OpenMP region) reads and writes, under which critical section, through which path.

A location is (root, path).  Roots: ('this',), ('parm',i), ('glob',q), ('var',uid)
(a variable of the function being summarised), ('fresh',).  Path elements are field
names, '*' (pointee) and ('ix',token) for an element of a container, where token is
('lin',uid,c) for "loop variable uid + c", ('parm',i,c) for "i-th parameter + c",
('part',uid) for an index proven to stay in the iteration's own partition, or '?' ."""
import re
import qa

MAXPATH = 7
FRESH = (("fresh",), ())
STREAMS = {"std::cout", "std::cerr", "std::clog"}
# container member functions that only hand out a reference / iterator / size
ACCESS = {"operator[]", "at", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "front", "back", "top", "find",
          "lower_bound", "upper_bound", "equal_range", "get", "operator*", "operator->", "value", "value_or", "size", "empty",
          "capacity", "count", "contains", "has_value", "operator bool", "first", "base", "subspan", "str", "c_str", "good",
          "fail", "eof", "is_open", "operator!", "load", "what", "joinable", "rdbuf", "max_size", "length", "index", "operator()"}
READ_ALGO = {"find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count", "count_if", "accumulate", "reduce", "distance", "next",
             "prev", "min_element", "max_element", "minmax_element", "min", "max", "minmax", "equal", "mismatch", "lower_bound",
             "upper_bound", "binary_search", "is_sorted", "inner_product", "search", "adjacent_find", "includes", "as_const",
             "begin", "end", "cbegin", "cend", "size", "ssize", "empty", "data", "forward", "move", "addressof", "get", "get_if",
             "to_string", "abs", "clamp", "make_pair", "make_tuple", "tie", "forward_as_tuple", "make_unique", "make_shared", "cref", "ref", "rbegin", "rend", "transform_reduce", "lexicographical_compare",
             "holds_alternative", "make_move_iterator", "back_inserter", "inserter", "operator==", "operator!=", "operator<",
             "operator>", "operator<=", "operator>=", "operator<=>", "operator+", "operator-", "operator*", "declval", "__addressof",
             "move_if_noexcept", "static_pointer_cast", "dynamic_pointer_cast", "apply", "invoke", "visit", "for_each", "setprecision", "setw"}
CONTAINER_KEYED = ("std::map", "std::unordered_map")
CARRIER = re.compile(r"(__normal_iterator|_iterator|std::span|unique_ptr|shared_ptr|weak_ptr|reference_wrapper|std::function|string_view|std::ranges|initializer_list)")
UNSAFE_LIBC = {"rand", "srand", "strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale", "setenv", "putenv", "tmpnam"}
ATOMIC = re.compile(r"^std::(atomic|__atomic|mutex|lock_guard|unique_lock|scoped_lock)")


def strip_const(t):
    return t


def is_ptr_like(t):
    """by-value type that refers to other storage"""
    if t is None:
        return False
    if t.ptr:
        return True
    return bool(t.rec and CARRIER.search(t.rec.split("<")[0]))


class Eff:
    __slots__ = ("loc", "w", "crit", "node", "trace", "note")

    def __init__(self, loc, w, crit, node, trace=(), note=""):
        self.loc = loc; self.w = w; self.crit = crit; self.node = node; self.trace = trace; self.note = note

    def key(self):
        return (self.loc, self.w, self.crit)


def trunc(p):
    return p if len(p) <= MAXPATH else p[:MAXPATH - 1] + ("...",)


def ext(locs, el):
    out = set()
    for r, p in locs:
        if r[0] == "fresh":
            out.add((r, p)); continue
        if p and p[-1] == "...":
            out.add((r, p)); continue
        if p and el == "*" and p[-1] == "*":
            out.add((r, p)); continue
        out.add((r, trunc(p + (el,))))
    return out


class Summary:
    def __init__(self):
        self.eff = {}; self.ret = set(); self.done = False

    def add(self, e):
        k = e.key()
        if k not in self.eff:
            self.eff[k] = e
            return True
        return False


class Effects:
    def __init__(self, prog):
        self.P = prog; self.sum = {}; self.stack = []; self.unresolved = {}
        self.ptrfields = {}
        self.part_hook = None

    # ------------------------------------------------------------- summaries
    def summary(self, fn):
        s = self.sum.get(fn.key)
        if s is not None:
            return s
        s = Summary(); self.sum[fn.key] = s
        self.stack.append(fn.key)
        for _ in range(3):
            n0 = (len(s.eff), len(s.ret))
            A = FnEval(self, fn)
            for e in A.effects_of(None):
                s.add(e)
            s.ret |= A.rets()
            if (len(s.eff), len(s.ret)) == n0:
                break
        self.stack.pop()
        s.done = True
        return s


class FnEval:
    """evaluates lvalues/pointees inside one function (lambda bodies are evaluated in
    the environment of the enclosing function)"""

    def __init__(self, E, fn, outer=None, lam_args=None):
        self.E = E; self.fn = fn; self.P = E.P
        self.outer = outer; self.lam_args = lam_args or {}
        self.env = {}   # id(decl) -> locs (reference target or pointee)
        self._busy = set()
        self.assign = None
        self.lamenv = {}

    # -- local variable definitions
    def defs(self):
        if self.assign is None:
            self.assign = {}
            self.vdecl = {}
            for n in self.fn.walk():
                if n.k == "VarDecl":
                    self.vdecl[id(n.decl)] = n
                    if n.ch:
                        self.assign.setdefault(id(n.decl), []).append(("init", n.ch[0]))
                    for b in n.raw.get("binds", ()):
                        self.assign.setdefault(id(n.fn.tu.decls[b]), []).append(("bind", n))
                elif n.k == "CXXForRangeStmt":
                    pass
                elif n.k == "BinaryOperator" and n.op == "=" and n.ch[0].k == "DeclRefExpr":
                    self.assign.setdefault(id(n.ch[0].decl), []).append(("init", n.ch[1]))
                elif n.k == "CXXOperatorCallExpr" and n.op == "=" and n.ch and n.ch[0].k == "DeclRefExpr":
                    self.assign.setdefault(id(n.ch[0].decl), []).append(("init", n.ch[1]))
        return self.assign

    def owner(self, d):
        """the FnEval (self or outer) that declares d"""
        e = self
        while e is not None:
            if any(d is p for p in e.fn.params) or id(d) in (e.defs() and e.vdecl or {}) or id(d) in e.defs():
                return e
            e = e.outer
        return None

    def vuid(self, d):
        return ("var", "%s@%s:%s" % (d.n, qa.rel(d.f), d.l))

    def var_loc(self, d):
        if d.glob:
            return {(("glob", d.q + ("@%s" % d.infn if d.slocal else "")), ())}
        o = self.owner(d)
        ev = o or self
        if id(d) in ev.lam_args:
            return ev.lam_args[id(d)]
        for i, p in enumerate(ev.fn.params):
            if p is d:
                if ev.outer is not None or ev.fn.decl.lambda_fn():
                    return {FRESH} if not (p.t and (p.t.ref)) else {(("lamparm", ev.fn.key, i), ())}
                if p.t is not None and p.t.ref:
                    return {(("parm", i), ())}
                return {(self.vuid(d), ())}
        if d.k == "binding":
            return ev.binding(d)
        if d.t is not None and d.t.ref:
            return ev.ref_target(d)
        return {(self.vuid(d), ())}

    def binding(self, d):
        out = set()
        for kind, n in self.defs().get(id(d), ()):
            if kind == "bind":
                if n.decl.t is not None and n.decl.t.ref:
                    for b in self.lv(n.ch[0]) if n.ch else ():
                        out |= ext({b}, "get%s" % d.raw.get("ix"))
                else:
                    out.add((self.vuid(n.decl), ("get%s" % d.raw.get("ix"),)))
        return out or {FRESH}

    def ref_target(self, d):
        k = ("ref", id(d))
        if k in self.env:
            return self.env[k]
        if k in self._busy:
            return set()
        self._busy.add(k)
        out = set()
        n = self.vdecl.get(id(d)) if self.defs() is not None else None
        if n is not None and n.ch:
            out |= self.lv(n.ch[0])
        elif n is not None:
            out |= {FRESH}
        self._busy.discard(k)
        if not out:
            out = {FRESH}
        self.env[k] = out
        return out

    def var_pts(self, d):
        """what a pointer-like variable may point to"""
        if d.glob:
            return ext(self.var_loc(d), "*")
        o = self.owner(d); ev = o or self
        if id(d) in ev.lam_args:
            return ext(ev.lam_args[id(d)], "*")
        for i, p in enumerate(ev.fn.params):
            if p is d:
                if ev.outer is not None or ev.fn.decl.lambda_fn():
                    return {FRESH}
                return {(("parm", i), ("*",))}
        k = ("pts", id(d))
        if k in ev.env:
            return ev.env[k]
        if k in ev._busy:
            return set()
        ev._busy.add(k)
        out = set()
        if d.t is not None and d.t.ref:
            out |= ext(ev.ref_target(d), "*")
        else:
            for kind, n in ev.defs().get(id(d), ()):
                if kind == "init":
                    out |= ev.pt(n)
                else:
                    out |= ext(ev.binding(d), "*")
        ev._busy.discard(k)
        ev.env[k] = out
        return out

    # -- index tokens
    def token(self, n, depth=0):
        if n is None or depth > 8:
            return "?"
        if n.cv is not None and isinstance(n.cv, int):
            return ("c", n.cv)
        if n.k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and n.ch:
            return self.token(n.ch[0], depth + 1)
        if n.k == "DeclRefExpr":
            d = n.decl
            o = self.owner(d)
            if o is None:
                return "?"
            if id(d) in o.lam_args:
                return "?"
            for i, p in enumerate(o.fn.params):
                if p is d:
                    if o.assigned(d):
                        return "?"
                    return ("parm", i, 0)
            if o.is_loop_var(d):
                return ("lin", self.vuid(d)[1], 0)
            ds = o.defs().get(id(d), ())
            if len(ds) == 1 and ds[0][0] == "init" and not o.assigned(d):
                return o.token(ds[0][1], depth + 1)
            return "?"
        if n.k == "BinaryOperator" and n.op in ("+", "-"):
            a, b = self.token(n.ch[0], depth + 1), self.token(n.ch[1], depth + 1)
            if b != "?" and b[0] == "c" and a != "?" and a[0] in ("lin", "parm"):
                return (a[0], a[1], a[2] + (b[1] if n.op == "+" else -b[1]))
            if n.op == "+" and a != "?" and a[0] == "c" and b != "?" and b[0] in ("lin", "parm"):
                return (b[0], b[1], b[2] + a[1])
        return "?"

    def assigned(self, d):
        if not hasattr(self, "_asg"):
            self._asg = set()
            for n in self.fn.walk():
                if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") and n.ch[0].k == "DeclRefExpr":
                    self._asg.add(id(n.ch[0].decl))
                if n.k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--", "&") and n.ch[0].k == "DeclRefExpr":
                    self._asg.add(id(n.ch[0].decl))
        return id(d) in self._asg

    def is_loop_var(self, d):
        if not hasattr(self, "_lv"):
            self._lv = {}
            for n in self.fn.walk():
                if n.k == "ForStmt" and n.init is not None and n.init.k == "DeclStmt":
                    for v in n.init.ch:
                        if v.k == "VarDecl":
                            self._lv[id(v.decl)] = n
        return id(d) in self._lv

    # -- lvalues
    def lv(self, n):
        k = n.k
        if k == "DeclRefExpr":
            d = n.decl
            if d.k in ("fn", "enumc"):
                return {FRESH}
            return self.var_loc(d)
        if k == "CXXThisExpr":
            return self.this_loc()
        if k == "MemberExpr":
            d = n.decl
            if d.k in ("fn",):
                return self.lv(n.ch[0]) if n.ch else {FRESH}
            if d.k == "var":
                return {(("glob", d.q), ())}
            base = n.ch[0]
            b = self.pt(base) if n.ar and base.k != "CXXThisExpr" else self.lv(base)
            loc = ext(b, d.n)
            if d.t is not None and d.t.ref:
                loc = ext(loc, "*")
            return loc
        if k == "ArraySubscriptExpr":
            a, i = n.ch
            if a.type is not None and not (a.type.ptr or a.type.arr) and i.type is not None and (i.type.ptr or i.type.arr):
                a, i = i, a
            b = self.lv(a) if ("ArrayToPointerDecay" in a.ic or (a.type is not None and a.type.arr)) else self.pt(a)
            return self.ixext(b, i, n)
        if k == "UnaryOperator":
            if n.op == "*":
                return self.pt(n.ch[0])
            if n.op in ("++", "--"):
                return self.lv(n.ch[0])
            return {FRESH}
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op == ",":
                return self.lv(n.ch[1])
            if n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                return self.lv(n.ch[0])
            return {FRESH}
        if k == "ConditionalOperator":
            return self.lv(n.ch[1]) | self.lv(n.ch[2])
        if k in ("CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr", "CXXFunctionalCastExpr"):
            return self.lv(n.ch[0]) if n.ch else {FRESH}
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            # elided copies of prvalues etc.
            return {FRESH}
        if k == "InitListExpr":
            return {FRESH}
        if n.is_call():
            return self.call_lv(n)
        if k == "LambdaExpr":
            return {FRESH}
        return {FRESH}

    def ixext(self, locs, i, n):
        tok = self.token(i)
        if self.E.part_hook is not None and (tok == "?" or tok[0] == "parm"):
            t2 = self.E.part_hook(self, i, n)
            if t2 is not None:
                tok = t2
        return ext(locs, ("ix", tok))

    def this_loc(self):
        o = self
        while o.outer is not None:
            o = o.outer
        if o.fn.decl.lambda_fn():
            return {(("lamthis",), ())}
        return {(("this",), ())}

    def call_lv(self, n):
        d = n.decl
        if d is None:
            # indirect call (member pointer / function pointer)
            out = set()
            for a in n.ch:
                out |= self.lv(a)
            return out
        name = d.n
        tgts = self.P.targets(n)
        if tgts and not d.lambda_fn():
            out = set()
            for f in tgts:
                s = self.E.sum.get(f.key) or self.E.summary(f)
                out |= self.subst_locs(s.ret, n)
            return out or {FRESH}
        if d.lambda_fn():
            return {FRESH} if not (d.t is not None and d.t.ref) else self.lv_union(n)
        # external
        if d.t is not None and d.t.ref or is_ptr_like(d.t):
            pass
        args = n.args
        if n.obj is not None:
            ot = n.obj.type
            rec = (ot.base.rec or "") if ot is not None else ""
            isptr = is_ptr_like(ot.noref if ot is not None else None) or (ot is not None and ot.ptr)
            if name in ("operator[]", "at"):
                b = self.pt(n.obj) if isptr else self.lv(n.obj)
                return self.ixext(b, args[0], n) if args else ext(b, ("ix", "?"))
            if name in ("operator*", "operator->", "get", "value"):
                if rec.startswith("std::optional"):
                    return ext(self.lv(n.obj), "val")
                return self.pt(n.obj)
            if name in ("operator=", "operator+=", "operator++", "operator--", "operator<<", "operator-="):
                return self.lv(n.obj)
            if name in ("front", "back", "top", "emplace_back", "begin", "end", "find", "data"):
                b = self.pt(n.obj) if isptr else self.lv(n.obj)
                return ext(b, ("ix", "?"))
            return ext(self.lv(n.obj), ("ix", "?"))
        if name in ("move", "forward", "as_const", "min", "max", "move_if_noexcept", "operator<<", "operator>>", "addressof", "__addressof"):
            out = set()
            for a in args:
                out |= self.lv(a)
            return out or {FRESH}
        if name == "get" and d.targs:
            t0 = d.raw["targs"][0]
            return ext(self.lv(args[0]), "get%s" % t0)
        out = set()
        if d.t is not None and (d.t.ref or is_ptr_like(d.t)):
            for a in args:
                out |= self.lv(a)
        return out or {FRESH}

    def lv_union(self, n):
        out = set()
        for a in n.args:
            out |= self.lv(a)
        return out or {FRESH}

    # -- pointees
    def pt(self, n):
        k = n.k
        t = n.type
        if k == "UnaryOperator" and n.op == "&":
            return self.lv(n.ch[0])
        if k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--"):
            return self.pt(n.ch[0])
        if k == "CXXThisExpr":
            return self.this_loc()
        if k == "DeclRefExpr":
            if n.decl.k in ("fn", "enumc"):
                return set()
            if t is not None and t.arr:
                return ext(self.lv(n), ("ix", "?"))
            if not is_ptr_like(t):
                return self.lv(n)
            if n.decl.t is not None and n.decl.t.ref:
                return ext(self.lv(n), "*")
            return self.var_pts(n.decl)
        if k in ("BinaryOperator",) and n.op in ("+", "-"):
            out = set()
            for c in n.ch:
                if is_ptr_like(c.type) or (c.type is not None and c.type.arr):
                    out |= self.pt(c)
            return out
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return self.pt(n.ch[0]) if n.op != "," else self.pt(n.ch[1])
        if k == "MemberExpr" or k == "ArraySubscriptExpr":
            if n.type is not None and n.type.arr:
                return ext(self.lv(n), ("ix", "?"))
            return ext(self.lv(n), "*") if is_ptr_like(t) else self.lv(n)
        if k == "ConditionalOperator":
            return self.pt(n.ch[1]) | self.pt(n.ch[2])
        if k in ("CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr", "CXXFunctionalCastExpr"):
            return self.pt(n.ch[0]) if n.ch else set()
        if k == "CXXNewExpr":
            return {FRESH}
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr", "IntegerLiteral", "FloatingLiteral", "StringLiteral"):
            return set()
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXStdInitializerListExpr"):
            out = set()
            for a in n.ch:
                out |= self.pt(a)
            return out
        if k == "LambdaExpr":
            return set()
        if n.is_call():
            return self.call_pt(n)
        return {FRESH}

    def call_pt(self, n):
        d = n.decl
        if d is None:
            out = set()
            for a in n.ch:
                out |= self.pt(a)
            return out
        if d.t is not None and d.t.ref:
            return ext(self.call_lv(n), "*") if is_ptr_like(d.t.p) else self.call_lv(n)
        name = d.n
        tgts = self.P.targets(n)
        if tgts:
            if not is_ptr_like(d.t) and not self.E.has_ptr(d.t):
                return {FRESH}
            out = set()
            for f in tgts:
                s = self.E.sum.get(f.key) or self.E.summary(f)
                out |= self.subst_locs(s.ret, n)
            return out
        if not is_ptr_like(d.t):
            return {FRESH}
        if n.obj is not None:
            isptr = is_ptr_like(n.obj.type.noref) if n.obj.type is not None else False
            if name in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "find", "lower_bound", "upper_bound", "insert", "emplace", "erase"):
                b = self.pt(n.obj) if isptr else self.lv(n.obj)
                return ext(b, ("ix", "?"))
            if name in ("operator+", "operator-") and n.args:
                b = self.pt(n.obj)
                tok = self.token(n.args[0])
                if tok != "?" and name == "operator+":
                    return {(r, p[:-1] + (("ix", tok),)) if p and isinstance(p[-1], tuple) and self.begin_of(n.obj) else (r, p) for r, p in b}
                return b
            if isptr:
                return self.pt(n.obj)
            return ext(self.lv(n.obj), ("ix", "?"))
        out = set()
        for a in n.args:
            out |= self.pt(a)
        if name in ("begin", "end"):
            out = ext(out, ("ix", "?"))
        return out

    def begin_of(self, n):
        return n.is_call() and n.decl is not None and n.decl.n in ("begin", "data")

    # -- substitution of a callee location into this function at call n
    def subst_locs(self, locs, n):
        out = set()
        for l in locs:
            out |= self.subst(l, n)
        return out

    def subst_tok(self, tok, n):
        if isinstance(tok, tuple) and tok[0] == "parm":
            a = n.args
            if tok[1] < len(a):
                t = self.token(a[tok[1]])
                if t != "?" and t[0] in ("lin", "parm"):
                    return (t[0], t[1], t[2] + tok[2])
                if t != "?" and t[0] == "c":
                    return ("c", t[1] + tok[2])
                if self.E.part_hook is not None and tok[2] == 0:
                    t2 = self.E.part_hook(self, a[tok[1]], n)
                    if t2 is not None:
                        return t2
            return "?"
        if isinstance(tok, tuple) and tok[0] == "partparm":
            a = n.args
            if tok[1] < len(a) and self.E.part_hook is not None:
                t2 = self.E.part_hook(self, a[tok[1]], n, part=True)
                if t2 is not None:
                    return t2
            return "?"
        if isinstance(tok, tuple) and tok[0] == "lin":
            return "?"
        return tok

    def subst(self, loc, n):
        (root, path) = loc
        path = tuple(("ix", self.subst_tok(p[1], n)) if isinstance(p, tuple) else p for p in path)
        if root[0] == "this":
            if n.obj is not None:
                arrow = n.raw.get("ar") or (n.obj.type is not None and n.obj.type.ptr)
                b = self.pt(n.obj) if arrow and n.obj.k != "CXXThisExpr" else self.lv(n.obj)
            elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                b = self.ctor_this(n)
            else:
                b = {FRESH}
        elif root[0] == "parm":
            a = n.args
            i = root[1]
            if i >= len(a):
                return {FRESH}
            if path and path[0] == "*" and is_ptr_like(self.ptype(n, i)):
                b = self.pt(a[i]); path = path[1:]
            else:
                b = self.lv(a[i])
        elif root[0] == "glob":
            return {(root, path)}
        else:
            return {FRESH}
        out = set()
        for r, p in b:
            if r[0] == "fresh":
                out.add((r, p)); continue
            if p and p[-1] == "...":
                out.add((r, p)); continue
            q = p
            for el in path:
                if el == "*" and q and q[-1] == "*":
                    continue
                q = q + (el,)
            out.add((r, trunc(q)))
        return out

    def ptype(self, n, i):
        pts = n.decl.raw.get("pt", [])
        if i < len(pts):
            return n.fn.tu.types[pts[i]]
        return None

    def ctor_this(self, n):
        # a constructed variable / temporary: VarDecl parent -> the variable, else fresh
        p = n.parent
        if p is not None and p.k == "VarDecl":
            return self.var_loc(p.decl) if not (p.decl.t is not None and p.decl.t.ref) else {FRESH}
        if p is None and n.role == "ctorinit":
            for d, m, i in n.fn.inits:
                if m is n:
                    if d is not None:
                        return ext(self.this_loc(), d.n)
                    return self.this_loc()
        return {FRESH}

    # -- effects of a subtree
    def effects_of(self, root):
        nodes = root.walk() if root is not None else self.fn.walk()
        for n in nodes:
            yield from self.node_eff(n)
        if root is None:
            for d, m, i in self.fn.inits:
                if d is not None:
                    for l in ext(self.this_loc(), d.n):
                        yield Eff(l, True, frozenset(), m)

    def crit(self, n):
        out = set()
        for u in [n] + list(n.up()):
            if u.dir in ("critical",):
                out.add("critical:" + (u.raw.get("crit") or ""))
            elif u.dir == "atomic":
                out.add("atomic")
            elif u.dir in ("single", "master", "masked"):
                out.add("single")
        out |= self.lock_guards(n)
        return frozenset(out)

    def lock_guards(self, n):
        """RAII locks declared earlier in an enclosing compound statement"""
        out = set()
        cur = n
        for u in n.up():
            if u.k == "CompoundStmt":
                for s in u.ch:
                    if s is cur:
                        break
                    if s.k == "DeclStmt":
                        for v in s.ch:
                            if v.k == "VarDecl" and v.decl.t is not None and re.match(r"^(const )?std::(lock_guard|unique_lock|scoped_lock)", v.decl.t.s):
                                if v.ch:
                                    for a in v.ch[0].walk():
                                        if a.k == "DeclRefExpr" and a.decl.k in ("var", "parm"):
                                            out.add("mutex:" + str(sorted(map(str, self.lv(a)))))
                                        if a.k == "MemberExpr":
                                            out.add("mutex:" + str(sorted(map(str, self.lv(a)))))
            cur = u
        return out

    def mk(self, locs, w, n, note=""):
        c = None
        for l in locs:
            if l[0][0] == "fresh":
                continue
            if c is None:
                c = self.crit(n)
            yield Eff(l, w, c, n, (), note)

    def node_eff(self, n):
        k = n.k
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            yield from self.mk(self.lv(n.ch[0]), True, n, "assignment to " + n.ch[0].src())
            return
        if k == "UnaryOperator" and n.op in ("++", "--", "p++", "p--"):
            yield from self.mk(self.lv(n.ch[0]), True, n, "%s of %s" % (n.op.lstrip("p"), n.ch[0].src()))
            return
        if k == "CXXDeleteExpr":
            yield from self.mk(self.pt(n.ch[0]), True, n, "delete")
            return
        if k == "VarDecl":
            if n.decl.slocal:
                return
            return
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") and "rv" in n.ic:
            yield from self.mk(self.lv(n), False, n, "read of " + n.src())
            return
        if k == "LambdaExpr":
            # effects of the body are charged where the lambda is created (it is called in its scope)
            for f in self.P.lambda_funcs(n):
                sub = FnEval(self.E, f, outer=self, lam_args={})
                sub.lam_args = self.lambda_args(n, f)
                if any(o.fn.key == f.key for o in self.chain()):
                    continue
                for e in sub.effects_of(None):
                    yield e if e.crit else Eff(e.loc, e.w, self.crit(n) | e.crit, e.node, e.trace, e.note)
            return
        if n.is_call():
            yield from self.call_eff(n)

    def chain(self):
        o = self
        while o is not None:
            yield o
            o = o.outer

    def lambda_args(self, n, f):
        """locations the parameters of a lambda body may denote, from the call it is passed to"""
        out = {}
        # init captures behave as locals of the closure; by-reference init captures alias their initialiser
        for i, cp in enumerate(n.raw.get("caps", ())):
            if "init" in cp and cp.get("d") is not None:
                dd = n.fn.tu.decls[cp["d"]]
                init = [c for c in n.ch if c.role == "capinit%d" % i]
                if dd.t is not None and dd.t.ref and init:
                    out[id(dd)] = self.lv(init[0])
                elif init:
                    out[id(dd)] = {FRESH} | (self.pt(init[0]) if is_ptr_like(dd.t) else set())
        par = n.parent
        while par is not None and not par.is_call():
            if par.k in ("VarDecl", "CompoundStmt"):
                break
            par = par.parent
        src = set()
        if par is not None and par.is_call():
            if par.obj is not None and par.obj is not n and not (par.k == "CXXOperatorCallExpr" and par.op == "()"):
                src |= self.lv(par.obj)
                if par.obj.type is not None and (par.obj.type.ptr):
                    src |= self.pt(par.obj)
            if par.k == "CXXOperatorCallExpr" and par.op == "()":
                for i, p in enumerate(f.params):
                    if i < len(par.args):
                        out[id(p)] = self.lv(par.args[i]) | (self.pt(par.args[i]) if is_ptr_like(p.t) else set())
                return out
            for a in par.args:
                if a is not n and not self.P.lambda_funcs(a):
                    src |= self.pt(a) if is_ptr_like(a.type) else self.lv(a)
        elem = ext(src, ("ix", "?")) if src else {FRESH}
        for p in f.params:
            t = p.t
            if t is not None and (t.ref and not t.bconst or is_ptr_like(t)):
                out[id(p)] = elem
            elif t is not None and t.ref:
                out[id(p)] = elem
            else:
                out[id(p)] = {FRESH}
        return out

    def call_eff(self, n):
        d = n.decl
        if d is None:
            # call through pointer: any function whose address is taken with matching use; effects unknown
            for f in self.E.indirect_targets(n):
                yield from self.inline(f, n, indirect=True)
            return
        if d.lambda_fn():
            o = n.obj
            if o is not None and o.k in ("DeclRefExpr", "MemberExpr") and (o.decl.glob or o.decl.k == "field"):
                for f in self.P.targets(n):
                    yield from self.inline(f, n)
            return  # otherwise charged where the lambda is created
        tgts = self.P.targets(n)
        for f in tgts:
            yield from self.inline(f, n)
        if tgts:
            # copies of class objects with implicit ctor bodies are covered by their summaries
            return
        yield from self.external(n, d)

    def inline(self, f, n, indirect=False):
        s = self.E.summary(f)
        c = None
        for e in list(s.eff.values()):
            for l in self.subst(e.loc, n):
                if l[0][0] == "fresh":
                    continue
                if c is None:
                    c = self.crit(n)
                yield Eff(l, e.w, e.crit | c, e.node, ((n.loc, f.q),) + e.trace[:6], e.note)

    def external(self, n, d):
        name = d.n or ""
        q = d.q or ""
        args = n.args
        if name in UNSAFE_LIBC and (q == name or q == "std::" + name):
            yield Eff((("glob", "libc:" + name), ()), True, self.crit(n), n, (), "call of thread-unsafe %s()" % name)
            return
        if n.obj is not None:
            ot = n.obj.type
            rec = (ot.base.rec or "") if ot is not None else ""
            arrow = n.raw.get("ar") or (ot is not None and ot.ptr)
            locs = self.pt(n.obj) if arrow else self.lv(n.obj)
            if ATOMIC.match(rec.replace("const ", "")):
                return
            if d.cm or d.st:
                yield from self.mk(locs, False, n, "const call " + name)
            elif name in ACCESS and not (name == "operator[]" and rec.startswith(CONTAINER_KEYED)):
                pass
            elif any(l[0][0] == "glob" and l[0][1] in STREAMS for l in locs):
                pass
            else:
                yield from self.mk(locs, True, n, "non-const call %s.%s()" % (n.obj.src(), name))
        elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            pass
        # arguments
        fwd = name in READ_ALGO or name.startswith("emplace") or name in ("construct_at", "try_emplace", "make_optional", "operator<<", "setprecision")
        for i, a in enumerate(args):
            pt = self.ptype(n, i)
            if pt is None:
                continue
            if pt.ref == 1 and not pt.bconst:
                if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and CARRIER.search((d.rec or "").split("<")[0]):
                    continue
                if fwd:
                    if name == "operator<<":
                        continue
                    continue
                locs = self.lv(a)
                if any(l[0][0] == "glob" and l[0][1] in STREAMS for l in locs):
                    continue
                yield from self.mk(locs, True, n, "passed by non-const reference to %s" % (q or name))
            elif pt.ref == 2:
                if a.is_call() and a.decl is not None and a.decl.n == "move" and not (name in ("forward", "move")):
                    yield from self.mk(self.lv(a), True, n, "moved into %s" % (q or name))
            elif pt.ref == 1:
                yield from self.mk(self.lv(a), False, n, "read by %s" % name)
            elif is_ptr_like(pt) and not fwd:
                b = pt.p.bconst or pt.p.const if pt.ptr and pt.p is not None else False
                if not b and (d.q or "").startswith("std::") and n.obj is None and not n.k.startswith("CXXConstruct") and "const" not in (pt.raw["s"].split("<")[1][:8] if "<" in pt.s else ""):
                    yield from self.mk(self.pt(a), True, n, "output iterator of %s" % q)

    def rets(self):
        out = set()
        for n in self.fn.walk():
            if n.k == "ReturnStmt" and n.ch:
                t = self.fn.decl.t
                if t is None:
                    continue
                if t.ref:
                    out |= self.lv(n.ch[0])
                elif is_ptr_like(t) or self.E.has_ptr(t):
                    out |= self.pt(n.ch[0])
        return {l for l in out if l[0][0] in ("this", "parm", "glob")}


def has_ptr(self, t):
    """class type by value that (transitively) stores pointers/references to other objects"""
    if t is None or t.rec is None:
        return False
    return CARRIER.search(t.rec.split("<")[0]) is not None or (t.rec.startswith("std::optional<") or t.rec.startswith("std::pair<") or t.rec.startswith("std::tuple<")) and "*" in t.rec
Effects.has_ptr = has_ptr


def indirect_targets(self, n):
    """functions a call through a (member) function pointer may reach: address-taken functions of that type"""
    if not hasattr(self, "_addr"):
        self._addr = {}
        roots = list(self.P.funcs.values())
        nodes = (m for f in roots for m in f.walk())
        def scan(ms):
            for m in ms:
                if m.k == "DeclRefExpr" and m.decl.k == "fn" and m.parent is not None and not (m.parent.is_call() and m.parent.decl is m.decl):
                    self._addr[m.decl.key] = m.decl
        scan(nodes)
        for v in self.P.vars.values():
            if v.init is not None:
                scan(v.init.walk())
    ct = None
    if n.ch:
        c = n.ch[0]
        ts = [c.type.s if c.type is not None else ""] + [x.type.s for x in c.ch if x.type is not None]
        ct = [t for t in ts if "(*)(" in t or "::*)(" in t]
    out = []
    for k, d in self._addr.items():
        f = self.P.funcs.get(k)
        if f is None:
            continue
        ps = ", ".join(f.tu.types[p].s for p in d.raw.get("pt", []))
        if d.rec and not d.st:
            want = "%s (%s::*)(%s)%s" % (d.t.s, d.rec, ps, " const" if d.cm else "")
        else:
            want = "%s (*)(%s)" % (d.t.s, ps)
        nz = lambda x: re.sub(r"\s|^const|noexcept$", "", x.replace("*const)", "*)"))
        if any(nz(want) == nz(t) for t in ct or []):
            out.append(f)
    if not out:
        self.unresolved[n.loc] = n.src()
    return out
Effects.indirect_targets = indirect_targets
