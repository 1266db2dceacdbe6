"""Algebra for value numbering: polynomials and rational functions over named atoms with a sign
domain, and hash-consed decision DAGs (gated values: ite over comparison atoms) with canonical leaves.
Nothing here searches or solves: comparisons fold only when the sign domain decides them."""
import itertools
from fractions import Fraction
import hashlib

P1 = (1 << 61) - 1
P2 = (1 << 89) - 1


class Session:
    pass


S = Session()


def reset():
    S.atoms = []      # key
    S.aix = {}        # key -> id
    S.nn = []         # known >= 0
    S.pos = []        # known > 0
    S.isint = []
    S.fp = []         # fingerprints
    S.sqr = {}        # atom -> RF whose square root it is
    S.ref = []        # python payload
    S.conds = []      # condition atoms: key
    S.cix = {}
    S.cinfo = []
    S.vtab = {}
    S.facts = {}
    S.gconst = {}


def _h(key, salt):
    return int.from_bytes(hashlib.blake2b((salt + repr(key)).encode(), digest_size=16).digest(), "big")


def atom(key, nn=False, pos=False, isint=False, payload=None):
    """atom id for a key"""
    i = S.aix.get(key)
    if i is None:
        i = len(S.atoms); S.aix[key] = i
        S.atoms.append(key); S.nn.append(nn or pos); S.pos.append(pos); S.isint.append(isint); S.ref.append(payload)
        S.fp.append((_h(key, "a") % P1, _h(key, "b") % P2))
    return i


# ------------------------------------------------------------------ polynomials
def pmul_mono(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + c * f
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


class RF:
    """rational function num/den (den a polynomial); canonical identity by fingerprint"""
    __slots__ = ("num", "den", "_fp")

    def __init__(self, num, den=None):
        if den is None:
            den = {(): Fraction(1)}
        self.num = num; self.den = den; self._fp = None
        self._norm()

    def _norm(self):
        if not self.num:
            self.den = {(): Fraction(1)}; return
        d = self.den
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                self.num = {k: v / c for k, v in self.num.items()}
                d = {m: Fraction(1)}
            if m:
                # cancel common monomial
                com = dict(m)
                for k in self.num:
                    kd = dict(k)
                    for a in list(com):
                        com[a] = min(com[a], kd.get(a, 0))
                com = {a: e for a, e in com.items() if e > 0}
                if com:
                    sub = lambda mm: tuple((a, e - com.get(a, 0)) for a, e in mm if e - com.get(a, 0))
                    self.num = {sub(k): v for k, v in self.num.items()}
                    d = {sub(m): Fraction(1)}
            self.den = d
        else:
            lead = d[max(d)]
            if lead != 1:
                self.num = {k: v / lead for k, v in self.num.items()}
                self.den = {k: v / lead for k, v in d.items()}
            q = pdivexact(self.num, self.den)
            if q is not None:
                self.num = q; self.den = {(): Fraction(1)}

    @property
    def poly(self):
        return len(self.den) == 1 and () in self.den

    @property
    def const(self):
        if self.poly and (not self.num or (len(self.num) == 1 and () in self.num)):
            return self.num.get((), Fraction(0))
        return None

    @property
    def fp(self):
        if self._fp is None:
            self._fp = (pev(self.num, 0, P1) * pow(pev(self.den, 0, P1), P1 - 2, P1) % P1,
                        pev(self.num, 1, P2) * pow(pev(self.den, 1, P2), P2 - 2, P2) % P2)
        return self._fp

    def __add__(self, o):
        o = rf(o)
        if self.den == o.den:
            return RF(padd(self.num, o.num), self.den)
        return RF(padd(pmul(self.num, o.den), pmul(o.num, self.den)), pmul(self.den, o.den))

    def __neg__(self): return RF({k: -v for k, v in self.num.items()}, self.den)
    def __sub__(self, o): return self + (-rf(o))

    def __mul__(self, o):
        o = rf(o)
        return sqred(RF(pmul(self.num, o.num), pmul(self.den, o.den)))

    def __truediv__(self, o):
        o = rf(o)
        if not o.num:
            return atomrf(("div0", self.fp))
        # rationalise: 1/sqrt stays as is
        return sqred(RF(pmul(self.num, o.den), pmul(self.den, o.num)))

    __radd__ = __add__
    def __rsub__(self, o): return rf(o) - self
    __rmul__ = __mul__
    def __rtruediv__(self, o): return rf(o) / self

    def __pow__(self, n):
        r = rf(1)
        for _ in range(n):
            r = r * self
        return r

    def atoms(self):
        return {a for p in (self.num, self.den) for m in p for a, _ in m}

    def __repr__(self):
        n = pstr(self.num)
        return n if self.poly else "(%s)/(%s)" % (n, pstr(self.den))

    def isint(self):
        return self.poly and all(v.denominator == 1 for v in self.num.values()) and all(S.isint[a] for a in self.atoms())


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = pmul_mono(m, n)
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def pev(p, i, mod):
    t = 0
    for m, c in p.items():
        x = c.numerator % mod * pow(c.denominator % mod, mod - 2, mod) % mod
        for a, e in m:
            x = x * pow(afp(a, i), e, mod) % mod
        t = (t + x) % mod
    return t


def afp(a, i):
    return S.fp[a][i]


def lex(m):
    return tuple((-a, e) for a, e in m)


def pdivexact(a, b):
    """exact multivariate division a/b or None"""
    if not a:
        return {}
    lm = max(b, key=lex); lc = b[lm]
    q = {}
    r = dict(a); n = 0
    while r:
        n += 1
        if n > 2000:
            return None
        m = max(r, key=lex)
        # m / lm
        d = dict(m)
        for k, e in lm:
            d[k] = d.get(k, 0) - e
            if d[k] < 0:
                return None
        t = tuple(sorted((k, e) for k, e in d.items() if e))
        c = r[m] / lc
        q[t] = q.get(t, 0) + c
        r = padd(r, pmul({t: c}, b), -1)
        if m in r:
            return None
    return q


def pstr(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda x: (len(x[0]), x[0])):
        s = "*".join(aname(a) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%s*%s" % (c, s))
    return " + ".join(out).replace("+ -", "- ")


def kname(k):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == "in":
            return str(k[1])
        if k and k[0] == "f":
            return "%s.%s" % (kname(k[1]), k[2])
        if k and k[0] == "sqrt":
            return "sqrt(%s)" % (k[2] if len(k) > 2 else "..")
        return "%s(%s)" % (k[0], ",".join(kname(x) for x in k[1:4])) if k else "()"
    s = str(k)
    return s if len(s) < 40 else s[:37] + "..."


def aname(a):
    return kname(S.atoms[a])


def rf(x):
    if isinstance(x, RF):
        return x
    return RF({(): Fraction(x)} if x else {})


def atomrf(key, **kw):
    return RF({((atom(key, **kw), 1),): Fraction(1)})


def sqred(r):
    """replace squares of sqrt atoms by their radicand"""
    hit = None
    for p in (r.num, r.den):
        for m in p:
            for a, e in m:
                if e >= 2 and a in S.sqr:
                    hit = a
    if hit is None:
        return r
    return sqred(_subsq(r.num, hit) / _subsq(r.den, hit))


def _subsq(p, a):
    t = rf(0)
    for m, c in p.items():
        e = dict(m).get(a, 0)
        rest = tuple((k, x) for k, x in m if k != a)
        if e % 2:
            rest = tuple(sorted(rest + ((a, 1),)))
        t = t + RF({rest: c}) * (S.sqr[a] ** (e // 2))
    return t


def sqrt(x):
    x = rf(x)
    c = x.const
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return rf(Fraction(n, d))
    # sqrt(m^2)=m for a known non-negative monomial
    if x.poly and len(x.num) == 1:
        (m, c), = x.num.items()
        import math
        if m and c > 0 and all(e % 2 == 0 for _, e in m) and all(S.nn[a] for a, _ in m):
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return RF({tuple((a, e // 2) for a, e in m): Fraction(n, d)})
    # pull out a rational square content
    k = Fraction(1)
    if x.poly and x.num:
        lead = abs(x.num[max(x.num)])
        u, v = lead.numerator, lead.denominator
        for p in (2, 3, 5, 7, 11, 13):
            while u % (p * p) == 0:
                u //= p * p; k *= p
            while v % (p * p) == 0:
                v //= p * p; k /= p
        if k != 1:
            x = x * rf(1 / (k * k))
    key = ("sqrt", x.fp)
    new = key not in S.aix
    a = atom(key, nn=True)
    if new:
        S.sqr[a] = x
        S.atoms[a] = ("sqrt", x.fp, repr(x)[:200])
    return RF({((a, 1),): Fraction(1)}) * k


def subst(r, f):
    """substitute atoms: f(atom id) -> RF or None"""
    def sp(p):
        t = rf(0)
        for m, c in p.items():
            x = rf(c)
            for a, e in m:
                y = f(a)
                x = x * ((y if y is not None else RF({((a, 1),): Fraction(1)})) ** e)
            t = t + x
        return t
    return sp(r.num) / sp(r.den)


def diff(r, a):
    """derivative with respect to atom id a (other atoms constant)"""
    def dp(p):
        o = {}
        for m, c in p.items():
            d = dict(m); e = d.get(a, 0)
            if e:
                d[a] = e - 1
                k = tuple(sorted((x, y) for x, y in d.items() if y))
                o[k] = o.get(k, 0) + c * e
        return o
    n = RF(dp(r.num)); d = RF(dp(r.den)); N = RF(r.num); D = RF(r.den)
    return (n * D - N * d) / (D * D)


# ------------------------------------------------------------------ sign domain
def psign(p):
    """'+' >0, '0+' >=0, '-' <0, '0-' <=0, '0', None unknown"""
    if not p:
        return "0"
    strict = False
    sg = None
    for m, c in p.items():
        mpos = True; mnn = True
        for a, e in m:
            if S.pos[a]:
                continue
            mpos = False
            if S.nn[a] or e % 2 == 0:
                continue
            mnn = False
        if not mnn:
            return None
        s = 1 if c > 0 else -1
        if sg is None:
            sg = s
        elif sg != s:
            return None
        if mpos:
            strict = True
    return ("+" if sg > 0 else "-") if strict else ("0+" if sg > 0 else "0-")


def rsign(r):
    n, d = psign(r.num), psign(r.den)
    if n == "0":
        return "0"
    if n is None or d is None:
        return None
    neg = ("-" in n) != ("-" in d)
    strict = n in "+-"
    return ("-" if strict else "0-") if neg else ("+" if strict else "0+")


# ------------------------------------------------------------------ gated values
class V:
    """decision DAG node: leaf or (cond id, hi, lo)"""
    __slots__ = ("leaf", "c", "hi", "lo", "id")

    def __repr__(self):
        return vstr(self)


class Bot:
    """abnormal end: exception or unreachable"""
    def __init__(self, why): self.why = why
    def __repr__(self): return "BOT(%s)" % self.why


class Opq:
    """opaque object value"""
    __slots__ = ("key", "t")
    def __init__(self, key, t): self.key = key; self.t = t
    def __repr__(self): return "<%s>" % kname(self.key)


class Ref:
    __slots__ = ("root", "path", "t")
    def __init__(self, root, path=(), t=None): self.root = root; self.path = path; self.t = t
    def sub(self, k, t): return Ref(self.root, self.path + (k,), t)
    def __repr__(self): return "&%s%s" % (kname(self.root), "".join("." + str(x) for x in self.path))


class Agg:
    """structured value; missing fields come from base (an Opq) when present"""
    __slots__ = ("f", "base", "t")
    def __init__(self, f, base=None, t=None): self.f = f; self.base = base; self.t = t
    def __repr__(self): return "{%s}" % ", ".join("%s:%r" % kv for kv in self.f.items())


class Itr:
    """position in a sequence: iterator or pointer into an array"""
    __slots__ = ("ref", "i")
    def __init__(self, ref, i): self.ref = ref; self.i = i
    def __repr__(self): return "it(%r+%s)" % (self.ref, self.i)


class Rng:
    """lazy range: an index interval (lo, hi) or a container, seen through adaptors (kind, function value)"""
    __slots__ = ("lo", "hi", "ref", "ad")
    def __init__(self, lo=None, hi=None, ref=None, ad=()): self.lo = lo; self.hi = hi; self.ref = ref; self.ad = ad
    def __repr__(self): return "range(%s%s)" % ("%s..%s" % (self.lo, self.hi) if self.ref is None else repr(self.ref), "".join("|" + k[1] for k, _ in self.ad))


class Fn:
    def __init__(self, funcs, frame, this): self.funcs = funcs; self.frame = frame; self.this = this


class Str:
    def __init__(self, s): self.s = s
    def __repr__(self): return repr(self.s)


def lkey(x):
    if isinstance(x, RF): return ("rf", x.fp)
    if isinstance(x, bool): return ("b", x)
    if x is None: return ("none",)
    if isinstance(x, Bot): return ("bot", x.why)
    if isinstance(x, Opq): return ("o", x.key)
    if isinstance(x, Ref): return ("ref", x.root, x.path)
    if isinstance(x, Rng): return ("rng", None if x.lo is None else x.lo.id, None if x.hi is None else x.hi.id, None if x.ref is None else lkey(x.ref), tuple((k, f.id) for k, f in x.ad))
    if isinstance(x, Itr): return ("it", x.ref.root, x.ref.path, x.i.fp)
    if isinstance(x, Agg): return ("agg", x.base.key if x.base is not None else None, tuple(sorted(((str(k), v.id) for k, v in x.f.items()))))
    if isinstance(x, Fn): return ("fn", tuple(f.key for f in x.funcs), id(x))
    if isinstance(x, Str): return ("s", x.s)
    if isinstance(x, str): return ("str", x)
    return ("py", repr(x))


def L(x):
    """leaf value"""
    if isinstance(x, V):
        return x
    if isinstance(x, int) and not isinstance(x, bool) or isinstance(x, Fraction):
        x = rf(x)
    k = lkey(x)
    v = S.vtab.get(k)
    if v is None:
        v = V(); v.leaf = x; v.c = None; v.hi = v.lo = None; v.id = len(S.vtab); S.vtab[k] = v
    return v


def mk(c, hi, lo):
    if hi is lo:
        return hi
    if c in S.facts:
        return hi if S.facts[c] else lo
    k = ("n", c, hi.id, lo.id)
    v = S.vtab.get(k)
    if v is None:
        v = V(); v.leaf = None; v.c = c; v.hi = hi; v.lo = lo; v.id = len(S.vtab); S.vtab[k] = v
    return v


class TooBig(Exception):
    pass


def apply(f, *vs, memo=None):
    """apply a leaf function to gated values"""
    if memo is None:
        memo = {}
    k = tuple(v.id for v in vs)
    if k in memo:
        return memo[k]
    if len(memo) > 20000:
        raise TooBig("decision DAG too large")
    cs = [v.c for v in vs if v.c is not None]
    if not cs:
        for v in vs:
            if isinstance(v.leaf, Bot):
                memo[k] = v
                return v
        r = f(*[v.leaf for v in vs])
        r = r if isinstance(r, V) else L(r)
    else:
        c = min(cs)
        if c in S.facts:
            b = S.facts[c]
            r = apply(f, *[(v.hi if b else v.lo) if v.c == c else v for v in vs], memo=memo)
        else:
            hi = apply(f, *[v.hi if v.c == c else v for v in vs], memo=memo)
            lo = apply(f, *[v.lo if v.c == c else v for v in vs], memo=memo)
            r = ordmk(c, hi, lo)
    memo[k] = r
    return r


def ordmk(c, hi, lo):
    """node with test c over sub-DAGs that may test smaller conditions"""
    if (hi.c is not None and hi.c <= c) or (lo.c is not None and lo.c <= c):
        return _ite(mk(c, L(True), L(False)), hi, lo, {})
    return mk(c, hi, lo)


def _ite(b, x, y, memo):
    if x is y:
        return x
    if b.c is None:
        if isinstance(b.leaf, Bot):
            return b
        return x if b.leaf else y
    k = (b.id, x.id, y.id)
    if k in memo:
        return memo[k]
    c = min(v.c for v in (b, x, y) if v.c is not None)
    g = lambda v, h: ((v.hi if h else v.lo) if v.c == c else v)
    if c in S.facts:
        h = S.facts[c]
        r = _ite(g(b, h), g(x, h), g(y, h), memo)
    else:
        r = mk(c, _ite(g(b, True), g(x, True), g(y, True), memo), _ite(g(b, False), g(x, False), g(y, False), memo))
    memo[k] = r
    return r


def ite(b, x, y):
    b, x, y = L(b), L(x), L(y)
    if x is y:
        return x
    if b.c is None and not isinstance(b.leaf, Bot):
        return x if b.leaf else y
    if x.c is None and y.c is None and isinstance(x.leaf, Agg) and isinstance(y.leaf, Agg) and b.c is not None:
        a, d = x.leaf, y.leaf
        if set(a.f) == set(d.f) and (a.base.key if a.base else None) == (d.base.key if d.base else None):
            return L(Agg({k: ite(b, a.f[k], d.f[k]) for k in a.f}, a.base, a.t))
    return _ite(b, x, y, {})


def cond(key, info=None):
    i = S.cix.get(key)
    if i is None:
        i = len(S.conds); S.conds.append(key); S.cinfo.append(info); S.cix[key] = i
    return mk(i, L(True), L(False))


def NOT(v): return apply(lambda a: not a, L(v))
def AND(a, b): return ite(a, b, L(False))
def OR(a, b): return ite(a, L(True), b)


def gt0(r):
    """r > 0 as gated boolean"""
    c = r.const
    if c is not None:
        return L(c > 0)
    s = rsign(r)
    if s == "+": return L(True)
    if s in ("-", "0-", "0"): return L(False)
    if r.isint():
        # canonical polarity: leading non-constant coefficient positive;  p>0 == !(1-p>0)
        nz = {m: v for m, v in r.num.items() if m}
        lead = nz[max(nz)]
        if lead < 0:
            q = rf(1) - r
            s2 = rsign(q)
            if s2 == "+": return L(False)
            if s2 in ("-", "0-", "0"): return L(True)
            return NOT(cond(("gt", q.fp), ("gt", q)))
        return cond(("gt", r.fp), ("gt", r))
    # scale out a positive constant
    nz = {m: v for m, v in r.num.items()}
    lead = abs(nz[max(nz)])
    r = r * rf(1 / lead)
    return cond(("gt", r.fp), ("gt", r))


def eq0(r):
    c = r.const
    if c is not None:
        return L(c == 0)
    s = rsign(r)
    if s in ("+", "-"): return L(False)
    lead = r.num[max(r.num)]
    r = RF({m: v / lead for m, v in r.num.items()})
    return cond(("eq", r.fp), ("eq", r))


def lt(a, b): return apply(lambda x, y: gt0(y - x), L(a), L(b))
def le(a, b): return apply(lambda x, y: NOT(gt0(x - y)), L(a), L(b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b): return apply(lambda x, y: eq0(x - y), L(a), L(b))


def leaves(v):
    out = {}; st = [v]; seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.c is None:
            out[x.id] = x.leaf
        else:
            st += [x.hi, x.lo]
    return list(out.values())


def conds_of(v):
    out = set(); st = [v]; seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.c is not None:
            out.add(x.c); st += [x.hi, x.lo]
    return out


def cname(c):
    k = S.conds[c]; i = S.cinfo[c]
    if i is not None and i[0] in ("gt", "eq"):
        return "%r %s 0" % (i[1], ">" if i[0] == "gt" else "==")
    return kname(k)


def vstr(v, d=0):
    if v.c is None:
        return repr(v.leaf)
    if d > 5:
        return "..."
    return "ite(%s, %s, %s)" % (cname(v.c), vstr(v.hi, d + 1), vstr(v.lo, d + 1))


def _ineqs(c, h):
    """inequalities (polynomial, strict) that condition c having truth h states: polynomial > 0 or >= 0"""
    i = S.cinfo[c]
    if i is None:
        return []
    if i[0] == "gt":
        return [(i[1], True)] if h else [(rf(0) - i[1], False)]
    if i[0] == "eq" and h:
        return [(i[1], False), (rf(0) - i[1], False)]
    return []


def implied(c, facts, width=2):
    """truth of condition c entailed by the earlier facts (sums of at most `width` of them, sign domain), or None"""
    i = S.cinfo[c]
    if i is None or i[0] not in ("gt", "eq"):
        return None
    known = [q for c2, h in facts for q in _ineqs(c2, h)]
    if len(known) <= 12:
        width = max(width, 4)

    def contradictory(p, strict):
        for k in range(1, min(width, len(known)) + 1):
            for comb in itertools.combinations(known, k):
                tot = p; st = strict
                for q, s2 in comb:
                    tot = tot + q; st = st or s2
                sg = rsign(tot)
                if sg == "-" or (st and sg in ("0", "0-")):
                    return True
        return False
    for h in (True, False):
        if any(contradictory(p, st) for p, st in _ineqs(c, h)):
            return not h
    return None


def differ(a, b, path=(), facts=(), seen=None):
    """first decision path on which two gated values differ (Bot on the left is ignored), or None"""
    if a is b:
        return None
    if a.c is None and b.c is None:
        x, y = a.leaf, b.leaf
        if isinstance(x, Bot):
            return None
        if isinstance(x, Agg) and isinstance(y, Agg):
            ks = set(x.f) | set(y.f)
            for k in sorted(ks, key=str):
                p, q = agget(x, k), agget(y, k)
                if p is None or q is None:
                    return path, "field %s" % k, "present on one side only"
                d = differ(p, q, path, facts)
                if d:
                    return d[0], "[%s]%s" % (k, "" if not str(d[1]).startswith("[") else d[1]) if str(d[1]).startswith("[") else "[%s] %s" % (k, d[1]), d[2]
            return None
        return path, x, y
    c = min(v.c for v in (a, b) if v.c is not None)
    f = implied(c, facts)
    for h in (True, False):
        if f is not None and h != f:
            continue
        d = differ((a.hi if h else a.lo) if a.c == c else a, (b.hi if h else b.lo) if b.c == c else b, path + ((cname(c), h),), facts + ((c, h),))
        if d:
            return d
    return None


def agget(a, k):
    if k in a.f:
        return a.f[k]
    return None


reset()
