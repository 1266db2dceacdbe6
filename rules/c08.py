"""C08: access by name and typed access address the same entries; values are converted or refused, never reinterpreted.
Rule: on every kind of dictionary (as created), every key and every type of value that can be passed by name, the access
functions are folded by value numbering on symbolic values. Setting by name must store the value (unchanged, or as the same
number where an integer goes into a real value, an integer vector into a real one, a non-negative signed integer into an
unsigned one) or raise an error and change nothing; reading by name with another type than the key's, reading an unset value
and unknown keys must raise an error. Typed access to the same key must then give the same value, and the other way round;
nested dictionaries and lists must be the same objects by both ways."""
import qa, alg, vn
from vnlib import *
from dicts import *

ALL = TYPES + ("int",)


def expected(typ, src, v):
    """what setting a value of type src under a key of type typ stores; None: refused"""
    if typ == src: return v
    if typ == "double" and src in ("IndexType", "int"): return v
    if typ == "IndexType" and src == "int": return v
    if typ == "PointType" and src == "Vector3i": return v
    return None


def snapshot(X, S, d, keys):
    """what can be read by name: (set, value) per key"""
    out = {}
    for k, w in keys:
        s = X.isset(S, d, k)
        out[k] = (s, X.get(S, d, k, w) if s.c is None and s.leaf is True else None)
    return out


def unequal(a, b):
    for k in a:
        if not same(a[k][0], b[k][0]): return k
        if a[k][1] is not None and b[k][1] is not None and not same(a[k][1], b[k][1]): return k
    return None


def run(R, tier):
    try:
        P = qa.load(tus=[TYPED], release=True)
    except qa.Broken as e:
        qa.load(tus=[TU], release=True)   # broken there too: nothing to say
        R.count("obligations")
        R.violation("queso/includes/register_keys.hpp", "typed keys", "published keys", "typed access to the published keys does not compile: %s" % str(e)[-600:])
        return
    R.count("translation units"); R.count("functions in model", len(P.funcs))

    def bad(where, rule, inst, what):
        R.violation(where, rule, inst, what)
    for kind, (creator, t) in KINDS.items():
        for path, sets, subs in walk(t):
            keys = [(k, w) for ks in sets for k, (w, req) in KEYS[ks].items() if w not in (D, O)]
            objs = [(ks, k, w) for ks in sets for k, (w, req) in KEYS[ks].items() if w in (D, O)]
            alg.reset(); X = Dicts(P); S0 = vn.State(); d = X.create(S0, creator)
            for k in path: d = X.sub(S0, d, k)
            here = "/".join((kind,) + path); at = X.fn.loc
            # nested dictionaries and lists
            for ks, k, w in objs:
                S = S0.copy()
                a = X.sub(S, d, k) if w == D else X.lst(S, d, k)
                f = X.typed["get_%s__%s" % (ks, k)]; g = X.typed["mut_%s__%s" % (ks, k)]
                R.count("obligations", 2)
                for h in (f, g):
                    if not (a.c is None and isinstance(a.leaf, vn.Ref) and same(a, X.call(h, [d], S))):
                        bad(f.loc, "names and typed keys", "%s: %s" % (here, k), "by name: %s, by typed key: %s" % (str(a)[:150], str(X.call(h, [d], S))[:150]))
            for k in [k for k, w in keys] + [o[1] for o in objs]:
                R.count("obligations")
                r = X.has(S0.copy(), d, k)
                if not same(r, L(True)): bad(at, "unknown keys", "%s: has '%s'" % (here, k), str(r)[:200])
            for unknown in ("", "no_such_key", "Total", "echo_level "):
                S = S0.copy()
                R.count("obligations", 5)
                if not same(X.has(S, d, unknown), L(False)): bad(at, "unknown keys", "%s: has '%s'" % (here, unknown), str(X.has(S, d, unknown))[:200])
                for nm, r in (("is set", X.isset(S, d, unknown)), ("get", X.get(S, d, unknown, "double")), ("set", X.set(S, d, unknown, "double", X.sample("double", "v"))), ("sub-dictionary", X.sub(S, d, unknown)), ("list", X.lst(S, d, unknown))):
                    if not refused(r): bad(at, "unknown keys", "%s: %s '%s'" % (here, nm, unknown), "no error is raised: %s" % str(r)[:200])
            # wrong groups: a value key asked for as dictionary or list and the other way round
            for k, w in keys[:2]:
                S = S0.copy(); R.count("obligations", 2)
                if not refused(X.sub(S, d, k)): bad(at, "unknown keys", "%s: sub-dictionary '%s'" % (here, k), "no error is raised")
                if not refused(X.lst(S, d, k)): bad(at, "unknown keys", "%s: list '%s'" % (here, k), "no error is raised")
            for ks, k, w in objs:
                S = S0.copy(); R.count("obligations", 2)
                if not refused(X.isset(S, d, k)): bad(at, "unknown keys", "%s: is set '%s'" % (here, k), "no error is raised")
                r = X.lst(S, d, k) if w == D else X.sub(S, d, k)
                if not refused(r): bad(at, "unknown keys", "%s: '%s' as %s" % (here, k, "list" if w == D else "sub-dictionary"), "no error is raised")
            for ks in sets:
                for k, (w, req) in KEYS[ks].items():
                    if w in (D, O): continue
                    base = snapshot(X, S0, d, keys)
                    for src in ALL:
                        for variant in (("neg", "neg1", "zero", "pos", "any") if src == "int" else ("any",)):
                            S = S0.copy()
                            v = X.sample(src, "v") if variant == "any" else L(rf({"neg": -3, "neg1": -1, "zero": 0, "pos": 7}[variant]))
                            if src == "int" and variant == "any": v = L(atomrf(("in", "n"), isint=True, nn=True))
                            want = None if variant.startswith("neg") and w == "IndexType" else expected(w, src, v)
                            inst = "%s: %s set by name from %s%s" % (here, k, src, "" if variant == "any" else " (%s)" % variant)
                            r = X.set(S, d, k, src, v)
                            R.count("obligations", 2)
                            now = snapshot(X, S, d, keys)
                            if want is None:
                                if not refused(r): bad(at, "conversions", inst, "no error is raised"); continue
                                x = unequal(base, now)
                                if x: bad(at, "conversions", inst, "an error is raised but the value of %s has changed" % x)
                                continue
                            if not accepted(r): bad(at, "conversions", inst, "refused: %s" % str(r)[:200]); continue
                            if not (now[k][1] is not None and same(now[k][1], want)): bad(at, "conversions", inst, "stores %s, expected %s" % (str(now[k][1])[:200], str(want)[:200])); continue
                            rest = dict(base); rest.pop(k); now.pop(k)
                            x = unequal(rest, now)
                            if x: bad(at, "conversions", inst, "the value of %s has changed" % x); continue
                            got = X.tget(S, d, ks, k)
                            if not req:
                                got = optional(X, S, got)
                            R.count("obligations")
                            if got is None or not same(got, want): bad(at, "names and typed keys", inst, "reading with the typed key gives %s, expected %s" % (str(got)[:200], str(want)[:200]))
                            elif not same(X.tisset(S, d, ks, k), L(True)): bad(at, "names and typed keys", inst, "the typed key says the value is not set")
                    # typed set, read by name; reading with the wrong type
                    S = S0.copy(); v = X.sample(w, "v"); r = X.tset(S, d, ks, k, v)
                    inst = "%s: %s set by typed key" % (here, k)
                    now = snapshot(X, S, d, keys)
                    R.count("obligations", 2)
                    if not accepted(r) or now[k][1] is None or not same(now[k][1], v):
                        bad(at, "names and typed keys", inst, "reading by name gives %s, expected %s" % (str(now[k][1])[:200], str(v)[:200]))
                    rest = dict(base); rest.pop(k); now.pop(k)
                    x = unequal(rest, now)
                    if x: bad(at, "names and typed keys", inst, "the value of %s has changed" % x)
                    for src in TYPES:
                        if src != w:
                            R.count("obligations")
                            r = X.get(S.copy(), d, k, src)
                            if not refused(r): bad(at, "conversions", "%s: %s read by name as %s" % (here, k, src), "no error is raised: %s" % str(r)[:200])
                    if base[k][1] is None:
                        R.count("obligations", 2)
                        r = X.get(S0.copy(), d, k, w)
                        if not refused(r): bad(at, "unset values", "%s: %s" % (here, k), "reading an unset value by name raises no error: %s" % str(r)[:200])
                        if not same(X.tisset(S0.copy(), d, ks, k), L(False)): bad(at, "unset values", "%s: %s" % (here, k), "the typed key says the value is set")
                        if not req:
                            g = X.tget(S0.copy(), d, ks, k)
                            if optional(X, S0, g) is not None: bad(at, "unset values", "%s: %s" % (here, k), "the typed key yields a value: %s" % str(g)[:200])
    R.expect("obligations", 2000)


def optional(X, S, v):
    """value of an optional reference, None when empty"""
    if v.c is None and isinstance(v.leaf, vn.Agg) and "has" in v.leaf.f:
        h = v.leaf.f["has"]
        if h.c is None and h.leaf is True:
            x = v.leaf.f[0]
            return X.M.load(S, x) if x.c is None and isinstance(x.leaf, vn.Ref) else x
        if h.c is None and h.leaf is False:
            return None
    return v
