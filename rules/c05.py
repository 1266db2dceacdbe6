"""C05: new dictionaries hold the documented keys and defaults; the check for required values is complete.
Rule: the creation of each of the four kinds of dictionaries (directly and through the factory, by name) is folded by value
numbering; every key of the published key sets is then looked up through the access functions (also folded) and compared
with the table of defaults. The check for required values is folded on the new dictionary, on the complete one, and on the
complete one with each required value, each nested dictionary or an entry of a list missing, and again after changes."""
from fractions import Fraction as Fr
import qa, alg, vn
from vnlib import *
from dicts import *

DEFAULTS = {
    ("GeneralSettings", "output_directory_name"): vn.Str("queso_output"), ("GeneralSettings", "echo_level"): rf(1), ("GeneralSettings", "write_output_to_file"): True,
    ("TrimmedQuadratureRuleSettings", "moment_fitting_residual"): rf(Fr("1e-10")), ("TrimmedQuadratureRuleSettings", "min_element_volume_ratio"): rf(Fr("1e-3")),
    ("TrimmedQuadratureRuleSettings", "min_num_boundary_triangles"): rf(100), ("TrimmedQuadratureRuleSettings", "neglect_elements_if_stl_is_flawed"): True,
    ("NonTrimmedQuadratureRuleSettings", "integration_method"): "gauss", ("ElapsedTimeInfo", "total"): rf(0),
    ("VolumeTimeInfo", "total"): rf(0), ("VolumeTimeInfo", "classification_of_elements"): rf(0), ("VolumeTimeInfo", "computation_of_intersections"): rf(0),
    ("VolumeTimeInfo", "solution_of_moment_fitting_eqs"): rf(0), ("VolumeTimeInfo", "construction_of_ggq_rules"): rf(0),
    ("ConditionsTimeInfo", "total"): rf(0), ("WriteFilesTimeInfo", "total"): rf(0),
}


def enumval(P, enum, name):
    for e in P.enums.values():
        if e["q"] == enum:
            for c in e["e"]:
                if c["n"] == name: return rf(int(c["v"]))
    raise qa.Broken("anchor vanished: %s::%s" % (enum, name))


def nested(X, S, d, path):
    for k in path:
        d = X.sub(S, d, k)
    return d


def defaults(R, X, S, kind, t, d, how):
    for path, sets, subs in walk(t):
        x = nested(X, S, d, path)
        where = "/".join((kind,) + path)
        if not (x.c is None and isinstance(x.leaf, vn.Ref)):
            R.count("obligations")
            R.violation(X.fn.loc, "new dictionaries", "%s, %s" % (how, where), "the dictionary is missing: %s" % str(x)[:200])
            continue
        for ks in sets:
            for k, (w, req) in KEYS[ks].items():
                inst = "%s, %s: %s" % (how, where, k)
                R.count("obligations")
                if not same(X.has(S, x, k), L(True)):
                    R.violation(X.fn.loc, "new dictionaries", inst, "the key is not known"); continue
                if w == D: continue
                if w == O:
                    r = X.lst(S, x, k); v = X.M.load(S, r) if r.c is None and isinstance(r.leaf, vn.Ref) else r
                    if not (v.c is None and isinstance(v.leaf, vn.Agg) and v.leaf.base is None and not v.leaf.f):
                        R.violation(X.fn.loc, "new dictionaries", inst, "the list is not empty: %s" % str(v)[:200])
                    continue
                df = DEFAULTS.get((ks, k))
                s = X.isset(S, x, k)
                if not same(s, L(df is not None)):
                    R.violation(X.fn.loc, "new dictionaries", inst, "a value is %sset, expected %sset" % ("" if s.c is None and s.leaf is True else "not ", "" if df is not None else "not ")); continue
                if df is not None:
                    v = X.get(S, x, k, w)
                    want = L(enumval(X.P, "queso::IntegrationMethod", df) if isinstance(df, str) else df)
                    if not same(v, want):
                        R.violation(X.fn.loc, "new dictionaries", inst, "default is %s, expected %s" % (str(v)[:200], want))


def complete(X, S, t, d, name=""):
    """set every required value; the keys that were set"""
    out = []
    for path, sets, subs in walk(t):
        x = nested(X, S, d, path)
        for ks in sets:
            for k, (w, req) in KEYS[ks].items():
                if w in (D, O): continue
                if req:
                    X.set(S, x, k, w, X.sample(w, name + k))
                    out.append((path, ks, k))
    return out


def check(X, S, d):
    f = [f for f in X.P.funcs.values() if f.q.split("<")[0] == "queso::Dictionary" and f.decl.n == "CheckRequired" and f.body is not None]
    if not f:
        raise qa.Broken("anchor vanished: Dictionary::CheckRequired")
    return X.M.call(f[0], [], d, S), f[0]


def fill(X, kind, skip=None, optional=False):
    """a complete dictionary of a kind (all required values set but one), as (state, reference)"""
    S = vn.State(); creator, t = KINDS[kind]
    d = X.create(S, creator)
    for path, sets, subs in walk(t):
        x = nested(X, S, d, path)
        for ks in sets:
            for k, (w, req) in KEYS[ks].items():
                if w in (D, O) or (path, k) == skip or (not req and not optional): continue
                if skip is not None and (ks, k) in DEFAULTS: continue
                X.set(S, x, k, w, X.sample(w, k))
    return S, d


def run(R, tier):
    P = qa.load(tus=[TU], release=True); R.count("translation units", 1); R.count("functions in model", len(P.funcs))
    # new dictionaries, from the creators and from the factory
    for kind, (creator, t) in KINDS.items():
        alg.reset(); X = Dicts(P); S = vn.State()
        defaults(R, X, S, kind, t, X.create(S, creator), creator)
        alg.reset(); X = Dicts(P); S = vn.State()
        f = [f for f in P.funcs.values() if f.q.startswith("queso::DictionaryFactory") and f.decl.n == "Create" and f.body is not None]
        if not f:
            raise qa.Broken("anchor vanished: DictionaryFactory::Create")
        d = X.M.call(f[0], [X.s(S, kind)], None, S)
        if not (d.c is None and isinstance(d.leaf, vn.Ref)):
            R.count("obligations"); R.violation(f[0].loc, "factory", kind, "asking the factory for %s yields %s" % (kind, str(d)[:300])); continue
        defaults(R, X, S, kind, t, d, "factory")
    for name in ("", "settings", "Settings ", "Setting", "Condition", "ModelInfos", "Info"):
        alg.reset(); X = Dicts(P); S = vn.State()
        d = X.M.call(f[0], [X.s(S, name)], None, S)
        R.count("obligations")
        if not refused(d):
            R.violation(f[0].loc, "factory", "unknown name '%s'" % name, "no error is raised, the result is %s" % str(d)[:200])
    # required values
    def ob(inst, got, want, f, what):
        R.count("obligations")
        if not (accepted(got) if want else refused(got)):
            R.violation(f.loc, "required values", inst, "the check %s %s (%s)" % ("accepts" if accepted(got) else "refuses" if refused(got) else "sometimes refuses", what, str(got)[:150]))
    for kind, (creator, t) in KINDS.items():
        alg.reset(); X = Dicts(P)
        S, d = fill(X, kind); r, f = check(X, S, d); ob(kind + ", complete", r, True, f, "a complete dictionary")
        S, d = fill(X, kind, optional=True); r, f = check(X, S, d); ob(kind + ", complete with optional values", r, True, f, "a complete dictionary")
        for path, sets, subs in walk(t):
            for ks in sets:
                for k, (w, req) in KEYS[ks].items():
                    where = "%s without %s" % ("/".join((kind,) + path), k)
                    if w in (D,):
                        S, d = fill(X, kind)
                        x = nested(X, S, d, path)
                        X.call(X.access("SetSubDictionary"), [x, X.s(S, k), mem(X.M, S, "nothing", L(vn.Ref(("null",))), None)], S)
                        r, f = check(X, S, d); ob(where, r, False, f, "a dictionary with a missing part")
                    elif w == O:
                        for miss in (None, False) + tuple(q for q in KEYS[ENTRY[k]] if KEYS[ENTRY[k]][q][1]):
                            for pos in (0, 1):
                                if miss is None and pos: continue
                                S, d = fill(X, kind)
                                lst = X.lst(S, nested(X, S, d, path), k)
                                es = []
                                for i in range(2):
                                    e = X.create(S, "Create" + ENTRY[k])
                                    for q, (w2, req2) in KEYS[ENTRY[k]].items():
                                        if req2 and not (i == pos and q == miss):
                                            X.set(S, e, q, w2, X.sample(w2, "e%d%s" % (i, q)))
                                    es.append(L(vn.Ref(("null",))) if miss is False and i == pos else e)
                                v = X.M.load(S, lst)
                                X.M.store(S, lst, L(vn.Agg({i: e for i, e in enumerate(es)}, None, v.leaf.t)))
                                r, f = check(X, S, d)
                                ob("%s, list %s, %s" % (kind, k, "complete entries" if miss is None else "entry %d %s" % (pos, "missing" if miss is False else "without " + miss)), r, miss is None, f, "such a list")
                    elif req and (ks, k) not in DEFAULTS:
                        S, d = fill(X, kind, skip=(path, k)); r, f = check(X, S, d); ob(where, r, False, f, "a dictionary with a missing value")
        # checked again after changes
        alg.reset(); X = Dicts(P)
        S = vn.State(); d = X.create(S, creator)
        missing = any(req and (ks, k) not in DEFAULTS for path, sets, subs in walk(t) for ks in sets for k, (w, req) in KEYS[ks].items() if w not in (D, O))
        r, f = check(X, S, d); ob(kind + ", new", r, not missing, f, "a new dictionary")
        S.jump = L("go"); complete(X, S, t, d)
        r, f = check(X, S, d); ob(kind + ", completed after a check", r, True, f, "a complete dictionary"); S.jump = L("go")
        for path, sets, subs in walk(t):
            for ks in sets:
                for k, (w, req) in KEYS[ks].items():
                    S2 = S.copy(); x = nested(X, S2, d, path)
                    if w == D:
                        S3 = S2; other = X.create(S3, creator); o = nested(X, S3, other, path + (k,))
                        sub = t
                        for q in path + (k,): sub = sub[1][q]
                        lacks = any(rq and (ks2, k2) not in DEFAULTS for p2, sets2, _ in walk(sub) for ks2 in sets2 for k2, (w2, rq) in KEYS[ks2].items() if w2 not in (D, O))
                        if not lacks: continue
                        X.call(X.access("SetSubDictionary"), [x, X.s(S3, k), mem(X.M, S3, "newer", o, None)], S3)
                        r, f = check(X, S3, d); ob("%s, checked, then a new %s" % ("/".join((kind,) + path), k), r, False, f, "a dictionary with an incomplete part")
                    elif w == O:
                        e = X.create(S2, "Create" + ENTRY[k]); lst = X.lst(S2, x, k); v = X.M.load(S2, lst)
                        req = [(q, w2) for q, (w2, rq) in KEYS[ENTRY[k]].items() if rq]
                        if not req: continue
                        X.M.store(S2, lst, L(vn.Agg({0: e}, None, v.leaf.t)))
                        r, f = check(X, S2, d); ob("%s, checked, then a new entry in %s" % (kind, k), r, False, f, "a list with an incomplete entry"); S2.jump = L("go")
                        for q, w2 in req: X.set(S2, e, q, w2, X.sample(w2, "f" + q))
                        r, f = check(X, S2, d); ob("%s, checked, then completed entry in %s" % (kind, k), r, True, f, "a list with complete entries")
    R.expect("obligations", 150)

