"""Folding of dictionaries: creation, access by name and by typed key (tu/dict.cpp), for C05 and C08."""
import qa, alg, vn
from vnlib import *
from keytable import KEYS, TYPES, D, O

TU = qa.VERIF + "/tu/dict.cpp"; TYPED = qa.VERIF + "/tu/dict_typed.cpp"
# what each registered dictionary is made of: key set(s) of the dictionary itself, key -> nested description
def tree(sets, **subs): return (tuple(sets.split()), subs)

KINDS = {
    "Settings": ("CreateSettings", tree("MainSettings", general_settings=tree("GeneralSettings"), background_grid_settings=tree("BackgroundGridSettings"),
                 trimmed_quadrature_rule_settings=tree("TrimmedQuadratureRuleSettings"), non_trimmed_quadrature_rule_settings=tree("NonTrimmedQuadratureRuleSettings"))),
    "ConditionSettings": ("CreateConditionSettings", tree("ConditionSettings")),
    "ModelInfo": ("CreateModelInfo", tree("MainInfo", embedded_geometry_info=tree("EmbeddedGeometryInfo"), quadrature_info=tree("QuadratureInfo"), background_grid_info=tree("BackgroundGridInfo"),
                  elapsed_time_info=tree("ElapsedTimeInfo", volume_time_info=tree("VolumeTimeInfo"), conditions_time_info=tree("ConditionsTimeInfo"), write_files_time_info=tree("WriteFilesTimeInfo")))),
    "ConditionInfo": ("CreateConditionInfo", tree("ConditionInfo")),
}
ENTRY = {"conditions_settings_list": "ConditionSettings", "conditions_infos_list": "ConditionInfo"}
CPP = {"PointType": "std::array<double, 3>", "Vector3i": "std::array<unsigned long, 3>", "bool": "bool", "double": "double", "IndexType": "unsigned long",
       "std::string": "std::basic_string", "IntegrationMethodType": "IntegrationMethod", "GridTypeType": "GridType", "int": "int"}


class Dicts:
    def __init__(self, P):
        self.P = P; self.M = vn.VN(P); self.n = 0
        self.acc = {}
        for f in P.funcs.values():
            if "DictionaryStringAccess" in f.q and f.body is not None:
                self.acc.setdefault(f.decl.n, []).append(f)
        self.typed = {f.decl.n: f for f in P.funcs.values() if f.q.startswith("queso_typed::")}
        for w in ("SetValue", "GetValue", "IsSet", "Has", "GetSubDictionary", "GetList", "SetSubDictionary"):
            if w not in self.acc:
                raise qa.Broken("anchor vanished: DictionaryStringAccess::" + w)
        self.fn = self.acc["SetValue"][0]

    def access(self, name, typ=None):
        for f in self.acc[name]:
            if typ is None: return f
            t = (f.params[2].t.noref if name == "SetValue" else f.decl.t.noref).s.replace("const ", "")
            w = CPP[typ]
            if (t.startswith(w) if w.startswith("std::") else t == w or t.endswith("::" + w)):
                return f
        raise qa.Broken("anchor vanished: DictionaryStringAccess::%s<%s>" % (name, typ))

    def create(self, S, creator):
        """a new dictionary, as a reference"""
        r = self.M.call(pick(self.P, "queso::factories::" + creator), [], None, S)
        return r

    def s(self, S, text):
        self.n += 1
        return mem(self.M, S, "text%d" % self.n, L(vn.Str(text)), self.acc["IsSet"][0].params[1].t.noref)

    def call(self, f, args, S):
        r = self.M.call(f, args, None, S)
        return r

    def isset(self, S, d, k): return self.call(self.access("IsSet"), [d, self.s(S, k)], S)
    def has(self, S, d, k): return self.call(self.access("Has"), [d, self.s(S, k)], S)
    def sub(self, S, d, k): return self.call(self.access("GetSubDictionary"), [d, self.s(S, k)], S)
    def lst(self, S, d, k): return self.call(self.access("GetList"), [d, self.s(S, k)], S)

    def get(self, S, d, k, typ):
        f = self.access("GetValue", typ)
        return self.read(S, self.call(f, [d, self.s(S, k)], S), f.decl.t.noref)

    def read(self, S, r, t):
        if r.c is None and isinstance(r.leaf, vn.Bot): return r
        return self.M.load(S, r, t) if any(isinstance(x, vn.Ref) for x in alg.leaves(r)) else r

    def set(self, S, d, k, typ, v):
        f = self.access("SetValue", typ)
        self.n += 1
        return self.call(f, [d, self.s(S, k), mem(self.M, S, "value%d" % self.n, v, f.params[2].t.noref)], S)

    # typed access
    def tget(self, S, d, ks, k):
        f = self.typed["get_%s__%s" % (ks, k)]
        return self.read(S, self.call(f, [d], S), f.decl.t.noref)

    def tref(self, S, d, ks, k): return self.call(self.typed["get_%s__%s" % (ks, k)], [d], S)
    def tisset(self, S, d, ks, k): return self.call(self.typed["isset_%s__%s" % (ks, k)], [d], S)

    def tset(self, S, d, ks, k, v):
        f = self.typed["set_%s__%s" % (ks, k)]
        self.n += 1
        return self.call(f, [d, mem(self.M, S, "value%d" % self.n, v, f.params[1].t.noref)], S)

    def sample(self, typ, name):
        """a symbolic value of a type (strings: a constant)"""
        if typ == "PointType": return arr(vec(name + "_"))
        if typ == "Vector3i": return arr(vec(name + "_", isint=True, nn=True))
        if typ == "std::string": return L(vn.Str("text " + name))
        if typ == "bool": return L(alg.cond(("in", name)))
        return L(atomrf(("in", name), isint=typ != "double", nn=typ in ("IndexType", "IntegrationMethodType", "GridTypeType")))


def walk(t, path=()):
    """dictionaries of a kind: (path of keys, its key sets, nested keys)"""
    yield path, t[0], t[1]
    for k, s in t[1].items():
        for x in walk(s, path + (k,)):
            yield x


def bots(v):
    return [isinstance(x, vn.Bot) for x in alg.leaves(v)]


def refused(v): return all(bots(v))
def accepted(v): return not any(bots(v))


def same(a, b):
    return alg.differ(a, b) is None
