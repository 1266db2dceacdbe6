"""C04: settings and results are accessed through typed keys; wrong accesses do not compile.
Rule: one client statement per published key, access function and value type is given to the type checker together with
its positive twin. It must accept an access exactly if the key leads to what is asked for (value of the declared type and
requirement, sub-dictionary, list) and reject every other one, in builds with and without assertions."""
import qa
from keytable import KEYS, TYPES
from witness import Witness, decide

WH = {"Dictionary": "queso/containers/dictionary.hpp", "DataSet": "queso/containers/data_set.hpp"}
PRE = """#include "queso/includes/dictionary_factory.hpp"
using namespace queso;
using DI = MainDictionaryType;
using DS = DI::DataSetType;
"""
VAL = {"PointType": "PointType{}", "Vector3i": "Vector3i{}", "bool": "true", "double": "1.0", "IndexType": "IndexType{1}", "std::string": 'std::string("a")',
       "IntegrationMethodType": "IntegrationMethod::gauss", "GridTypeType": "GridType::b_spline_grid"}
# values of types close to the declared one
NEAR = {"int": "-1", "long": "1l", "char": "'a'", "float": "1.0f", "const char*": '"a"', "array of int": "(std::array<int, 3>{})", "nullptr": "nullptr"}
UNS = {"unsigned": "1u", "unsigned short": "(unsigned short)1", "unsigned long long": "1ull"}


def witnesses(cls, tier):
    """every key in correct use; every kind of misuse once per distinct kind of key and value type"""
    T = "DI" if cls == "Dictionary" else "DS"
    ws = []
    w = lambda code, ok, rule, fn: ws.append(Witness("void @(%s& d, const %s& c) { (void)d; (void)c; %s; }" % (T, T, code), ok, rule, "%s %s::%s" % (WH[cls], cls, fn)))
    seen = set()
    for ks, keys in KEYS.items():
        for k, (what, req) in keys.items():
            key = "%s::%s" % (ks, k)
            new = (ks, what, req) not in seen
            seen.add((ks, what, req))
            if what not in TYPES:
                if cls == "DataSet":
                    for e, fn in (("d.SetValue(%s, 1.0)", "SetValue"), ("c.template GetRequiredValue<double>(%s)", "GetRequiredValue"), ("c.template TryGetValue<double>(%s)", "TryGetValue"), ("c.IsSet(%s)", "IsSet")):
                        if new:
                            w(e % key, False, "a key that leads to no value is rejected as a value key", fn)
                    continue
                sub = what == "dict"
                for e, fn, ok in (("c[%s]", "operator[] const", sub), ("d[%s]", "operator[]", sub), ("d.SetSubDictionary(%s, Unique<DI>{})", "SetSubDictionary", sub),
                                  ("c.GetList(%s)", "GetList const", not sub), ("d.GetList(%s)", "GetList", not sub)):
                    if ok:
                        w("(void)" + e % key, True, "a key gives access to what it leads to", fn)
                    elif new:
                        w("(void)" + e % key, False, "a key to a list is no key to a sub-dictionary and the other way round", fn)
                for e, fn in (("d.SetValue(%s, 1.0)", "SetValue"), ("(void)c.GetRequiredValue<double>(%s)", "GetRequiredValue"), ("(void)c.TryGetValue<double>(%s)", "TryGetValue"), ("(void)c.IsSet(%s)", "IsSet")):
                    if new:
                        w(e % key, False, "a key that leads to no value is rejected as a value key", fn)
                if new and sub:
                    w("c[%s].SetValue(BackgroundGridSettings::grid_type, GridType::b_spline_grid)" % key, False, "a dictionary that is read-only stays read-only through its sub-dictionaries", "operator[] const")
                    w("const_cast<DI&>(c); DI& r = c[%s]; (void)r" % key, False, "a dictionary that is read-only stays read-only through its sub-dictionaries", "operator[] const")
                if new and not sub:
                    w("c.GetList(%s).clear()" % key, False, "a dictionary that is read-only stays read-only through its lists", "GetList const")
                continue
            # value keys
            w("d.SetValue(%s, %s)" % (key, VAL[what]), True, "a value of the declared type can be set", "SetValue")
            g, o = ("GetRequiredValue", "TryGetValue") if req else ("TryGetValue", "GetRequiredValue")
            w("(void)c.template %s<%s>(%s)" % (g, what, key) if cls == "DataSet" else "(void)c.%s<%s>(%s)" % (g, what, key), True, "a value of the declared type can be read", g)
            w("(void)c.IsSet(%s)" % key, True, "a value key can be asked for", "IsSet")
            if not new:
                continue
            w("(void)c.%s<%s>(%s)" % (o, what, key), False, "required values are read as required, optional ones as optional", o)
            w("c.SetValue(%s, %s)" % (key, VAL[what]), False, "values of a read-only dictionary cannot be set", "SetValue")
            for t in TYPES:
                if t != what:
                    w("d.SetValue(%s, %s)" % (key, VAL[t]), False, "a value of another type than the declared one is rejected", "SetValue")
                    w("(void)c.%s<%s>(%s)" % (g, t, key), False, "reading a value as another type than the declared one is rejected", g)
            for t, v in NEAR.items():
                w("d.SetValue(%s, %s)" % (key, v), False, "a value of another type than the declared one is rejected", "SetValue")
            for t in ("int", "float", "const char*", "unsigned int"):
                w("(void)c.%s<%s>(%s)" % (g, t, key), False, "reading a value as another type than the declared one is rejected", g)
            for t, v in UNS.items():
                w("d.SetValue(%s, %s)" % (key, v), what == "IndexType", "unsigned integers are accepted for indices and nothing else", "SetValue")
            if cls == "Dictionary":
                w("(void)d[%s]" % key, False, "a value key leads to no sub-dictionary or list", "operator[]")
                w("(void)d.GetList(%s)" % key, False, "a value key leads to no sub-dictionary or list", "GetList")
                w("d.SetSubDictionary(%s, Unique<DI>{})" % key, False, "a value key leads to no sub-dictionary or list", "SetSubDictionary")
    # things that are no keys
    for bad in ('"echo_level"', 'std::string("echo_level")', "0", "IndexType{2}", "key::detail::GeneralSettingsMainValuesTypeTagKeySetInfo::EnumType::echo_level", "IntegrationMethod::gauss"):
        w("d.SetValue(%s, IndexType{1})" % bad, False, "what is no key is rejected", "SetValue")
        w("(void)c.IsSet(%s)" % bad, False, "what is no key is rejected", "IsSet")
        w("(void)c.GetRequiredValue<IndexType>(%s)" % bad, False, "what is no key is rejected", "GetRequiredValue")
        w("(void)c.TryGetValue<IndexType>(%s)" % bad, False, "what is no key is rejected", "TryGetValue")
        if cls == "Dictionary":
            w("(void)c[%s]" % bad, False, "what is no key is rejected", "operator[] const")
            w("(void)d[%s]" % bad, False, "what is no key is rejected", "operator[]")
            w("(void)d.GetList(%s)" % bad, False, "what is no key is rejected", "GetList")
            w("d.SetSubDictionary(%s, Unique<DI>{})" % bad, False, "what is no key is rejected", "SetSubDictionary")
    w("%s e(d)" % T, False, "dictionaries are not copied", cls); w("d = c", False, "dictionaries are not copied", "operator=")
    w("%s e(std::move(d)); d = std::move(e)" % T, True, "dictionaries can be moved", cls)
    return ws


def run(R, tier):
    jobs = []
    for release in (False, True):
        for cls in ("Dictionary", "DataSet"):
            groups = {}
            for w in witnesses(cls, tier):
                groups.setdefault(w.where, []).append(w)
            jobs += [(PRE, ws, release, "%s, %s" % (g.split()[-1] if g[-5:] != "const" else " ".join(g.split()[-2:]), "release" if release else "debug")) for g, ws in groups.items()]
    decide(R, jobs)
    R.count("translation units", len(jobs))
    R.expect("witnesses to accept", 500); R.expect("witnesses to reject", 1000)
