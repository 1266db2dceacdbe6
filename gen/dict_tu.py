"""Writes tu/dict.cpp: one typed access function per published key (rules/keytable.py) and the string access functions."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/rules")
from keytable import KEYS, TYPES, D, O

out = ["// Generated by gen/dict_tu.py from rules/keytable.py: typed and string access to every published key.",
       '#include "queso/includes/dictionary_factory.hpp"', "namespace queso {",
       "template class Dictionary<key::MainValuesTypeTag>;", "template class DictionaryStringAccess<MainDictionaryType>;", "template class DictionaryFactory<key::MainValuesTypeTag>;"]
for t in TYPES + ("int",):
    out.append("template void DictionaryStringAccess<MainDictionaryType>::SetValue<%s>(MainDictionaryType&, const std::string&, const %s&);" % (t, t))
for t in TYPES:
    out.append("template const %s& DictionaryStringAccess<MainDictionaryType>::GetValue<%s>(const MainDictionaryType&, const std::string&);" % (t, t))
out.append("}")
open(V + "/tu/dict.cpp", "w").write("\n".join(out) + "\n")
out = ["// Generated by gen/dict_tu.py from rules/keytable.py: typed access to every published key.", '#include "dict.cpp"']
out += ["namespace queso_typed {", "using namespace queso;", "using Dict = MainDictionaryType;"]
for s, ks in KEYS.items():
    for k, (w, req) in ks.items():
        n = "%s__%s" % (s, k); e = "queso::%s::%s" % (s, k)
        if w == D:
            out.append("const Dict& get_%s(const Dict& d) { return d[%s]; }" % (n, e))
            out.append("Dict& mut_%s(Dict& d) { return d[%s]; }" % (n, e))
        elif w == O:
            out.append("const Dict::ListType& get_%s(const Dict& d) { return d.GetList(%s); }" % (n, e))
            out.append("Dict::ListType& mut_%s(Dict& d) { return d.GetList(%s); }" % (n, e))
        else:
            if req:
                out.append("const %s& get_%s(const Dict& d) { return d.GetRequiredValue<%s>(%s); }" % (w, n, w, e))
            else:
                out.append("std::optional<std::reference_wrapper<const %s>> get_%s(const Dict& d) { return d.TryGetValue<%s>(%s); }" % (w, n, w, e))
            out.append("void set_%s(Dict& d, const %s& v) { d.SetValue(%s, v); }" % (n, w, e))
            out.append("bool isset_%s(const Dict& d) { return d.IsSet(%s); }" % (n, e))
out.append("}")
open(V + "/tu/dict_typed.cpp", "w").write("\n".join(out) + "\n")
