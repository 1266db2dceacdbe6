// Generated by gen/dict_tu.py from rules/keytable.py: typed and string access to every published key.
#include "queso/includes/dictionary_factory.hpp"
namespace queso {
template class Dictionary<key::MainValuesTypeTag>;
template class DictionaryStringAccess<MainDictionaryType>;
template class DictionaryFactory<key::MainValuesTypeTag>;
template void DictionaryStringAccess<MainDictionaryType>::SetValue<PointType>(MainDictionaryType&, const std::string&, const PointType&);
template void DictionaryStringAccess<MainDictionaryType>::SetValue<Vector3i>(MainDictionaryType&, const std::string&, const Vector3i&);
template void DictionaryStringAccess<MainDictionaryType>::SetValue<bool>(MainDictionaryType&, const std::string&, const bool&);
template void DictionaryStringAccess<MainDictionaryType>::SetValue<double>(MainDictionaryType&, const std::string&, const double&);
template void DictionaryStringAccess<MainDictionaryType>::SetValue<IndexType>(MainDictionaryType&, const std::string&, const IndexType&);
template void DictionaryStringAccess<MainDictionaryType>::SetValue<std::string>(MainDictionaryType&, const std::string&, const std::string&);
template void DictionaryStringAccess<MainDictionaryType>::SetValue<IntegrationMethodType>(MainDictionaryType&, const std::string&, const IntegrationMethodType&);
template void DictionaryStringAccess<MainDictionaryType>::SetValue<GridTypeType>(MainDictionaryType&, const std::string&, const GridTypeType&);
template void DictionaryStringAccess<MainDictionaryType>::SetValue<int>(MainDictionaryType&, const std::string&, const int&);
template const PointType& DictionaryStringAccess<MainDictionaryType>::GetValue<PointType>(const MainDictionaryType&, const std::string&);
template const Vector3i& DictionaryStringAccess<MainDictionaryType>::GetValue<Vector3i>(const MainDictionaryType&, const std::string&);
template const bool& DictionaryStringAccess<MainDictionaryType>::GetValue<bool>(const MainDictionaryType&, const std::string&);
template const double& DictionaryStringAccess<MainDictionaryType>::GetValue<double>(const MainDictionaryType&, const std::string&);
template const IndexType& DictionaryStringAccess<MainDictionaryType>::GetValue<IndexType>(const MainDictionaryType&, const std::string&);
template const std::string& DictionaryStringAccess<MainDictionaryType>::GetValue<std::string>(const MainDictionaryType&, const std::string&);
template const IntegrationMethodType& DictionaryStringAccess<MainDictionaryType>::GetValue<IntegrationMethodType>(const MainDictionaryType&, const std::string&);
template const GridTypeType& DictionaryStringAccess<MainDictionaryType>::GetValue<GridTypeType>(const MainDictionaryType&, const std::string&);
}
