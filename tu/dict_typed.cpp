// Generated by gen/dict_tu.py from rules/keytable.py: typed access to every published key.
#include "dict.cpp"
namespace queso_typed {
using namespace queso;
using Dict = MainDictionaryType;
const Dict& get_MainSettings__general_settings(const Dict& d) { return d[queso::MainSettings::general_settings]; }
Dict& mut_MainSettings__general_settings(Dict& d) { return d[queso::MainSettings::general_settings]; }
const Dict& get_MainSettings__background_grid_settings(const Dict& d) { return d[queso::MainSettings::background_grid_settings]; }
Dict& mut_MainSettings__background_grid_settings(Dict& d) { return d[queso::MainSettings::background_grid_settings]; }
const Dict& get_MainSettings__trimmed_quadrature_rule_settings(const Dict& d) { return d[queso::MainSettings::trimmed_quadrature_rule_settings]; }
Dict& mut_MainSettings__trimmed_quadrature_rule_settings(Dict& d) { return d[queso::MainSettings::trimmed_quadrature_rule_settings]; }
const Dict& get_MainSettings__non_trimmed_quadrature_rule_settings(const Dict& d) { return d[queso::MainSettings::non_trimmed_quadrature_rule_settings]; }
Dict& mut_MainSettings__non_trimmed_quadrature_rule_settings(Dict& d) { return d[queso::MainSettings::non_trimmed_quadrature_rule_settings]; }
const Dict::ListType& get_MainSettings__conditions_settings_list(const Dict& d) { return d.GetList(queso::MainSettings::conditions_settings_list); }
Dict::ListType& mut_MainSettings__conditions_settings_list(Dict& d) { return d.GetList(queso::MainSettings::conditions_settings_list); }
const std::string& get_GeneralSettings__input_filename(const Dict& d) { return d.GetRequiredValue<std::string>(queso::GeneralSettings::input_filename); }
void set_GeneralSettings__input_filename(Dict& d, const std::string& v) { d.SetValue(queso::GeneralSettings::input_filename, v); }
bool isset_GeneralSettings__input_filename(const Dict& d) { return d.IsSet(queso::GeneralSettings::input_filename); }
const std::string& get_GeneralSettings__output_directory_name(const Dict& d) { return d.GetRequiredValue<std::string>(queso::GeneralSettings::output_directory_name); }
void set_GeneralSettings__output_directory_name(Dict& d, const std::string& v) { d.SetValue(queso::GeneralSettings::output_directory_name, v); }
bool isset_GeneralSettings__output_directory_name(const Dict& d) { return d.IsSet(queso::GeneralSettings::output_directory_name); }
const IndexType& get_GeneralSettings__echo_level(const Dict& d) { return d.GetRequiredValue<IndexType>(queso::GeneralSettings::echo_level); }
void set_GeneralSettings__echo_level(Dict& d, const IndexType& v) { d.SetValue(queso::GeneralSettings::echo_level, v); }
bool isset_GeneralSettings__echo_level(const Dict& d) { return d.IsSet(queso::GeneralSettings::echo_level); }
const bool& get_GeneralSettings__write_output_to_file(const Dict& d) { return d.GetRequiredValue<bool>(queso::GeneralSettings::write_output_to_file); }
void set_GeneralSettings__write_output_to_file(Dict& d, const bool& v) { d.SetValue(queso::GeneralSettings::write_output_to_file, v); }
bool isset_GeneralSettings__write_output_to_file(const Dict& d) { return d.IsSet(queso::GeneralSettings::write_output_to_file); }
const GridTypeType& get_BackgroundGridSettings__grid_type(const Dict& d) { return d.GetRequiredValue<GridTypeType>(queso::BackgroundGridSettings::grid_type); }
void set_BackgroundGridSettings__grid_type(Dict& d, const GridTypeType& v) { d.SetValue(queso::BackgroundGridSettings::grid_type, v); }
bool isset_BackgroundGridSettings__grid_type(const Dict& d) { return d.IsSet(queso::BackgroundGridSettings::grid_type); }
const PointType& get_BackgroundGridSettings__lower_bound_xyz(const Dict& d) { return d.GetRequiredValue<PointType>(queso::BackgroundGridSettings::lower_bound_xyz); }
void set_BackgroundGridSettings__lower_bound_xyz(Dict& d, const PointType& v) { d.SetValue(queso::BackgroundGridSettings::lower_bound_xyz, v); }
bool isset_BackgroundGridSettings__lower_bound_xyz(const Dict& d) { return d.IsSet(queso::BackgroundGridSettings::lower_bound_xyz); }
const PointType& get_BackgroundGridSettings__upper_bound_xyz(const Dict& d) { return d.GetRequiredValue<PointType>(queso::BackgroundGridSettings::upper_bound_xyz); }
void set_BackgroundGridSettings__upper_bound_xyz(Dict& d, const PointType& v) { d.SetValue(queso::BackgroundGridSettings::upper_bound_xyz, v); }
bool isset_BackgroundGridSettings__upper_bound_xyz(const Dict& d) { return d.IsSet(queso::BackgroundGridSettings::upper_bound_xyz); }
const PointType& get_BackgroundGridSettings__lower_bound_uvw(const Dict& d) { return d.GetRequiredValue<PointType>(queso::BackgroundGridSettings::lower_bound_uvw); }
void set_BackgroundGridSettings__lower_bound_uvw(Dict& d, const PointType& v) { d.SetValue(queso::BackgroundGridSettings::lower_bound_uvw, v); }
bool isset_BackgroundGridSettings__lower_bound_uvw(const Dict& d) { return d.IsSet(queso::BackgroundGridSettings::lower_bound_uvw); }
const PointType& get_BackgroundGridSettings__upper_bound_uvw(const Dict& d) { return d.GetRequiredValue<PointType>(queso::BackgroundGridSettings::upper_bound_uvw); }
void set_BackgroundGridSettings__upper_bound_uvw(Dict& d, const PointType& v) { d.SetValue(queso::BackgroundGridSettings::upper_bound_uvw, v); }
bool isset_BackgroundGridSettings__upper_bound_uvw(const Dict& d) { return d.IsSet(queso::BackgroundGridSettings::upper_bound_uvw); }
const Vector3i& get_BackgroundGridSettings__polynomial_order(const Dict& d) { return d.GetRequiredValue<Vector3i>(queso::BackgroundGridSettings::polynomial_order); }
void set_BackgroundGridSettings__polynomial_order(Dict& d, const Vector3i& v) { d.SetValue(queso::BackgroundGridSettings::polynomial_order, v); }
bool isset_BackgroundGridSettings__polynomial_order(const Dict& d) { return d.IsSet(queso::BackgroundGridSettings::polynomial_order); }
const Vector3i& get_BackgroundGridSettings__number_of_elements(const Dict& d) { return d.GetRequiredValue<Vector3i>(queso::BackgroundGridSettings::number_of_elements); }
void set_BackgroundGridSettings__number_of_elements(Dict& d, const Vector3i& v) { d.SetValue(queso::BackgroundGridSettings::number_of_elements, v); }
bool isset_BackgroundGridSettings__number_of_elements(const Dict& d) { return d.IsSet(queso::BackgroundGridSettings::number_of_elements); }
const double& get_TrimmedQuadratureRuleSettings__moment_fitting_residual(const Dict& d) { return d.GetRequiredValue<double>(queso::TrimmedQuadratureRuleSettings::moment_fitting_residual); }
void set_TrimmedQuadratureRuleSettings__moment_fitting_residual(Dict& d, const double& v) { d.SetValue(queso::TrimmedQuadratureRuleSettings::moment_fitting_residual, v); }
bool isset_TrimmedQuadratureRuleSettings__moment_fitting_residual(const Dict& d) { return d.IsSet(queso::TrimmedQuadratureRuleSettings::moment_fitting_residual); }
const double& get_TrimmedQuadratureRuleSettings__min_element_volume_ratio(const Dict& d) { return d.GetRequiredValue<double>(queso::TrimmedQuadratureRuleSettings::min_element_volume_ratio); }
void set_TrimmedQuadratureRuleSettings__min_element_volume_ratio(Dict& d, const double& v) { d.SetValue(queso::TrimmedQuadratureRuleSettings::min_element_volume_ratio, v); }
bool isset_TrimmedQuadratureRuleSettings__min_element_volume_ratio(const Dict& d) { return d.IsSet(queso::TrimmedQuadratureRuleSettings::min_element_volume_ratio); }
const IndexType& get_TrimmedQuadratureRuleSettings__min_num_boundary_triangles(const Dict& d) { return d.GetRequiredValue<IndexType>(queso::TrimmedQuadratureRuleSettings::min_num_boundary_triangles); }
void set_TrimmedQuadratureRuleSettings__min_num_boundary_triangles(Dict& d, const IndexType& v) { d.SetValue(queso::TrimmedQuadratureRuleSettings::min_num_boundary_triangles, v); }
bool isset_TrimmedQuadratureRuleSettings__min_num_boundary_triangles(const Dict& d) { return d.IsSet(queso::TrimmedQuadratureRuleSettings::min_num_boundary_triangles); }
const bool& get_TrimmedQuadratureRuleSettings__neglect_elements_if_stl_is_flawed(const Dict& d) { return d.GetRequiredValue<bool>(queso::TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed); }
void set_TrimmedQuadratureRuleSettings__neglect_elements_if_stl_is_flawed(Dict& d, const bool& v) { d.SetValue(queso::TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed, v); }
bool isset_TrimmedQuadratureRuleSettings__neglect_elements_if_stl_is_flawed(const Dict& d) { return d.IsSet(queso::TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed); }
std::optional<std::reference_wrapper<const double>> get_TrimmedQuadratureRuleSettings__activate_fictitious_domain_with_alpha(const Dict& d) { return d.TryGetValue<double>(queso::TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha); }
void set_TrimmedQuadratureRuleSettings__activate_fictitious_domain_with_alpha(Dict& d, const double& v) { d.SetValue(queso::TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, v); }
bool isset_TrimmedQuadratureRuleSettings__activate_fictitious_domain_with_alpha(const Dict& d) { return d.IsSet(queso::TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha); }
const IntegrationMethodType& get_NonTrimmedQuadratureRuleSettings__integration_method(const Dict& d) { return d.GetRequiredValue<IntegrationMethodType>(queso::NonTrimmedQuadratureRuleSettings::integration_method); }
void set_NonTrimmedQuadratureRuleSettings__integration_method(Dict& d, const IntegrationMethodType& v) { d.SetValue(queso::NonTrimmedQuadratureRuleSettings::integration_method, v); }
bool isset_NonTrimmedQuadratureRuleSettings__integration_method(const Dict& d) { return d.IsSet(queso::NonTrimmedQuadratureRuleSettings::integration_method); }
const IndexType& get_ConditionSettings__condition_id(const Dict& d) { return d.GetRequiredValue<IndexType>(queso::ConditionSettings::condition_id); }
void set_ConditionSettings__condition_id(Dict& d, const IndexType& v) { d.SetValue(queso::ConditionSettings::condition_id, v); }
bool isset_ConditionSettings__condition_id(const Dict& d) { return d.IsSet(queso::ConditionSettings::condition_id); }
std::optional<std::reference_wrapper<const std::string>> get_ConditionSettings__condition_type(const Dict& d) { return d.TryGetValue<std::string>(queso::ConditionSettings::condition_type); }
void set_ConditionSettings__condition_type(Dict& d, const std::string& v) { d.SetValue(queso::ConditionSettings::condition_type, v); }
bool isset_ConditionSettings__condition_type(const Dict& d) { return d.IsSet(queso::ConditionSettings::condition_type); }
const std::string& get_ConditionSettings__input_filename(const Dict& d) { return d.GetRequiredValue<std::string>(queso::ConditionSettings::input_filename); }
void set_ConditionSettings__input_filename(Dict& d, const std::string& v) { d.SetValue(queso::ConditionSettings::input_filename, v); }
bool isset_ConditionSettings__input_filename(const Dict& d) { return d.IsSet(queso::ConditionSettings::input_filename); }
std::optional<std::reference_wrapper<const double>> get_ConditionSettings__modulus(const Dict& d) { return d.TryGetValue<double>(queso::ConditionSettings::modulus); }
void set_ConditionSettings__modulus(Dict& d, const double& v) { d.SetValue(queso::ConditionSettings::modulus, v); }
bool isset_ConditionSettings__modulus(const Dict& d) { return d.IsSet(queso::ConditionSettings::modulus); }
std::optional<std::reference_wrapper<const PointType>> get_ConditionSettings__direction(const Dict& d) { return d.TryGetValue<PointType>(queso::ConditionSettings::direction); }
void set_ConditionSettings__direction(Dict& d, const PointType& v) { d.SetValue(queso::ConditionSettings::direction, v); }
bool isset_ConditionSettings__direction(const Dict& d) { return d.IsSet(queso::ConditionSettings::direction); }
std::optional<std::reference_wrapper<const PointType>> get_ConditionSettings__value(const Dict& d) { return d.TryGetValue<PointType>(queso::ConditionSettings::value); }
void set_ConditionSettings__value(Dict& d, const PointType& v) { d.SetValue(queso::ConditionSettings::value, v); }
bool isset_ConditionSettings__value(const Dict& d) { return d.IsSet(queso::ConditionSettings::value); }
std::optional<std::reference_wrapper<const double>> get_ConditionSettings__penalty_factor(const Dict& d) { return d.TryGetValue<double>(queso::ConditionSettings::penalty_factor); }
void set_ConditionSettings__penalty_factor(Dict& d, const double& v) { d.SetValue(queso::ConditionSettings::penalty_factor, v); }
bool isset_ConditionSettings__penalty_factor(const Dict& d) { return d.IsSet(queso::ConditionSettings::penalty_factor); }
const Dict& get_MainInfo__embedded_geometry_info(const Dict& d) { return d[queso::MainInfo::embedded_geometry_info]; }
Dict& mut_MainInfo__embedded_geometry_info(Dict& d) { return d[queso::MainInfo::embedded_geometry_info]; }
const Dict& get_MainInfo__quadrature_info(const Dict& d) { return d[queso::MainInfo::quadrature_info]; }
Dict& mut_MainInfo__quadrature_info(Dict& d) { return d[queso::MainInfo::quadrature_info]; }
const Dict& get_MainInfo__background_grid_info(const Dict& d) { return d[queso::MainInfo::background_grid_info]; }
Dict& mut_MainInfo__background_grid_info(Dict& d) { return d[queso::MainInfo::background_grid_info]; }
const Dict& get_MainInfo__elapsed_time_info(const Dict& d) { return d[queso::MainInfo::elapsed_time_info]; }
Dict& mut_MainInfo__elapsed_time_info(Dict& d) { return d[queso::MainInfo::elapsed_time_info]; }
const Dict::ListType& get_MainInfo__conditions_infos_list(const Dict& d) { return d.GetList(queso::MainInfo::conditions_infos_list); }
Dict::ListType& mut_MainInfo__conditions_infos_list(Dict& d) { return d.GetList(queso::MainInfo::conditions_infos_list); }
const bool& get_EmbeddedGeometryInfo__is_closed(const Dict& d) { return d.GetRequiredValue<bool>(queso::EmbeddedGeometryInfo::is_closed); }
void set_EmbeddedGeometryInfo__is_closed(Dict& d, const bool& v) { d.SetValue(queso::EmbeddedGeometryInfo::is_closed, v); }
bool isset_EmbeddedGeometryInfo__is_closed(const Dict& d) { return d.IsSet(queso::EmbeddedGeometryInfo::is_closed); }
const double& get_EmbeddedGeometryInfo__volume(const Dict& d) { return d.GetRequiredValue<double>(queso::EmbeddedGeometryInfo::volume); }
void set_EmbeddedGeometryInfo__volume(Dict& d, const double& v) { d.SetValue(queso::EmbeddedGeometryInfo::volume, v); }
bool isset_EmbeddedGeometryInfo__volume(const Dict& d) { return d.IsSet(queso::EmbeddedGeometryInfo::volume); }
const double& get_QuadratureInfo__represented_volume(const Dict& d) { return d.GetRequiredValue<double>(queso::QuadratureInfo::represented_volume); }
void set_QuadratureInfo__represented_volume(Dict& d, const double& v) { d.SetValue(queso::QuadratureInfo::represented_volume, v); }
bool isset_QuadratureInfo__represented_volume(const Dict& d) { return d.IsSet(queso::QuadratureInfo::represented_volume); }
const double& get_QuadratureInfo__percentage_of_geometry_volume(const Dict& d) { return d.GetRequiredValue<double>(queso::QuadratureInfo::percentage_of_geometry_volume); }
void set_QuadratureInfo__percentage_of_geometry_volume(Dict& d, const double& v) { d.SetValue(queso::QuadratureInfo::percentage_of_geometry_volume, v); }
bool isset_QuadratureInfo__percentage_of_geometry_volume(const Dict& d) { return d.IsSet(queso::QuadratureInfo::percentage_of_geometry_volume); }
const IndexType& get_QuadratureInfo__tot_num_points(const Dict& d) { return d.GetRequiredValue<IndexType>(queso::QuadratureInfo::tot_num_points); }
void set_QuadratureInfo__tot_num_points(Dict& d, const IndexType& v) { d.SetValue(queso::QuadratureInfo::tot_num_points, v); }
bool isset_QuadratureInfo__tot_num_points(const Dict& d) { return d.IsSet(queso::QuadratureInfo::tot_num_points); }
const double& get_QuadratureInfo__num_of_points_per_full_element(const Dict& d) { return d.GetRequiredValue<double>(queso::QuadratureInfo::num_of_points_per_full_element); }
void set_QuadratureInfo__num_of_points_per_full_element(Dict& d, const double& v) { d.SetValue(queso::QuadratureInfo::num_of_points_per_full_element, v); }
bool isset_QuadratureInfo__num_of_points_per_full_element(const Dict& d) { return d.IsSet(queso::QuadratureInfo::num_of_points_per_full_element); }
const double& get_QuadratureInfo__num_of_points_per_trimmed_element(const Dict& d) { return d.GetRequiredValue<double>(queso::QuadratureInfo::num_of_points_per_trimmed_element); }
void set_QuadratureInfo__num_of_points_per_trimmed_element(Dict& d, const double& v) { d.SetValue(queso::QuadratureInfo::num_of_points_per_trimmed_element, v); }
bool isset_QuadratureInfo__num_of_points_per_trimmed_element(const Dict& d) { return d.IsSet(queso::QuadratureInfo::num_of_points_per_trimmed_element); }
const IndexType& get_BackgroundGridInfo__num_active_elements(const Dict& d) { return d.GetRequiredValue<IndexType>(queso::BackgroundGridInfo::num_active_elements); }
void set_BackgroundGridInfo__num_active_elements(Dict& d, const IndexType& v) { d.SetValue(queso::BackgroundGridInfo::num_active_elements, v); }
bool isset_BackgroundGridInfo__num_active_elements(const Dict& d) { return d.IsSet(queso::BackgroundGridInfo::num_active_elements); }
const IndexType& get_BackgroundGridInfo__num_trimmed_elements(const Dict& d) { return d.GetRequiredValue<IndexType>(queso::BackgroundGridInfo::num_trimmed_elements); }
void set_BackgroundGridInfo__num_trimmed_elements(Dict& d, const IndexType& v) { d.SetValue(queso::BackgroundGridInfo::num_trimmed_elements, v); }
bool isset_BackgroundGridInfo__num_trimmed_elements(const Dict& d) { return d.IsSet(queso::BackgroundGridInfo::num_trimmed_elements); }
const IndexType& get_BackgroundGridInfo__num_full_elements(const Dict& d) { return d.GetRequiredValue<IndexType>(queso::BackgroundGridInfo::num_full_elements); }
void set_BackgroundGridInfo__num_full_elements(Dict& d, const IndexType& v) { d.SetValue(queso::BackgroundGridInfo::num_full_elements, v); }
bool isset_BackgroundGridInfo__num_full_elements(const Dict& d) { return d.IsSet(queso::BackgroundGridInfo::num_full_elements); }
const IndexType& get_BackgroundGridInfo__num_inactive_elements(const Dict& d) { return d.GetRequiredValue<IndexType>(queso::BackgroundGridInfo::num_inactive_elements); }
void set_BackgroundGridInfo__num_inactive_elements(Dict& d, const IndexType& v) { d.SetValue(queso::BackgroundGridInfo::num_inactive_elements, v); }
bool isset_BackgroundGridInfo__num_inactive_elements(const Dict& d) { return d.IsSet(queso::BackgroundGridInfo::num_inactive_elements); }
const IndexType& get_ConditionInfo__condition_id(const Dict& d) { return d.GetRequiredValue<IndexType>(queso::ConditionInfo::condition_id); }
void set_ConditionInfo__condition_id(Dict& d, const IndexType& v) { d.SetValue(queso::ConditionInfo::condition_id, v); }
bool isset_ConditionInfo__condition_id(const Dict& d) { return d.IsSet(queso::ConditionInfo::condition_id); }
const double& get_ConditionInfo__surf_area(const Dict& d) { return d.GetRequiredValue<double>(queso::ConditionInfo::surf_area); }
void set_ConditionInfo__surf_area(Dict& d, const double& v) { d.SetValue(queso::ConditionInfo::surf_area, v); }
bool isset_ConditionInfo__surf_area(const Dict& d) { return d.IsSet(queso::ConditionInfo::surf_area); }
const double& get_ConditionInfo__perc_surf_area_in_active_domain(const Dict& d) { return d.GetRequiredValue<double>(queso::ConditionInfo::perc_surf_area_in_active_domain); }
void set_ConditionInfo__perc_surf_area_in_active_domain(Dict& d, const double& v) { d.SetValue(queso::ConditionInfo::perc_surf_area_in_active_domain, v); }
bool isset_ConditionInfo__perc_surf_area_in_active_domain(const Dict& d) { return d.IsSet(queso::ConditionInfo::perc_surf_area_in_active_domain); }
const double& get_ElapsedTimeInfo__total(const Dict& d) { return d.GetRequiredValue<double>(queso::ElapsedTimeInfo::total); }
void set_ElapsedTimeInfo__total(Dict& d, const double& v) { d.SetValue(queso::ElapsedTimeInfo::total, v); }
bool isset_ElapsedTimeInfo__total(const Dict& d) { return d.IsSet(queso::ElapsedTimeInfo::total); }
const Dict& get_ElapsedTimeInfo__volume_time_info(const Dict& d) { return d[queso::ElapsedTimeInfo::volume_time_info]; }
Dict& mut_ElapsedTimeInfo__volume_time_info(Dict& d) { return d[queso::ElapsedTimeInfo::volume_time_info]; }
const Dict& get_ElapsedTimeInfo__conditions_time_info(const Dict& d) { return d[queso::ElapsedTimeInfo::conditions_time_info]; }
Dict& mut_ElapsedTimeInfo__conditions_time_info(Dict& d) { return d[queso::ElapsedTimeInfo::conditions_time_info]; }
const Dict& get_ElapsedTimeInfo__write_files_time_info(const Dict& d) { return d[queso::ElapsedTimeInfo::write_files_time_info]; }
Dict& mut_ElapsedTimeInfo__write_files_time_info(Dict& d) { return d[queso::ElapsedTimeInfo::write_files_time_info]; }
const double& get_VolumeTimeInfo__total(const Dict& d) { return d.GetRequiredValue<double>(queso::VolumeTimeInfo::total); }
void set_VolumeTimeInfo__total(Dict& d, const double& v) { d.SetValue(queso::VolumeTimeInfo::total, v); }
bool isset_VolumeTimeInfo__total(const Dict& d) { return d.IsSet(queso::VolumeTimeInfo::total); }
const double& get_VolumeTimeInfo__classification_of_elements(const Dict& d) { return d.GetRequiredValue<double>(queso::VolumeTimeInfo::classification_of_elements); }
void set_VolumeTimeInfo__classification_of_elements(Dict& d, const double& v) { d.SetValue(queso::VolumeTimeInfo::classification_of_elements, v); }
bool isset_VolumeTimeInfo__classification_of_elements(const Dict& d) { return d.IsSet(queso::VolumeTimeInfo::classification_of_elements); }
const double& get_VolumeTimeInfo__computation_of_intersections(const Dict& d) { return d.GetRequiredValue<double>(queso::VolumeTimeInfo::computation_of_intersections); }
void set_VolumeTimeInfo__computation_of_intersections(Dict& d, const double& v) { d.SetValue(queso::VolumeTimeInfo::computation_of_intersections, v); }
bool isset_VolumeTimeInfo__computation_of_intersections(const Dict& d) { return d.IsSet(queso::VolumeTimeInfo::computation_of_intersections); }
const double& get_VolumeTimeInfo__solution_of_moment_fitting_eqs(const Dict& d) { return d.GetRequiredValue<double>(queso::VolumeTimeInfo::solution_of_moment_fitting_eqs); }
void set_VolumeTimeInfo__solution_of_moment_fitting_eqs(Dict& d, const double& v) { d.SetValue(queso::VolumeTimeInfo::solution_of_moment_fitting_eqs, v); }
bool isset_VolumeTimeInfo__solution_of_moment_fitting_eqs(const Dict& d) { return d.IsSet(queso::VolumeTimeInfo::solution_of_moment_fitting_eqs); }
const double& get_VolumeTimeInfo__construction_of_ggq_rules(const Dict& d) { return d.GetRequiredValue<double>(queso::VolumeTimeInfo::construction_of_ggq_rules); }
void set_VolumeTimeInfo__construction_of_ggq_rules(Dict& d, const double& v) { d.SetValue(queso::VolumeTimeInfo::construction_of_ggq_rules, v); }
bool isset_VolumeTimeInfo__construction_of_ggq_rules(const Dict& d) { return d.IsSet(queso::VolumeTimeInfo::construction_of_ggq_rules); }
const double& get_ConditionsTimeInfo__total(const Dict& d) { return d.GetRequiredValue<double>(queso::ConditionsTimeInfo::total); }
void set_ConditionsTimeInfo__total(Dict& d, const double& v) { d.SetValue(queso::ConditionsTimeInfo::total, v); }
bool isset_ConditionsTimeInfo__total(const Dict& d) { return d.IsSet(queso::ConditionsTimeInfo::total); }
const double& get_WriteFilesTimeInfo__total(const Dict& d) { return d.GetRequiredValue<double>(queso::WriteFilesTimeInfo::total); }
void set_WriteFilesTimeInfo__total(Dict& d, const double& v) { d.SetValue(queso::WriteFilesTimeInfo::total, v); }
bool isset_WriteFilesTimeInfo__total(const Dict& d) { return d.IsSet(queso::WriteFilesTimeInfo::total); }
}
