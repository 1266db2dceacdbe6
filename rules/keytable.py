"""The published keys of settings and results: set -> name -> (what the key leads to, required)."""
D, O = "dict", "list"
V3d, V3i, B, F, I, S, M, G = "PointType", "Vector3i", "bool", "double", "IndexType", "std::string", "IntegrationMethodType", "GridTypeType"
R, Q = True, False
KEYS = {
    "MainSettings": {"general_settings": (D, R), "background_grid_settings": (D, R), "trimmed_quadrature_rule_settings": (D, R), "non_trimmed_quadrature_rule_settings": (D, R), "conditions_settings_list": (O, R)},
    "GeneralSettings": {"input_filename": (S, R), "output_directory_name": (S, R), "echo_level": (I, R), "write_output_to_file": (B, R)},
    "BackgroundGridSettings": {"grid_type": (G, R), "lower_bound_xyz": (V3d, R), "upper_bound_xyz": (V3d, R), "lower_bound_uvw": (V3d, R), "upper_bound_uvw": (V3d, R), "polynomial_order": (V3i, R), "number_of_elements": (V3i, R)},
    "TrimmedQuadratureRuleSettings": {"moment_fitting_residual": (F, R), "min_element_volume_ratio": (F, R), "min_num_boundary_triangles": (I, R), "neglect_elements_if_stl_is_flawed": (B, R), "activate_fictitious_domain_with_alpha": (F, Q)},
    "NonTrimmedQuadratureRuleSettings": {"integration_method": (M, R)},
    "ConditionSettings": {"condition_id": (I, R), "condition_type": (S, Q), "input_filename": (S, R), "modulus": (F, Q), "direction": (V3d, Q), "value": (V3d, Q), "penalty_factor": (F, Q)},
    "MainInfo": {"embedded_geometry_info": (D, R), "quadrature_info": (D, R), "background_grid_info": (D, R), "elapsed_time_info": (D, R), "conditions_infos_list": (O, R)},
    "EmbeddedGeometryInfo": {"is_closed": (B, R), "volume": (F, R)},
    "QuadratureInfo": {"represented_volume": (F, R), "percentage_of_geometry_volume": (F, R), "tot_num_points": (I, R), "num_of_points_per_full_element": (F, R), "num_of_points_per_trimmed_element": (F, R)},
    "BackgroundGridInfo": {"num_active_elements": (I, R), "num_trimmed_elements": (I, R), "num_full_elements": (I, R), "num_inactive_elements": (I, R)},
    "ConditionInfo": {"condition_id": (I, R), "surf_area": (F, R), "perc_surf_area_in_active_domain": (F, R)},
    "ElapsedTimeInfo": {"total": (F, R), "volume_time_info": (D, R), "conditions_time_info": (D, R), "write_files_time_info": (D, R)},
    "VolumeTimeInfo": {"total": (F, R), "classification_of_elements": (F, R), "computation_of_intersections": (F, R), "solution_of_moment_fitting_eqs": (F, R), "construction_of_ggq_rules": (F, R)},
    "ConditionsTimeInfo": {"total": (F, R)},
    "WriteFilesTimeInfo": {"total": (F, R)},
}
TYPES = (V3d, V3i, B, F, I, S, M, G)
