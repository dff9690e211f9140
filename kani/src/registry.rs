// Generated by gen_registry.py.
#[cfg(not(kani))]
pub static ALL: &[(&str, fn())] = &[
    #[cfg(feature = "c01")] ("c01::p_storage_rt_u16", crate::c01::p_storage_rt_u16),
    #[cfg(feature = "c01")] ("c01::p_storage_rt_u32", crate::c01::p_storage_rt_u32),
    #[cfg(feature = "c01")] ("c01::p_storage_rt_u64", crate::c01::p_storage_rt_u64),
    #[cfg(feature = "c01")] ("c01::p_storage_rt_u128", crate::c01::p_storage_rt_u128),
    #[cfg(feature = "c01")] ("c01::p_storage_rt_usize", crate::c01::p_storage_rt_usize),
    #[cfg(feature = "c01")] ("c01::p_storage_rt_i16", crate::c01::p_storage_rt_i16),
    #[cfg(feature = "c01")] ("c01::p_storage_rt_i32", crate::c01::p_storage_rt_i32),
    #[cfg(feature = "c01")] ("c01::p_storage_rt_i64", crate::c01::p_storage_rt_i64),
    #[cfg(feature = "c01")] ("c01::p_storage_rt_i128", crate::c01::p_storage_rt_i128),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_u8", crate::c01::p_wire_rt_u8),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_u16", crate::c01::p_wire_rt_u16),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_u32", crate::c01::p_wire_rt_u32),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_u64", crate::c01::p_wire_rt_u64),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_u128", crate::c01::p_wire_rt_u128),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_usize", crate::c01::p_wire_rt_usize),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_i8", crate::c01::p_wire_rt_i8),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_i16", crate::c01::p_wire_rt_i16),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_i32", crate::c01::p_wire_rt_i32),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_i64", crate::c01::p_wire_rt_i64),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_i128", crate::c01::p_wire_rt_i128),
    #[cfg(feature = "c01")] ("c01::p_wire_rt_isize", crate::c01::p_wire_rt_isize),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_u8", crate::c01::p_descriptive_rt_u8),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_u16", crate::c01::p_descriptive_rt_u16),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_u32", crate::c01::p_descriptive_rt_u32),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_u64", crate::c01::p_descriptive_rt_u64),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_u128", crate::c01::p_descriptive_rt_u128),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_usize", crate::c01::p_descriptive_rt_usize),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_i8", crate::c01::p_descriptive_rt_i8),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_i16", crate::c01::p_descriptive_rt_i16),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_i32", crate::c01::p_descriptive_rt_i32),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_i64", crate::c01::p_descriptive_rt_i64),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_i128", crate::c01::p_descriptive_rt_i128),
    #[cfg(feature = "c01")] ("c01::p_descriptive_rt_isize", crate::c01::p_descriptive_rt_isize),
    #[cfg(feature = "c01")] ("c01::p_storage_decode_u16", crate::c01::p_storage_decode_u16),
    #[cfg(feature = "c01")] ("c01::p_storage_decode_u32", crate::c01::p_storage_decode_u32),
    #[cfg(feature = "c01")] ("c01::p_storage_decode_u64", crate::c01::p_storage_decode_u64),
    #[cfg(feature = "c01")] ("c01::p_storage_decode_u128", crate::c01::p_storage_decode_u128),
    #[cfg(feature = "c01")] ("c01::p_storage_decode_usize", crate::c01::p_storage_decode_usize),
    #[cfg(feature = "c01")] ("c01::p_storage_decode_i16", crate::c01::p_storage_decode_i16),
    #[cfg(feature = "c01")] ("c01::p_storage_decode_i32", crate::c01::p_storage_decode_i32),
    #[cfg(feature = "c01")] ("c01::p_storage_decode_i64", crate::c01::p_storage_decode_i64),
    #[cfg(feature = "c01")] ("c01::p_storage_decode_i128", crate::c01::p_storage_decode_i128),
    #[cfg(feature = "c01")] ("c01::p_wire_decode_u8", crate::c01::p_wire_decode_u8),
    #[cfg(feature = "c01")] ("c01::p_wire_decode_u16", crate::c01::p_wire_decode_u16),
    #[cfg(feature = "c01")] ("c01::p_wire_decode_u32", crate::c01::p_wire_decode_u32),
    #[cfg(feature = "c01")] ("c01::p_wire_decode_u64", crate::c01::p_wire_decode_u64),
    #[cfg(feature = "c01")] ("c01::p_wire_decode_u128", crate::c01::p_wire_decode_u128),
    #[cfg(feature = "c01")] ("c01::p_wire_decode_usize", crate::c01::p_wire_decode_usize),
    #[cfg(feature = "c02")] ("c02::p_storage_v0_le", crate::c02::p_storage_v0_le),
    #[cfg(feature = "c02")] ("c02::pt_storage_v1_le", crate::c02::pt_storage_v1_le),
    #[cfg(feature = "c02")] ("c02::pt_storage_v2_be", crate::c02::pt_storage_v2_be),
    #[cfg(feature = "c02")] ("c02::pt_storage_v4_be", crate::c02::pt_storage_v4_be),
    #[cfg(feature = "c02")] ("c02::pt_storage_v8_le", crate::c02::pt_storage_v8_le),
    #[cfg(feature = "c02")] ("c02::pt_storage_v8_be", crate::c02::pt_storage_v8_be),
    #[cfg(feature = "c02")] ("c02::pt_storage_f0_le", crate::c02::pt_storage_f0_le),
    #[cfg(feature = "c02")] ("c02::p_storage_f0_be", crate::c02::p_storage_f0_be),
    #[cfg(feature = "c02")] ("c02::p_storage_f1_be", crate::c02::p_storage_f1_be),
    #[cfg(feature = "c02")] ("c02::p_storage_f2_le", crate::c02::p_storage_f2_le),
    #[cfg(feature = "c02")] ("c02::p_storage_f2_be", crate::c02::p_storage_f2_be),
    #[cfg(feature = "c02")] ("c02::p_storage_f4_le", crate::c02::p_storage_f4_le),
    #[cfg(feature = "c02")] ("c02::p_storage_f4_be", crate::c02::p_storage_f4_be),
    #[cfg(feature = "c02")] ("c02::p_storage_f8_le", crate::c02::p_storage_f8_le),
    #[cfg(feature = "c02")] ("c02::p_storage_f8_be", crate::c02::p_storage_f8_be),
    #[cfg(feature = "c02")] ("c02::p_wire_v0_be", crate::c02::p_wire_v0_be),
    #[cfg(feature = "c02")] ("c02::pt_wire_v1_le", crate::c02::pt_wire_v1_le),
    #[cfg(feature = "c02")] ("c02::pt_wire_v2_be", crate::c02::pt_wire_v2_be),
    #[cfg(feature = "c02")] ("c02::pt_wire_v4_be", crate::c02::pt_wire_v4_be),
    #[cfg(feature = "c02")] ("c02::pt_wire_v8_be", crate::c02::pt_wire_v8_be),
    #[cfg(feature = "c02")] ("c02::pt_wire_f0_le", crate::c02::pt_wire_f0_le),
    #[cfg(feature = "c02")] ("c02::p_wire_f0_be", crate::c02::p_wire_f0_be),
    #[cfg(feature = "c02")] ("c02::p_wire_f1_be", crate::c02::p_wire_f1_be),
    #[cfg(feature = "c02")] ("c02::p_wire_f2_le", crate::c02::p_wire_f2_le),
    #[cfg(feature = "c02")] ("c02::p_wire_f2_be", crate::c02::p_wire_f2_be),
    #[cfg(feature = "c02")] ("c02::p_wire_f4_le", crate::c02::p_wire_f4_le),
    #[cfg(feature = "c02")] ("c02::p_wire_f4_be", crate::c02::p_wire_f4_be),
    #[cfg(feature = "c02")] ("c02::p_wire_f8_le", crate::c02::p_wire_f8_le),
    #[cfg(feature = "c02")] ("c02::p_wire_f8_be", crate::c02::p_wire_f8_be),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_u8", crate::c02::p_storage_fixed_u8),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_u16", crate::c02::p_storage_fixed_u16),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_u32", crate::c02::p_storage_fixed_u32),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_u64", crate::c02::p_storage_fixed_u64),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_u128", crate::c02::p_storage_fixed_u128),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_usize", crate::c02::p_storage_fixed_usize),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_i8", crate::c02::p_storage_fixed_i8),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_i16", crate::c02::p_storage_fixed_i16),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_i32", crate::c02::p_storage_fixed_i32),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_i64", crate::c02::p_storage_fixed_i64),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_i128", crate::c02::p_storage_fixed_i128),
    #[cfg(feature = "c02")] ("c02::p_storage_fixed_isize", crate::c02::p_storage_fixed_isize),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_u8", crate::c02::p_wire_fixed_u8),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_u16", crate::c02::p_wire_fixed_u16),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_u32", crate::c02::p_wire_fixed_u32),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_u64", crate::c02::p_wire_fixed_u64),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_u128", crate::c02::p_wire_fixed_u128),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_usize", crate::c02::p_wire_fixed_usize),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_i8", crate::c02::p_wire_fixed_i8),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_i16", crate::c02::p_wire_fixed_i16),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_i32", crate::c02::p_wire_fixed_i32),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_i64", crate::c02::p_wire_fixed_i64),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_i128", crate::c02::p_wire_fixed_i128),
    #[cfg(feature = "c02")] ("c02::p_wire_fixed_isize", crate::c02::p_wire_fixed_isize),
    #[cfg(feature = "c02")] ("c02::b_bulk_u16_native", crate::c02::b_bulk_u16_native),
    #[cfg(feature = "c02")] ("c02::b_bulk_u16_foreign", crate::c02::b_bulk_u16_foreign),
    #[cfg(feature = "c02")] ("c02::b_bulk_i32_native", crate::c02::b_bulk_i32_native),
    #[cfg(feature = "c02")] ("c02::b_bulk_i32_foreign", crate::c02::b_bulk_i32_foreign),
    #[cfg(feature = "c02")] ("c02::b_bulk_u64_foreign", crate::c02::b_bulk_u64_foreign),
    #[cfg(feature = "c02")] ("c02::b_bulk_u128_native", crate::c02::b_bulk_u128_native),
    #[cfg(feature = "c02")] ("c02::b_bulk_u8_native", crate::c02::b_bulk_u8_native),
    #[cfg(feature = "c02")] ("c02::b_bulk_u32_fixed_varlen", crate::c02::b_bulk_u32_fixed_varlen),
    #[cfg(feature = "c02")] ("c02::b_bulk_u32_fixed_len4", crate::c02::b_bulk_u32_fixed_len4),
    #[cfg(feature = "c02")] ("c02::p_composite_native", crate::c02::p_composite_native),
    #[cfg(feature = "c02")] ("c02::p_composite_foreign", crate::c02::p_composite_foreign),
    #[cfg(feature = "c02")] ("c02::bt_composite_variable", crate::c02::bt_composite_variable),
    #[cfg(feature = "c02")] ("c02::pt_length_var", crate::c02::pt_length_var),
    #[cfg(feature = "c02")] ("c02::pt_length_1", crate::c02::pt_length_1),
    #[cfg(feature = "c02")] ("c02::p_length_2_be", crate::c02::p_length_2_be),
    #[cfg(feature = "c02")] ("c02::pt_length_4", crate::c02::pt_length_4),
    #[cfg(feature = "c02")] ("c02::pt_length_8_be", crate::c02::pt_length_8_be),
    #[cfg(feature = "c02")] ("c02::p_options_replace", crate::c02::p_options_replace),
    #[cfg(feature = "c02")] ("c02::p_options_commute", crate::c02::p_options_commute),
    #[cfg(feature = "c03")] ("c03::p_truncated_u32_le", crate::c03::p_truncated_u32_le),
    #[cfg(feature = "c03")] ("c03::p_truncated_u32_var", crate::c03::p_truncated_u32_var),
    #[cfg(feature = "c03")] ("c03::p_truncated_i16_be", crate::c03::p_truncated_i16_be),
    #[cfg(feature = "c03")] ("c03::p_truncated_char", crate::c03::p_truncated_char),
    #[cfg(feature = "c03")] ("c03::p_same_char", crate::c03::p_same_char),
    #[cfg(feature = "c03")] ("c03::p_same_option", crate::c03::p_same_option),
    #[cfg(feature = "c03")] ("c03::pt_same_option", crate::c03::pt_same_option),
    #[cfg(feature = "c03")] ("c03::p_same_unit_some", crate::c03::p_same_unit_some),
    #[cfg(feature = "c03")] ("c03::p_same_unit_none", crate::c03::p_same_unit_none),
    #[cfg(feature = "c03")] ("c03::p_same_i128", crate::c03::p_same_i128),
    #[cfg(feature = "c03")] ("c03::pt_same_i128_be", crate::c03::pt_same_i128_be),
    #[cfg(feature = "c03")] ("c03::p_same_float", crate::c03::p_same_float),
    #[cfg(feature = "c03")] ("c03::p_same_float_be", crate::c03::p_same_float_be),
    #[cfg(feature = "c03")] ("c03::b_strings_le_0", crate::c03::b_strings_le_0),
    #[cfg(feature = "c03")] ("c03::b_strings_le_3", crate::c03::b_strings_le_3),
    #[cfg(feature = "c03")] ("c03::b_strings_var_0", crate::c03::b_strings_var_0),
    #[cfg(feature = "c03")] ("c03::b_strings_var_4", crate::c03::b_strings_var_4),
    #[cfg(feature = "c03")] ("c03::b_strings_mixed_2", crate::c03::b_strings_mixed_2),
    #[cfg(feature = "c03")] ("c03::b_text_of_1", crate::c03::b_text_of_1),
    #[cfg(feature = "c03")] ("c03::b_text_of_3", crate::c03::b_text_of_3),
    #[cfg(feature = "c03")] ("c03::b_text_of_4", crate::c03::b_text_of_4),
    #[cfg(feature = "c03")] ("c03::p_truncated_option", crate::c03::p_truncated_option),
    #[cfg(feature = "c03")] ("c03::b_truncated_array", crate::c03::b_truncated_array),
    #[cfg(feature = "c03")] ("c03::p_truncated_tuple", crate::c03::p_truncated_tuple),
    #[cfg(feature = "c03")] ("c03::p_same_tuple", crate::c03::p_same_tuple),
    #[cfg(feature = "c03")] ("c03::b_same_array", crate::c03::b_same_array),
    #[cfg(feature = "c03")] ("c03::p_layout_le", crate::c03::p_layout_le),
    #[cfg(feature = "c03")] ("c03::p_layout_be", crate::c03::p_layout_be),
    #[cfg(feature = "c03")] ("c03::p_layout_var", crate::c03::p_layout_var),
    #[cfg(feature = "c03")] ("c03::p_layout_mixed", crate::c03::p_layout_mixed),
    #[cfg(feature = "c03")] ("c03::p_bool_invalid", crate::c03::p_bool_invalid),
    #[cfg(feature = "c03")] ("c03::p_option_invalid", crate::c03::p_option_invalid),
    #[cfg(feature = "c03")] ("c03::p_char_invalid", crate::c03::p_char_invalid),
    #[cfg(feature = "c03")] ("c03::p_char_variable_invalid", crate::c03::p_char_variable_invalid),
    #[cfg(feature = "c03")] ("c03::b_text_1", crate::c03::b_text_1),
    #[cfg(feature = "c03")] ("c03::bt_text_2", crate::c03::bt_text_2),
    #[cfg(feature = "c03")] ("c03::b_text_3", crate::c03::b_text_3),
    #[cfg(feature = "c03")] ("c03::bt_text_4", crate::c03::bt_text_4),
    #[cfg(feature = "c03")] ("c03::p_nonzero", crate::c03::p_nonzero),
    #[cfg(feature = "c04")] ("c04::p_truncated_u32_le", crate::c04::p_truncated_u32_le),
    #[cfg(feature = "c04")] ("c04::p_truncated_u32_var", crate::c04::p_truncated_u32_var),
    #[cfg(feature = "c04")] ("c04::p_truncated_i16_be", crate::c04::p_truncated_i16_be),
    #[cfg(feature = "c04")] ("c04::p_truncated_char", crate::c04::p_truncated_char),
    #[cfg(feature = "c04")] ("c04::p_same_char", crate::c04::p_same_char),
    #[cfg(feature = "c04")] ("c04::p_same_option", crate::c04::p_same_option),
    #[cfg(feature = "c04")] ("c04::pt_same_option", crate::c04::pt_same_option),
    #[cfg(feature = "c04")] ("c04::p_same_unit_some", crate::c04::p_same_unit_some),
    #[cfg(feature = "c04")] ("c04::p_same_unit_none", crate::c04::p_same_unit_none),
    #[cfg(feature = "c04")] ("c04::p_same_i128", crate::c04::p_same_i128),
    #[cfg(feature = "c04")] ("c04::pt_same_i128_be", crate::c04::pt_same_i128_be),
    #[cfg(feature = "c04")] ("c04::p_same_float", crate::c04::p_same_float),
    #[cfg(feature = "c04")] ("c04::p_same_float_be", crate::c04::p_same_float_be),
    #[cfg(feature = "c04")] ("c04::b_strings_le_0", crate::c04::b_strings_le_0),
    #[cfg(feature = "c04")] ("c04::b_strings_le_3", crate::c04::b_strings_le_3),
    #[cfg(feature = "c04")] ("c04::b_strings_var_0", crate::c04::b_strings_var_0),
    #[cfg(feature = "c04")] ("c04::b_strings_var_4", crate::c04::b_strings_var_4),
    #[cfg(feature = "c04")] ("c04::b_strings_mixed_2", crate::c04::b_strings_mixed_2),
    #[cfg(feature = "c04")] ("c04::b_text_of_1", crate::c04::b_text_of_1),
    #[cfg(feature = "c04")] ("c04::b_text_of_3", crate::c04::b_text_of_3),
    #[cfg(feature = "c04")] ("c04::b_text_of_4", crate::c04::b_text_of_4),
    #[cfg(feature = "c04")] ("c04::p_truncated_option", crate::c04::p_truncated_option),
    #[cfg(feature = "c04")] ("c04::b_truncated_array", crate::c04::b_truncated_array),
    #[cfg(feature = "c04")] ("c04::p_truncated_tuple", crate::c04::p_truncated_tuple),
    #[cfg(feature = "c04")] ("c04::p_same_tuple", crate::c04::p_same_tuple),
    #[cfg(feature = "c04")] ("c04::b_same_array", crate::c04::b_same_array),
    #[cfg(feature = "c04")] ("c04::p_layout_u128_var", crate::c04::p_layout_u128_var),
    #[cfg(feature = "c04")] ("c04::p_layout_i128_var", crate::c04::p_layout_i128_var),
    #[cfg(feature = "c04")] ("c04::p_layout_le", crate::c04::p_layout_le),
    #[cfg(feature = "c04")] ("c04::p_layout_be", crate::c04::p_layout_be),
    #[cfg(feature = "c04")] ("c04::p_layout_var", crate::c04::p_layout_var),
    #[cfg(feature = "c04")] ("c04::p_layout_mixed", crate::c04::p_layout_mixed),
    #[cfg(feature = "c04")] ("c04::p_tags_bool", crate::c04::p_tags_bool),
    #[cfg(feature = "c04")] ("c04::p_tags_u8_var", crate::c04::p_tags_u8_var),
    #[cfg(feature = "c04")] ("c04::p_tags_i32_var", crate::c04::p_tags_i32_var),
    #[cfg(feature = "c04")] ("c04::p_tags_u64_var", crate::c04::p_tags_u64_var),
    #[cfg(feature = "c04")] ("c04::p_tags_usize_var", crate::c04::p_tags_usize_var),
    #[cfg(feature = "c04")] ("c04::p_tags_u8_fixed", crate::c04::p_tags_u8_fixed),
    #[cfg(feature = "c04")] ("c04::p_tags_u16_fixed", crate::c04::p_tags_u16_fixed),
    #[cfg(feature = "c04")] ("c04::p_tags_i32_fixed", crate::c04::p_tags_i32_fixed),
    #[cfg(feature = "c04")] ("c04::p_tags_u64_fixed", crate::c04::p_tags_u64_fixed),
    #[cfg(feature = "c04")] ("c04::p_tags_i128_fixed", crate::c04::p_tags_i128_fixed),
    #[cfg(feature = "c04")] ("c04::p_tags_usize_fixed", crate::c04::p_tags_usize_fixed),
    #[cfg(feature = "c04")] ("c04::p_tags_char_fixed", crate::c04::p_tags_char_fixed),
    #[cfg(feature = "c04")] ("c04::p_tags_f64_fixed", crate::c04::p_tags_f64_fixed),
    #[cfg(feature = "c04")] ("c04::p_tags_array", crate::c04::p_tags_array),
    #[cfg(feature = "c04")] ("c04::p_tags_bytes", crate::c04::p_tags_bytes),
    #[cfg(feature = "c04")] ("c04::p_tags_str", crate::c04::p_tags_str),
    #[cfg(feature = "c04")] ("c04::p_tags_option", crate::c04::p_tags_option),
    #[cfg(feature = "c04")] ("c04::p_char_invalid", crate::c04::p_char_invalid),
    #[cfg(feature = "c04")] ("c04::b_text_1", crate::c04::b_text_1),
    #[cfg(feature = "c04")] ("c04::bt_text_2", crate::c04::bt_text_2),
    #[cfg(feature = "c04")] ("c04::b_text_3", crate::c04::b_text_3),
    #[cfg(feature = "c04")] ("c04::bt_text_4", crate::c04::bt_text_4),
    #[cfg(feature = "c05")] ("c05::p_unit", crate::c05::p_unit),
    #[cfg(feature = "c05")] ("c05::p_true", crate::c05::p_true),
    #[cfg(feature = "c05")] ("c05::p_false", crate::c05::p_false),
    #[cfg(feature = "c05")] ("c05::p_u8", crate::c05::p_u8),
    #[cfg(feature = "c05")] ("c05::p_i16", crate::c05::p_i16),
    #[cfg(feature = "c05")] ("c05::p_i16_var", crate::c05::p_i16_var),
    #[cfg(feature = "c05")] ("c05::p_u32", crate::c05::p_u32),
    #[cfg(feature = "c05")] ("c05::p_u32_var", crate::c05::p_u32_var),
    #[cfg(feature = "c05")] ("c05::p_i64", crate::c05::p_i64),
    #[cfg(feature = "c05")] ("c05::pt_u64_var", crate::c05::pt_u64_var),
    #[cfg(feature = "c05")] ("c05::p_u128_fixed", crate::c05::p_u128_fixed),
    #[cfg(feature = "c05")] ("c05::p_f32", crate::c05::p_f32),
    #[cfg(feature = "c05")] ("c05::p_f64", crate::c05::p_f64),
    #[cfg(feature = "c05")] ("c05::p_usize", crate::c05::p_usize),
    #[cfg(feature = "c05")] ("c05::b_usize_var", crate::c05::b_usize_var),
    #[cfg(feature = "c05")] ("c05::p_isize", crate::c05::p_isize),
    #[cfg(feature = "c05")] ("c05::p_char", crate::c05::p_char),
    #[cfg(feature = "c05")] ("c05::p_char_var", crate::c05::p_char_var),
    #[cfg(feature = "c05")] ("c05::p_option_none", crate::c05::p_option_none),
    #[cfg(feature = "c05")] ("c05::p_option_some_none", crate::c05::p_option_some_none),
    #[cfg(feature = "c05")] ("c05::p_option_some", crate::c05::p_option_some),
    #[cfg(feature = "c05")] ("c05::p_option_some_var", crate::c05::p_option_some_var),
    #[cfg(feature = "c05")] ("c05::b_u128_max", crate::c05::b_u128_max),
    #[cfg(feature = "c05")] ("c05::b_u128_63", crate::c05::b_u128_63),
    #[cfg(feature = "c05")] ("c05::b_u64_top", crate::c05::b_u64_top),
    #[cfg(feature = "c05")] ("c05::b_usize_max", crate::c05::b_usize_max),
    #[cfg(feature = "c05")] ("c05::b_isize_min", crate::c05::b_isize_min),
    #[cfg(feature = "c05")] ("c05::b_i8", crate::c05::b_i8),
    #[cfg(feature = "c05")] ("c05::p_tuple", crate::c05::p_tuple),
    #[cfg(feature = "c05")] ("c05::b_array", crate::c05::b_array),
    #[cfg(feature = "c05")] ("c05::p_nested", crate::c05::p_nested),
    #[cfg(feature = "c05")] ("c05::p_nested_var", crate::c05::p_nested_var),
    #[cfg(feature = "c05")] ("c05::p_bytes", crate::c05::p_bytes),
    #[cfg(feature = "c05")] ("c05::p_named", crate::c05::p_named),
    #[cfg(feature = "c05")] ("c05::p_named_none", crate::c05::p_named_none),
    #[cfg(feature = "c05")] ("c05::p_packed", crate::c05::p_packed),
    #[cfg(feature = "c05")] ("c05::p_unit_variant", crate::c05::p_unit_variant),
    #[cfg(feature = "c05")] ("c05::p_tuple_variant", crate::c05::p_tuple_variant),
    #[cfg(feature = "c05")] ("c05::p_tuple_variant_var", crate::c05::p_tuple_variant_var),
    #[cfg(feature = "c05")] ("c05::p_struct_variant", crate::c05::p_struct_variant),
    #[cfg(feature = "c05")] ("c05::b_long_bytes_var", crate::c05::b_long_bytes_var),
    #[cfg(feature = "c05")] ("c05::b_long_bytes_le", crate::c05::b_long_bytes_le),
    #[cfg(feature = "c05")] ("c05::b_long_sequence_var", crate::c05::b_long_sequence_var),
    #[cfg(feature = "c05")] ("c05::b_long_sequence_be", crate::c05::b_long_sequence_be),
    #[cfg(feature = "c05")] ("c05::bt_any_var_2", crate::c05::bt_any_var_2),
    #[cfg(feature = "c05")] ("c05::b_any_var_3", crate::c05::b_any_var_3),
    #[cfg(feature = "c05")] ("c05::bt_any_var_4", crate::c05::bt_any_var_4),
    #[cfg(feature = "c05")] ("c05::b_any_fixed1_3", crate::c05::b_any_fixed1_3),
    #[cfg(feature = "c05")] ("c05::b_any_fixed2_be_4", crate::c05::b_any_fixed2_be_4),
    #[cfg(feature = "c06")] ("c06::p_truncated_u32_le", crate::c06::p_truncated_u32_le),
    #[cfg(feature = "c06")] ("c06::p_truncated_u32_var", crate::c06::p_truncated_u32_var),
    #[cfg(feature = "c06")] ("c06::p_truncated_i16_be", crate::c06::p_truncated_i16_be),
    #[cfg(feature = "c06")] ("c06::p_truncated_char", crate::c06::p_truncated_char),
    #[cfg(feature = "c06")] ("c06::p_same_char", crate::c06::p_same_char),
    #[cfg(feature = "c06")] ("c06::p_same_option", crate::c06::p_same_option),
    #[cfg(feature = "c06")] ("c06::pt_same_option", crate::c06::pt_same_option),
    #[cfg(feature = "c06")] ("c06::p_same_unit_some", crate::c06::p_same_unit_some),
    #[cfg(feature = "c06")] ("c06::p_same_unit_none", crate::c06::p_same_unit_none),
    #[cfg(feature = "c06")] ("c06::p_same_i128", crate::c06::p_same_i128),
    #[cfg(feature = "c06")] ("c06::pt_same_i128_be", crate::c06::pt_same_i128_be),
    #[cfg(feature = "c06")] ("c06::p_same_float", crate::c06::p_same_float),
    #[cfg(feature = "c06")] ("c06::p_same_float_be", crate::c06::p_same_float_be),
    #[cfg(feature = "c06")] ("c06::b_strings_le_0", crate::c06::b_strings_le_0),
    #[cfg(feature = "c06")] ("c06::b_strings_le_3", crate::c06::b_strings_le_3),
    #[cfg(feature = "c06")] ("c06::b_strings_var_0", crate::c06::b_strings_var_0),
    #[cfg(feature = "c06")] ("c06::b_strings_var_4", crate::c06::b_strings_var_4),
    #[cfg(feature = "c06")] ("c06::b_strings_mixed_2", crate::c06::b_strings_mixed_2),
    #[cfg(feature = "c06")] ("c06::b_text_of_1", crate::c06::b_text_of_1),
    #[cfg(feature = "c06")] ("c06::b_text_of_3", crate::c06::b_text_of_3),
    #[cfg(feature = "c06")] ("c06::b_text_of_4", crate::c06::b_text_of_4),
    #[cfg(feature = "c06")] ("c06::p_truncated_option", crate::c06::p_truncated_option),
    #[cfg(feature = "c06")] ("c06::p_truncated_none", crate::c06::p_truncated_none),
    #[cfg(feature = "c06")] ("c06::b_truncated_array", crate::c06::b_truncated_array),
    #[cfg(feature = "c06")] ("c06::b_truncated_tuple", crate::c06::b_truncated_tuple),
    #[cfg(feature = "c06")] ("c06::b_same_tuple", crate::c06::b_same_tuple),
    #[cfg(feature = "c06")] ("c06::b_same_array", crate::c06::b_same_array),
    #[cfg(feature = "c06")] ("c06::b_same_bools", crate::c06::b_same_bools),
    #[cfg(feature = "c06")] ("c06::p_layout", crate::c06::p_layout),
    #[cfg(feature = "c06")] ("c06::p_number_u8", crate::c06::p_number_u8),
    #[cfg(feature = "c06")] ("c06::pt_number_u16", crate::c06::pt_number_u16),
    #[cfg(feature = "c06")] ("c06::p_number_u32", crate::c06::p_number_u32),
    #[cfg(feature = "c06")] ("c06::p_number_u64", crate::c06::p_number_u64),
    #[cfg(feature = "c06")] ("c06::pt_number_u128", crate::c06::pt_number_u128),
    #[cfg(feature = "c06")] ("c06::p_number_i8", crate::c06::p_number_i8),
    #[cfg(feature = "c06")] ("c06::p_number_i16", crate::c06::p_number_i16),
    #[cfg(feature = "c06")] ("c06::p_number_i32", crate::c06::p_number_i32),
    #[cfg(feature = "c06")] ("c06::pt_number_i64", crate::c06::pt_number_i64),
    #[cfg(feature = "c06")] ("c06::p_number_i128", crate::c06::p_number_i128),
    #[cfg(feature = "c06")] ("c06::p_cross_u8", crate::c06::p_cross_u8),
    #[cfg(feature = "c06")] ("c06::p_cross_i8", crate::c06::p_cross_i8),
    #[cfg(feature = "c06")] ("c06::p_cross_u16", crate::c06::p_cross_u16),
    #[cfg(feature = "c06")] ("c06::p_cross_i16", crate::c06::p_cross_i16),
    #[cfg(feature = "c06")] ("c06::p_cross_u32", crate::c06::p_cross_u32),
    #[cfg(feature = "c06")] ("c06::p_cross_i32", crate::c06::p_cross_i32),
    #[cfg(feature = "c06")] ("c06::p_cross_u64", crate::c06::p_cross_u64),
    #[cfg(feature = "c06")] ("c06::p_cross_i64", crate::c06::p_cross_i64),
    #[cfg(feature = "c06")] ("c06::p_cross_usize", crate::c06::p_cross_usize),
    #[cfg(feature = "c06")] ("c06::p_cross_isize", crate::c06::p_cross_isize),
    #[cfg(feature = "c06")] ("c06::p_cross_u128", crate::c06::p_cross_u128),
    #[cfg(feature = "c06")] ("c06::p_cross_i128", crate::c06::p_cross_i128),
    #[cfg(feature = "c06")] ("c06::pt_cross_u8", crate::c06::pt_cross_u8),
    #[cfg(feature = "c06")] ("c06::pt_cross_i8", crate::c06::pt_cross_i8),
    #[cfg(feature = "c06")] ("c06::pt_cross_u16", crate::c06::pt_cross_u16),
    #[cfg(feature = "c06")] ("c06::pt_cross_i16", crate::c06::pt_cross_i16),
    #[cfg(feature = "c06")] ("c06::pt_cross_u32", crate::c06::pt_cross_u32),
    #[cfg(feature = "c06")] ("c06::pt_cross_i32", crate::c06::pt_cross_i32),
    #[cfg(feature = "c06")] ("c06::pt_cross_u64", crate::c06::pt_cross_u64),
    #[cfg(feature = "c06")] ("c06::pt_cross_i64", crate::c06::pt_cross_i64),
    #[cfg(feature = "c06")] ("c06::pt_cross_u64_wide", crate::c06::pt_cross_u64_wide),
    #[cfg(feature = "c06")] ("c06::pt_cross_i64_wide", crate::c06::pt_cross_i64_wide),
    #[cfg(feature = "c06")] ("c06::pt_cross_usize", crate::c06::pt_cross_usize),
    #[cfg(feature = "c06")] ("c06::pt_cross_isize", crate::c06::pt_cross_isize),
    #[cfg(feature = "c06")] ("c06::pt_cross_u128", crate::c06::pt_cross_u128),
    #[cfg(feature = "c06")] ("c06::pt_cross_u128_wide", crate::c06::pt_cross_u128_wide),
    #[cfg(feature = "c06")] ("c06::pt_cross_i128", crate::c06::pt_cross_i128),
    #[cfg(feature = "c06")] ("c06::pt_cross_i128_wide", crate::c06::pt_cross_i128_wide),
    #[cfg(feature = "c06")] ("c06::p_tags_bool", crate::c06::p_tags_bool),
    #[cfg(feature = "c06")] ("c06::p_tags_char", crate::c06::p_tags_char),
    #[cfg(feature = "c06")] ("c06::p_tags_i32", crate::c06::p_tags_i32),
    #[cfg(feature = "c06")] ("c06::p_tags_array", crate::c06::p_tags_array),
    #[cfg(feature = "c06")] ("c06::p_tags_bytes", crate::c06::p_tags_bytes),
    #[cfg(feature = "c06")] ("c06::p_tags_str", crate::c06::p_tags_str),
    #[cfg(feature = "c06")] ("c06::bt_text_1", crate::c06::bt_text_1),
    #[cfg(feature = "c06")] ("c06::bt_text_2", crate::c06::bt_text_2),
    #[cfg(feature = "c06")] ("c06::b_text_3", crate::c06::b_text_3),
    #[cfg(feature = "c06")] ("c06::bt_text_4", crate::c06::bt_text_4),
    #[cfg(feature = "c06")] ("c06::p_char_invalid", crate::c06::p_char_invalid),
    #[cfg(feature = "c07")] ("c07::p_unit", crate::c07::p_unit),
    #[cfg(feature = "c07")] ("c07::p_true", crate::c07::p_true),
    #[cfg(feature = "c07")] ("c07::p_false", crate::c07::p_false),
    #[cfg(feature = "c07")] ("c07::p_u8", crate::c07::p_u8),
    #[cfg(feature = "c07")] ("c07::p_i16", crate::c07::p_i16),
    #[cfg(feature = "c07")] ("c07::p_u32", crate::c07::p_u32),
    #[cfg(feature = "c07")] ("c07::pt_u64", crate::c07::pt_u64),
    #[cfg(feature = "c07")] ("c07::b_u128_max", crate::c07::b_u128_max),
    #[cfg(feature = "c07")] ("c07::b_i128_min", crate::c07::b_i128_min),
    #[cfg(feature = "c07")] ("c07::b_i64_min", crate::c07::b_i64_min),
    #[cfg(feature = "c07")] ("c07::b_f64_nan", crate::c07::b_f64_nan),
    #[cfg(feature = "c07")] ("c07::p_f32", crate::c07::p_f32),
    #[cfg(feature = "c07")] ("c07::b_usize", crate::c07::b_usize),
    #[cfg(feature = "c07")] ("c07::b_usize_fixed", crate::c07::b_usize_fixed),
    #[cfg(feature = "c07")] ("c07::b_isize", crate::c07::b_isize),
    #[cfg(feature = "c07")] ("c07::pt_char", crate::c07::pt_char),
    #[cfg(feature = "c07")] ("c07::b_char", crate::c07::b_char),
    #[cfg(feature = "c07")] ("c07::p_option_none", crate::c07::p_option_none),
    #[cfg(feature = "c07")] ("c07::p_option_some_none", crate::c07::p_option_some_none),
    #[cfg(feature = "c07")] ("c07::pt_option_some", crate::c07::pt_option_some),
    #[cfg(feature = "c07")] ("c07::b_option_some", crate::c07::b_option_some),
    #[cfg(feature = "c07")] ("c07::b_tuple", crate::c07::b_tuple),
    #[cfg(feature = "c07")] ("c07::pt_tuple", crate::c07::pt_tuple),
    #[cfg(feature = "c07")] ("c07::b_array", crate::c07::b_array),
    #[cfg(feature = "c07")] ("c07::b_nested", crate::c07::b_nested),
    #[cfg(feature = "c07")] ("c07::p_bytes", crate::c07::p_bytes),
    #[cfg(feature = "c07")] ("c07::b_named", crate::c07::b_named),
    #[cfg(feature = "c07")] ("c07::pt_named_none", crate::c07::pt_named_none),
    #[cfg(feature = "c07")] ("c07::p_packed", crate::c07::p_packed),
    #[cfg(feature = "c07")] ("c07::p_unit_variant", crate::c07::p_unit_variant),
    #[cfg(feature = "c07")] ("c07::pt_tuple_variant", crate::c07::pt_tuple_variant),
    #[cfg(feature = "c07")] ("c07::b_tuple_variant", crate::c07::b_tuple_variant),
    #[cfg(feature = "c07")] ("c07::b_struct_variant", crate::c07::b_struct_variant),
    #[cfg(feature = "c07")] ("c07::b_long_bytes_var", crate::c07::b_long_bytes_var),
    #[cfg(feature = "c07")] ("c07::b_long_bytes_le", crate::c07::b_long_bytes_le),
    #[cfg(feature = "c07")] ("c07::b_long_sequence_var", crate::c07::b_long_sequence_var),
    #[cfg(feature = "c07")] ("c07::b_long_sequence_be", crate::c07::b_long_sequence_be),
    #[cfg(feature = "c07")] ("c07::bt_any_var_2", crate::c07::bt_any_var_2),
    #[cfg(feature = "c07")] ("c07::bt_any_var_3", crate::c07::bt_any_var_3),
    #[cfg(feature = "c07")] ("c07::bt_any_var_4", crate::c07::bt_any_var_4),
    #[cfg(feature = "c07")] ("c07::b_any_fixed1_2", crate::c07::b_any_fixed1_2),
    #[cfg(feature = "c07")] ("c07::bt_any_fixed1_3", crate::c07::bt_any_fixed1_3),
    #[cfg(feature = "c07")] ("c07::bt_any_fixed2_be_4", crate::c07::bt_any_fixed2_be_4),
    #[cfg(feature = "c09")] ("c09::p_slice_skip", crate::c09::p_slice_skip),
    #[cfg(feature = "c09")] ("c09::p_slice_bytes", crate::c09::p_slice_bytes),
    #[cfg(feature = "c09")] ("c09::p_slice_byte", crate::c09::p_slice_byte),
    #[cfg(feature = "c09")] ("c09::p_slice_array", crate::c09::p_slice_array),
    #[cfg(feature = "c09")] ("c09::p_slice_read", crate::c09::p_slice_read),
    #[cfg(feature = "c09")] ("c09::p_slice_uninit", crate::c09::p_slice_uninit),
    #[cfg(feature = "c09")] ("c09::p_slice_clone", crate::c09::p_slice_clone),
    #[cfg(feature = "c09")] ("c09::p_reader_skip", crate::c09::p_reader_skip),
    #[cfg(feature = "c09")] ("c09::p_reader_bytes", crate::c09::p_reader_bytes),
    #[cfg(feature = "c09")] ("c09::p_reader_byte", crate::c09::p_reader_byte),
    #[cfg(feature = "c09")] ("c09::p_reader_array", crate::c09::p_reader_array),
    #[cfg(feature = "c09")] ("c09::p_reader_read", crate::c09::p_reader_read),
    #[cfg(feature = "c09")] ("c09::p_reader_uninit", crate::c09::p_reader_uninit),
    #[cfg(feature = "c09")] ("c09::p_reader_clone", crate::c09::p_reader_clone),
    #[cfg(feature = "c09")] ("c09::p_limit_slice", crate::c09::p_limit_slice),
    #[cfg(feature = "c09")] ("c09::p_limit_reader", crate::c09::p_limit_reader),
    #[cfg(feature = "c09")] ("c09::p_reader_views", crate::c09::p_reader_views),
    #[cfg(feature = "c10")] ("c10::p_slice_bytes", crate::c10::p_slice_bytes),
    #[cfg(feature = "c10")] ("c10::p_slice_byte", crate::c10::p_slice_byte),
    #[cfg(feature = "c10")] ("c10::p_slice_sequence", crate::c10::p_slice_sequence),
    #[cfg(feature = "c10")] ("c10::p_fixed", crate::c10::p_fixed),
    #[cfg(feature = "c10")] ("c10::p_fixed_mut", crate::c10::p_fixed_mut),
    #[cfg(feature = "c10")] ("c10::b_vec", crate::c10::b_vec),
    #[cfg(feature = "c10")] ("c10::b_fixed_grows", crate::c10::b_fixed_grows),
    #[cfg(feature = "c10")] ("c10::b_buf", crate::c10::b_buf),
    #[cfg(feature = "c10")] ("c10::b_wrapped", crate::c10::b_wrapped),
    #[cfg(feature = "c10")] ("c10::p_agree_storage", crate::c10::p_agree_storage),
    #[cfg(feature = "c10")] ("c10::p_agree_wire", crate::c10::p_agree_wire),
    #[cfg(feature = "c10")] ("c10::p_agree_wire_u16", crate::c10::p_agree_wire_u16),
    #[cfg(feature = "c10")] ("c10::pt_agree_descriptive", crate::c10::pt_agree_descriptive),
    #[cfg(feature = "c10")] ("c10::b_agree_bytes", crate::c10::b_agree_bytes),
    #[cfg(feature = "c11")] ("c11::p_digits_u8", crate::c11::p_digits_u8),
    #[cfg(feature = "c11")] ("c11::p_digits_i8", crate::c11::p_digits_i8),
    #[cfg(feature = "c11")] ("c11::p_digits_u16", crate::c11::p_digits_u16),
    #[cfg(feature = "c11")] ("c11::p_digits_i16", crate::c11::p_digits_i16),
    #[cfg(feature = "c11")] ("c11::p_digits_u32", crate::c11::p_digits_u32),
    #[cfg(feature = "c11")] ("c11::pt_digits_i32", crate::c11::pt_digits_i32),
    #[cfg(feature = "c11")] ("c11::pt_digits_u64", crate::c11::pt_digits_u64),
    #[cfg(feature = "c11")] ("c11::pt_digits_i64", crate::c11::pt_digits_i64),
    #[cfg(feature = "c11")] ("c11::pt_digits_usize", crate::c11::pt_digits_usize),
    #[cfg(feature = "c11")] ("c11::pt_digits_isize", crate::c11::pt_digits_isize),
    #[cfg(feature = "c11")] ("c11::pt_digits_u128", crate::c11::pt_digits_u128),
    #[cfg(feature = "c11")] ("c11::pt_digits_i128", crate::c11::pt_digits_i128),
    #[cfg(feature = "c11")] ("c11::b_near_u64", crate::c11::b_near_u64),
    #[cfg(feature = "c11")] ("c11::b_near_i64", crate::c11::b_near_i64),
    #[cfg(feature = "c11")] ("c11::b_near_i64_neg", crate::c11::b_near_i64_neg),
    #[cfg(feature = "c11")] ("c11::b_near_u128", crate::c11::b_near_u128),
    #[cfg(feature = "c11")] ("c11::bt_near_i128_neg", crate::c11::bt_near_i128_neg),
    #[cfg(feature = "c11")] ("c11::bt_near_usize", crate::c11::bt_near_usize),
    #[cfg(feature = "c11")] ("c11::bt_near_isize_neg", crate::c11::bt_near_isize_neg),
    #[cfg(feature = "c11")] ("c11::bt_near_i32_neg", crate::c11::bt_near_i32_neg),
    #[cfg(feature = "c12")] ("c12::bt_text3", crate::c12::bt_text3),
    #[cfg(feature = "c12")] ("c12::bt_text4", crate::c12::bt_text4),
    #[cfg(feature = "c12")] ("c12::bt_text5", crate::c12::bt_text5),
    #[cfg(feature = "c12")] ("c12::bt_text6", crate::c12::bt_text6),
    #[cfg(feature = "c12")] ("c12::bt_text7", crate::c12::bt_text7),
    #[cfg(feature = "c12")] ("c12::p_escape", crate::c12::p_escape),
    #[cfg(feature = "c12")] ("c12::pt_escape_hex", crate::c12::pt_escape_hex),
    #[cfg(feature = "c12")] ("c12::pt_escape_pair", crate::c12::pt_escape_pair),
    #[cfg(feature = "c12")] ("c12::pt_escape_lone", crate::c12::pt_escape_lone),
    #[cfg(feature = "c12")] ("c12::pt_escape_lone_end", crate::c12::pt_escape_lone_end),
    #[cfg(feature = "c12")] ("c12::b_format0", crate::c12::b_format0),
    #[cfg(feature = "c12")] ("c12::b_format1", crate::c12::b_format1),
    #[cfg(feature = "c12")] ("c12::b_format2", crate::c12::b_format2),
    #[cfg(feature = "c12")] ("c12::b_format3", crate::c12::b_format3),
    #[cfg(feature = "c12")] ("c12::bt_format4", crate::c12::bt_format4),
    #[cfg(feature = "c12")] ("c12::p_char1", crate::c12::p_char1),
    #[cfg(feature = "c12")] ("c12::pt_char2", crate::c12::pt_char2),
    #[cfg(feature = "c12")] ("c12::pt_char3", crate::c12::pt_char3),
    #[cfg(feature = "c12")] ("c12::p_char4", crate::c12::p_char4),
    #[cfg(feature = "c12")] ("c12::pt_char_more", crate::c12::pt_char_more),
    #[cfg(feature = "c12")] ("c12::bt_key_format", crate::c12::bt_key_format),
    #[cfg(feature = "c12")] ("c12::bt_key", crate::c12::bt_key),
    #[cfg(feature = "c12")] ("c12::bt_consumed4", crate::c12::bt_consumed4),
    #[cfg(feature = "c12")] ("c12::bt_consumed5", crate::c12::bt_consumed5),
    #[cfg(feature = "c12")] ("c12::bt_borrow", crate::c12::bt_borrow),
    #[cfg(feature = "c13")] ("c13::bt_text2", crate::c13::bt_text2),
    #[cfg(feature = "c13")] ("c13::bt_text3", crate::c13::bt_text3),
    #[cfg(feature = "c13")] ("c13::bt_text4", crate::c13::bt_text4),
    #[cfg(feature = "c13")] ("c13::bt_text5", crate::c13::bt_text5),
    #[cfg(feature = "c13")] ("c13::b_zero", crate::c13::b_zero),
    #[cfg(feature = "c13")] ("c13::b_digit", crate::c13::b_digit),
    #[cfg(feature = "c13")] ("c13::b_minus", crate::c13::b_minus),
    #[cfg(feature = "c13")] ("c13::b_string3", crate::c13::b_string3),
    #[cfg(feature = "c13")] ("c13::b_string4", crate::c13::b_string4),
    #[cfg(feature = "c13")] ("c13::bt_digit6", crate::c13::bt_digit6),
    #[cfg(feature = "c13")] ("c13::bt_minus6", crate::c13::bt_minus6),
    #[cfg(feature = "c13")] ("c13::bt_string5", crate::c13::bt_string5),
    #[cfg(feature = "c13")] ("c13::p_null", crate::c13::p_null),
    #[cfg(feature = "c13")] ("c13::p_true", crate::c13::p_true),
    #[cfg(feature = "c13")] ("c13::p_false", crate::c13::p_false),
    #[cfg(feature = "c13")] ("c13::bt_array_string", crate::c13::bt_array_string),
    #[cfg(feature = "c13")] ("c13::bt_object_string", crate::c13::bt_object_string),
    #[cfg(feature = "c13")] ("c13::bt_object_key", crate::c13::bt_object_key),
    #[cfg(feature = "c13")] ("c13::b_array1", crate::c13::b_array1),
    #[cfg(feature = "c13")] ("c13::b_array2", crate::c13::b_array2),
    #[cfg(feature = "c13")] ("c13::b_array_array", crate::c13::b_array_array),
    #[cfg(feature = "c13")] ("c13::bt_array_array", crate::c13::bt_array_array),
    #[cfg(feature = "c13")] ("c13::b_object1", crate::c13::b_object1),
    #[cfg(feature = "c13")] ("c13::b_object2", crate::c13::b_object2),
    #[cfg(feature = "c13")] ("c13::b_object_array", crate::c13::b_object_array),
    #[cfg(feature = "c13")] ("c13::bt_object_array", crate::c13::bt_object_array),
    #[cfg(feature = "c13")] ("c13::b_array_object", crate::c13::b_array_object),
    #[cfg(feature = "c13")] ("c13::bt_array_open", crate::c13::bt_array_open),
    #[cfg(feature = "c13")] ("c13::bt_object_open", crate::c13::bt_object_open),
    #[cfg(feature = "c13")] ("c13::p_empty", crate::c13::p_empty),
    #[cfg(feature = "c13")] ("c13::b_total_bool", crate::c13::b_total_bool),
    #[cfg(feature = "c13")] ("c13::b_total_option", crate::c13::b_total_option),
    #[cfg(feature = "c13")] ("c13::bt_total_unit", crate::c13::bt_total_unit),
    #[cfg(feature = "c13")] ("c13::bt_total_char", crate::c13::bt_total_char),
    #[cfg(feature = "c13")] ("c13::bt_total_pair", crate::c13::bt_total_pair),
    #[cfg(feature = "c13")] ("c13::bt_total_array", crate::c13::bt_total_array),
    #[cfg(feature = "c13")] ("c13::bt_total_array_short", crate::c13::bt_total_array_short),
    #[cfg(feature = "c13")] ("c13::bt_total_vec", crate::c13::bt_total_vec),
    #[cfg(feature = "c13")] ("c13::bt_total_f32", crate::c13::bt_total_f32),
    #[cfg(feature = "c13")] ("c13::bt_total_f64", crate::c13::bt_total_f64),
    #[cfg(feature = "c13")] ("c13::bt_array_exact", crate::c13::bt_array_exact),
    #[cfg(feature = "c13")] ("c13::b_array_len0", crate::c13::b_array_len0),
    #[cfg(feature = "c13")] ("c13::b_array_len1", crate::c13::b_array_len1),
    #[cfg(feature = "c13")] ("c13::b_array_len2", crate::c13::b_array_len2),
    #[cfg(feature = "c13")] ("c13::b_array_len3", crate::c13::b_array_len3),
    #[cfg(feature = "c15")] ("c15::p_push", crate::c15::p_push),
    #[cfg(feature = "c15")] ("c15::p_pop", crate::c15::p_pop),
    #[cfg(feature = "c15")] ("c15::p_clear", crate::c15::p_clear),
    #[cfg(feature = "c15")] ("c15::b_extend_from_slice", crate::c15::b_extend_from_slice),
    #[cfg(feature = "c15")] ("c15::b_extend", crate::c15::b_extend),
    #[cfg(feature = "c15")] ("c15::p_reserve", crate::c15::p_reserve),
    #[cfg(feature = "c15")] ("c15::p_with_capacity", crate::c15::p_with_capacity),
    #[cfg(feature = "c15")] ("c15::p_parts", crate::c15::p_parts),
    #[cfg(feature = "c15")] ("c15::b_compare", crate::c15::b_compare),
    #[cfg(feature = "c15")] ("c15::p_drop_vec", crate::c15::p_drop_vec),
    #[cfg(feature = "c15")] ("c15::p_drop_clear", crate::c15::p_drop_clear),
    #[cfg(feature = "c15")] ("c15::p_drop_pop", crate::c15::p_drop_pop),
    #[cfg(feature = "c15")] ("c15::p_drop_push", crate::c15::p_drop_push),
    #[cfg(feature = "c15")] ("c15::p_drop_parts", crate::c15::p_drop_parts),
    #[cfg(feature = "c15")] ("c15::p_drop_box", crate::c15::p_drop_box),
    #[cfg(feature = "c15")] ("c15::p_drop_marks", crate::c15::p_drop_marks),
    #[cfg(feature = "c15")] ("c15::p_string_push", crate::c15::p_string_push),
    #[cfg(feature = "c15")] ("c15::b_string_push_str", crate::c15::b_string_push_str),
    #[cfg(feature = "c15")] ("c15::b_system_u8", crate::c15::b_system_u8),
    #[cfg(feature = "c15")] ("c15::b_system_u64", crate::c15::b_system_u64),
    #[cfg(feature = "c15")] ("c15::p_system_box", crate::c15::p_system_box),
    #[cfg(feature = "c15")] ("c15::b_system_std", crate::c15::b_system_std),
    #[cfg(feature = "c22")] ("c22::p_u8", crate::c22::p_u8),
    #[cfg(feature = "c22")] ("c22::p_u16", crate::c22::p_u16),
    #[cfg(feature = "c22")] ("c22::p_u32", crate::c22::p_u32),
    #[cfg(feature = "c22")] ("c22::p_u64", crate::c22::p_u64),
    #[cfg(feature = "c22")] ("c22::p_u128", crate::c22::p_u128),
    #[cfg(feature = "c22")] ("c22::p_usize", crate::c22::p_usize),
    #[cfg(feature = "c22")] ("c22::p_i8", crate::c22::p_i8),
    #[cfg(feature = "c22")] ("c22::p_i16", crate::c22::p_i16),
    #[cfg(feature = "c22")] ("c22::p_i32", crate::c22::p_i32),
    #[cfg(feature = "c22")] ("c22::p_i64", crate::c22::p_i64),
    #[cfg(feature = "c22")] ("c22::p_i128", crate::c22::p_i128),
    #[cfg(feature = "c22")] ("c22::p_isize", crate::c22::p_isize),
    #[cfg(feature = "c22")] ("c22::p_f32", crate::c22::p_f32),
    #[cfg(feature = "c22")] ("c22::p_f64", crate::c22::p_f64),
    #[cfg(feature = "c22")] ("c22::p_nonzero_unsigned", crate::c22::p_nonzero_unsigned),
    #[cfg(feature = "c22")] ("c22::p_nonzero_signed", crate::c22::p_nonzero_signed),
    #[cfg(feature = "c22")] ("c22::p_other", crate::c22::p_other),
    #[cfg(feature = "c22")] ("c22::p_array", crate::c22::p_array),
    #[cfg(feature = "c22")] ("c22::p_struct", crate::c22::p_struct),
    #[cfg(feature = "c22")] ("c22::p_enum", crate::c22::p_enum),
    #[cfg(feature = "c22")] ("c22::p_stored", crate::c22::p_stored),
    #[cfg(feature = "c25")] ("c25::p_u8", crate::c25::p_u8),
    #[cfg(feature = "c25")] ("c25::p_u16", crate::c25::p_u16),
    #[cfg(feature = "c25")] ("c25::p_u32", crate::c25::p_u32),
    #[cfg(feature = "c25")] ("c25::p_u64", crate::c25::p_u64),
    #[cfg(feature = "c25")] ("c25::p_u128", crate::c25::p_u128),
    #[cfg(feature = "c25")] ("c25::p_usize", crate::c25::p_usize),
    #[cfg(feature = "c25")] ("c25::p_i8", crate::c25::p_i8),
    #[cfg(feature = "c25")] ("c25::p_i16", crate::c25::p_i16),
    #[cfg(feature = "c25")] ("c25::p_i32", crate::c25::p_i32),
    #[cfg(feature = "c25")] ("c25::p_i64", crate::c25::p_i64),
    #[cfg(feature = "c25")] ("c25::p_i128", crate::c25::p_i128),
    #[cfg(feature = "c25")] ("c25::p_isize", crate::c25::p_isize),
    #[cfg(feature = "c25")] ("c25::p_scalars", crate::c25::p_scalars),
    #[cfg(feature = "c25")] ("c25::p_kinds", crate::c25::p_kinds),
    #[cfg(feature = "c25")] ("c25::p_options", crate::c25::p_options),
    #[cfg(feature = "c25")] ("c25::p_tuples", crate::c25::p_tuples),
    #[cfg(feature = "c25")] ("c25::p_arrays", crate::c25::p_arrays),
    #[cfg(feature = "c25")] ("c25::b_list0", crate::c25::b_list0),
    #[cfg(feature = "c25")] ("c25::b_list1", crate::c25::b_list1),
    #[cfg(feature = "c25")] ("c25::b_list3", crate::c25::b_list3),
    #[cfg(feature = "c25")] ("c25::p_bytes", crate::c25::p_bytes),
    #[cfg(feature = "c25")] ("c25::p_struct", crate::c25::p_struct),
    #[cfg(feature = "c25")] ("c25::p_packed", crate::c25::p_packed),
    #[cfg(feature = "c25")] ("c25::p_enum_unit", crate::c25::p_enum_unit),
    #[cfg(feature = "c25")] ("c25::p_enum_tuple", crate::c25::p_enum_tuple),
    #[cfg(feature = "c25")] ("c25::p_enum_named", crate::c25::p_enum_named),
    #[cfg(feature = "c25")] ("c25::p_enum_nothing", crate::c25::p_enum_nothing),
    #[cfg(feature = "c25")] ("c25::p_outer", crate::c25::p_outer),
    #[cfg(feature = "c25")] ("c25::p_via_unit", crate::c25::p_via_unit),
    #[cfg(feature = "c25")] ("c25::p_via_bool", crate::c25::p_via_bool),
    #[cfg(feature = "c25")] ("c25::p_via_char", crate::c25::p_via_char),
    #[cfg(feature = "c25")] ("c25::p_via_u8", crate::c25::p_via_u8),
    #[cfg(feature = "c25")] ("c25::p_via_i16", crate::c25::p_via_i16),
    #[cfg(feature = "c25")] ("c25::p_via_u32", crate::c25::p_via_u32),
    #[cfg(feature = "c25")] ("c25::p_via_i64", crate::c25::p_via_i64),
    #[cfg(feature = "c25")] ("c25::p_via_u128", crate::c25::p_via_u128),
    #[cfg(feature = "c25")] ("c25::p_via_isize", crate::c25::p_via_isize),
    #[cfg(feature = "c25")] ("c25::p_via_option", crate::c25::p_via_option),
    #[cfg(feature = "c25")] ("c25::p_via_tuple", crate::c25::p_via_tuple),
    #[cfg(feature = "c25")] ("c25::p_via_array", crate::c25::p_via_array),
    #[cfg(feature = "c25")] ("c25::p_via_nested", crate::c25::p_via_nested),
    #[cfg(feature = "c25")] ("c25::p_via_enum", crate::c25::p_via_enum),
    #[cfg(feature = "c25")] ("c25::p_via_named", crate::c25::p_via_named),
    #[cfg(feature = "c25")] ("c25::p_via_packed", crate::c25::p_via_packed),
    #[cfg(feature = "c25")] ("c25::p_via_float", crate::c25::p_via_float),
    #[cfg(feature = "c25")] ("c25::p_via_text", crate::c25::p_via_text),
    #[cfg(feature = "c26")] ("c26::p_ints", crate::c26::p_ints),
    #[cfg(feature = "c26")] ("c26::p_ints_be", crate::c26::p_ints_be),
    #[cfg(feature = "c26")] ("c26::p_mixed", crate::c26::p_mixed),
    #[cfg(feature = "c26")] ("c26::p_mixed_be", crate::c26::p_mixed_be),
    #[cfg(feature = "c26")] ("c26::p_nested", crate::c26::p_nested),
    #[cfg(feature = "c26")] ("c26::p_nested_be", crate::c26::p_nested_be),
    #[cfg(feature = "c26")] ("c26::p_wide", crate::c26::p_wide),
    #[cfg(feature = "c26")] ("c26::p_even", crate::c26::p_even),
    #[cfg(feature = "c26")] ("c26::p_even_be", crate::c26::p_even_be),
    #[cfg(feature = "c26")] ("c26::p_short_ints", crate::c26::p_short_ints),
    #[cfg(feature = "c26")] ("c26::p_short_ints_be", crate::c26::p_short_ints_be),
    #[cfg(feature = "c26")] ("c26::p_short_mixed", crate::c26::p_short_mixed),
    #[cfg(feature = "c26")] ("c26::p_short_nested", crate::c26::p_short_nested),
    #[cfg(feature = "c26")] ("c26::p_short_even", crate::c26::p_short_even),
    #[cfg(feature = "c26")] ("c26::b_seq_even", crate::c26::b_seq_even),
    #[cfg(feature = "c26")] ("c26::b_seq_even_be", crate::c26::b_seq_even_be),
    #[cfg(feature = "c26")] ("c26::b_seq_ints", crate::c26::b_seq_ints),
    #[cfg(feature = "c26")] ("c26::b_seq_nested", crate::c26::b_seq_nested),
];
