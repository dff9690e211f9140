// Generated by gen_registry.py.
#[cfg(not(kani))]
pub static ALL: &[(&str, fn())] = &[
    #[cfg(feature = "c08")] ("c08::b_storage_bytes", crate::c08::b_storage_bytes),
    #[cfg(feature = "c08")] ("c08::b_storage_seq_u8", crate::c08::b_storage_seq_u8),
    #[cfg(feature = "c08")] ("c08::b_storage_seq_bulk", crate::c08::b_storage_seq_bulk),
    #[cfg(feature = "c08")] ("c08::b_storage_seq_u16", crate::c08::b_storage_seq_u16),
    #[cfg(feature = "c08")] ("c08::b_storage_named", crate::c08::b_storage_named),
    #[cfg(feature = "c08")] ("c08::b_storage_choice", crate::c08::b_storage_choice),
    #[cfg(feature = "c08")] ("c08::b_storage_packed", crate::c08::b_storage_packed),
    #[cfg(feature = "c08")] ("c08::b_storage_array", crate::c08::b_storage_array),
    #[cfg(feature = "c08")] ("c08::b_storage_tuple", crate::c08::b_storage_tuple),
    #[cfg(feature = "c08")] ("c08::b_storage_text", crate::c08::b_storage_text),
    #[cfg(feature = "c08")] ("c08::b_storage_char", crate::c08::b_storage_char),
    #[cfg(feature = "c08")] ("c08::b_wire_bytes", crate::c08::b_wire_bytes),
    #[cfg(feature = "c08")] ("c08::b_wire_seq", crate::c08::b_wire_seq),
    #[cfg(feature = "c08")] ("c08::bt_wire_seq_3", crate::c08::bt_wire_seq_3),
    #[cfg(feature = "c08")] ("c08::bt_wire_named", crate::c08::bt_wire_named),
    #[cfg(feature = "c08")] ("c08::b_wire_choice", crate::c08::b_wire_choice),
    #[cfg(feature = "c08")] ("c08::bt_wire_choice_3", crate::c08::bt_wire_choice_3),
    #[cfg(feature = "c08")] ("c08::b_wire_packed", crate::c08::b_wire_packed),
    #[cfg(feature = "c08")] ("c08::b_wire_array", crate::c08::b_wire_array),
    #[cfg(feature = "c08")] ("c08::b_wire_tuple", crate::c08::b_wire_tuple),
    #[cfg(feature = "c08")] ("c08::b_wire_char", crate::c08::b_wire_char),
    #[cfg(feature = "c08")] ("c08::b_descriptive_bytes", crate::c08::b_descriptive_bytes),
    #[cfg(feature = "c08")] ("c08::b_descriptive_seq", crate::c08::b_descriptive_seq),
    #[cfg(feature = "c08")] ("c08::bt_descriptive_seq_3", crate::c08::bt_descriptive_seq_3),
    #[cfg(feature = "c08")] ("c08::bt_descriptive_named", crate::c08::bt_descriptive_named),
    #[cfg(feature = "c08")] ("c08::b_descriptive_choice", crate::c08::b_descriptive_choice),
    #[cfg(feature = "c08")] ("c08::bt_descriptive_choice_3", crate::c08::bt_descriptive_choice_3),
    #[cfg(feature = "c08")] ("c08::b_descriptive_packed", crate::c08::b_descriptive_packed),
    #[cfg(feature = "c08")] ("c08::b_descriptive_array", crate::c08::b_descriptive_array),
    #[cfg(feature = "c08")] ("c08::b_descriptive_tuple", crate::c08::b_descriptive_tuple),
    #[cfg(feature = "c08")] ("c08::b_descriptive_char", crate::c08::b_descriptive_char),
    #[cfg(feature = "c11")] ("c11::p_compute_u8", crate::c11::p_compute_u8),
    #[cfg(feature = "c11")] ("c11::pt_compute_u16", crate::c11::pt_compute_u16),
    #[cfg(feature = "c11")] ("c11::pt_compute_u32", crate::c11::pt_compute_u32),
    #[cfg(feature = "c11")] ("c11::p_signed_i8", crate::c11::p_signed_i8),
    #[cfg(feature = "c11")] ("c11::p_signed_i16", crate::c11::p_signed_i16),
    #[cfg(feature = "c11")] ("c11::p_compute_u32_0", crate::c11::p_compute_u32_0),
    #[cfg(feature = "c11")] ("c11::p_compute_u32_1", crate::c11::p_compute_u32_1),
    #[cfg(feature = "c11")] ("c11::pt_compute_u32_9", crate::c11::pt_compute_u32_9),
    #[cfg(feature = "c11")] ("c11::p_compute_u32_m1", crate::c11::p_compute_u32_m1),
    #[cfg(feature = "c11")] ("c11::p_compute_u64_0", crate::c11::p_compute_u64_0),
    #[cfg(feature = "c11")] ("c11::p_compute_u64_2", crate::c11::p_compute_u64_2),
    #[cfg(feature = "c11")] ("c11::pt_compute_u64_19", crate::c11::pt_compute_u64_19),
    #[cfg(feature = "c11")] ("c11::pt_compute_u64_m2", crate::c11::pt_compute_u64_m2),
    #[cfg(feature = "c11")] ("c11::bt_text5_u8", crate::c11::bt_text5_u8),
    #[cfg(feature = "c11")] ("c11::b_text3_i8", crate::c11::b_text3_i8),
    #[cfg(feature = "c11")] ("c11::b_text3_u8", crate::c11::b_text3_u8),
    #[cfg(feature = "c11")] ("c11::bt_text4_i8", crate::c11::bt_text4_i8),
    #[cfg(feature = "c11")] ("c11::bt_text4_u8", crate::c11::bt_text4_u8),
    #[cfg(feature = "c11")] ("c11::bt_text5_i8", crate::c11::bt_text5_i8),
    #[cfg(feature = "c11")] ("c11::bt_text6_u16", crate::c11::bt_text6_u16),
    #[cfg(feature = "c11")] ("c11::bt_text7_u8", crate::c11::bt_text7_u8),
    #[cfg(feature = "c11")] ("c11::bt_text6_i16", crate::c11::bt_text6_i16),
    #[cfg(feature = "c11")] ("c11::p_format_u8", crate::c11::p_format_u8),
    #[cfg(feature = "c11")] ("c11::p_format_i8", crate::c11::p_format_i8),
    #[cfg(feature = "c11")] ("c11::p_format_u16", crate::c11::p_format_u16),
    #[cfg(feature = "c11")] ("c11::p_format_i16", crate::c11::p_format_i16),
    #[cfg(feature = "c11")] ("c11::pt_format_u32", crate::c11::pt_format_u32),
    #[cfg(feature = "c11")] ("c11::pt_format_i32", crate::c11::pt_format_i32),
    #[cfg(feature = "c11")] ("c11::bt_key_u8", crate::c11::bt_key_u8),
    #[cfg(feature = "c11")] ("c11::bt_key_i8", crate::c11::bt_key_i8),
    #[cfg(feature = "c11")] ("c11::bt_key_u64", crate::c11::bt_key_u64),
    #[cfg(feature = "c11")] ("c11::b_key_format", crate::c11::b_key_format),
    #[cfg(feature = "c12")] ("c12::p_escape_short", crate::c12::p_escape_short),
    #[cfg(feature = "c12")] ("c12::p_escape_hex", crate::c12::p_escape_hex),
    #[cfg(feature = "c12")] ("c12::p_escape_pair", crate::c12::p_escape_pair),
    #[cfg(feature = "c12")] ("c12::p_escape_pair_upper", crate::c12::p_escape_pair_upper),
    #[cfg(feature = "c12")] ("c12::p_skip_escape", crate::c12::p_skip_escape),
    #[cfg(feature = "c12")] ("c12::p_cut1", crate::c12::p_cut1),
    #[cfg(feature = "c12")] ("c12::p_cut4", crate::c12::p_cut4),
    #[cfg(feature = "c12")] ("c12::p_cut6", crate::c12::p_cut6),
    #[cfg(feature = "c12")] ("c12::p_cut8", crate::c12::p_cut8),
    #[cfg(feature = "c12")] ("c12::p_cut10", crate::c12::p_cut10),
    #[cfg(feature = "c12")] ("c12::b_parse1", crate::c12::b_parse1),
    #[cfg(feature = "c12")] ("c12::b_parse2", crate::c12::b_parse2),
    #[cfg(feature = "c12")] ("c12::bt_parse3", crate::c12::bt_parse3),
    #[cfg(feature = "c12")] ("c12::bt_parse4", crate::c12::bt_parse4),
    #[cfg(feature = "c12")] ("c12::bt_parse5", crate::c12::bt_parse5),
    #[cfg(feature = "c14")] ("c14::p_alloc_u8_000", crate::c14::p_alloc_u8_000),
    #[cfg(feature = "c14")] ("c14::p_alloc_u64_000", crate::c14::p_alloc_u64_000),
    #[cfg(feature = "c14")] ("c14::p_alloc_u64_000_room", crate::c14::p_alloc_u64_000_room),
    #[cfg(feature = "c14")] ("c14::p_alloc_u64_010", crate::c14::p_alloc_u64_010),
    #[cfg(feature = "c14")] ("c14::p_alloc_u64_100", crate::c14::p_alloc_u64_100),
    #[cfg(feature = "c14")] ("c14::p_alloc_u64_100_room", crate::c14::p_alloc_u64_100_room),
    #[cfg(feature = "c14")] ("c14::pt_alloc_u64_210", crate::c14::pt_alloc_u64_210),
    #[cfg(feature = "c14")] ("c14::p_alloc_u32_201", crate::c14::p_alloc_u32_201),
    #[cfg(feature = "c14")] ("c14::pt_alloc_u64_301", crate::c14::pt_alloc_u64_301),
    #[cfg(feature = "c14")] ("c14::pt_alloc_u16_311", crate::c14::pt_alloc_u16_311),
    #[cfg(feature = "c14")] ("c14::p_empty_u64_000", crate::c14::p_empty_u64_000),
    #[cfg(feature = "c14")] ("c14::p_empty_u64_210", crate::c14::p_empty_u64_210),
    #[cfg(feature = "c14")] ("c14::p_empty_u64_201", crate::c14::p_empty_u64_201),
    #[cfg(feature = "c14")] ("c14::pt_empty_u64_301", crate::c14::pt_empty_u64_301),
    #[cfg(feature = "c14")] ("c14::p_drop_1_1", crate::c14::p_drop_1_1),
    #[cfg(feature = "c14")] ("c14::p_drop_2_1", crate::c14::p_drop_2_1),
    #[cfg(feature = "c14")] ("c14::p_drop_2_2", crate::c14::p_drop_2_2),
    #[cfg(feature = "c14")] ("c14::p_drop_v2_2", crate::c14::p_drop_v2_2),
    #[cfg(feature = "c14")] ("c14::p_drop_v3_2", crate::c14::p_drop_v3_2),
    #[cfg(feature = "c14")] ("c14::p_drop_v3_3", crate::c14::p_drop_v3_3),
    #[cfg(feature = "c14")] ("c14::p_drop_5_3", crate::c14::p_drop_5_3),
    #[cfg(feature = "c14")] ("c14::p_drop_v5_3", crate::c14::p_drop_v5_3),
    #[cfg(feature = "c14")] ("c14::p_resize_u8_1", crate::c14::p_resize_u8_1),
    #[cfg(feature = "c14")] ("c14::p_resize_u64_1", crate::c14::p_resize_u64_1),
    #[cfg(feature = "c14")] ("c14::p_resize_u64_2_2", crate::c14::p_resize_u64_2_2),
    #[cfg(feature = "c14")] ("c14::p_resize_u64_v2_2", crate::c14::p_resize_u64_v2_2),
    #[cfg(feature = "c14")] ("c14::bt_resize_u32_2_1", crate::c14::bt_resize_u32_2_1),
    #[cfg(feature = "c14")] ("c14::b_resize_u32_2_1_free", crate::c14::b_resize_u32_2_1_free),
    #[cfg(feature = "c14")] ("c14::bt_resize_u32_v3_2", crate::c14::bt_resize_u32_v3_2),
    #[cfg(feature = "c14")] ("c14::bt_resize_u8_v3_2", crate::c14::bt_resize_u8_v3_2),
    #[cfg(feature = "c14")] ("c14::bt_resize_u32_v3_3", crate::c14::bt_resize_u32_v3_3),
    #[cfg(feature = "c14")] ("c14::bt_resize_u16_5_3", crate::c14::bt_resize_u16_5_3),
    #[cfg(feature = "c14")] ("c14::bt_resize_u16_v5_3", crate::c14::bt_resize_u16_v5_3),
    #[cfg(feature = "c14")] ("c14::pt_resize_u8_2_1", crate::c14::pt_resize_u8_2_1),
    #[cfg(feature = "c14")] ("c14::pt_resize_u8_v3_2", crate::c14::pt_resize_u8_v3_2),
    #[cfg(feature = "c14")] ("c14::b_merge_u8_2", crate::c14::b_merge_u8_2),
    #[cfg(feature = "c14")] ("c14::b_merge_u8_2_00", crate::c14::b_merge_u8_2_00),
    #[cfg(feature = "c14")] ("c14::b_merge_u8_2_back", crate::c14::b_merge_u8_2_back),
    #[cfg(feature = "c14")] ("c14::bt_merge_u16_3_13", crate::c14::bt_merge_u16_3_13),
    #[cfg(feature = "c14")] ("c14::bt_merge_u32_3_23", crate::c14::bt_merge_u32_3_23),
    #[cfg(feature = "c14")] ("c14::bt_merge_u16_v3_23", crate::c14::bt_merge_u16_v3_23),
    #[cfg(feature = "c14")] ("c14::bt_merge_u16_v5_23", crate::c14::bt_merge_u16_v5_23),
    #[cfg(feature = "c14")] ("c14::bt_merge_u16_5_13", crate::c14::bt_merge_u16_5_13),
    #[cfg(feature = "c14")] ("c14::bt_merge_u16_5_24", crate::c14::bt_merge_u16_5_24),
    #[cfg(feature = "c14")] ("c14::pt_merge_u8_2", crate::c14::pt_merge_u8_2),
    #[cfg(feature = "c14")] ("c14::p_new", crate::c14::p_new),
    #[cfg(feature = "c14")] ("c14::p_zst", crate::c14::p_zst),
    #[cfg(feature = "c16")] ("c16::p_bounds_u8", crate::c16::p_bounds_u8),
    #[cfg(feature = "c16")] ("c16::p_bounds_u32", crate::c16::p_bounds_u32),
    #[cfg(feature = "c16")] ("c16::p_bounds_u128", crate::c16::p_bounds_u128),
    #[cfg(feature = "c16")] ("c16::p_bounds_array", crate::c16::p_bounds_array),
    #[cfg(feature = "c16")] ("c16::p_bounds_none", crate::c16::p_bounds_none),
    #[cfg(feature = "c16")] ("c16::p_bounds_unit", crate::c16::p_bounds_unit),
    #[cfg(feature = "c16")] ("c16::p_bounds_bool", crate::c16::p_bounds_bool),
    #[cfg(feature = "c16")] ("c16::p_bounds_char", crate::c16::p_bounds_char),
    #[cfg(feature = "c16")] ("c16::pt_bounds_nonzero", crate::c16::pt_bounds_nonzero),
    #[cfg(feature = "c16")] ("c16::p_outside_unit", crate::c16::p_outside_unit),
    #[cfg(feature = "c16")] ("c16::p_outside_plain", crate::c16::p_outside_plain),
    #[cfg(feature = "c16")] ("c16::p_load_u8", crate::c16::p_load_u8),
    #[cfg(feature = "c16")] ("c16::p_load_u32", crate::c16::p_load_u32),
    #[cfg(feature = "c16")] ("c16::p_load_u128", crate::c16::p_load_u128),
    #[cfg(feature = "c16")] ("c16::p_load_f64", crate::c16::p_load_f64),
    #[cfg(feature = "c16")] ("c16::p_load_unit", crate::c16::p_load_unit),
    #[cfg(feature = "c16")] ("c16::p_load_bool", crate::c16::p_load_bool),
    #[cfg(feature = "c16")] ("c16::p_load_char", crate::c16::p_load_char),
    #[cfg(feature = "c16")] ("c16::p_load_nonzero_u8", crate::c16::p_load_nonzero_u8),
    #[cfg(feature = "c16")] ("c16::pt_load_nonzero_i8", crate::c16::pt_load_nonzero_i8),
    #[cfg(feature = "c16")] ("c16::pt_load_nonzero_u16", crate::c16::pt_load_nonzero_u16),
    #[cfg(feature = "c16")] ("c16::p_load_nonzero_i16", crate::c16::p_load_nonzero_i16),
    #[cfg(feature = "c16")] ("c16::p_load_nonzero_u32", crate::c16::p_load_nonzero_u32),
    #[cfg(feature = "c16")] ("c16::pt_load_nonzero_i32", crate::c16::pt_load_nonzero_i32),
    #[cfg(feature = "c16")] ("c16::pt_load_nonzero_u64", crate::c16::pt_load_nonzero_u64),
    #[cfg(feature = "c16")] ("c16::p_load_nonzero_i64", crate::c16::p_load_nonzero_i64),
    #[cfg(feature = "c16")] ("c16::pt_load_nonzero_usize", crate::c16::pt_load_nonzero_usize),
    #[cfg(feature = "c16")] ("c16::pt_load_nonzero_isize", crate::c16::pt_load_nonzero_isize),
    #[cfg(feature = "c16")] ("c16::p_load_nonzero_u128", crate::c16::p_load_nonzero_u128),
    #[cfg(feature = "c16")] ("c16::p_load_nonzero_i128", crate::c16::p_load_nonzero_i128),
    #[cfg(feature = "c16")] ("c16::p_load_option", crate::c16::p_load_option),
    #[cfg(feature = "c16")] ("c16::p_load_endian", crate::c16::p_load_endian),
    #[cfg(feature = "c16")] ("c16::p_load_ref", crate::c16::p_load_ref),
    #[cfg(feature = "c16")] ("c16::p_load_packed_ref", crate::c16::p_load_packed_ref),
    #[cfg(feature = "c16")] ("c16::p_load_array_bool", crate::c16::p_load_array_bool),
    #[cfg(feature = "c16")] ("c16::p_load_array_char", crate::c16::p_load_array_char),
    #[cfg(feature = "c16")] ("c16::p_load_array_none", crate::c16::p_load_array_none),
    #[cfg(feature = "c16")] ("c16::p_load_array_array", crate::c16::p_load_array_array),
    #[cfg(feature = "c16")] ("c16::pt_load_array_struct", crate::c16::pt_load_array_struct),
    #[cfg(feature = "c16")] ("c16::p_load_wrapping", crate::c16::p_load_wrapping),
    #[cfg(feature = "c16")] ("c16::p_load_plain", crate::c16::p_load_plain),
    #[cfg(feature = "c16")] ("c16::p_load_wide", crate::c16::p_load_wide),
    #[cfg(feature = "c16")] ("c16::p_load_packed1", crate::c16::p_load_packed1),
    #[cfg(feature = "c16")] ("c16::p_load_packed2", crate::c16::p_load_packed2),
    #[cfg(feature = "c16")] ("c16::p_load_packed4", crate::c16::p_load_packed4),
    #[cfg(feature = "c16")] ("c16::p_load_aligned", crate::c16::p_load_aligned),
    #[cfg(feature = "c16")] ("c16::p_load_thin", crate::c16::p_load_thin),
    #[cfg(feature = "c16")] ("c16::p_load_outer", crate::c16::p_load_outer),
    #[cfg(feature = "c16")] ("c16::pt_load_in_packed", crate::c16::pt_load_in_packed),
    #[cfg(feature = "c16")] ("c16::p_load_of_packed", crate::c16::p_load_of_packed),
    #[cfg(feature = "c16")] ("c16::p_load_enum_unit", crate::c16::p_load_enum_unit),
    #[cfg(feature = "c16")] ("c16::p_load_enum_signed", crate::c16::p_load_enum_signed),
    #[cfg(feature = "c16")] ("c16::pt_load_enum_deep", crate::c16::pt_load_enum_deep),
    #[cfg(feature = "c16")] ("c16::p_load_of_enum", crate::c16::p_load_of_enum),
    #[cfg(feature = "c16")] ("c16::pt_load_packed_enum", crate::c16::pt_load_packed_enum),
    #[cfg(feature = "c16")] ("c16::p_load_generic", crate::c16::p_load_generic),
    #[cfg(feature = "c16")] ("c16::p_ref_u32", crate::c16::p_ref_u32),
    #[cfg(feature = "c16")] ("c16::p_ref_bool", crate::c16::p_ref_bool),
    #[cfg(feature = "c16")] ("c16::p_ref_char", crate::c16::p_ref_char),
    #[cfg(feature = "c16")] ("c16::pt_ref_nonzero", crate::c16::pt_ref_nonzero),
    #[cfg(feature = "c16")] ("c16::p_ref_plain", crate::c16::p_ref_plain),
    #[cfg(feature = "c16")] ("c16::p_ref_packed2", crate::c16::p_ref_packed2),
    #[cfg(feature = "c16")] ("c16::p_ref_enum", crate::c16::p_ref_enum),
    #[cfg(feature = "c16")] ("c16::p_slice_u8", crate::c16::p_slice_u8),
    #[cfg(feature = "c16")] ("c16::p_slice_u16", crate::c16::p_slice_u16),
    #[cfg(feature = "c16")] ("c16::p_slice_u64", crate::c16::p_slice_u64),
    #[cfg(feature = "c16")] ("c16::pt_slice_array", crate::c16::pt_slice_array),
    #[cfg(feature = "c16")] ("c16::p_slice_ref", crate::c16::p_slice_ref),
    #[cfg(feature = "c16")] ("c16::b_slice_bool", crate::c16::b_slice_bool),
    #[cfg(feature = "c16")] ("c16::b_slice_char", crate::c16::b_slice_char),
    #[cfg(feature = "c16")] ("c16::b_slice_nonzero", crate::c16::b_slice_nonzero),
    #[cfg(feature = "c16")] ("c16::bt_slice_plain", crate::c16::bt_slice_plain),
    #[cfg(feature = "c16")] ("c16::b_slice_enum", crate::c16::b_slice_enum),
    #[cfg(feature = "c16")] ("c16::b_slice_array", crate::c16::b_slice_array),
    #[cfg(feature = "c16")] ("c16::p_too_long_bool", crate::c16::p_too_long_bool),
    #[cfg(feature = "c16")] ("c16::p_too_long_nonzero", crate::c16::p_too_long_nonzero),
    #[cfg(feature = "c16")] ("c16::p_str", crate::c16::p_str),
    #[cfg(feature = "c16")] ("c16::p_str_mut", crate::c16::p_str_mut),
    #[cfg(feature = "c16")] ("c16::b_str", crate::c16::b_str),
    #[cfg(feature = "c16")] ("c16::b_indirect", crate::c16::b_indirect),
    #[cfg(feature = "c16")] ("c16::p_validate", crate::c16::p_validate),
    #[cfg(feature = "c16")] ("c16::p_swap_u32", crate::c16::p_swap_u32),
    #[cfg(feature = "c16")] ("c16::pt_swap_array", crate::c16::pt_swap_array),
    #[cfg(feature = "c16")] ("c16::p_get", crate::c16::p_get),
    #[cfg(feature = "c17")] ("c17::p_refs_u8_be", crate::c17::p_refs_u8_be),
    #[cfg(feature = "c17")] ("c17::p_refs_u8_le", crate::c17::p_refs_u8_le),
    #[cfg(feature = "c17")] ("c17::p_refs_u16_be", crate::c17::p_refs_u16_be),
    #[cfg(feature = "c17")] ("c17::p_refs_u16_le", crate::c17::p_refs_u16_le),
    #[cfg(feature = "c17")] ("c17::p_refs_u32_be", crate::c17::p_refs_u32_be),
    #[cfg(feature = "c17")] ("c17::p_refs_u32_le", crate::c17::p_refs_u32_le),
    #[cfg(feature = "c17")] ("c17::p_refs_usize_be", crate::c17::p_refs_usize_be),
    #[cfg(feature = "c17")] ("c17::p_refs_usize_le", crate::c17::p_refs_usize_le),
    #[cfg(feature = "c17")] ("c17::p_refs_u64_be", crate::c17::p_refs_u64_be),
    #[cfg(feature = "c17")] ("c17::p_refs_u64_le", crate::c17::p_refs_u64_le),
    #[cfg(feature = "c17")] ("c17::p_index_u8", crate::c17::p_index_u8),
    #[cfg(feature = "c17")] ("c17::p_index_u16", crate::c17::p_index_u16),
    #[cfg(feature = "c17")] ("c17::p_index_u32", crate::c17::p_index_u32),
    #[cfg(feature = "c17")] ("c17::p_index_usize", crate::c17::p_index_usize),
    #[cfg(feature = "c17")] ("c17::p_index_bytes", crate::c17::p_index_bytes),
    #[cfg(feature = "c17")] ("c17::p_coerce_narrow_u8_be", crate::c17::p_coerce_narrow_u8_be),
    #[cfg(feature = "c17")] ("c17::p_coerce_narrow_u16_be", crate::c17::p_coerce_narrow_u16_be),
    #[cfg(feature = "c17")] ("c17::p_coerce_narrow_u16_le", crate::c17::p_coerce_narrow_u16_le),
    #[cfg(feature = "c17")] ("c17::p_coerce_narrow_u32_be", crate::c17::p_coerce_narrow_u32_be),
    #[cfg(feature = "c17")] ("c17::p_coerce_narrow_usize_be", crate::c17::p_coerce_narrow_usize_be),
    #[cfg(feature = "c17")] ("c17::p_coerce_same_u16_be", crate::c17::p_coerce_same_u16_be),
    #[cfg(feature = "c17")] ("c17::p_coerce_same_u32_le", crate::c17::p_coerce_same_u32_le),
    #[cfg(feature = "c17")] ("c17::p_coerce_sized_be", crate::c17::p_coerce_sized_be),
    #[cfg(feature = "c17")] ("c17::p_coerce_sized_le", crate::c17::p_coerce_sized_le),
    #[cfg(feature = "c17")] ("c17::p_array", crate::c17::p_array),
    #[cfg(feature = "c17")] ("c17::p_size", crate::c17::p_size),
    #[cfg(feature = "c17")] ("c17::p_size_64", crate::c17::p_size_64),
    #[cfg(feature = "c17")] ("c17::p_loads", crate::c17::p_loads),
    #[cfg(feature = "c18")] ("c18::p_store_u8", crate::c18::p_store_u8),
    #[cfg(feature = "c18")] ("c18::p_store_u64", crate::c18::p_store_u64),
    #[cfg(feature = "c18")] ("c18::p_store_unit", crate::c18::p_store_unit),
    #[cfg(feature = "c18")] ("c18::p_store_char", crate::c18::p_store_char),
    #[cfg(feature = "c18")] ("c18::p_store_nonzero", crate::c18::p_store_nonzero),
    #[cfg(feature = "c18")] ("c18::p_store_option", crate::c18::p_store_option),
    #[cfg(feature = "c18")] ("c18::p_store_endian", crate::c18::p_store_endian),
    #[cfg(feature = "c18")] ("c18::p_store_ref", crate::c18::p_store_ref),
    #[cfg(feature = "c18")] ("c18::p_store_array", crate::c18::p_store_array),
    #[cfg(feature = "c18")] ("c18::p_store_plain", crate::c18::p_store_plain),
    #[cfg(feature = "c18")] ("c18::p_store_wide", crate::c18::p_store_wide),
    #[cfg(feature = "c18")] ("c18::p_store_packed1", crate::c18::p_store_packed1),
    #[cfg(feature = "c18")] ("c18::p_store_packed2", crate::c18::p_store_packed2),
    #[cfg(feature = "c18")] ("c18::pt_store_packed4", crate::c18::pt_store_packed4),
    #[cfg(feature = "c18")] ("c18::p_store_aligned", crate::c18::p_store_aligned),
    #[cfg(feature = "c18")] ("c18::p_store_thin", crate::c18::p_store_thin),
    #[cfg(feature = "c18")] ("c18::pt_store_outer", crate::c18::pt_store_outer),
    #[cfg(feature = "c18")] ("c18::pt_store_in_packed", crate::c18::pt_store_in_packed),
    #[cfg(feature = "c18")] ("c18::pt_store_of_packed", crate::c18::pt_store_of_packed),
    #[cfg(feature = "c18")] ("c18::pt_store_plains", crate::c18::pt_store_plains),
    #[cfg(feature = "c18")] ("c18::p_store_enum_unit", crate::c18::p_store_enum_unit),
    #[cfg(feature = "c18")] ("c18::p_store_enum_signed", crate::c18::p_store_enum_signed),
    #[cfg(feature = "c18")] ("c18::pt_store_enum_deep", crate::c18::pt_store_enum_deep),
    #[cfg(feature = "c18")] ("c18::pt_store_of_enum", crate::c18::pt_store_of_enum),
    #[cfg(feature = "c18")] ("c18::pt_store_packed_enum", crate::c18::pt_store_packed_enum),
    #[cfg(feature = "c18")] ("c18::p_store_generic", crate::c18::p_store_generic),
    #[cfg(feature = "c18")] ("c18::pt_owned_u8", crate::c18::pt_owned_u8),
    #[cfg(feature = "c18")] ("c18::p_owned_u64", crate::c18::p_owned_u64),
    #[cfg(feature = "c18")] ("c18::pt_owned_unit", crate::c18::pt_owned_unit),
    #[cfg(feature = "c18")] ("c18::pt_owned_char", crate::c18::pt_owned_char),
    #[cfg(feature = "c18")] ("c18::pt_owned_nonzero", crate::c18::pt_owned_nonzero),
    #[cfg(feature = "c18")] ("c18::pt_owned_option", crate::c18::pt_owned_option),
    #[cfg(feature = "c18")] ("c18::pt_owned_endian", crate::c18::pt_owned_endian),
    #[cfg(feature = "c18")] ("c18::pt_owned_ref", crate::c18::pt_owned_ref),
    #[cfg(feature = "c18")] ("c18::pt_owned_array", crate::c18::pt_owned_array),
    #[cfg(feature = "c18")] ("c18::p_owned_plain", crate::c18::p_owned_plain),
    #[cfg(feature = "c18")] ("c18::pt_owned_wide", crate::c18::pt_owned_wide),
    #[cfg(feature = "c18")] ("c18::pt_owned_packed1", crate::c18::pt_owned_packed1),
    #[cfg(feature = "c18")] ("c18::p_owned_packed2", crate::c18::p_owned_packed2),
    #[cfg(feature = "c18")] ("c18::pt_owned_packed4", crate::c18::pt_owned_packed4),
    #[cfg(feature = "c18")] ("c18::pt_owned_aligned", crate::c18::pt_owned_aligned),
    #[cfg(feature = "c18")] ("c18::pt_owned_thin", crate::c18::pt_owned_thin),
    #[cfg(feature = "c18")] ("c18::pt_owned_outer", crate::c18::pt_owned_outer),
    #[cfg(feature = "c18")] ("c18::pt_owned_in_packed", crate::c18::pt_owned_in_packed),
    #[cfg(feature = "c18")] ("c18::pt_owned_of_packed", crate::c18::pt_owned_of_packed),
    #[cfg(feature = "c18")] ("c18::pt_owned_plains", crate::c18::pt_owned_plains),
    #[cfg(feature = "c18")] ("c18::pt_owned_enum_unit", crate::c18::pt_owned_enum_unit),
    #[cfg(feature = "c18")] ("c18::pt_owned_enum_signed", crate::c18::pt_owned_enum_signed),
    #[cfg(feature = "c18")] ("c18::pt_owned_enum_deep", crate::c18::pt_owned_enum_deep),
    #[cfg(feature = "c18")] ("c18::pt_owned_of_enum", crate::c18::pt_owned_of_enum),
    #[cfg(feature = "c18")] ("c18::pt_owned_packed_enum", crate::c18::pt_owned_packed_enum),
    #[cfg(feature = "c18")] ("c18::pt_owned_generic", crate::c18::pt_owned_generic),
    #[cfg(feature = "c18")] ("c18::b_slice_u8", crate::c18::b_slice_u8),
    #[cfg(feature = "c18")] ("c18::b_slice_u64", crate::c18::b_slice_u64),
    #[cfg(feature = "c18")] ("c18::b_slice_char", crate::c18::b_slice_char),
    #[cfg(feature = "c18")] ("c18::bt_slice_plain", crate::c18::bt_slice_plain),
    #[cfg(feature = "c18")] ("c18::b_slice_packed2", crate::c18::b_slice_packed2),
    #[cfg(feature = "c18")] ("c18::bt_slice_enum", crate::c18::bt_slice_enum),
    #[cfg(feature = "c18")] ("c18::b_text", crate::c18::b_text),
    #[cfg(feature = "c18")] ("c18::p_uninit_u32", crate::c18::p_uninit_u32),
    #[cfg(feature = "c18")] ("c18::p_uninit_plain", crate::c18::p_uninit_plain),
    #[cfg(feature = "c18")] ("c18::p_uninit_packed2", crate::c18::p_uninit_packed2),
    #[cfg(feature = "c18")] ("c18::p_uninit_enum", crate::c18::p_uninit_enum),
    #[cfg(feature = "c18")] ("c18::p_any_state_u8", crate::c18::p_any_state_u8),
    #[cfg(feature = "c18")] ("c18::p_any_state_u32", crate::c18::p_any_state_u32),
    #[cfg(feature = "c18")] ("c18::p_any_state_u64", crate::c18::p_any_state_u64),
    #[cfg(feature = "c18")] ("c18::p_any_state_u128", crate::c18::p_any_state_u128),
    #[cfg(feature = "c18")] ("c18::p_any_state_bytes", crate::c18::p_any_state_bytes),
    #[cfg(feature = "c18")] ("c18::p_refuse_u8", crate::c18::p_refuse_u8),
    #[cfg(feature = "c18")] ("c18::p_refuse_u64", crate::c18::p_refuse_u64),
    #[cfg(feature = "c18")] ("c18::p_refuse_u128", crate::c18::p_refuse_u128),
    #[cfg(feature = "c18")] ("c18::p_refuse_slice", crate::c18::p_refuse_slice),
    #[cfg(feature = "c18")] ("c18::p_refuse_text", crate::c18::p_refuse_text),
    #[cfg(feature = "c18")] ("c18::p_refuse_bytes", crate::c18::p_refuse_bytes),
    #[cfg(feature = "c18")] ("c18::p_refuse_uninit", crate::c18::p_refuse_uninit),
    #[cfg(feature = "c18")] ("c18::bt_grow", crate::c18::bt_grow),
    #[cfg(feature = "c18")] ("c18::b_request", crate::c18::b_request),
    #[cfg(feature = "c18")] ("c18::b_grow", crate::c18::b_grow),
    #[cfg(feature = "c19")] ("c19::b_set2", crate::c19::b_set2),
    #[cfg(feature = "c19")] ("c19::b_set1", crate::c19::b_set1),
    #[cfg(feature = "c19")] ("c19::b_set1_find", crate::c19::b_set1_find),
    #[cfg(feature = "c25")] ("c25::p_u8", crate::c25::p_u8),
    #[cfg(feature = "c25")] ("c25::pt_u8_a", crate::c25::pt_u8_a),
    #[cfg(feature = "c25")] ("c25::pt_u8_b", crate::c25::pt_u8_b),
    #[cfg(feature = "c25")] ("c25::p_u16", crate::c25::p_u16),
    #[cfg(feature = "c25")] ("c25::pt_u16_a", crate::c25::pt_u16_a),
    #[cfg(feature = "c25")] ("c25::pt_u16_b", crate::c25::pt_u16_b),
    #[cfg(feature = "c25")] ("c25::p_u32", crate::c25::p_u32),
    #[cfg(feature = "c25")] ("c25::pt_u32_a", crate::c25::pt_u32_a),
    #[cfg(feature = "c25")] ("c25::pt_u32_b", crate::c25::pt_u32_b),
    #[cfg(feature = "c25")] ("c25::p_u64", crate::c25::p_u64),
    #[cfg(feature = "c25")] ("c25::pt_u64_a", crate::c25::pt_u64_a),
    #[cfg(feature = "c25")] ("c25::pt_u64_b", crate::c25::pt_u64_b),
    #[cfg(feature = "c25")] ("c25::p_u128", crate::c25::p_u128),
    #[cfg(feature = "c25")] ("c25::pt_u128_a", crate::c25::pt_u128_a),
    #[cfg(feature = "c25")] ("c25::pt_u128_b", crate::c25::pt_u128_b),
    #[cfg(feature = "c25")] ("c25::p_usize", crate::c25::p_usize),
    #[cfg(feature = "c25")] ("c25::pt_usize_a", crate::c25::pt_usize_a),
    #[cfg(feature = "c25")] ("c25::pt_usize_b", crate::c25::pt_usize_b),
    #[cfg(feature = "c25")] ("c25::p_i8", crate::c25::p_i8),
    #[cfg(feature = "c25")] ("c25::pt_i8_a", crate::c25::pt_i8_a),
    #[cfg(feature = "c25")] ("c25::pt_i8_b", crate::c25::pt_i8_b),
    #[cfg(feature = "c25")] ("c25::p_i16", crate::c25::p_i16),
    #[cfg(feature = "c25")] ("c25::pt_i16_a", crate::c25::pt_i16_a),
    #[cfg(feature = "c25")] ("c25::pt_i16_b", crate::c25::pt_i16_b),
    #[cfg(feature = "c25")] ("c25::p_i32", crate::c25::p_i32),
    #[cfg(feature = "c25")] ("c25::pt_i32_a", crate::c25::pt_i32_a),
    #[cfg(feature = "c25")] ("c25::pt_i32_b", crate::c25::pt_i32_b),
    #[cfg(feature = "c25")] ("c25::p_i64", crate::c25::p_i64),
    #[cfg(feature = "c25")] ("c25::pt_i64_a", crate::c25::pt_i64_a),
    #[cfg(feature = "c25")] ("c25::pt_i64_b", crate::c25::pt_i64_b),
    #[cfg(feature = "c25")] ("c25::p_i128", crate::c25::p_i128),
    #[cfg(feature = "c25")] ("c25::pt_i128_a", crate::c25::pt_i128_a),
    #[cfg(feature = "c25")] ("c25::pt_i128_b", crate::c25::pt_i128_b),
    #[cfg(feature = "c25")] ("c25::p_isize", crate::c25::p_isize),
    #[cfg(feature = "c25")] ("c25::pt_isize_a", crate::c25::pt_isize_a),
    #[cfg(feature = "c25")] ("c25::pt_isize_b", crate::c25::pt_isize_b),
    #[cfg(feature = "c25")] ("c25::p_scalars", crate::c25::p_scalars),
    #[cfg(feature = "c25")] ("c25::p_kind_bool", crate::c25::p_kind_bool),
    #[cfg(feature = "c25")] ("c25::p_kind_bool_more", crate::c25::p_kind_bool_more),
    #[cfg(feature = "c25")] ("c25::p_kind_char", crate::c25::p_kind_char),
    #[cfg(feature = "c25")] ("c25::p_kind_u8", crate::c25::p_kind_u8),
    #[cfg(feature = "c25")] ("c25::p_kind_unit", crate::c25::p_kind_unit),
    #[cfg(feature = "c25")] ("c25::p_option", crate::c25::p_option),
    #[cfg(feature = "c25")] ("c25::p_option_option", crate::c25::p_option_option),
    #[cfg(feature = "c25")] ("c25::p_option_unit", crate::c25::p_option_unit),
    #[cfg(feature = "c25")] ("c25::p_pair", crate::c25::p_pair),
    #[cfg(feature = "c25")] ("c25::p_units", crate::c25::p_units),
    #[cfg(feature = "c25")] ("c25::p_tuple", crate::c25::p_tuple),
    #[cfg(feature = "c25")] ("c25::p_array_units", crate::c25::p_array_units),
    #[cfg(feature = "c25")] ("c25::p_array_bool", crate::c25::p_array_bool),
    #[cfg(feature = "c25")] ("c25::bt_list0", crate::c25::bt_list0),
    #[cfg(feature = "c25")] ("c25::bt_list1", crate::c25::bt_list1),
    #[cfg(feature = "c25")] ("c25::bt_list2", crate::c25::bt_list2),
    #[cfg(feature = "c25")] ("c25::p_array_length", crate::c25::p_array_length),
    #[cfg(feature = "c25")] ("c25::b_bytes0", crate::c25::b_bytes0),
    #[cfg(feature = "c25")] ("c25::b_bytes3", crate::c25::b_bytes3),
    #[cfg(feature = "c25")] ("c25::b_bytes4", crate::c25::b_bytes4),
    #[cfg(feature = "c25")] ("c25::p_via_unit", crate::c25::p_via_unit),
    #[cfg(feature = "c25")] ("c25::p_via_true", crate::c25::p_via_true),
    #[cfg(feature = "c25")] ("c25::p_via_false", crate::c25::p_via_false),
    #[cfg(feature = "c25")] ("c25::p_via_none", crate::c25::p_via_none),
    #[cfg(feature = "c25")] ("c25::b_via_bytes", crate::c25::b_via_bytes),
    #[cfg(feature = "c25")] ("c25::b_reads_u8", crate::c25::b_reads_u8),
    #[cfg(feature = "c25")] ("c25::b_reads_i8", crate::c25::b_reads_i8),
    #[cfg(feature = "c25")] ("c25::b_reads_u16", crate::c25::b_reads_u16),
    #[cfg(feature = "c25")] ("c25::b_reads_i16", crate::c25::b_reads_i16),
    #[cfg(feature = "c25")] ("c25::b_reads_u32", crate::c25::b_reads_u32),
    #[cfg(feature = "c25")] ("c25::b_reads_i32", crate::c25::b_reads_i32),
    #[cfg(feature = "c25")] ("c25::b_reads_u64", crate::c25::b_reads_u64),
    #[cfg(feature = "c25")] ("c25::b_reads_i64", crate::c25::b_reads_i64),
    #[cfg(feature = "c25")] ("c25::b_reads_u128", crate::c25::b_reads_u128),
    #[cfg(feature = "c25")] ("c25::b_reads_i128", crate::c25::b_reads_i128),
    #[cfg(feature = "c25")] ("c25::b_via_char", crate::c25::b_via_char),
];
