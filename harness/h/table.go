// Code generated by gen.sh. DO NOT EDIT.

package h

// Table lists the harnesses by name.
var Table = map[string]func(){
	"C01_deep":                C01_deep,
	"C01_embedded":            C01_embedded,
	"C01_empty":               C01_empty,
	"C01_fixed":               C01_fixed,
	"C01_floats":              C01_floats,
	"C01_ints":                C01_ints,
	"C01_long":                C01_long,
	"C01_mix_deep":            C01_mix_deep,
	"C01_mix_embedded":        C01_mix_embedded,
	"C01_mix_empty":           C01_mix_empty,
	"C01_mix_fixed":           C01_mix_fixed,
	"C01_mix_floats":          C01_mix_floats,
	"C01_mix_ints":            C01_mix_ints,
	"C01_mix_named":           C01_mix_named,
	"C01_mix_nest":            C01_mix_nest,
	"C01_mix_octets":          C01_mix_octets,
	"C01_mix_ptrs":            C01_mix_ptrs,
	"C01_mix_rich":            C01_mix_rich,
	"C01_mix_tagged":          C01_mix_tagged,
	"C01_mix_text":            C01_mix_text,
	"C01_mix_uints":           C01_mix_uints,
	"C01_mix_wempty":          C01_mix_wempty,
	"C01_mix_wide":            C01_mix_wide,
	"C01_named":               C01_named,
	"C01_nest":                C01_nest,
	"C01_node":                C01_node,
	"C01_octets":              C01_octets,
	"C01_ptrs":                C01_ptrs,
	"C01_rich":                C01_rich,
	"C01_tagged":              C01_tagged,
	"C01_text":                C01_text,
	"C01_uints":               C01_uints,
	"C01_wempty":              C01_wempty,
	"C01_wide":                C01_wide,
	"C02_alists":              C02_alists,
	"C02_arrays":              C02_arrays,
	"C02_fixed":               C02_fixed,
	"C02_lists":               C02_lists,
	"C02_long":                C02_long,
	"C02_long_lists":          C02_long_lists,
	"C02_long_text":           C02_long_text,
	"C02_mix_alists":          C02_mix_alists,
	"C02_mix_arrays":          C02_mix_arrays,
	"C02_mix_fixeds":          C02_mix_fixeds,
	"C02_mix_lists":           C02_mix_lists,
	"C02_mix_nlists":          C02_mix_nlists,
	"C02_mix_packed":          C02_mix_packed,
	"C02_mix_plists":          C02_mix_plists,
	"C02_mix_rich":            C02_mix_rich,
	"C02_mix_structs":         C02_mix_structs,
	"C02_mix_texts":           C02_mix_texts,
	"C02_mix_tlists":          C02_mix_tlists,
	"C02_mix_wlists":          C02_mix_wlists,
	"C02_multidimensional":    C02_multidimensional,
	"C02_named":               C02_named,
	"C02_packed":              C02_packed,
	"C02_ptrs":                C02_ptrs,
	"C02_rich":                C02_rich,
	"C02_structs":             C02_structs,
	"C02_text":                C02_text,
	"C02_times":               C02_times,
	"C02_top":                 C02_top,
	"C02_widelists":           C02_widelists,
	"C03_animals":             C03_animals,
	"C03_array":               C03_array,
	"C03_both":                C03_both,
	"C03_cage":                C03_cage,
	"C03_concrete":            C03_concrete,
	"C03_dcage":               C03_dcage,
	"C03_dzoo":                C03_dzoo,
	"C03_herd":                C03_herd,
	"C03_interface_variable":  C03_interface_variable,
	"C03_into_interface":      C03_into_interface,
	"C03_long":                C03_long,
	"C03_mix_cage":            C03_mix_cage,
	"C03_mix_dzoo":            C03_mix_dzoo,
	"C03_mix_herd":            C03_mix_herd,
	"C03_mix_zoo":             C03_mix_zoo,
	"C03_twin_alone":          C03_twin_alone,
	"C03_twins":               C03_twins,
	"C03_unregistered":        C03_unregistered,
	"C03_zoo":                 C03_zoo,
	"C04_big_lists":           C04_big_lists,
	"C04_big_times":           C04_big_times,
	"C04_big_top":             C04_big_top,
	"C04_decode":              C04_decode,
	"C04_fields":              C04_fields,
	"C04_graft_lists":         C04_graft_lists,
	"C04_graft_nested":        C04_graft_nested,
	"C04_graft_times":         C04_graft_times,
	"C04_graft_top":           C04_graft_top,
	"C04_invalid":             C04_invalid,
	"C04_keys":                C04_keys,
	"C04_lists":               C04_lists,
	"C04_mix_lists":           C04_mix_lists,
	"C04_mix_nested":          C04_mix_nested,
	"C04_mix_times":           C04_mix_times,
	"C04_mut_lists":           C04_mut_lists,
	"C04_mut_times":           C04_mut_times,
	"C04_nested":              C04_nested,
	"C04_top":                 C04_top,
	"C04_zones":               C04_zones,
	"C05_alists":              C05_alists,
	"C05_arrays":              C05_arrays,
	"C05_deep":                C05_deep,
	"C05_deeptimes":           C05_deeptimes,
	"C05_dzoo":                C05_dzoo,
	"C05_embedded":            C05_embedded,
	"C05_empty":               C05_empty,
	"C05_fixed":               C05_fixed,
	"C05_fixeds":              C05_fixeds,
	"C05_floats":              C05_floats,
	"C05_herd":                C05_herd,
	"C05_ints":                C05_ints,
	"C05_lists":               C05_lists,
	"C05_long":                C05_long,
	"C05_mix_alists":          C05_mix_alists,
	"C05_mix_arrays":          C05_mix_arrays,
	"C05_mix_deep":            C05_mix_deep,
	"C05_mix_embedded":        C05_mix_embedded,
	"C05_mix_fixed":           C05_mix_fixed,
	"C05_mix_fixeds":          C05_mix_fixeds,
	"C05_mix_herd":            C05_mix_herd,
	"C05_mix_ints":            C05_mix_ints,
	"C05_mix_named":           C05_mix_named,
	"C05_mix_nest":            C05_mix_nest,
	"C05_mix_nlists":          C05_mix_nlists,
	"C05_mix_octets":          C05_mix_octets,
	"C05_mix_packed":          C05_mix_packed,
	"C05_mix_plists":          C05_mix_plists,
	"C05_mix_ptrs":            C05_mix_ptrs,
	"C05_mix_rich":            C05_mix_rich,
	"C05_mix_structs":         C05_mix_structs,
	"C05_mix_tagged":          C05_mix_tagged,
	"C05_mix_text":            C05_mix_text,
	"C05_mix_texts":           C05_mix_texts,
	"C05_mix_times":           C05_mix_times,
	"C05_mix_tlists":          C05_mix_tlists,
	"C05_mix_wempty":          C05_mix_wempty,
	"C05_mix_wide":            C05_mix_wide,
	"C05_mix_wlists":          C05_mix_wlists,
	"C05_mix_zoo":             C05_mix_zoo,
	"C05_named":               C05_named,
	"C05_nameds":              C05_nameds,
	"C05_nest":                C05_nest,
	"C05_node":                C05_node,
	"C05_octets":              C05_octets,
	"C05_packed":              C05_packed,
	"C05_ptrlists":            C05_ptrlists,
	"C05_ptrs":                C05_ptrs,
	"C05_rich":                C05_rich,
	"C05_structs":             C05_structs,
	"C05_tagged":              C05_tagged,
	"C05_text":                C05_text,
	"C05_texts":               C05_texts,
	"C05_timelists":           C05_timelists,
	"C05_times":               C05_times,
	"C05_top":                 C05_top,
	"C05_uints":               C05_uints,
	"C05_wempty":              C05_wempty,
	"C05_wide":                C05_wide,
	"C05_widelists":           C05_widelists,
	"C05_zoo":                 C05_zoo,
	"C06_alists":              C06_alists,
	"C06_arrays":              C06_arrays,
	"C06_cage":                C06_cage,
	"C06_deep":                C06_deep,
	"C06_embedded":            C06_embedded,
	"C06_fixed":               C06_fixed,
	"C06_fixeds":              C06_fixeds,
	"C06_floats":              C06_floats,
	"C06_herd":                C06_herd,
	"C06_injective":           C06_injective,
	"C06_ints":                C06_ints,
	"C06_lists":               C06_lists,
	"C06_long":                C06_long,
	"C06_named":               C06_named,
	"C06_nest":                C06_nest,
	"C06_nlists":              C06_nlists,
	"C06_node":                C06_node,
	"C06_octets":              C06_octets,
	"C06_packed":              C06_packed,
	"C06_ptrlists":            C06_ptrlists,
	"C06_ptrs":                C06_ptrs,
	"C06_registration_order":  C06_registration_order,
	"C06_rich":                C06_rich,
	"C06_structs":             C06_structs,
	"C06_tagged":              C06_tagged,
	"C06_text":                C06_text,
	"C06_texts":               C06_texts,
	"C06_timelists":           C06_timelists,
	"C06_times":               C06_times,
	"C06_top":                 C06_top,
	"C06_uints":               C06_uints,
	"C06_uses":                C06_uses,
	"C06_wempty":              C06_wempty,
	"C06_wide":                C06_wide,
	"C06_zoo":                 C06_zoo,
	"C07_any_arrays":          C07_any_arrays,
	"C07_any_embedded":        C07_any_embedded,
	"C07_any_fixed":           C07_any_fixed,
	"C07_any_fixeds":          C07_any_fixeds,
	"C07_any_ints":            C07_any_ints,
	"C07_any_nest":            C07_any_nest,
	"C07_any_node":            C07_any_node,
	"C07_any_octets":          C07_any_octets,
	"C07_any_packed":          C07_any_packed,
	"C07_any_ptrs":            C07_any_ptrs,
	"C07_any_structs":         C07_any_structs,
	"C07_any_tagged":          C07_any_tagged,
	"C07_any_text":            C07_any_text,
	"C07_any_texts":           C07_any_texts,
	"C07_any_times":           C07_any_times,
	"C07_any_zoo":             C07_any_zoo,
	"C07_keys":                C07_keys,
	"C07_lengths":             C07_lengths,
	"C07_long":                C07_long,
	"C07_mut_arrays":          C07_mut_arrays,
	"C07_mut_deep":            C07_mut_deep,
	"C07_mut_embedded":        C07_mut_embedded,
	"C07_mut_herd":            C07_mut_herd,
	"C07_mut_kinds":           C07_mut_kinds,
	"C07_mut_octets":          C07_mut_octets,
	"C07_mut_packed":          C07_mut_packed,
	"C07_mut_ptrs":            C07_mut_ptrs,
	"C07_mut_rich":            C07_mut_rich,
	"C07_mut_structs":         C07_mut_structs,
	"C07_mut_text":            C07_mut_text,
	"C07_mut_texts":           C07_mut_texts,
	"C07_mut_times":           C07_mut_times,
	"C07_mut_zoo":             C07_mut_zoo,
	"C07_prefixed":            C07_prefixed,
	"C07_top":                 C07_top,
	"C08_cage":                C08_cage,
	"C08_field_order":         C08_field_order,
	"C08_graft_alists":        C08_graft_alists,
	"C08_graft_arrays":        C08_graft_arrays,
	"C08_graft_deep":          C08_graft_deep,
	"C08_graft_dtimes":        C08_graft_dtimes,
	"C08_graft_dzoo":          C08_graft_dzoo,
	"C08_graft_ints":          C08_graft_ints,
	"C08_graft_kinds":         C08_graft_kinds,
	"C08_graft_nest":          C08_graft_nest,
	"C08_graft_packed":        C08_graft_packed,
	"C08_graft_structs":       C08_graft_structs,
	"C08_graft_text":          C08_graft_text,
	"C08_graft_zoo":           C08_graft_zoo,
	"C08_inner_lengths":       C08_inner_lengths,
	"C08_ints":                C08_ints,
	"C08_keys":                C08_keys,
	"C08_long":                C08_long,
	"C08_mut_arrays":          C08_mut_arrays,
	"C08_mut_bools":           C08_mut_bools,
	"C08_mut_dog":             C08_mut_dog,
	"C08_mut_dzoo":            C08_mut_dzoo,
	"C08_mut_kinds":           C08_mut_kinds,
	"C08_mut_lists":           C08_mut_lists,
	"C08_mut_nest":            C08_mut_nest,
	"C08_mut_text":            C08_mut_text,
	"C08_mut_times":           C08_mut_times,
	"C08_mut_zoo":             C08_mut_zoo,
	"C08_nest":                C08_nest,
	"C08_octets":              C08_octets,
	"C08_packed":              C08_packed,
	"C08_ptrs":                C08_ptrs,
	"C08_repeated_order":      C08_repeated_order,
	"C08_rich":                C08_rich,
	"C08_structs":             C08_structs,
	"C08_text":                C08_text,
	"C08_texts":               C08_texts,
	"C08_times":               C08_times,
	"C08_top":                 C08_top,
	"C09_any_embedded":        C09_any_embedded,
	"C09_any_fixed":           C09_any_fixed,
	"C09_any_ints":            C09_any_ints,
	"C09_any_nest":            C09_any_nest,
	"C09_any_packed":          C09_any_packed,
	"C09_any_structs":         C09_any_structs,
	"C09_any_text":            C09_any_text,
	"C09_any_texts":           C09_any_texts,
	"C09_any_times":           C09_any_times,
	"C09_any_uints":           C09_any_uints,
	"C09_big_ints":            C09_big_ints,
	"C09_big_nest":            C09_big_nest,
	"C09_big_packed":          C09_big_packed,
	"C09_big_structs":         C09_big_structs,
	"C09_big_text":            C09_big_text,
	"C09_big_texts":           C09_big_texts,
	"C09_graft_alists":        C09_graft_alists,
	"C09_graft_arrays":        C09_graft_arrays,
	"C09_graft_deep":          C09_graft_deep,
	"C09_graft_dtimes":        C09_graft_dtimes,
	"C09_graft_herd":          C09_graft_herd,
	"C09_graft_ints":          C09_graft_ints,
	"C09_graft_kinds":         C09_graft_kinds,
	"C09_graft_nest":          C09_graft_nest,
	"C09_graft_packed":        C09_graft_packed,
	"C09_graft_plists":        C09_graft_plists,
	"C09_graft_ptrs":          C09_graft_ptrs,
	"C09_graft_rich":          C09_graft_rich,
	"C09_graft_structs":       C09_graft_structs,
	"C09_graft_text":          C09_graft_text,
	"C09_graft_texts":         C09_graft_texts,
	"C09_graft_tlists":        C09_graft_tlists,
	"C09_graft_wempty":        C09_graft_wempty,
	"C09_graft_zoo":           C09_graft_zoo,
	"C09_keys":                C09_keys,
	"C09_long":                C09_long,
	"C09_mut2_animals":        C09_mut2_animals,
	"C09_mut2_packed":         C09_mut2_packed,
	"C09_mut2_rich":           C09_mut2_rich,
	"C09_mut2_structs":        C09_mut2_structs,
	"C09_mut2_texts":          C09_mut2_texts,
	"C09_mut2_times":          C09_mut2_times,
	"C09_mut_alists":          C09_mut_alists,
	"C09_mut_arrays":          C09_mut_arrays,
	"C09_mut_cage":            C09_mut_cage,
	"C09_mut_deep":            C09_mut_deep,
	"C09_mut_dtimes":          C09_mut_dtimes,
	"C09_mut_dzoo":            C09_mut_dzoo,
	"C09_mut_embedded":        C09_mut_embedded,
	"C09_mut_fixed":           C09_mut_fixed,
	"C09_mut_fixeds":          C09_mut_fixeds,
	"C09_mut_floats":          C09_mut_floats,
	"C09_mut_herd":            C09_mut_herd,
	"C09_mut_ints":            C09_mut_ints,
	"C09_mut_kinds":           C09_mut_kinds,
	"C09_mut_lists":           C09_mut_lists,
	"C09_mut_named":           C09_mut_named,
	"C09_mut_nameds":          C09_mut_nameds,
	"C09_mut_nest":            C09_mut_nest,
	"C09_mut_node":            C09_mut_node,
	"C09_mut_octets":          C09_mut_octets,
	"C09_mut_packed":          C09_mut_packed,
	"C09_mut_ptrlists":        C09_mut_ptrlists,
	"C09_mut_ptrs":            C09_mut_ptrs,
	"C09_mut_rich":            C09_mut_rich,
	"C09_mut_structs":         C09_mut_structs,
	"C09_mut_tagged":          C09_mut_tagged,
	"C09_mut_text":            C09_mut_text,
	"C09_mut_texts":           C09_mut_texts,
	"C09_mut_timelists":       C09_mut_timelists,
	"C09_mut_times":           C09_mut_times,
	"C09_mut_uints":           C09_mut_uints,
	"C09_mut_wempty":          C09_mut_wempty,
	"C09_mut_wide":            C09_mut_wide,
	"C09_mut_zoo":             C09_mut_zoo,
	"C09_top":                 C09_top,
	"C09_top_iface":           C09_top_iface,
	"C10_alists_to_empty":     C10_alists_to_empty,
	"C10_arrays_to_empty":     C10_arrays_to_empty,
	"C10_deep_to_empty":       C10_deep_to_empty,
	"C10_embedded_to_empty":   C10_embedded_to_empty,
	"C10_empty_to_new":        C10_empty_to_new,
	"C10_fixeds_to_empty":     C10_fixeds_to_empty,
	"C10_iface_new_to_old":    C10_iface_new_to_old,
	"C10_iface_old_to_new":    C10_iface_old_to_new,
	"C10_inlists_to_empty":    C10_inlists_to_empty,
	"C10_lists":               C10_lists,
	"C10_lists_back":          C10_lists_back,
	"C10_lists_to_empty":      C10_lists_to_empty,
	"C10_long":                C10_long,
	"C10_named_to_empty":      C10_named_to_empty,
	"C10_nest_new_to_old":     C10_nest_new_to_old,
	"C10_nest_old_to_new":     C10_nest_old_to_new,
	"C10_new_to_empty":        C10_new_to_empty,
	"C10_new_to_old":          C10_new_to_old,
	"C10_nlists_to_empty":     C10_nlists_to_empty,
	"C10_node_to_empty":       C10_node_to_empty,
	"C10_octets_to_empty":     C10_octets_to_empty,
	"C10_old_to_new":          C10_old_to_new,
	"C10_packed_to_empty":     C10_packed_to_empty,
	"C10_ptrlists_to_empty":   C10_ptrlists_to_empty,
	"C10_ptrs_to_empty":       C10_ptrs_to_empty,
	"C10_rich_to_empty":       C10_rich_to_empty,
	"C10_texts_to_empty":      C10_texts_to_empty,
	"C10_times_to_empty":      C10_times_to_empty,
	"C10_unknown":             C10_unknown,
	"C10_wide_new_to_old":     C10_wide_new_to_old,
	"C10_wide_old_to_new":     C10_wide_old_to_new,
	"C10_zoo_to_empty":        C10_zoo_to_empty,
	"C11_int":                 C11_int,
	"C11_int16":               C11_int16,
	"C11_int32":               C11_int32,
	"C11_int64":               C11_int64,
	"C11_int8":                C11_int8,
	"C11_primitives":          C11_primitives,
	"C11_uint":                C11_uint,
	"C11_uint16":              C11_uint16,
	"C11_uint32":              C11_uint32,
	"C11_uint64":              C11_uint64,
	"C11_uint8":               C11_uint8,
	"C12_alists":              C12_alists,
	"C12_any_ints":            C12_any_ints,
	"C12_any_text":            C12_any_text,
	"C12_any_top":             C12_any_top,
	"C12_any_zoo":             C12_any_zoo,
	"C12_arrays":              C12_arrays,
	"C12_cage":                C12_cage,
	"C12_deep":                C12_deep,
	"C12_embedded":            C12_embedded,
	"C12_empty":               C12_empty,
	"C12_fixed":               C12_fixed,
	"C12_fixeds":              C12_fixeds,
	"C12_floats":              C12_floats,
	"C12_ints":                C12_ints,
	"C12_long":                C12_long,
	"C12_longs":               C12_longs,
	"C12_named":               C12_named,
	"C12_nest":                C12_nest,
	"C12_nlists":              C12_nlists,
	"C12_node":                C12_node,
	"C12_octets":              C12_octets,
	"C12_packed":              C12_packed,
	"C12_plists":              C12_plists,
	"C12_ptrs":                C12_ptrs,
	"C12_rich":                C12_rich,
	"C12_structs":             C12_structs,
	"C12_tagged":              C12_tagged,
	"C12_text":                C12_text,
	"C12_texts":               C12_texts,
	"C12_times":               C12_times,
	"C12_tlists":              C12_tlists,
	"C12_top":                 C12_top,
	"C12_uints":               C12_uints,
	"C12_wempty":              C12_wempty,
	"C12_wide":                C12_wide,
	"C12_wlists":              C12_wlists,
	"C13_any_cage":            C13_any_cage,
	"C13_any_empty":           C13_any_empty,
	"C13_any_int":             C13_any_int,
	"C13_any_ints":            C13_any_ints,
	"C13_any_text":            C13_any_text,
	"C13_dog":                 C13_dog,
	"C13_empty":               C13_empty,
	"C13_int":                 C13_int,
	"C13_list":                C13_list,
	"C13_long":                C13_long,
	"C13_longs":               C13_longs,
	"C13_negative_limit":      C13_negative_limit,
	"C13_nested":              C13_nested,
	"C13_prefix":              C13_prefix,
	"C13_text":                C13_text,
	"C14_any":                 C14_any,
	"C14_inverse":             C14_inverse,
	"C14_sizes":               C14_sizes,
	"C14_writer":              C14_writer,
	"C15_disfix":              C15_disfix,
	"C15_encoding":            C15_encoding,
	"C15_two":                 C15_two,
	"C16_concrete":            C16_concrete,
	"C16_dzoo":                C16_dzoo,
	"C16_registered":          C16_registered,
	"C16_twins":               C16_twins,
	"C16_unregistered":        C16_unregistered,
	"C16_zoo":                 C16_zoo,
	"C17_binary":              C17_binary,
	"C17_errors":              C17_errors,
	"C17_handed":              C17_handed,
	"C17_iface":               C17_iface,
	"C17_json":                C17_json,
	"C17_json_errors":         C17_json_errors,
	"C17_json_iface":          C17_json_iface,
	"C17_json_top":            C17_json_top,
	"C17_long":                C17_long,
	"C17_top":                 C17_top,
	"C18_alists":              C18_alists,
	"C18_arrays":              C18_arrays,
	"C18_custom":              C18_custom,
	"C18_deep":                C18_deep,
	"C18_embedded":            C18_embedded,
	"C18_empty":               C18_empty,
	"C18_fixed":               C18_fixed,
	"C18_floats":              C18_floats,
	"C18_herd":                C18_herd,
	"C18_inlists":             C18_inlists,
	"C18_ints":                C18_ints,
	"C18_jlists":              C18_jlists,
	"C18_keys":                C18_keys,
	"C18_long":                C18_long,
	"C18_maps":                C18_maps,
	"C18_named":               C18_named,
	"C18_nest":                C18_nest,
	"C18_nlists":              C18_nlists,
	"C18_node":                C18_node,
	"C18_octets":              C18_octets,
	"C18_omit":                C18_omit,
	"C18_packed":              C18_packed,
	"C18_plists":              C18_plists,
	"C18_ptrs":                C18_ptrs,
	"C18_rich":                C18_rich,
	"C18_structs":             C18_structs,
	"C18_tagged":              C18_tagged,
	"C18_text":                C18_text,
	"C18_texts":               C18_texts,
	"C18_times":               C18_times,
	"C18_tlists":              C18_tlists,
	"C18_top":                 C18_top,
	"C18_uints":               C18_uints,
	"C18_wempty":              C18_wempty,
	"C18_zoo":                 C18_zoo,
	"C19_alists":              C19_alists,
	"C19_arrays":              C19_arrays,
	"C19_custom":              C19_custom,
	"C19_custom_err":          C19_custom_err,
	"C19_deep":                C19_deep,
	"C19_embedded":            C19_embedded,
	"C19_empty":               C19_empty,
	"C19_fixed":               C19_fixed,
	"C19_floats":              C19_floats,
	"C19_herd":                C19_herd,
	"C19_indent_herd":         C19_indent_herd,
	"C19_indent_maps":         C19_indent_maps,
	"C19_indent_omit":         C19_indent_omit,
	"C19_indent_text":         C19_indent_text,
	"C19_inlists":             C19_inlists,
	"C19_ints":                C19_ints,
	"C19_jlists":              C19_jlists,
	"C19_keys":                C19_keys,
	"C19_long":                C19_long,
	"C19_longs":               C19_longs,
	"C19_map_sizes":           C19_map_sizes,
	"C19_maps":                C19_maps,
	"C19_mix_alists":          C19_mix_alists,
	"C19_mix_arrays":          C19_mix_arrays,
	"C19_mix_embedded":        C19_mix_embedded,
	"C19_mix_herd":            C19_mix_herd,
	"C19_mix_ints":            C19_mix_ints,
	"C19_mix_jlists":          C19_mix_jlists,
	"C19_mix_keys":            C19_mix_keys,
	"C19_mix_maps":            C19_mix_maps,
	"C19_mix_nest":            C19_mix_nest,
	"C19_mix_omit":            C19_mix_omit,
	"C19_mix_plists":          C19_mix_plists,
	"C19_mix_ptrs":            C19_mix_ptrs,
	"C19_mix_rich":            C19_mix_rich,
	"C19_mix_structs":         C19_mix_structs,
	"C19_mix_tagged":          C19_mix_tagged,
	"C19_mix_text":            C19_mix_text,
	"C19_mix_texts":           C19_mix_texts,
	"C19_mix_times":           C19_mix_times,
	"C19_mix_tlists":          C19_mix_tlists,
	"C19_mix_zoo":             C19_mix_zoo,
	"C19_named":               C19_named,
	"C19_nest":                C19_nest,
	"C19_nil":                 C19_nil,
	"C19_nlists":              C19_nlists,
	"C19_node":                C19_node,
	"C19_octets":              C19_octets,
	"C19_omit":                C19_omit,
	"C19_packed":              C19_packed,
	"C19_plists":              C19_plists,
	"C19_ptrs":                C19_ptrs,
	"C19_refuse":              C19_refuse,
	"C19_rich":                C19_rich,
	"C19_structs":             C19_structs,
	"C19_tagged":              C19_tagged,
	"C19_text":                C19_text,
	"C19_texts":               C19_texts,
	"C19_times":               C19_times,
	"C19_tlists":              C19_tlists,
	"C19_top":                 C19_top,
	"C19_uints":               C19_uints,
	"C19_wempty":              C19_wempty,
	"C19_zoo":                 C19_zoo,
	"C20_any_arr":             C20_any_arr,
	"C20_any_arr0":            C20_any_arr0,
	"C20_any_barr":            C20_any_barr,
	"C20_any_barr0":           C20_any_barr0,
	"C20_any_bool":            C20_any_bool,
	"C20_any_bytes":           C20_any_bytes,
	"C20_any_custom":          C20_any_custom,
	"C20_any_dog":             C20_any_dog,
	"C20_any_empty":           C20_any_empty,
	"C20_any_fish":            C20_any_fish,
	"C20_any_iface":           C20_any_iface,
	"C20_any_int64":           C20_any_int64,
	"C20_any_int8":            C20_any_int8,
	"C20_any_ints":            C20_any_ints,
	"C20_any_map":             C20_any_map,
	"C20_any_repr":            C20_any_repr,
	"C20_any_string":          C20_any_string,
	"C20_any_struct":          C20_any_struct,
	"C20_any_time":            C20_any_time,
	"C20_any_uint":            C20_any_uint,
	"C20_arrays":              C20_arrays,
	"C20_fraction":            C20_fraction,
	"C20_hole_custom":         C20_hole_custom,
	"C20_hole_ints":           C20_hole_ints,
	"C20_hole_jlists":         C20_hole_jlists,
	"C20_hole_maps":           C20_hole_maps,
	"C20_hole_octets":         C20_hole_octets,
	"C20_hole_omit":           C20_hole_omit,
	"C20_hole_options":        C20_hole_options,
	"C20_hole_ptrs":           C20_hole_ptrs,
	"C20_hole_reprs":          C20_hole_reprs,
	"C20_hole_text":           C20_hole_text,
	"C20_hole_uints":          C20_hole_uints,
	"C20_hole_zoo":            C20_hole_zoo,
	"C20_int":                 C20_int,
	"C20_int16":               C20_int16,
	"C20_int32":               C20_int32,
	"C20_int64":               C20_int64,
	"C20_int8":                C20_int8,
	"C20_mut_cage":            C20_mut_cage,
	"C20_mut_dog":             C20_mut_dog,
	"C20_mut_ints":            C20_mut_ints,
	"C20_mut_kinds":           C20_mut_kinds,
	"C20_mut_lists":           C20_mut_lists,
	"C20_mut_maps":            C20_mut_maps,
	"C20_mut_nest":            C20_mut_nest,
	"C20_mut_text":            C20_mut_text,
	"C20_mut_times":           C20_mut_times,
	"C20_myint":               C20_myint,
	"C20_names":               C20_names,
	"C20_registered":          C20_registered,
	"C20_syntax_int":          C20_syntax_int,
	"C20_syntax_int32":        C20_syntax_int32,
	"C20_syntax_int64":        C20_syntax_int64,
	"C20_syntax_uint":         C20_syntax_uint,
	"C20_syntax_uint16":       C20_syntax_uint16,
	"C20_syntax_uint64":       C20_syntax_uint64,
	"C20_syntax_uint8":        C20_syntax_uint8,
	"C20_uint":                C20_uint,
	"C20_uint16":              C20_uint16,
	"C20_uint32":              C20_uint32,
	"C20_uint64":              C20_uint64,
	"C20_uint8":               C20_uint8,
	"C20_untyped":             C20_untyped,
	"C21_alists":              C21_alists,
	"C21_arrays":              C21_arrays,
	"C21_floats":              C21_floats,
	"C21_herd":                C21_herd,
	"C21_inlists":             C21_inlists,
	"C21_ints":                C21_ints,
	"C21_long":                C21_long,
	"C21_loose":               C21_loose,
	"C21_methods":             C21_methods,
	"C21_mix_alists":          C21_mix_alists,
	"C21_mix_arrays":          C21_mix_arrays,
	"C21_mix_ints":            C21_mix_ints,
	"C21_mix_jlists":          C21_mix_jlists,
	"C21_mix_nest":            C21_mix_nest,
	"C21_mix_nlists":          C21_mix_nlists,
	"C21_mix_octets":          C21_mix_octets,
	"C21_mix_packed":          C21_mix_packed,
	"C21_mix_plists":          C21_mix_plists,
	"C21_mix_ptrs":            C21_mix_ptrs,
	"C21_mix_rich":            C21_mix_rich,
	"C21_mix_structs":         C21_mix_structs,
	"C21_mix_texts":           C21_mix_texts,
	"C21_mix_tlists":          C21_mix_tlists,
	"C21_mix_zoo":             C21_mix_zoo,
	"C21_named":               C21_named,
	"C21_nested":              C21_nested,
	"C21_node":                C21_node,
	"C21_packed":              C21_packed,
	"C21_plists":              C21_plists,
	"C21_ptrs":                C21_ptrs,
	"C21_rich":                C21_rich,
	"C21_structs":             C21_structs,
	"C21_text":                C21_text,
	"C21_tlists":              C21_tlists,
	"C21_top":                 C21_top,
	"C21_zoo":                 C21_zoo,
	"C22_both":                C22_both,
	"C22_hashes":              C22_hashes,
	"C22_history":             C22_history,
	"C22_others":              C22_others,
	"C22_twins":               C22_twins,
	"C23_alists":              C23_alists,
	"C23_any_ptrs":            C23_any_ptrs,
	"C23_any_text":            C23_any_text,
	"C23_any_texts":           C23_any_texts,
	"C23_any_zoo":             C23_any_zoo,
	"C23_arrays":              C23_arrays,
	"C23_embedded":            C23_embedded,
	"C23_fixed":               C23_fixed,
	"C23_fixeds":              C23_fixeds,
	"C23_herd":                C23_herd,
	"C23_ints":                C23_ints,
	"C23_jany_bytes":          C23_jany_bytes,
	"C23_jany_ints":           C23_jany_ints,
	"C23_jany_map":            C23_jany_map,
	"C23_jany_string":         C23_jany_string,
	"C23_json_arrays":         C23_json_arrays,
	"C23_json_custom":         C23_json_custom,
	"C23_json_herd":           C23_json_herd,
	"C23_json_ints":           C23_json_ints,
	"C23_json_jlists":         C23_json_jlists,
	"C23_json_maps":           C23_json_maps,
	"C23_json_named":          C23_json_named,
	"C23_json_nest":           C23_json_nest,
	"C23_json_omit":           C23_json_omit,
	"C23_json_ptrs":           C23_json_ptrs,
	"C23_json_text":           C23_json_text,
	"C23_json_texts":          C23_json_texts,
	"C23_json_tlists":         C23_json_tlists,
	"C23_json_top":            C23_json_top,
	"C23_json_zoo":            C23_json_zoo,
	"C23_lists":               C23_lists,
	"C23_long":                C23_long,
	"C23_mut_texts":           C23_mut_texts,
	"C23_mut_zoo":             C23_mut_zoo,
	"C23_named":               C23_named,
	"C23_nest":                C23_nest,
	"C23_nlists":              C23_nlists,
	"C23_node":                C23_node,
	"C23_octets":              C23_octets,
	"C23_packed":              C23_packed,
	"C23_plists":              C23_plists,
	"C23_ptrs":                C23_ptrs,
	"C23_repr":                C23_repr,
	"C23_rich":                C23_rich,
	"C23_slices":              C23_slices,
	"C23_structs":             C23_structs,
	"C23_text":                C23_text,
	"C23_texts":               C23_texts,
	"C23_times":               C23_times,
	"C23_tlists":              C23_tlists,
	"C23_top":                 C23_top,
	"C23_wempty":              C23_wempty,
	"C23_zoo":                 C23_zoo,
	"C24_again":               C24_again,
	"C24_alists":              C24_alists,
	"C24_any_arrays":          C24_any_arrays,
	"C24_any_ints":            C24_any_ints,
	"C24_any_ptrs":            C24_any_ptrs,
	"C24_any_text":            C24_any_text,
	"C24_any_texts":           C24_any_texts,
	"C24_any_zoo":             C24_any_zoo,
	"C24_arrays":              C24_arrays,
	"C24_both":                C24_both,
	"C24_deep":                C24_deep,
	"C24_dzoo":                C24_dzoo,
	"C24_embedded":            C24_embedded,
	"C24_empty":               C24_empty,
	"C24_fixed":               C24_fixed,
	"C24_fixeds":              C24_fixeds,
	"C24_floats":              C24_floats,
	"C24_herd":                C24_herd,
	"C24_ints":                C24_ints,
	"C24_jmix_alists":         C24_jmix_alists,
	"C24_jmix_herd":           C24_jmix_herd,
	"C24_jmix_ints":           C24_jmix_ints,
	"C24_jmix_jlists":         C24_jmix_jlists,
	"C24_jmix_maps":           C24_jmix_maps,
	"C24_jmix_nest":           C24_jmix_nest,
	"C24_jmix_omit":           C24_jmix_omit,
	"C24_jmix_plists":         C24_jmix_plists,
	"C24_jmix_ptrs":           C24_jmix_ptrs,
	"C24_jmix_rich":           C24_jmix_rich,
	"C24_jmix_times":          C24_jmix_times,
	"C24_jmix_zoo":            C24_jmix_zoo,
	"C24_json_arrays":         C24_json_arrays,
	"C24_json_herd":           C24_json_herd,
	"C24_json_ints":           C24_json_ints,
	"C24_json_jlists":         C24_json_jlists,
	"C24_json_maps":           C24_json_maps,
	"C24_json_nest":           C24_json_nest,
	"C24_json_omit":           C24_json_omit,
	"C24_json_plists":         C24_json_plists,
	"C24_json_ptrs":           C24_json_ptrs,
	"C24_json_structs":        C24_json_structs,
	"C24_json_tagged":         C24_json_tagged,
	"C24_json_text":           C24_json_text,
	"C24_json_tlists":         C24_json_tlists,
	"C24_json_wempty":         C24_json_wempty,
	"C24_lists":               C24_lists,
	"C24_long":                C24_long,
	"C24_mix_alists":          C24_mix_alists,
	"C24_mix_arrays":          C24_mix_arrays,
	"C24_mix_embedded":        C24_mix_embedded,
	"C24_mix_fixed":           C24_mix_fixed,
	"C24_mix_fixeds":          C24_mix_fixeds,
	"C24_mix_herd":            C24_mix_herd,
	"C24_mix_ints":            C24_mix_ints,
	"C24_mix_nest":            C24_mix_nest,
	"C24_mix_nlists":          C24_mix_nlists,
	"C24_mix_packed":          C24_mix_packed,
	"C24_mix_plists":          C24_mix_plists,
	"C24_mix_ptrs":            C24_mix_ptrs,
	"C24_mix_rich":            C24_mix_rich,
	"C24_mix_structs":         C24_mix_structs,
	"C24_mix_tagged":          C24_mix_tagged,
	"C24_mix_text":            C24_mix_text,
	"C24_mix_texts":           C24_mix_texts,
	"C24_mix_times":           C24_mix_times,
	"C24_mix_tlists":          C24_mix_tlists,
	"C24_mix_wempty":          C24_mix_wempty,
	"C24_mix_wlists":          C24_mix_wlists,
	"C24_mix_zoo":             C24_mix_zoo,
	"C24_mut_arrays":          C24_mut_arrays,
	"C24_mut_nest":            C24_mut_nest,
	"C24_mut_ptrs":            C24_mut_ptrs,
	"C24_mut_structs":         C24_mut_structs,
	"C24_mut_times":           C24_mut_times,
	"C24_named":               C24_named,
	"C24_nest":                C24_nest,
	"C24_nlists":              C24_nlists,
	"C24_node":                C24_node,
	"C24_octets":              C24_octets,
	"C24_packed":              C24_packed,
	"C24_plists":              C24_plists,
	"C24_ptrs":                C24_ptrs,
	"C24_rich":                C24_rich,
	"C24_structs":             C24_structs,
	"C24_tagged":              C24_tagged,
	"C24_text":                C24_text,
	"C24_texts":               C24_texts,
	"C24_times":               C24_times,
	"C24_tlists":              C24_tlists,
	"C24_top":                 C24_top,
	"C24_wempty":              C24_wempty,
	"C24_wide":                C24_wide,
	"C24_zoo":                 C24_zoo,
	"C25_arrays":              C25_arrays,
	"C25_deep":                C25_deep,
	"C25_fixed":               C25_fixed,
	"C25_functions":           C25_functions,
	"C25_inside":              C25_inside,
	"C25_lists":               C25_lists,
	"C25_long":                C25_long,
	"C25_nest":                C25_nest,
	"C25_packed":              C25_packed,
	"C25_prefix":              C25_prefix,
	"C25_ptrs":                C25_ptrs,
	"C25_rich":                C25_rich,
	"C25_stream":              C25_stream,
	"C25_structs":             C25_structs,
	"C25_text":                C25_text,
	"C25_texts":               C25_texts,
	"C25_times":               C25_times,
	"C25_zoo":                 C25_zoo,
	"C26_binary":              C26_binary,
	"C26_custom":              C26_custom,
	"C26_disambiguate":        C26_disambiguate,
	"C26_first_or_registered": C26_first_or_registered,
	"C26_interface":           C26_interface,
	"C26_json":                C26_json,
	"C26_package":             C26_package,
	"C26_refused":             C26_refused,
	"C26_register":            C26_register,
	"C26_registrations":       C26_registrations,
	"C27_any_cage":            C27_any_cage,
	"C27_any_floats":          C27_any_floats,
	"C27_any_ints":            C27_any_ints,
	"C27_any_nest":            C27_any_nest,
	"C27_any_packed":          C27_any_packed,
	"C27_any_string":          C27_any_string,
	"C27_any_text":            C27_any_text,
	"C27_ints":                C27_ints,
	"C27_jany_cage":           C27_jany_cage,
	"C27_jany_int8":           C27_jany_int8,
	"C27_jany_ints":           C27_jany_ints,
	"C27_jany_leaf":           C27_jany_leaf,
	"C27_jany_map":            C27_jany_map,
	"C27_jany_string":         C27_jany_string,
	"C27_jhole_leaf":          C27_jhole_leaf,
	"C27_json_ints":           C27_json_ints,
	"C27_json_maps":           C27_json_maps,
	"C27_json_nest":           C27_json_nest,
	"C27_json_refused":        C27_json_refused,
	"C27_json_structs":        C27_json_structs,
	"C27_json_text":           C27_json_text,
	"C27_long":                C27_long,
	"C27_mut_nest":            C27_mut_nest,
	"C27_mut_structs":         C27_mut_structs,
	"C27_nest":                C27_nest,
	"C27_packed":              C27_packed,
	"C27_ptrs":                C27_ptrs,
	"C27_refused":             C27_refused,
	"C27_rich":                C27_rich,
	"C27_structs":             C27_structs,
	"C27_text":                C27_text,
	"C27_texts":               C27_texts,
	"C27_times":               C27_times,
	"C28_errors":              C28_errors,
	"C28_history":             C28_history,
	"C28_names":               C28_names,
	"C28_types":               C28_types,
}
