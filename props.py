"""Which harnesses decide which property, and within which bounds."""

ASCII = ("the vendor text of leaf 0 is ASCII (every ASCII string, known vendors included); other bytes are decided by C02",
         "core::str::from_utf8 answers Ok with the same bytes for ASCII text (that the text is ASCII is an obligation)")
ONE = ("none on values: every register value of the leafs involved, every maximum leaf, every ASCII vendor string and "
       "every value of all other leafs")

DECODE = ["leaf1", "leaf1_flags", "leaf7", "leaf3", "leaf5", "leaf6", "leaf9_a", "leaf_d_info", "leaf_f", "leaf_10",
          "leaf_12", "leaf_14", "leaf_15_fields", "hypervisor", "ext_features", "l1_cache", "l2_l3_cache", "tlb_1gb",
          "apm", "capacity", "svm", "amd_perf", "amd_topo", "mem_enc", "pqos", "amd_ids2"]
DEBUG = ["dbg_whole_amd", "dbg_whole_intel", "dbg_list_state", "dbg_list_dat", "dbg_serial", "dbg_feature_info",
         "dbg_cache_parameter", "dbg_monitor_mwait", "dbg_thermal_power", "dbg_extended_features", "dbg_dca_perf",
         "dbg_topology_level", "dbg_state_info", "dbg_state", "dbg_rdt_mon", "dbg_rdt_alloc", "dbg_sgx", "dbg_pt_freq",
         "dbg_tsc", "dbg_dat", "dbg_soc", "dbg_hypervisor", "dbg_ext_ids", "dbg_capacity", "dbg_amd_topology", "dbg_pqos",
         "dbg_raw_result", "dbg_vendor", "dbg_list_cache", "dbg_list_topology", "dbg_list_sgx"]
GATE = ["gate_basic_a", "gate_basic_b", "gate_ext_a", "gate_ext_b", "gate_conditional"]


REPORT = ["rep_amd_5_8", "rep_leaf3_5", "rep_leaf_14_18", "rep_leaf6_7", "rep_leaf_f_12", "rep_amd_21_26", "rep_amd_a_1e",
          "rep_leaf1", "rep_leaf9_b", "rep_leaf_d_a", "rep_leaf_d_b", "rep_leaf_d_c", "rep_leaf_d_d", "rep_amd_1f_20_a",
          "rep_amd_1f_20_b", "rep_amd_1f_20_c"]
DISPLAY = dict(name="display", dir="harness-display", flags=["--no-memory-safety-checks"],
               cbmc=["--max-field-sensitivity-array-size", "128"])


def p(quick, thorough=(), bounds=ONE, outside="", assumptions=ASCII, **kw):
    return dict(quick=list(quick), thorough=list(thorough), bounds=bounds, outside=outside,
                assumptions=list(assumptions), **kw)


PROPS = {
    "C01": p(GATE),
    "C02": p(["vendor_ascii", "vendor_utf8_all"], ["vendor_utf8_c"],
             bounds="every value of the 12 vendor bytes; in the thorough tier also the standard library's own UTF-8 "
                    "validation over every value of the last four bytes",
             assumptions=["core::str::from_utf8 accepts exactly the well-formed UTF-8 of the Unicode standard "
                          "(vendor_utf8_c runs the real one)"]),
    "C03": p(["leaf1"], outside="family numbers above 255, which do not fit the 8-bit result: known finding"),
    "C04": p(["leaf1_flags"]),
    "C05": p(["leaf7"]),
    "C06": p(["ext_features"]),
    "C07": p(["leaf3", "leaf5", "leaf6", "leaf9_a", "leaf_15_fields"]),
    "C08": p(["long_cache_intel", "long_cache_amd", "it_cache_intel_5", "it_cache_amd_5", "it_cache_intel_2", "it_cache_amd_2"],
             ["far_cache_intel", "far_cache_amd"],
             bounds="lists of up to 5 caches with every register value in each; lists of up to 41 (thorough: 131) caches "
                    "whose registers depend on the sub-leaf and four words",
             outside="longer lists; what follows a reserved cache type"),
    "C10": p(["long_topo_b", "long_topo_1f", "long_amd_topo", "it_topo_b_7", "it_topo_1f_7", "it_amd_topo_7", "it_topo_b_3",
              "it_topo_1f_3", "it_amd_topo_3"], ["far_topo_b", "far_topo_1f", "far_amd_topo"],
             bounds="lists of up to 7 levels with every register value in each; lists of up to 41 (thorough: 131) levels whose "
                    "registers depend on the sub-leaf and four words", outside="longer lists"),
    "C11": p(["it_state_first6", "leaf_d_info", "it_state_first2", "it_state_high", "it_state_low"],
             bounds="every register value; lists of up to 5 components among bits 2 to 9 or 10 to 18, the first six "
                    "components of any list",
             outside="later components of longer lists"),
    "C12": p(["leaf_f", "leaf_10", "pqos"]),
    "C13": p(["leaf_12", "long_sgx", "it_sgx_7", "it_sgx_3"], ["far_sgx"],
             bounds="every register value; lists of up to 7 sections with every register value in each; lists of up to 40 "
                    "(thorough: 130) sections whose registers depend on the sub-leaf and four words", outside="longer lists"),
    "C14": p(["leaf_14"]),
    "C15": p(["tsc_value", "tsc_bounds"], fallback={"tsc_value": ["tsc_bounds", "tsc_wide_a", "tsc_wide_b"]}, budget=200,
             bounds="every value of numerator, denominator and crystal frequency"),
    "C16": p(["it_soc_ids", "long_soc", "it_soc_attrs_6", "it_soc_attrs_3", "soc_brand"], ["far_soc"],
             bounds="every register value; up to 6 attribute sub-leafs with every register value in each, and up to 37 "
                    "(thorough: 127) whose registers depend on the sub-leaf and four words; every ASCII brand text",
             outside="longer lists; brand text that is not ASCII"),
    "C17": p(["long_dat", "it_dat_6", "it_dat_3"],
             bounds="up to 6 sub-leafs, valid or not, every register value in each; up to 41 sub-leafs of which any two are "
                    "valid, whose registers depend on the sub-leaf and four words", outside="longer lists"),
    "C18": p(["hypervisor"]),
    "C19": p(["l1_cache", "l2_l3_cache", "tlb_1gb"],
             outside="entry counts above 255 in leaf 0x80000019 (known finding); 4-bit associativity codes 3 and 7, "
                     "which the vendors' manuals decode differently"),
    "C20": p(["apm", "capacity", "svm", "amd_perf", "amd_topo", "mem_enc", "amd_ids2"],
             outside="256 threads per core (known finding); the logical processor maximum for an APIC id size of 0"),
    "C21": p(["brand_plain", "brand_head", "brand_mid", "brand_tail", "brand_utf8"], ["brand_full"],
             bounds="every 48-character text without NUL and blanks; any characters, NULs and blanks included, in windows "
                    "of 6 at the start, in the middle and at the end (thorough: anywhere); any three bytes in a short text",
             outside="blanks outside ASCII",
             assumptions=["core::str::from_utf8 and str::trim, str::trim_start, str::trim_end do what their documentation "
                          "says: replaced by their definitions over ASCII (from_utf8: over all bytes in brand_utf8)"]),
    "C22": p(DECODE + GATE + ["it_cache_intel_2", "it_cache_amd_2", "it_topo_b_3", "it_topo_1f_3", "it_amd_topo_3",
                              "it_state_first2", "it_state_high", "it_sgx_3", "it_dat_3", "it_soc_ids", "it_soc_attrs_3",
                              "vendor_ascii", "brand_plain", "brand_tail", "soc_brand", "tsc_any", "topo_any", "dat_any"],
             ["it_cache_intel_5", "it_cache_amd_5", "it_topo_b_7", "it_topo_1f_7", "it_amd_topo_7", "it_state_low",
              "it_state_first6", "it_sgx_7", "it_dat_6", "it_soc_attrs_6", "brand_full"],
             touch=True,
             bounds="every register value; lists as bounded in the properties of the leafs",
             outside="family numbers above 255 and 256 threads per core (known findings); Debug and Display output"),
    "C24": p(["clone_cache", "clone_topology", "clone_amd_topology", "clone_sgx"],
             bounds="copies taken after the first element, advanced by two; every register value of three sub-leafs"),
    "C25": p(DEBUG,
             bounds="every value of the registers of the leaf (TSC frequency: terms below 64); representations of lists of "
                    "up to 3 entries; the whole processor with every leaf present",
             outside="derived representations and the flag sets shown as such; how a value is spelled out by the standard "
                     "library; vendor text other than 12 printable characters",
             assumptions=["the standard library's debug_struct, field, debug_list, entry and finish show what they are given "
                          "under the name they are given (replaced by functions that record it)"]),
    "C26": p(REPORT, bounds="every value of the registers shown; which leafs, list entries and state components there are is "
                            "fixed (every section, two or more entries of each list, three or four patterns of component bits)",
             outside="the descriptor rows of leaf 2, the topology of leaf 0x1F and the hypervisor leafs, the texts of vendor, "
                     "brand and SoC brand; family numbers above 255 and 256 threads per core (known findings); how the terminal "
                     "draws a table",
             assumptions=["termimad shows the texts and the table cells it is given (replaced by a recorder)",
                          "the standard library's formatting gives different texts for different numbers and puts what it is "
                          "given in the places of the format string (replaced by an interpreter of the compiled format string "
                          "that writes numbers in a fixed-length encoding)",
                          "the Display texts of the crate's enumerations are distinct",
                          "memory safety of this code is left to the compiler: it is safe Rust"],
             crate=DISPLAY, budget=700),
    "C27": p(["raw_dump"], ["raw_dump_long"],
             bounds="up to 4 basic, 3 hypervisor and 3 extended leafs, ranges without leafs included, every register value in "
                    "each (thorough: also up to 9, 5 and 9 leafs whose registers depend on four words)",
             outside="longer ranges; a maximum that is garbage because the range does not exist but lies above its first leaf",
             assumptions=["println prints the Arguments it makes, as a line (under Kani it makes them and prints nothing: each "
                          "Arguments made and not turned into a string counts as a line)",
                          "the standard library's formatting gives different texts for different numbers (replaced by an "
                          "interpreter of the compiled format string); the debug text of a raw result is decided by C25"],
             crate=DISPLAY, budget=700),
    "C28": p(["all_zero", "closure_reader"]),
}
