//! What the report of a processor must show, section by section: each label with the value of the
//! query it names. Registers that decide how many list entries or sections there are have fixed values, all
//! others take every value.
use crate::*;

pub const ZERO: CpuIdResult = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 };
fn r4(eax: u32, ebx: u32, ecx: u32, edx: u32) -> CpuIdResult {
    CpuIdResult { eax, ebx, ecx, edx }
}
fn text(b: [u8; 16]) -> CpuIdResult {
    let w = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    r4(w(0), w(4), w(8), w(12))
}
fn intel<const N: usize>(max: u32, keys: [(u32, u32); N], tab: [CpuIdResult; N]) -> Cpu<N> {
    Cpu { l0: r4(max, 0x756e_6547, 0x6c65_746e, 0x4965_6e69), l80: ZERO, keys, tab, other: ZERO }
}
fn amd<const N: usize>(max: u32, keys: [(u32, u32); N], tab: [CpuIdResult; N]) -> Cpu<N> {
    Cpu { l0: r4(0, 0x6874_7541, 0x444d_4163, 0x6974_6e65), l80: r4(max, 0, 0, 0), keys, tab, other: ZERO }
}

/// The leaf is there.
macro_rules! get {
    ($v:ident, $e:expr) => {
        let $v = match $e {
            Some(x) => x,
            None => {
                ck!(false, "the leaf is reported");
                return;
            }
        };
    };
}
macro_rules! line {
    ($r:ident, $m:literal, $t:expr) => {
        ck!($r.line(&$t), concat!("line ", $m));
    };
}
macro_rules! sec {
    ($r:ident, $t:literal) => {
        ck!($r.line(concat!("## ", $t, "\n")), concat!("section ", $t));
    };
}
macro_rules! sub {
    ($r:ident, $t:literal) => {
        ck!($r.line(concat!("### ", $t, "\n")), concat!("section ", $t));
    };
}
macro_rules! rows {
    ($r:ident, { $( $l:literal => $e:expr ),* $(,)? }) => {
        $( ck!($r.row(&[$l], $e.shown()), concat!("row ", $l)); )*
    };
}
macro_rules! rows3 {
    ($r:ident, { $( $k:literal, $l:literal => $e:expr ),* $(,)? }) => {
        $( ck!($r.row(&[$k, $l], $e.shown()), concat!("row ", $k, " ", $l)); )*
    };
}
/// Nothing else follows: leafs the processor lacks have no section.
macro_rules! done {
    ($r:ident) => {
        ck!($r.done(), "no section beyond the leafs the processor has");
    };
}

pub fn leaf1(s: &mut Src) {
    let c = intel(1, [(1, 0)], [regs(s)]);
    assume!(f(c.tab[0].eax, 20, 27) < 0xf0);
    let (id, mut r) = report(&c, 0);
    // info = cpuid.get_vendor_info()
    get!(_info, id.get_vendor_info());
    line!(r, "head", "# CpuId\n");
    line!(r, "vendor", "## vendor_id (0x00) = \"GenuineIntel\"\n");
    // info = cpuid.get_feature_info()
    get!(info, id.get_feature_info());
    sec!(r, "version information (1/eax):");
    rows!(r, {
        "base family" => info.base_family_id(),
        "base model" => info.base_model_id(),
        "stepping" => info.stepping_id(),
        "extended family" => info.extended_family_id(),
        "extended model" => info.extended_model_id(),
        "family" => info.family_id(),
        "model" => info.model_id(),
    });
    sec!(r, "miscellaneous (1/ebx):");
    rows!(r, {
        "processor APIC physical id" => info.initial_local_apic_id(),
        "max. cpus" => info.max_logical_processor_ids(),
        "CLFLUSH line size" => info.cflush_cache_line_size(),
        "brand index" => info.brand_index(),
    });
    sec!(r, "feature information (1/edx):");
    rows!(r, {
        "fpu" => info.has_fpu(),
        "vme" => info.has_vme(),
        "de" => info.has_de(),
        "pse" => info.has_pse(),
        "tsc" => info.has_tsc(),
        "msr" => info.has_msr(),
        "pae" => info.has_pae(),
        "mce" => info.has_mce(),
        "cmpxchg8b" => info.has_cmpxchg8b(),
        "apic" => info.has_apic(),
        "sysenter_sysexit" => info.has_sysenter_sysexit(),
        "mtrr" => info.has_mtrr(),
        "pge" => info.has_pge(),
        "mca" => info.has_mca(),
        "cmov" => info.has_cmov(),
        "pat" => info.has_pat(),
        "pse36" => info.has_pse36(),
        "psn" => info.has_psn(),
        "clflush" => info.has_clflush(),
        "ds" => info.has_ds(),
        "acpi" => info.has_acpi(),
        "mmx" => info.has_mmx(),
        "fxsave_fxstor" => info.has_fxsave_fxstor(),
        "sse" => info.has_sse(),
        "sse2" => info.has_sse2(),
        "ss" => info.has_ss(),
        "htt" => info.has_htt(),
        "tm" => info.has_tm(),
        "pbe" => info.has_pbe(),
    });
    sec!(r, "feature information (1/ecx):");
    rows!(r, {
        "sse3" => info.has_sse3(),
        "pclmulqdq" => info.has_pclmulqdq(),
        "ds_area" => info.has_ds_area(),
        "monitor_mwait" => info.has_monitor_mwait(),
        "cpl" => info.has_cpl(),
        "vmx" => info.has_vmx(),
        "smx" => info.has_smx(),
        "eist" => info.has_eist(),
        "tm2" => info.has_tm2(),
        "ssse3" => info.has_ssse3(),
        "cnxtid" => info.has_cnxtid(),
        "fma" => info.has_fma(),
        "cmpxchg16b" => info.has_cmpxchg16b(),
        "pdcm" => info.has_pdcm(),
        "pcid" => info.has_pcid(),
        "dca" => info.has_dca(),
        "sse41" => info.has_sse41(),
        "sse42" => info.has_sse42(),
        "x2apic" => info.has_x2apic(),
        "movbe" => info.has_movbe(),
        "popcnt" => info.has_popcnt(),
        "tsc_deadline" => info.has_tsc_deadline(),
        "aesni" => info.has_aesni(),
        "xsave" => info.has_xsave(),
        "oxsave" => info.has_oxsave(),
        "avx" => info.has_avx(),
        "f16c" => info.has_f16c(),
        "rdrand" => info.has_rdrand(),
        "hypervisor" => info.has_hypervisor(),
    });
    done!(r);
}

pub fn leaf3_5(s: &mut Src) {
    // leaf 4: one size factor at a time takes every value; the last entry has the largest possible size
    let fixed = [
        r4(0x1c00_4121, 0x01c0_003f, 0x0000_003f, 0b001),
        r4(0x1c00_4122, 0x01c0_003f, 0x0000_003f, 0b010),
        r4(0xfc00_8143, 0x03c0_003f, 0x0000_03ff, 0b110),
        r4(0x0400_0263, 0x02c0_103f, 0x0000_0000, 0b101),
        r4(0xffff_ffe1, 0xffff_ffff, 0xffff_ffff, 0b111),
    ];
    let (a, b, d, e) = (s.u32(), s.u32(), s.u32(), s.u32());
    let mut cache = fixed;
    cache[0].ebx = (a & 0xffc0_0000) | 0x0000_203f;
    cache[1].ebx = (b & 0x003f_f000) | 0x01c0_003f;
    cache[2].ebx = (d & 0x0000_0fff) | 0x0200_1000;
    cache[3].ecx = e;
    let eax = s.u32();
    assume!(f(eax, 20, 27) < 0xf0);
    let (l3, l5) = (regs(s), regs(s));
    let c = intel(5, [(1, 0), (3, 0), (4, 0), (4, 1), (4, 2), (4, 3), (4, 4), (5, 0)],
        [CpuIdResult { eax, ..ZERO }, l3, cache[0], cache[1], cache[2], cache[3], cache[4], l5]);
    let (id, mut r) = report(&c, 7);
    // info = cpuid.get_processor_serial()
    get!(info, id.get_processor_serial());
    line!(r, "serial number", format!("## processor serial number (0x03) = \"{:0>8x}-{:0>8x}-{:0>8x}\"\n",
        info.serial_upper(), info.serial_middle(), info.serial_lower()));
    // iter = cpuid.get_cache_parameters()
    get!(iter, id.get_cache_parameters());
    sec!(r, "deterministic cache parameters (0x04):");
    for cache in iter {
    line!(r, "cache", format!("### L{} Cache:\n", cache.level()));
    rows!(r, {
        "cache type" => cache.cache_type(),
        "cache level" => cache.level(),
        "self-initializing cache level" => cache.is_self_initializing(),
        "fully associative cache" => cache.is_fully_associative(),
        "threads sharing this cache" => cache.max_cores_for_cache(),
        "processor cores on this die" => cache.max_cores_for_package(),
        "system coherency line size" => cache.coherency_line_size(),
        "physical line partitions" => cache.physical_line_partitions(),
        "ways of associativity" => cache.associativity(),
        "WBINVD/INVD acts on lower caches" => cache.is_write_back_invalidate(),
        "inclusive to lower caches" => cache.is_inclusive(),
        "complex cache indexing" => cache.has_complex_indexing(),
        "number of sets" => cache.sets(),
        "(size synth.)" => cache.associativity() as u128 * cache.physical_line_partitions() as u128
            * cache.coherency_line_size() as u128 * cache.sets() as u128,
    });
    }
    // info = cpuid.get_monitor_mwait_info()
    get!(info, id.get_monitor_mwait_info());
    sec!(r, "MONITOR/MWAIT (0x05):");
    rows!(r, {
        "smallest monitor-line size" => info.smallest_monitor_line(),
        "largest monitor-line size" => info.largest_monitor_line(),
        "MONITOR/MWAIT exts" => info.extensions_supported(),
        "Interrupts as break-event for MWAIT" => info.interrupts_as_break_event(),
    });
    line!(r, "C-states", "number of CX sub C-states using MWAIT:\n");
    rows!(r, {
        "c0" => info.supported_c0_states(),
        "c1" => info.supported_c1_states(),
        "c2" => info.supported_c2_states(),
        "c3" => info.supported_c3_states(),
        "c4" => info.supported_c4_states(),
        "c5" => info.supported_c5_states(),
        "c6" => info.supported_c6_states(),
        "c7" => info.supported_c7_states(),
    });
    done!(r);
}

pub fn leaf6_7(s: &mut Src) {
    let c = intel(7, [(6, 0), (7, 0), (7, 1)], [regs(s), regs(s), regs(s)]);
    let (id, mut r) = report(&c, 11);
    // info = cpuid.get_thermal_power_info()
    get!(info, id.get_thermal_power_info());
    sec!(r, "Thermal and Power Management Features (0x06):");
    rows!(r, {
        "digital thermometer" => info.has_dts(),
        "Intel Turbo Boost Technology" => info.has_turbo_boost(),
        "ARAT always running APIC timer" => info.has_arat(),
        "PLN power limit notification" => info.has_pln(),
        "ECMD extended clock modulation duty" => info.has_ecmd(),
        "PTM package thermal management" => info.has_ptm(),
        "HWP base registers" => info.has_hwp(),
        "HWP notification" => info.has_hwp_notification(),
        "HWP activity window" => info.has_hwp_activity_window(),
        "HWP energy performance preference" => info.has_hwp_energy_performance_preference(),
        "HWP package level request" => info.has_hwp_package_level_request(),
        "HDC base registers" => info.has_hdc(),
        "Intel Turbo Boost Max Technology 3.0" => info.has_turbo_boost3(),
        "HWP capabilities" => info.has_hwp_capabilities(),
        "HWP PECI override" => info.has_hwp_peci_override(),
        "flexible HWP" => info.has_flexible_hwp(),
        "IA32_HWP_REQUEST MSR fast access mode" => info.has_hwp_fast_access_mode(),
        "ignoring idle logical processor HWP req" => info.has_ignore_idle_processor_hwp_request(),
        "digital thermometer threshold" => info.dts_irq_threshold(),
        "hardware coordination feedback" => info.has_hw_coord_feedback(),
        "performance-energy bias capability" => info.has_energy_bias_pref(),
    });
    // info = cpuid.get_extended_feature_info()
    get!(info, id.get_extended_feature_info());
    sec!(r, "Extended feature flags (0x07):");
    rows!(r, {
        "FSGSBASE" => info.has_fsgsbase(),
        "IA32_TSC_ADJUST MSR" => info.has_tsc_adjust_msr(),
        "SGX: Software Guard Extensions" => info.has_sgx(),
        "BMI1" => info.has_bmi1(),
        "HLE hardware lock elision" => info.has_hle(),
        "AVX2: advanced vector extensions 2" => info.has_avx2(),
        "FDP_EXCPTN_ONLY" => info.has_fdp(),
        "SMEP supervisor mode exec protection" => info.has_smep(),
        "BMI2 instructions" => info.has_bmi2(),
        "enhanced REP MOVSB/STOSB" => info.has_rep_movsb_stosb(),
        "INVPCID instruction" => info.has_invpcid(),
        "RTM: restricted transactional memory" => info.has_rtm(),
        "RDT-CMT/PQoS cache monitoring" => info.has_rdtm(),
        "deprecated FPU CS/DS" => info.has_fpu_cs_ds_deprecated(),
        "MPX: intel memory protection extensions" => info.has_mpx(),
        "RDT-CAT/PQE cache allocation" => info.has_rdta(),
        "AVX512F: AVX-512 foundation instructions" => info.has_avx512f(),
        "AVX512-4NNIW: 4NNIW instructions" => info.has_avx512_4vnniw(),
        "AVX512-4FMAPS: 4FMAPS instructions" => info.has_avx512_4fmaps(),
        "AVX512-VP2INTERSECT: VP2INTERSECT instructions" => info.has_avx512_vp2intersect(),
        "AMX_BF16: AMX_BF16 instructions" => info.has_amx_bf16(),
        "AVX512_FP16: AVX512_FP16 instructions" => info.has_avx512_fp16(),
        "AMX_TILE: Tile Architecture support" => info.has_amx_tile(),
        "AMX_INT8: Tile Computational Operation on 8-bit integers" => info.has_amx_int8(),
        "AVX512DQ: double & quadword instructions" => info.has_avx512dq(),
        "RDSEED instruction" => info.has_rdseed(),
        "ADX instructions" => info.has_adx(),
        "SMAP: supervisor mode access prevention" => info.has_smap(),
        "AVX512IFMA: fused multiply add" => info.has_avx512_ifma(),
        "CLFLUSHOPT instruction" => info.has_clflushopt(),
        "CLWB instruction" => info.has_clwb(),
        "Intel processor trace" => info.has_processor_trace(),
        "AVX512PF: prefetch instructions" => info.has_avx512pf(),
        "AVX512ER: exponent & reciprocal instrs" => info.has_avx512er(),
        "AVX512CD: conflict detection instrs" => info.has_avx512cd(),
        "SHA instructions" => info.has_sha(),
        "AVX512BW: byte & word instructions" => info.has_avx512bw(),
        "AVX512VL: vector length" => info.has_avx512vl(),
        "PREFETCHWT1" => info.has_prefetchwt1(),
        "UMIP: user-mode instruction prevention" => info.has_umip(),
        "PKU protection keys for user-mode" => info.has_pku(),
        "OSPKE CR4.PKE and RDPKRU/WRPKRU" => info.has_ospke(),
        "AVX512VNNI: vector neural network instructions" => info.has_avx512vnni(),
        "BNDLDX/BNDSTX MAWAU value in 64-bit mode" => info.mawau_value(),
        "RDPID: read processor ID" => info.has_rdpid(),
        "SGX_LC: SGX launch config" => info.has_sgx_lc(),
        "AVX_VNNI: AVX vector neural network instructions" => info.has_avx_vnni(),
        "AVX512_BF16: AVX512 BF16 instructions" => info.has_avx512_bf16(),
        "FZRMK: fast zero-length REP MOVSB256" => info.has_fzrm(),
        "FSRM: fast short REP STOSB" => info.has_fsrs(),
        "FSRCRS: fast short REP CMPSB, REP SCASB" => info.has_fsrcrs(),
        "HRESET: HRESET instruction" => info.has_hreset(),
        "CET_SSS: CET_SSS support" => info.has_cet_sss(),
    });
    done!(r);
}

pub fn leaf9_b(s: &mut Src) {
    let (mut x, mut y) = (regs(s), regs(s));
    x.ecx = 0x0000_0100;
    y.ecx = 0x0000_0201;
    let c = intel(0xb, [(9, 0), (0xa, 0), (0xb, 0), (0xb, 1)], [regs(s), regs(s), x, y]);
    let (id, mut r) = report(&c, 13);
    // info = cpuid.get_direct_cache_access_info()
    get!(info, id.get_direct_cache_access_info());
    sec!(r, "Direct Cache Access Parameters (0x09):");
    line!(r, "PLATFORM_DCA_CAP", format!("PLATFORM_DCA_CAP MSR bits = {}", info.get_dca_cap_value()));
    // info = cpuid.get_performance_monitoring_info()
    get!(info, id.get_performance_monitoring_info());
    sec!(r, "Architecture Performance Monitoring Features (0x0a)");
    sub!(r, "Monitoring Hardware Info (0x0a/{eax, edx}):");
    rows!(r, {
        "version ID" => info.version_id(),
        "number of counters per HW thread" => info.number_of_counters(),
        "bit width of counter" => info.counter_bit_width(),
        "length of EBX bit vector" => info.ebx_length(),
        "number of fixed counters" => info.fixed_function_counters(),
        "bit width of fixed counters" => info.fixed_function_counters_bit_width(),
        "anythread deprecation" => info.has_any_thread_deprecation(),
    });
    sub!(r, "Monitoring Hardware Features (0x0a/ebx):");
    rows!(r, {
        "core cycle event not available" => info.is_core_cyc_ev_unavailable(),
        "instruction retired event not available" => info.is_inst_ret_ev_unavailable(),
        "reference cycles event not available" => info.is_ref_cycle_ev_unavailable(),
        "last-level cache ref event not available" => info.is_cache_ref_ev_unavailable(),
        "last-level cache miss event not avail" => info.is_ll_cache_miss_ev_unavailable(),
        "branch inst retired event not available" => info.is_branch_inst_ret_ev_unavailable(),
        "branch mispred retired event not available" => info.is_branch_midpred_ev_unavailable(),
    });
    // info = cpuid.get_extended_topology_info()
    get!(info, id.get_extended_topology_info());
    sec!(r, "x2APIC features / processor topology (0x0b):");
    for level in info {
    line!(r, "level", format!("### level {}:\n", level.level_number()));
    rows!(r, {
        "level type" => level.level_type(),
        "bit width of level" => level.shift_right_for_next_apic_id(),
        "number of logical processors at level" => level.processors(),
        "x2apic id of current processor" => level.x2apic_id(),
    });
    }
    done!(r);
}

// components: two of each class, and every flag told apart by the four patterns
fn leaf_d<const EAX: u32, const ECX: u32>(s: &mut Src) {
    let (mut l0, mut l1) = (regs(s), regs(s));
    (l0.eax, l0.edx) = (EAX, 0);
    (l1.ecx, l1.edx) = (ECX, 0);
    let c = intel(0xd, [(0xd, 0), (0xd, 1)], [l0, l1]);
    state_report(&c);
}
pub fn leaf_d_a(s: &mut Src) {
    leaf_d::<0b10_1010_1011, 0x0100>(s)
}
pub fn leaf_d_b(s: &mut Src) {
    leaf_d::<0b10_0110_0101, 0x2100>(s)
}
pub fn leaf_d_c(s: &mut Src) {
    leaf_d::<0b00_0111_1001, 0x0000>(s)
}
pub fn leaf_d_d(s: &mut Src) {
    leaf_d::<0b00_0000_0110, 0x2000>(s)
}

fn state_report<const N: usize>(c: &Cpu<N>) {
    let (id, mut r) = report(c, 19);
    // info = cpuid.get_extended_state_info()
    get!(info, id.get_extended_state_info());
    sec!(r, "Extended Register State (0x0d/0):");
    sub!(r, "XCR0/IA32_XSS supported states:");
    rows3!(r, {
        "XCR0" , "x87" => info.xcr0_supports_legacy_x87(),
        "XCR0" , "SSE state" => info.xcr0_supports_sse_128(),
        "XCR0" , "AVX state" => info.xcr0_supports_avx_256(),
        "XCR0" , "MPX BNDREGS" => info.xcr0_supports_mpx_bndregs(),
        "XCR0" , "MPX BNDCSR" => info.xcr0_supports_mpx_bndcsr(),
        "XCR0" , "AVX-512 opmask" => info.xcr0_supports_avx512_opmask(),
        "XCR0" , "AVX-512 ZMM_Hi256" => info.xcr0_supports_avx512_zmm_hi256(),
        "XCR0" , "AVX-512 Hi16_ZMM" => info.xcr0_supports_avx512_zmm_hi16(),
        "IA32_XSS" , "PT" => info.ia32_xss_supports_pt(),
        "XCR0" , "PKRU" => info.xcr0_supports_pkru(),
        "IA32_XSS" , "HDC" => info.ia32_xss_supports_hdc(),
    });
    rows!(r, {
        "bytes required by fields in XCR0" => info.xsave_area_size_enabled_features(),
        "bytes required by XSAVE/XRSTOR area" => info.xsave_area_size_supported_features(),
    });
    sub!(r, "XSAVE features (0x0d/1):");
    rows!(r, {
        "XSAVEOPT instruction" => info.has_xsaveopt(),
        "XSAVEC instruction" => info.has_xsavec(),
        "XGETBV instruction" => info.has_xgetbv(),
        "XSAVES/XRSTORS instructions" => info.has_xsaves_xrstors(),
        "SAVE area size [Bytes]" => info.xsave_size(),
    });
    for state in info.iter() {
    line!(r, "state component", format!("### {} features (0x0d/{}):\n", state.register(), state.subleaf));
    rows!(r, {
        "save state size [Bytes]" => state.size(),
        "save state byte offset" => state.offset(),
        "supported in IA32_XSS or XCR0" => state.location(),
        "64-byte alignment in compacted XSAVE" => state.is_compacted_format(),
    });
    }
    done!(r);
}

pub fn leaf_f_12(s: &mut Src) {
    let (mut lf, mut l10, l12, mut e2, mut e3) = (regs(s), regs(s), regs(s), regs(s), regs(s));
    lf.edx = 0b10;
    l10.ebx = 0b1110;
    e2.eax = 0x7fed_c001;
    e3.eax = 0x0123_4001;
    let c = intel(0x12, [(7, 0), (0xf, 0), (0xf, 1), (0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3), (0x12, 0), (0x12, 1), (0x12, 2), (0x12, 3)],
        [r4(0, 4, 0, 0), lf, regs(s), l10, regs(s), regs(s), regs(s), l12, regs(s), e2, e3]);
    let (id, mut r) = report(&c, 22);
    // info = cpuid.get_rdt_monitoring_info()
    get!(info, id.get_rdt_monitoring_info());
    sec!(r, "Quality of Service Monitoring Resource Type (0x0f/0):");
    rows!(r, {
        "Maximum range of RMID" => info.rmid_range(),
        "L3 cache QoS monitoring" => info.has_l3_monitoring(),
    });
    // rmid = info.l3_monitoring()
    get!(rmid, info.l3_monitoring());
    sub!(r, "L3 Cache Quality of Service Monitoring (0x0f/1):");
    rows!(r, {
        "Conversion factor from IA32_QM_CTR to bytes" => rmid.conversion_factor(),
        "Maximum range of RMID" => rmid.maximum_rmid_range(),
        "L3 occupancy monitoring" => rmid.has_occupancy_monitoring(),
        "L3 total bandwidth monitoring" => rmid.has_total_bandwidth_monitoring(),
        "L3 local bandwidth monitoring" => rmid.has_local_bandwidth_monitoring(),
    });
    // info = cpuid.get_rdt_allocation_info()
    get!(info, id.get_rdt_allocation_info());
    sec!(r, "Resource Director Technology Allocation (0x10/0)");
    rows!(r, {
        "L3 cache allocation technology" => info.has_l3_cat(),
        "L2 cache allocation technology" => info.has_l2_cat(),
        "memory bandwidth allocation" => info.has_memory_bandwidth_allocation(),
    });
    // l3_cat = info.l3_cat()
    get!(l3_cat, info.l3_cat());
    sub!(r, "L3 Cache Allocation Technology (0x10/1):");
    rows!(r, {
        "length of capacity bit mask" => l3_cat.capacity_mask_length(),
        "Bit-granular map of isolation/contention" => l3_cat.isolation_bitmap(),
        "code and data prioritization" => l3_cat.has_code_data_prioritization(),
        "highest COS number" => l3_cat.highest_cos(),
    });
    // l2_cat = info.l2_cat()
    get!(l2_cat, info.l2_cat());
    sub!(r, "L2 Cache Allocation Technology (0x10/2):");
    rows!(r, {
        "length of capacity bit mask" => l2_cat.capacity_mask_length(),
        "Bit-granular map of isolation/contention" => l2_cat.isolation_bitmap(),
        "highest COS number" => l2_cat.highest_cos(),
    });
    // mem = info.memory_bandwidth_allocation()
    get!(mem, info.memory_bandwidth_allocation());
    sub!(r, "Memory Bandwidth Allocation (0x10/3):");
    rows!(r, {
        "maximum throttling value" => mem.max_hba_throttling(),
        "delay values are linear" => mem.has_linear_response_delay(),
        "highest COS number" => mem.highest_cos(),
    });
    // info = cpuid.get_sgx_info()
    get!(info, id.get_sgx_info());
    sec!(r, "SGX - Software Guard Extensions (0x12/{0,1}):");
    rows!(r, {
        "SGX1" => info.has_sgx1(),
        "SGX2" => info.has_sgx2(),
        "SGX ENCLV E*VIRTCHILD, ESETCONTEXT" => info.has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext(),
        "SGX ENCLS ETRACKC, ERDINFO, ELDBC, ELDUC" => info.has_encls_leaves_etrackc_erdinfo_eldbc_elduc(),
        "MISCSELECT" => info.miscselect(),
        "MaxEnclaveSize_Not64 (log2)" => info.max_enclave_size_non_64bit(),
        "MaxEnclaveSize_64 (log2)" => info.max_enclave_size_64bit(),
    });
    for (idx, leaf) in info.iter().enumerate() {
    let SgxSectionInfo::Epc(section) = leaf;
    line!(r, "EPC section", format!("### Enclave Page Cache (0x12/{})\n", idx + 2));
    rows!(r, {
        "physical base address" => section.physical_base(),
        "size" => section.size(),
    });
    }
    done!(r);
}

pub fn leaf_14_18(s: &mut Src) {
    let (mut l14, mut l17, mut d0, mut d2) = (regs(s), regs(s), regs(s), regs(s));
    l14.eax = 1;
    l17.eax = 5;
    let (n1, n2, n3) = (*b"Some SoC vendor ", *b"of the far north", *b", a brand of 48.");
    d0.eax = 2;
    d0.edx = 0x0000_c121;
    d2.edx = 0x03ff_c343;
    let c = intel(0x18, [(0x14, 0), (0x14, 1), (0x15, 0), (0x16, 0), (0x17, 0), (0x17, 1), (0x17, 2), (0x17, 3), (0x17, 4), (0x17, 5), (0x18, 0), (0x18, 2)],
        [l14, regs(s), regs(s), regs(s), l17, text(n1), text(n2), text(n3), regs(s), regs(s), d0, d2]);
    let (id, mut r) = report(&c, 24);
    // info = cpuid.get_processor_trace_info()
    get!(info, id.get_processor_trace_info());
    sec!(r, "Intel Processor Trace (0x14):");
    rows!(r, {
        "IA32_RTIT_CR3_MATCH is accessible" => info.has_rtit_cr3_match(),
        "configurable PSB & cycle-accurate" => info.has_configurable_psb_and_cycle_accurate_mode(),
        "IP & TraceStop filtering; PT preserve" => info.has_ip_tracestop_filtering(),
        "MTC timing packet; suppress COFI-based" => info.has_mtc_timing_packet_coefi_suppression(),
        "PTWRITE" => info.has_ptwrite(),
        "power event trace" => info.has_power_event_trace(),
        "ToPA output scheme" => info.has_topa(),
        "ToPA can hold many output entries" => info.has_topa_maximum_entries(),
        "single-range output scheme support" => info.has_single_range_output_scheme(),
        "output to trace transport" => info.has_trace_transport_subsystem(),
        "IP payloads have LIP values & CS" => info.has_lip_with_cs_base(),
        "configurable address ranges" => info.configurable_address_ranges(),
        "supported MTC periods bitmask" => info.supported_mtc_period_encodings(),
        "supported cycle threshold bitmask" => info.supported_cycle_threshold_value_encodings(),
        "supported config PSB freq bitmask" => info.supported_psb_frequency_encodings(),
    });
    // info = cpuid.get_tsc_info()
    get!(info, id.get_tsc_info());
    sec!(r, "Time Stamp Counter/Core Crystal Clock Information (0x15):");
    rows!(r, {
        "TSC/clock ratio" => format!("{} / {}", info.numerator(), info.denominator()),
        "nominal core crystal clock" => info.nominal_frequency(),
    });
    // info = cpuid.get_processor_frequency_info()
    get!(info, id.get_processor_frequency_info());
    sec!(r, "Processor Frequency Information (0x16):");
    rows!(r, {
        "Core Base Frequency (MHz)" => info.processor_base_frequency(),
        "Core Maximum Frequency (MHz)" => info.processor_max_frequency(),
        "Bus (Reference) Frequency (MHz)" => info.bus_frequency(),
    });
    // dat_iter = cpuid.get_deterministic_address_translation_info()
    get!(dat_iter, id.get_deterministic_address_translation_info());
    for (idx, info) in dat_iter.enumerate() {
    line!(r, "translation structure", format!("## Deterministic Address Translation Structure (0x18/{}):\n", idx));
    rows!(r, {
        "number of sets" => info.sets(),
        "4 KiB page size entries" => info.has_4k_entries(),
        "2 MiB page size entries" => info.has_2mb_entries(),
        "4 MiB page size entries" => info.has_4mb_entries(),
        "1 GiB page size entries" => info.has_1gb_entries(),
        "partitioning" => info.partitioning(),
        "ways of associativity" => info.ways(),
        "translation cache type" => info.cache_type(),
        "translation cache level" => info.cache_level(),
        "fully associative" => info.is_fully_associative(),
        "maximum number of addressible IDs" => info.max_addressable_ids(),
        "maximum number of addressible IDs" => info.max_addressable_ids(),
    });
    }
    // info = cpuid.get_soc_vendor_info()
    get!(info, id.get_soc_vendor_info());
    sec!(r, "System-on-Chip (SoC) Vendor Info (0x17):");
    rows!(r, {
        "Vendor ID" => info.get_soc_vendor_id(),
        "Project ID" => info.get_project_id(),
        "Stepping ID" => info.get_stepping_id(),
        "Vendor Brand" => "Some SoC vendor of the far north, a brand of 48.".to_string(),
    });
    // iter = info.get_vendor_attributes()
    get!(iter, info.get_vendor_attributes());
    for (idx, attr) in iter.enumerate() {
        line!(r, "SoC attribute", format!("0x17 {:#x}: eax = {:#x} ebx = {:#x} ecx = {:#x} edx = {:#x}", idx + 4, attr.eax, attr.ebx, attr.ecx, attr.edx));
    }
    done!(r);
}

pub fn amd_5_8(s: &mut Src) {
    let (n1, n2, n3) = (*b"Some AMD process", *b"or, 128 cores at", *b" 6.00GHz      \0\0");
    let c = amd(0x8000_0008, [(0x8000_0002, 0), (0x8000_0003, 0), (0x8000_0004, 0), (0x8000_0005, 0), (0x8000_0006, 0), (0x8000_0007, 0), (0x8000_0008, 0)],
        [text(n1), text(n2), text(n3), regs(s), regs(s), regs(s), regs(s)]);
    let (id, mut r) = report(&c, 2);
    // info = cpuid.get_processor_brand_string()
    get!(_info, id.get_processor_brand_string());
    line!(r, "brand string", "Processor Brand String = \"**Some AMD processor, 128 cores at 6.00GHz**\"");
    // info = cpuid.get_l1_cache_and_tlb_info()
    get!(info, id.get_l1_cache_and_tlb_info());
    sec!(r, "L1 TLB 2/4 MiB entries (0x8000_0005/eax):");
    rows!(r, {
        "iTLB #entries" => info.itlb_2m_4m_size(),
        "iTLB associativity" => info.itlb_2m_4m_associativity(),
        "dTLB #entries" => info.dtlb_2m_4m_size(),
        "dTLB associativity" => info.dtlb_2m_4m_associativity(),
    });
    sec!(r, "L1 TLB 4 KiB entries (0x8000_0005/ebx):");
    rows!(r, {
        "iTLB #entries" => info.itlb_4k_size(),
        "iTLB associativity" => info.itlb_4k_associativity(),
        "dTLB #entries" => info.dtlb_4k_size(),
        "dTLB associativity" => info.dtlb_4k_associativity(),
    });
    sec!(r, "L1 dCache (0x8000_0005/ecx):");
    rows!(r, {
        "line size [Bytes]" => info.dcache_line_size(),
        "lines per tag" => info.dcache_lines_per_tag(),
        "associativity" => info.dcache_associativity(),
        "size [KiB]" => info.dcache_size(),
    });
    sec!(r, "L1 iCache (0x8000_0005/edx):");
    rows!(r, {
        "line size [Bytes]" => info.icache_line_size(),
        "lines per tag" => info.icache_lines_per_tag(),
        "associativity" => info.icache_associativity(),
        "size [KiB]" => info.icache_size(),
    });
    // info = cpuid.get_l2_l3_cache_and_tlb_info()
    get!(info, id.get_l2_l3_cache_and_tlb_info());
    sec!(r, "L2 TLB 2/4 MiB entries (0x8000_0006/eax):");
    rows!(r, {
        "iTLB #entries" => info.itlb_2m_4m_size(),
        "iTLB associativity" => info.itlb_2m_4m_associativity(),
        "dTLB #entries" => info.dtlb_2m_4m_size(),
        "dTLB associativity" => info.dtlb_2m_4m_associativity(),
    });
    sec!(r, "L2 TLB 4 KiB entries (0x8000_0006/ebx):");
    rows!(r, {
        "iTLB #entries" => info.itlb_4k_size(),
        "iTLB associativity" => info.itlb_4k_associativity(),
        "dTLB #entries" => info.dtlb_4k_size(),
        "dTLB associativity" => info.dtlb_4k_associativity(),
    });
    sec!(r, "L2 Cache (0x8000_0006/ecx):");
    rows!(r, {
        "line size [Bytes]" => info.l2cache_line_size(),
        "lines per tag" => info.l2cache_lines_per_tag(),
        "associativity" => info.l2cache_associativity(),
        "size [KiB]" => info.l2cache_size(),
    });
    sec!(r, "L3 Cache (0x8000_0006/edx):");
    rows!(r, {
        "line size [Bytes]" => info.l3cache_line_size(),
        "lines per tag" => info.l3cache_lines_per_tag(),
        "associativity" => info.l3cache_associativity(),
        "size [KiB]" => info.l3cache_size() as usize * 512,
    });
    // info = cpuid.get_advanced_power_mgmt_info()
    get!(info, id.get_advanced_power_mgmt_info());
    sec!(r, "RAS Capability (0x8000_0007/ebx):");
    rows!(r, {
        "MCA overflow recovery" => info.has_mca_overflow_recovery(),
        "SUCCOR" => info.has_succor(),
        "HWA: hardware assert" => info.has_hwa(),
    });
    sec!(r, "Advanced Power Management (0x8000_0007/ecx):");
    line!(r, "power sample ratio", format!("Ratio of Compute Unit Power Acc. sample period to TSC = {}", info.cpu_pwr_sample_time_ratio()));
    sec!(r, "Advanced Power Management (0x8000_0007/edx):");
    rows!(r, {
        "TS: temperature sensing diode" => info.has_ts(),
        "FID: frequency ID control" => info.has_freq_id_ctrl(),
        "VID: voltage ID control" => info.has_volt_id_ctrl(),
        "TTP: thermal trip" => info.has_thermtrip(),
        "TM: thermal monitor" => info.has_tm(),
        "100 MHz multiplier control" => info.has_100mhz_steps(),
        "hardware P-State control" => info.has_hw_pstate(),
        "Invariant TSC" => info.has_invariant_tsc(),
        "CPB: core performance boost" => info.has_cpb(),
        "read-only effective frequency interface" => info.has_ro_effective_freq_iface(),
        "processor feedback interface" => info.has_feedback_iface(),
        "APM power reporting" => info.has_power_reporting_iface(),
    });
    // info = cpuid.get_processor_capacity_feature_info()
    get!(info, id.get_processor_capacity_feature_info());
    sec!(r, "Physical Address and Linear Address Size (0x8000_0008/eax):");
    rows!(r, {
        "maximum physical address [Bits]" => info.physical_address_bits(),
        "maximum linear (virtual) address [Bits]" => info.linear_address_bits(),
        "maximum guest physical address [Bits]" => info.guest_physical_address_bits(),
    });
    sec!(r, "Extended Feature Extensions ID (0x8000_0008/ebx):");
    rows!(r, {
        "CLZERO" => info.has_cl_zero(),
        "instructions retired count" => info.has_inst_ret_cntr_msr(),
        "always save/restore error pointers" => info.has_restore_fp_error_ptrs(),
        "RDPRU" => info.has_rdpru(),
        "INVLPGB" => info.has_invlpgb(),
        "MCOMMIT" => info.has_mcommit(),
        "WBNOINVD" => info.has_wbnoinvd(),
        "WBNOINVD/WBINVD interruptible" => info.has_int_wbinvd(),
        "EFER.LMSLE unsupported" => info.has_unsupported_efer_lmsle(),
        "INVLPGB with nested paging" => info.has_invlpgb_nested(),
    });
    sec!(r, "Size Identifiers (0x8000_0008/ecx):");
    rows!(r, {
        "Logical processors" => info.num_phys_threads(),
        "APIC core ID size" => info.apic_id_size(),
        "Max. logical processors" => info.maximum_logical_processors(),
        "Perf. TSC size [Bits]" => info.perf_tsc_size(),
    });
    sec!(r, "Size Identifiers (0x8000_0008/edx):");
    rows!(r, {
        "RDPRU max. input value" => info.max_rdpru_id(),
        "INVLPGB max. #pages" => info.invlpgb_max_pages(),
    });
    done!(r);
}

pub fn amd_a_1e(s: &mut Src) {
    let mut e = regs(s);
    // 256 threads per core: known finding KF2
    assume!(f(e.ebx, 8, 15) < 255);
    let g = regs(s);
    let c = amd(0x8000_001e, [(0x8000_0001, 0), (0x8000_000a, 0), (0x8000_0019, 0), (0x8000_001a, 0), (0x8000_001b, 0), (0x8000_001e, 0)],
        [r4(0, 0, 4, 0), regs(s), g, regs(s), regs(s), e]);
    let (id, mut r) = report(&c, 20);
    // info = cpuid.get_svm_info()
    get!(info, id.get_svm_info());
    sec!(r, "SVM Secure Virtual Machine (0x8000_000a/eax):");
    line!(r, "SVM revision", format!("Revision = {}", info.revision()));
    sec!(r, "SVM Secure Virtual Machine (0x8000_000a/edx):");
    rows!(r, {
        "nested paging" => info.has_nested_paging(),
        "LBR virtualization" => info.has_lbr_virtualization(),
        "SVM lock" => info.has_svm_lock(),
        "NRIP" => info.has_nrip(),
        "MSR based TSC rate control" => info.has_tsc_rate_msr(),
        "VMCB clean bits support" => info.has_vmcb_clean_bits(),
        "flush by ASID" => info.has_flush_by_asid(),
        "decode assists" => info.has_decode_assists(),
        "pause intercept filter" => info.has_pause_filter(),
        "pause filter threshold" => info.has_pause_filter_threshold(),
        "AVIC: virtual interrupt controller" => info.has_avic(),
        "virtualized VMLOAD/VMSAVE" => info.has_vmsave_virtualization(),
        "GIF: virtual global interrupt flag" => info.has_gif(),
        "GMET: guest mode execute trap" => info.has_gmet(),
        "SPEC_CTRL virtualization" => info.has_spec_ctrl(),
        "Supervisor shadow-stack restrictions" => info.has_sss_check(),
        "#MC intercept" => info.has_host_mce_override(),
        "INVLPGB/TLBSYNC virtualization" => info.has_tlb_ctrl(),
    });
    // info = cpuid.get_tlb_1gb_page_info()
    get!(info, id.get_tlb_1gb_page_info());
    sec!(r, "TLB 1-GiB Pages Info (0x8000_0019):");
    rows!(r, {
        "L1 iTLB #entries" => info.itlb_l1_1gb_size(),
        "L1 iTLB associativity" => info.itlb_l1_1gb_associativity(),
        "L1 dTLB #entries" => info.dtlb_l1_1gb_size(),
        "L1 dTLB associativity" => info.dtlb_l1_1gb_associativity(),
        "L2 iTLB #entries" => info.itlb_l2_1gb_size(),
        "L2 iTLB associativity" => info.itlb_l2_1gb_associativity(),
        "L2 dTLB #entries" => info.dtlb_l2_1gb_size(),
        "L2 dTLB associativity" => info.dtlb_l2_1gb_associativity(),
    });
    // info = cpuid.get_performance_optimization_info()
    get!(info, id.get_performance_optimization_info());
    sec!(r, "Performance Optimization Info (0x8000_001a):");
    rows!(r, {
        "128-bits width the internal FP/SIMD" => info.has_fp128(),
        "MOVU SSE are efficient more than MOVL/MOVH" => info.has_movu(),
        "256-bits width the internal FP/SIMD" => info.has_fp256(),
    });
    // info = cpuid.get_instruction_based_sampling_capabilities()
    get!(info, id.get_instruction_based_sampling_capabilities());
    sec!(r, "Instruction-Based Sampling Capabilities (0x8000_001b):");
    rows!(r, {
        "IBS feature flags valid" => info.has_feature_flags(),
        "IBS fetch sampling supporte" => info.has_fetch_sampling(),
        "IBS execution sampling supported" => info.has_execution_sampling(),
        "Read write of op counter supported" => info.has_read_write_operation_counter(),
        "Op counting mode supported" => info.has_operation_counter(),
        "Branch target address reporting supported" => info.has_branch_target_address_reporting(),
        "IbsOpCurCnt and IbsOpMaxCnt extend by 7 bits" => info.has_operation_counter_extended(),
        "Invalid RIP indication supported" => info.has_invalid_rip_indication(),
        "Fused branch micro-op indication supported" => info.has_fused_branch_micro_op_indication(),
        "L3 Miss Filtering for IBS supported" => info.has_l3_miss_filtering(),
    });
    // info = cpuid.get_processor_topology_info()
    get!(info, id.get_processor_topology_info());
    sec!(r, "Processor Topology Info (0x8000_001e):");
    rows!(r, {
        "x2APIC ID" => info.x2apic_id(),
        "Core ID" => info.core_id(),
        "Threads per core" => info.threads_per_core(),
        "Node ID" => info.node_id(),
        "Nodes per processor" => info.nodes_per_processor(),
    });
    done!(r);
}

// every flag told apart by the three patterns
fn amd_1f_20<const EBX: u32>(s: &mut Src) {
    let (e, q1, q2, q3, q5) = (regs(s), regs(s), regs(s), regs(s), regs(s));
    let c = amd(0x8000_0020, [(0x8000_001f, 0), (0x8000_0020, 0), (0x8000_0020, 1), (0x8000_0020, 2), (0x8000_0020, 3), (0x8000_0020, 5)],
        [e, r4(0, EBX, 0, 0), q1, q2, q3, q5]);
    memory_report(&c);
}
pub fn amd_1f_20_a(s: &mut Src) {
    amd_1f_20::<0b011_0010>(s)
}
pub fn amd_1f_20_b(s: &mut Src) {
    amd_1f_20::<0b101_0100>(s)
}
pub fn amd_1f_20_c(s: &mut Src) {
    amd_1f_20::<0b110_1000>(s)
}

fn memory_report<const N: usize>(c: &Cpu<N>) {
    let (id, mut r) = report(c, 24);
    // info = cpuid.get_memory_encryption_info()
    get!(info, id.get_memory_encryption_info());
    sec!(r, "Memory Encryption Support (0x8000_001f):");
    rows!(r, {
        "SME: Secure Memory Encryption" => info.has_sme(),
        "SEV: Secure Encrypted Virtualization" => info.has_sev(),
        "Page Flush MSR" => info.has_page_flush_msr(),
        "SEV-ES: Encrypted State" => info.has_sev_es(),
        "SEV Secure Nested Paging" => info.has_sev_snp(),
        "VM Permission Levels" => info.has_vmpl(),
        "Hardware cache coherency across encryption domains" => info.has_hw_enforced_cache_coh(),
        "SEV guests only with 64-bit host" => info.has_64bit_mode(),
        "Restricted injection" => info.has_restricted_injection(),
        "Alternate injection" => info.has_alternate_injection(),
        "Full debug state swap for SEV-ES guests" => info.has_debug_swap(),
        "Disallowing IBS use by the host supported" => info.has_prevent_host_ibs(),
        "Virtual Transparent Encryption" => info.has_vte(),
        "C-bit position in page-table" => info.c_bit_position(),
        "Physical address bit reduction" => info.physical_address_reduction(),
        "Max. simultaneouslys encrypted guests" => info.max_encrypted_guests(),
        "Minimum ASID value for SEV guest" => info.min_sev_no_es_asid(),
    });
    // info = cpuid.get_pqos_extended_feature_info()
    get!(info, id.get_pqos_extended_feature_info());
    sec!(r, "Platform Quality of Service (0x8000_0020/0):");
    rows!(r, {
        "Memory Bandwidth Enforcement" => info.has_l3mbe(),
        "Slow Memory Bandwidth Enforcement" => info.has_l3smbe(),
        "Bandwidth Monitoring Event Configuration" => info.has_bmec(),
        "L3 Range Reservation" => info.has_l3rr(),
        "Assignable Bandwidth Monitoring Counters" => info.has_abmc(),
        "Smart Data Cache Injection (SDCI) Allocation Enforcement" => info.has_sdciae(),
    });
    // info = info.get_l3_memory_bandwidth_enforcement_info()
    if let Some(info) = info.get_l3_memory_bandwidth_enforcement_info() {
    sec!(r, "L3 Memory Bandwidth Enforcement Information (0x8000_0020/1):");
    rows!(r, {
        "Bandwidth Length" => info.bandwidth_length(),
        "COS Number" => info.cos_max(),
    });
    }
    // info = info.get_l3_slow_memory_bandwidth_enforcement_info()
    if let Some(info) = info.get_l3_slow_memory_bandwidth_enforcement_info() {
    sec!(r, "L3 Slow Memory Bandwidth Enforcement Information (0x8000_0020/2):");
    rows!(r, {
        "Bandwidth Length" => info.bandwidth_length(),
        "COS Number" => info.cos_max(),
    });
    }
    // info = info.get_bandwidth_monitoring_event_counters_info()
    if let Some(info) = info.get_bandwidth_monitoring_event_counters_info() {
    sec!(r, "Bandwidth Monitoring Event Counters Information (0x8000_0020/3):");
    rows!(r, {
        "Number of configurable bandwidth events" => info.number_events(),
        "Reads to local DRAM memory" => info.has_l3_cache_lcl_bw_fill_mon(),
        "Reads to remote DRAM memory" => info.has_l3_cache_rmt_bw_fill_mon(),
        "Non-temporal writes to local memory" => info.has_l3_cache_lcl_bw_nt_wr_mon(),
        "Non-temporal writes to remote memory" => info.has_l3_cache_rmt_bw_nt_wr_mon(),
        "Reads to local memory identified as 'Slow Memory'" => info.has_l3_cache_lcl_slow_bw_fill_mon(),
        "Reads to remote memory identified as 'Slow Memory'" => info.has_l3_cache_rmt_slow_bw_fill_mon(),
        "Dirty victim writes to all types of memory”." => info.has_l3_cache_vic_mon(),
    });
    }
    // info = info.get_assignable_bandwidth_monitoring_counters_info()
    if let Some(info) = info.get_assignable_bandwidth_monitoring_counters_info() {
    sec!(r, "Assignable Bandwidth Monitoring Counters Information (0x8000_0020/5):");
    rows!(r, {
        "Indicates that QM_CTR bit 61 is an overflow bit" => info.has_overflow_bit(),
        "QM_CTR counter width, offset from 24 bits" => info.counter_size(),
        "Maximum supported ABMC counter ID" => info.max_abmc(),
        "Bandwidth counters can be configured" => info.has_select_cos(),
    });
    }
    done!(r);
}

pub fn amd_21_26(s: &mut Src) {
    let (mut x, mut y) = (regs(s), regs(s));
    x.ecx = 0x0000_0100;
    y.ecx = 0x0000_0201;
    let c = amd(0x8000_0026, [(0x8000_0021, 0), (0x8000_0022, 0), (0x8000_0023, 0), (0x8000_0026, 0), (0x8000_0026, 1)],
        [regs(s), regs(s), regs(s), x, y]);
    let (id, mut r) = report(&c, 26);
    // info = cpuid.get_extended_feature_identification_2()
    get!(info, id.get_extended_feature_identification_2());
    sec!(r, "Extended Feature Identification (0x8000_0021):");
    rows!(r, {
        "Processor ignores nested data breakpoints" => info.has_no_nested_data_bp(),
        "LFENCE is always dispatch serializing" => info.has_lfence_always_serializing(),
        "SMM paging configuration lock supported" => info.has_smm_pg_cfg_lock(),
        "Null segment selector loads also clear the destination segment register base and limit" => info.has_null_select_clears_base(),
        "Upper Address Ignore is supported" => info.has_upper_address_ignore(),
        "Automatic IBRS" => info.has_automatic_ibrs(),
        "SMM_CTL MSR (C001_0116h) is not supporte" => info.has_no_smm_ctl_msr(),
        "Prefetch control MSR supporte" => info.has_prefetch_ctl_msr(),
        "CPUID disable for non-privileged softwar" => info.has_cpuid_user_dis(),
        "The size of the Microcode patch in 16-byte multiples" => info.microcode_patch_size(),
    });
    // info = cpuid.get_extended_performance_monitoring_and_debug()
    get!(info, id.get_extended_performance_monitoring_and_debug());
    sec!(r, "Extended Performance Monitoring and Debug (0x8000_0022):");
    rows!(r, {
        "Performance Monitoring Version 2 supported" => info.has_perf_mon_v2(),
        "Last Branch Record Stack supported" => info.has_lbr_stack(),
        "LbrAndPmcFreeze" => info.has_lbr_and_pmc_freeze(),
        "Number of Core Performance Counters" => info.num_perf_ctr_core(),
        "Number of Last Branch Record Stack entries" => info.num_lbr_stack_size(),
        "Number of Northbridge Performance Monitor Counters" => info.num_perf_ctr_nb(),
    });
    // info = cpuid.get_multi_key_encrypted_memory_capabilities()
    get!(info, id.get_multi_key_encrypted_memory_capabilities());
    sec!(r, "Multi-Key Encrypted Memory Capabilities (0x8000_0023):");
    rows!(r, {
        "Secure Host Multi-Key Memory (MEM-HMK) Encryption Mode Supported" => info.has_mem_hmk(),
        "MaxMemHmkEncrKeyID" => info.max_mem_hmk_encr_key_id(),
    });
    // info = cpuid.get_extended_cpu_topology()
    get!(info, id.get_extended_cpu_topology());
    for (level, info) in info.enumerate() {
    line!(r, "AMD topology level", format!("## Extended CPU Topology (0x8000_0026/{}):\n", level));
    rows!(r, {
        "Mask Width" => info.mask_width(),
        "Efficiency Ranking Available" => info.has_efficiency_ranking_available(),
        "Heterogeneous Cores" => info.has_heterogeneous_cores(),
        "Asymmetric Topology" => info.has_asymmetric_topology(),
        "Number of logical processors at the current hierarchy level" => info.num_logical_processors(),
        "Static efficiency ranking between cores of a specific core type" => info.pwr_efficiency_ranking(),
        "Native Mode Id" => info.native_mode_id(),
        "Core Type" => info.core_type(),
        "Level Type" => info.level_type().to_string(),
        "Extended APIC ID of the logical processo" => info.extended_apic_id(),
    });
    }
    done!(r);
}

