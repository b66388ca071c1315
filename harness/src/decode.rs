//! Field decoding of single leafs: expected values follow the Intel SDM / AMD APM layouts.
use crate::*;

pub fn leaf1(s: &mut Src) {
    let c = Cpu::any(s, [(1, 0)]);
    assume!(c.within(1));
    let r = c.tab[0];
    let (fam, efam, model, emodel) = (f(r.eax, 8, 11), f(r.eax, 20, 27), f(r.eax, 4, 7), f(r.eax, 16, 19));
    let o = c.id().get_feature_info();
    ck!(o.is_some(), "leaf 1 is reported");
    if let Some(o) = o {
        eqs!("leaf1", o;
            stepping_id = f(r.eax, 0, 3) as u8,
            base_model_id = model as u8,
            base_family_id = fam as u8,
            extended_model_id = emodel as u8,
            extended_family_id = efam as u8,
            brand_index = f(r.ebx, 0, 7) as u8,
            cflush_cache_line_size = f(r.ebx, 8, 15) as u8,
            max_logical_processor_ids = f(r.ebx, 16, 23) as u8,
            initial_local_apic_id = f(r.ebx, 24, 31) as u8,
        );
        if fam + efam <= 255 {
            if c.intel() || c.amd() {
                let want = if fam == 0xf { fam + efam } else { fam };
                ck!(o.family_id() as u32 == want, "leaf1.family_id");
                reach!(c.intel() && fam == 0xf && efam > 0, "extended family, Intel");
                reach!(c.amd() && fam == 0xf && efam > 0, "extended family, AMD");
            } else {
                let _ = o.family_id();
            }
        }
        if c.intel() {
            let want = if fam == 0xf || fam == 6 { emodel * 16 + model } else { model };
            ck!(o.model_id() as u32 == want, "leaf1.model_id, Intel");
        } else if c.amd() {
            let want = if fam == 0xf { emodel * 16 + model } else { model };
            ck!(o.model_id() as u32 == want, "leaf1.model_id, AMD");
        } else {
            let _ = o.model_id();
        }
        reach!("leaf 1 decoded");
    }
}

pub fn leaf1_flags(s: &mut Src) {
    let c = Cpu::any(s, [(1, 0)]);
    assume!(c.within(1));
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_feature_info(), c.within(1)) {
        flags!("leaf1", o, r.ecx;
            has_sse3: 0, has_pclmulqdq: 1, has_ds_area: 2, has_monitor_mwait: 3, has_cpl: 4, has_vmx: 5,
            has_smx: 6, has_eist: 7, has_tm2: 8, has_ssse3: 9, has_cnxtid: 10, has_fma: 12,
            has_cmpxchg16b: 13, has_pdcm: 15, has_pcid: 17, has_dca: 18, has_sse41: 19, has_sse42: 20,
            has_x2apic: 21, has_movbe: 22, has_popcnt: 23, has_tsc_deadline: 24, has_aesni: 25,
            has_xsave: 26, has_oxsave: 27, has_avx: 28, has_f16c: 29, has_rdrand: 30, has_hypervisor: 31);
        flags!("leaf1", o, r.edx;
            has_fpu: 0, has_vme: 1, has_de: 2, has_pse: 3, has_tsc: 4, has_msr: 5, has_pae: 6, has_mce: 7,
            has_cmpxchg8b: 8, has_apic: 9, has_sysenter_sysexit: 11, has_mtrr: 12, has_pge: 13, has_mca: 14,
            has_cmov: 15, has_pat: 16, has_pse36: 17, has_psn: 18, has_clflush: 19, has_ds: 21, has_acpi: 22,
            has_mmx: 23, has_fxsave_fxstor: 24, has_sse: 25, has_sse2: 26, has_ss: 27, has_htt: 28, has_tm: 29,
            has_pbe: 31);
        reach!("leaf 1 flags decoded");
    }
}

pub fn leaf7(s: &mut Src) {
    let c = Cpu::any(s, [(7, 0), (7, 1)]);
    assume!(c.within(7));
    let r = c.tab[0];
    let q = c.tab[1];
    let o = c.id().get_extended_feature_info();
    ck!(o.is_some(), "leaf 7 is reported");
    if let Some(o) = o {
        flags!("leaf7", o, r.ebx;
            has_fsgsbase: 0, has_tsc_adjust_msr: 1, has_sgx: 2, has_bmi1: 3, has_hle: 4, has_avx2: 5, has_fdp: 6,
            has_smep: 7, has_bmi2: 8, has_rep_movsb_stosb: 9, has_invpcid: 10, has_rtm: 11, has_rdtm: 12,
            has_fpu_cs_ds_deprecated: 13, has_mpx: 14, has_rdta: 15, has_avx512f: 16, has_avx512dq: 17,
            has_rdseed: 18, has_adx: 19, has_smap: 20, has_avx512_ifma: 21, has_clflushopt: 23, has_clwb: 24,
            has_processor_trace: 25, has_avx512pf: 26, has_avx512er: 27, has_avx512cd: 28, has_sha: 29,
            has_avx512bw: 30, has_avx512vl: 31);
        flags!("leaf7", o, r.ecx;
            has_prefetchwt1: 0, has_avx512vbmi: 1, has_umip: 2, has_pku: 3, has_ospke: 4, has_waitpkg: 5,
            has_av512vbmi2: 6, has_avx512vbmi2: 6, has_cet_ss: 7, has_gfni: 8, has_vaes: 9, has_vpclmulqdq: 10,
            has_avx512vnni: 11, has_avx512bitalg: 12, has_tme_en: 13, has_avx512vpopcntdq: 14, has_la57: 16,
            has_rdpid: 22, has_sgx_lc: 30);
        eqs!("leaf7", o; mawau_value = f(r.ecx, 17, 21) as u8);
        flags!("leaf7", o, r.edx;
            has_avx512_4vnniw: 2, has_avx512_4fmaps: 3, has_avx512_vp2intersect: 8, has_amx_bf16: 22,
            has_avx512_fp16: 23, has_amx_tile: 24, has_amx_int8: 25);
        flags!("leaf7.1", o, q.eax;
            has_avx_vnni: 4, has_avx512_bf16: 5, has_fzrm: 10, has_fsrs: 11, has_fsrcrs: 12, has_hreset: 22,
            has_avx_ifma: 23, has_lam: 26, has_msrlist: 27, has_invd_disable_post_bios_done: 30);
        flags!("leaf7.1", o, q.edx;
            has_avx_vnni_int8: 4, has_avx_ne_convert: 5, has_avx_vnni_int16: 10, has_prefetchi: 14,
            has_uiret_uif: 17, has_cet_sss: 18, has_avx10: 19);
        reach!("leaf 7 decoded");
    }
}

// ------------------------------------------------------------------ leaf 3

pub fn leaf3(s: &mut Src) {
    let c = Cpu::any(s, [(3, 0), (1, 0)]);
    let (r, l1) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_processor_serial(), c.within(3) && !c.amd()) {
        eqs!("leaf3", o;
            serial_lower = r.ecx,
            serial_middle = r.edx,
            serial_upper = l1.eax,
            serial = (r.edx as u64) << 32 | r.ecx as u64,
            serial_all = (l1.eax as u128) << 64 | (r.edx as u128) << 32 | r.ecx as u128,
        );
        reach!("leaf 3 decoded");
    }
}

// ------------------------------------------------------------------ leafs 5, 6, 9, 0xA

pub fn leaf5(s: &mut Src) {
    let c = Cpu::any(s, [(5, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_monitor_mwait_info(), c.within(5)) {
        eqs!("leaf5", o;
            smallest_monitor_line = f(r.eax, 0, 15) as u16,
            largest_monitor_line = f(r.ebx, 0, 15) as u16,
            supported_c0_states = f(r.edx, 0, 3) as u16,
            supported_c1_states = f(r.edx, 4, 7) as u16,
            supported_c2_states = f(r.edx, 8, 11) as u16,
            supported_c3_states = f(r.edx, 12, 15) as u16,
            supported_c4_states = f(r.edx, 16, 19) as u16,
            supported_c5_states = f(r.edx, 20, 23) as u16,
            supported_c6_states = f(r.edx, 24, 27) as u16,
            supported_c7_states = f(r.edx, 28, 31) as u16,
        );
        flags!("leaf5", o, r.ecx; extensions_supported: 0, interrupts_as_break_event: 1);
        reach!("leaf 5 decoded");
    }
}

pub fn leaf6(s: &mut Src) {
    let c = Cpu::any(s, [(6, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_thermal_power_info(), c.within(6)) {
        flags!("leaf6", o, r.eax;
            has_dts: 0, has_turbo_boost: 1, has_arat: 2, has_pln: 4, has_ecmd: 5, has_ptm: 6, has_hwp: 7,
            has_hwp_notification: 8, has_hwp_activity_window: 9, has_hwp_energy_performance_preference: 10,
            has_hwp_package_level_request: 11, has_hdc: 13, has_turbo_boost3: 14, has_hwp_capabilities: 15,
            has_hwp_peci_override: 16, has_flexible_hwp: 17, has_hwp_fast_access_mode: 18,
            has_ignore_idle_processor_hwp_request: 20);
        flags!("leaf6", o, r.ecx; has_hw_coord_feedback: 0, has_energy_bias_pref: 3);
        eqs!("leaf6", o; dts_irq_threshold = f(r.ebx, 0, 3) as u8);
        reach!("leaf 6 decoded");
    }
}

pub fn leaf9_a(s: &mut Src) {
    let c = Cpu::any(s, [(9, 0), (0xa, 0)]);
    let (d, r) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_direct_cache_access_info(), c.within(9) && !c.amd()) {
        eqs!("leaf9", o; get_dca_cap_value = d.eax);
        reach!("leaf 9 decoded");
    }
    if let Some(o) = got(c.id().get_performance_monitoring_info(), c.within(0xa) && !c.amd()) {
        eqs!("leafA", o;
            version_id = f(r.eax, 0, 7) as u8,
            number_of_counters = f(r.eax, 8, 15) as u8,
            counter_bit_width = f(r.eax, 16, 23) as u8,
            ebx_length = f(r.eax, 24, 31) as u8,
            fixed_function_counters = f(r.edx, 0, 4) as u8,
            fixed_function_counters_bit_width = f(r.edx, 5, 12) as u8,
        );
        flags!("leafA", o, r.ebx;
            is_core_cyc_ev_unavailable: 0, is_inst_ret_ev_unavailable: 1, is_ref_cycle_ev_unavailable: 2,
            is_cache_ref_ev_unavailable: 3, is_ll_cache_miss_ev_unavailable: 4,
            is_branch_inst_ret_ev_unavailable: 5, is_branch_midpred_ev_unavailable: 6);
        flags!("leafA", o, r.edx; has_any_thread_deprecation: 15);
        reach!("leaf 0xA decoded");
    }
}

// ------------------------------------------------------------------ leaf 0xD, non-iterating part

pub fn leaf_d_info(s: &mut Src) {
    let c = Cpu::any(s, [(0xd, 0), (0xd, 1)]);
    let (r, q) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_extended_state_info(), c.within(0xd)) {
        flags!("leafD", o, r.eax;
            xcr0_supports_legacy_x87: 0, xcr0_supports_sse_128: 1, xcr0_supports_avx_256: 2,
            xcr0_supports_mpx_bndregs: 3, xcr0_supports_mpx_bndcsr: 4, xcr0_supports_avx512_opmask: 5,
            xcr0_supports_avx512_zmm_hi256: 6, xcr0_supports_avx512_zmm_hi16: 7, xcr0_supports_pkru: 9);
        flags!("leafD.1", o, q.ecx; ia32_xss_supports_pt: 8, ia32_xss_supports_hdc: 13);
        flags!("leafD.1", o, q.eax; has_xsaveopt: 0, has_xsavec: 1, has_xgetbv: 2, has_xsaves_xrstors: 3);
        eqs!("leafD", o;
            xsave_area_size_enabled_features = r.ebx,
            xsave_area_size_supported_features = r.ecx,
            xsave_size = q.ebx);
        reach!("leaf 0xD decoded");
    }
}

// ------------------------------------------------------------------ leafs 0xF, 0x10

pub fn leaf_f(s: &mut Src) {
    let c = Cpu::any(s, [(0xf, 0), (0xf, 1)]);
    let (r, q) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_rdt_monitoring_info(), c.within(0xf)) {
        eqs!("leafF", o; rmid_range = r.ebx);
        flags!("leafF", o, r.edx; has_l3_monitoring: 1);
        let l3 = o.l3_monitoring();
        ck!(l3.is_some() == (r.edx & 2 != 0), "leafF.l3_monitoring present iff EDX bit 1");
        if let Some(l) = l3 {
            eqs!("leafF.1", l; conversion_factor = q.ebx, maximum_rmid_range = q.ecx);
            flags!("leafF.1", l, q.edx; has_occupancy_monitoring: 0, has_total_bandwidth_monitoring: 1,
                has_local_bandwidth_monitoring: 2);
            reach!("leaf 0xF sub-leaf 1 decoded");
        }
    }
}

pub fn leaf_10(s: &mut Src) {
    let c = Cpu::any(s, [(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)]);
    let (r, a, b, m) = (c.tab[0], c.tab[1], c.tab[2], c.tab[3]);
    if let Some(o) = got(c.id().get_rdt_allocation_info(), c.within(0x10)) {
        flags!("leaf10", o, r.ebx; has_l3_cat: 1, has_l2_cat: 2, has_memory_bandwidth_allocation: 3);
        let (l3, l2, mb) = (o.l3_cat(), o.l2_cat(), o.memory_bandwidth_allocation());
        ck!(l3.is_some() == (r.ebx & 2 != 0), "leaf10.l3_cat present iff EBX bit 1");
        ck!(l2.is_some() == (r.ebx & 4 != 0), "leaf10.l2_cat present iff EBX bit 2");
        ck!(mb.is_some() == (r.ebx & 8 != 0), "leaf10.memory_bandwidth_allocation present iff EBX bit 3");
        reach!(l3.is_some() && l2.is_some() && mb.is_some(), "leaf 0x10 all sub-leafs decoded");
        if let Some(l) = l3 {
            eqs!("leaf10.1", l;
                capacity_mask_length = (f(a.eax, 0, 4) + 1) as u8,
                isolation_bitmap = a.ebx,
                highest_cos = f(a.edx, 0, 15) as u16);
            flags!("leaf10.1", l, a.ecx; has_code_data_prioritization: 2);
        }
        if let Some(l) = l2 {
            eqs!("leaf10.2", l;
                capacity_mask_length = (f(b.eax, 0, 4) + 1) as u8,
                isolation_bitmap = b.ebx,
                highest_cos = f(b.edx, 0, 15) as u16);
        }
        if let Some(l) = mb {
            eqs!("leaf10.3", l;
                max_hba_throttling = (f(m.eax, 0, 11) + 1) as u16,
                highest_cos = f(m.edx, 0, 15) as u16);
            flags!("leaf10.3", l, m.ecx; has_linear_response_delay: 2);
        }
    }
}

// ------------------------------------------------------------------ leaf 0x12, SGX

pub fn leaf_12(s: &mut Src) {
    let c = Cpu::any(s, [(0x12, 0), (0x12, 1), (7, 0)]);
    let (r, q) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_sgx_info(), c.within(7) && c.within(0x12) && f(c.tab[2].ebx, 2, 2) == 1) {
        flags!("leaf12", o, r.eax; has_sgx1: 0, has_sgx2: 1,
            has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext: 5,
            has_encls_leaves_etrackc_erdinfo_eldbc_elduc: 6);
        eqs!("leaf12", o;
            miscselect = r.ebx,
            max_enclave_size_non_64bit = f(r.edx, 0, 7) as u8,
            max_enclave_size_64bit = f(r.edx, 8, 15) as u8,
            secs_attributes = ((q.ebx as u64) << 32 | q.eax as u64, (q.edx as u64) << 32 | q.ecx as u64));
        reach!("leaf 0x12 decoded");
    }
}

// ------------------------------------------------------------------ leaf 0x14, processor trace

pub fn leaf_14(s: &mut Src) {
    let c = Cpu::any(s, [(0x14, 0), (0x14, 1)]);
    let (r, q) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_processor_trace_info(), c.within(0x14)) {
        flags!("leaf14", o, r.ebx; has_rtit_cr3_match: 0, has_configurable_psb_and_cycle_accurate_mode: 1,
            has_ip_tracestop_filtering: 2, has_mtc_timing_packet_coefi_suppression: 3, has_ptwrite: 4,
            has_power_event_trace: 5);
        flags!("leaf14", o, r.ecx; has_topa: 0, has_topa_maximum_entries: 1, has_single_range_output_scheme: 2,
            has_trace_transport_subsystem: 3, has_lip_with_cs_base: 31);
        let has = r.eax >= 1;
        eqs!("leaf14", o;
            configurable_address_ranges = if has { f(q.eax, 0, 2) as u8 } else { 0 },
            supported_mtc_period_encodings = if has { f(q.eax, 16, 31) as u16 } else { 0 },
            supported_cycle_threshold_value_encodings = if has { f(q.ebx, 0, 15) as u16 } else { 0 },
            supported_psb_frequency_encodings = if has { f(q.ebx, 16, 31) as u16 } else { 0 });
        reach!(has, "leaf 0x14 with sub-leaf 1");
        reach!(!has, "leaf 0x14 without sub-leaf 1");
    }
}

// ------------------------------------------------------------------ leafs 0x15, 0x16

pub fn leaf_15_fields(s: &mut Src) {
    let c = Cpu::any(s, [(0x15, 0), (0x16, 0)]);
    let (r, q) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_tsc_info(), c.within(0x15)) {
        eqs!("leaf15", o; denominator = r.eax, numerator = r.ebx, nominal_frequency = r.ecx);
        // presence of the derived frequency; its value is decided by leaf_15_value
        let known = r.eax != 0 && r.ebx != 0 && r.ecx != 0;
        if !known {
            ck!(o.tsc_frequency().is_none(), "leaf15.tsc_frequency absent when a term is 0");
            reach!("leaf 0x15 with a zero term");
        }
    }
    if let Some(o) = got(c.id().get_processor_frequency_info(), c.within(0x16)) {
        eqs!("leaf16", o;
            processor_base_frequency = f(q.eax, 0, 15) as u16,
            processor_max_frequency = f(q.ebx, 0, 15) as u16,
            bus_frequency = f(q.ecx, 0, 15) as u16);
        reach!("leaf 0x16 decoded");
    }
}

// ------------------------------------------------------------------ leaf 0x40000000, hypervisor

const fn hv(v: &[u8; 12]) -> (u32, u32, u32) {
    (
        u32::from_le_bytes([v[0], v[1], v[2], v[3]]),
        u32::from_le_bytes([v[4], v[5], v[6], v[7]]),
        u32::from_le_bytes([v[8], v[9], v[10], v[11]]),
    )
}

pub fn hypervisor(s: &mut Src) {
    let c = Cpu::any(s, [(1, 0), (0x4000_0000, 0), (0x4000_0010, 0)]);
    let (l1, h, t) = (c.tab[0], c.tab[1], c.tab[2]);
    let o = c.id().get_hypervisor_info();
    let want = c.within(1) && l1.ecx >> 31 == 1 && h.eax != 0;
    ck!(o.is_some() == want, "hypervisor info present iff leaf 1 ECX bit 31 and a non-empty range");
    if let Some(o) = o {
        let sig = (h.ebx, h.ecx, h.edx);
        let want = if sig == hv(b"VMwareVMware") {
            Hypervisor::VMware
        } else if sig == hv(b"XenVMMXenVMM") {
            Hypervisor::Xen
        } else if sig == hv(b"Microsoft Hv") {
            Hypervisor::HyperV
        } else if sig == hv(b"KVMKVMKVM\0\0\0") {
            Hypervisor::KVM
        } else if sig == hv(b"TCGTCGTCGTCG") {
            Hypervisor::QEMU
        } else if sig == hv(b"bhyve bhyve ") || sig == hv(b"BHyVE BHyVE ") {
            Hypervisor::Bhyve
        } else if sig == hv(b"QNXQVMBSQG\0\0") {
            Hypervisor::QNX
        } else if sig == hv(b"ACRNACRNACRN") {
            Hypervisor::ACRN
        } else {
            Hypervisor::Unknown(h.ebx, h.ecx, h.edx)
        };
        ck!(o.identify() == want, "hypervisor.identify");
        let timing = h.eax >= 0x4000_0010;
        ck!(o.tsc_frequency() == if timing { Some(t.eax) } else { None }, "hypervisor.tsc_frequency");
        ck!(o.apic_frequency() == if timing { Some(t.ebx) } else { None }, "hypervisor.apic_frequency");
        reach!(timing, "hypervisor with timing leaf");
        reach!(!timing && want == Hypervisor::Xen, "Xen without timing leaf");
    }
}

// ------------------------------------------------------------------ leaf 0x80000001

pub fn ext_features(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_0001, 0)]);
    let r = c.tab[0];
    let a = c.amd();
    if let Some(o) = got(c.id().get_extended_processor_and_feature_identifiers(), c.within(0x8000_0001)) {
        eqs!("leaf80000001", o;
            extended_signature = r.eax,
            pkg_type = f(r.ebx, 28, 31),
            brand_id = f(r.ebx, 0, 15));
        flags!("leaf80000001", o, r.ecx; has_lahf_sahf: 0, has_lzcnt: 5, has_prefetchw: 8);
        flags!("leaf80000001", o, r.edx; has_syscall_sysret: 11, has_execute_disable: 20, has_1gib_pages: 26,
            has_rdtscp: 27, has_64bit_mode: 29);
        aflags!("leaf80000001", a, o, r.ecx;
            has_cmp_legacy: 1, has_svm: 2, has_ext_apic_space: 3, has_alt_mov_cr8: 4, has_sse4a: 6,
            has_misaligned_sse_mode: 7, has_osvw: 9, has_ibs: 10, has_xop: 11, has_skinit: 12, has_wdt: 13,
            has_lwp: 15, has_fma4: 16, has_tbm: 21, has_topology_extensions: 22, has_perf_cntr_extensions: 23,
            has_nb_perf_cntr_extensions: 24, has_data_access_bkpt_extension: 26, has_perf_tsc: 27,
            has_perf_cntr_llc_extensions: 28, has_monitorx_mwaitx: 29, has_addr_mask_extension: 30);
        aflags!("leaf80000001", a, o, r.edx;
            has_mmx_extensions: 22, has_fast_fxsave_fxstor: 25, has_amd_3dnow_extensions: 30, has_3dnow: 31);
        reach!(a, "leaf 0x80000001 on AMD");
        reach!(!a, "leaf 0x80000001 elsewhere");
    }
}

// ------------------------------------------------------------------ leafs 0x80000005, 0x80000006, 0x80000019

fn assoc_l1(n: u32) -> Associativity {
    if n == 0 {
        Associativity::Disabled
    } else if n == 1 {
        Associativity::DirectMapped
    } else if n == 255 {
        Associativity::FullyAssociative
    } else {
        Associativity::NWay(n as u8)
    }
}

/// The 4-bit encoding of L2, L3 and second-level TLBs. Encodings 3 and 7 are not decoded the same
/// way by the two vendors' manuals, so nothing is claimed for them.
fn assoc_ok(n: u32, got: Associativity) -> bool {
    if n == 3 || n == 7 {
        return true;
    }
    let ways: [u8; 16] = [0, 1, 2, 0, 4, 6, 8, 0, 16, 0, 32, 48, 64, 96, 128, 0];
    let want = match n {
        0 => Associativity::Disabled,
        1 => Associativity::DirectMapped,
        9 => Associativity::Unknown,
        15 => Associativity::FullyAssociative,
        _ => Associativity::NWay(ways[n as usize]),
    };
    got == want
}

macro_rules! assocs {
    ($t:literal, $o:expr; $($m:ident = $e:expr),* $(,)?) => {
        $( ck!(assoc_ok($e, $o.$m()), concat!($t, ".", stringify!($m))); )*
    };
}

pub fn l1_cache(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_0005, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_l1_cache_and_tlb_info(), c.within(0x8000_0005) && c.amd()) {
        eqs!("leaf80000005", o;
            dtlb_2m_4m_associativity = assoc_l1(f(r.eax, 24, 31)), dtlb_2m_4m_size = f(r.eax, 16, 23) as u8,
            itlb_2m_4m_associativity = assoc_l1(f(r.eax, 8, 15)), itlb_2m_4m_size = f(r.eax, 0, 7) as u8,
            dtlb_4k_associativity = assoc_l1(f(r.ebx, 24, 31)), dtlb_4k_size = f(r.ebx, 16, 23) as u8,
            itlb_4k_associativity = assoc_l1(f(r.ebx, 8, 15)), itlb_4k_size = f(r.ebx, 0, 7) as u8,
            dcache_size = f(r.ecx, 24, 31) as u8, dcache_associativity = assoc_l1(f(r.ecx, 16, 23)),
            dcache_lines_per_tag = f(r.ecx, 8, 15) as u8, dcache_line_size = f(r.ecx, 0, 7) as u8,
            icache_size = f(r.edx, 24, 31) as u8, icache_associativity = assoc_l1(f(r.edx, 16, 23)),
            icache_lines_per_tag = f(r.edx, 8, 15) as u8, icache_line_size = f(r.edx, 0, 7) as u8);
        reach!("leaf 0x80000005 decoded");
    }
}

pub fn l2_l3_cache(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_0006, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_l2_l3_cache_and_tlb_info(), c.within(0x8000_0006)) {
        eqs!("leaf80000006", o;
            dtlb_2m_4m_size = f(r.eax, 16, 27) as u16, itlb_2m_4m_size = f(r.eax, 0, 11) as u16,
            dtlb_4k_size = f(r.ebx, 16, 27) as u16, itlb_4k_size = f(r.ebx, 0, 11) as u16,
            l2cache_size = f(r.ecx, 16, 31) as u16, l2cache_lines_per_tag = f(r.ecx, 8, 11) as u8,
            l2cache_line_size = f(r.ecx, 0, 7) as u8,
            l3cache_size = f(r.edx, 18, 31) as u16, l3cache_lines_per_tag = f(r.edx, 8, 11) as u8,
            l3cache_line_size = f(r.edx, 0, 7) as u8);
        assocs!("leaf80000006", o;
            dtlb_2m_4m_associativity = f(r.eax, 28, 31), itlb_2m_4m_associativity = f(r.eax, 12, 15),
            dtlb_4k_associativity = f(r.ebx, 28, 31), itlb_4k_associativity = f(r.ebx, 12, 15),
            l2cache_associativity = f(r.ecx, 12, 15), l3cache_associativity = f(r.edx, 12, 15));
        reach!("leaf 0x80000006 decoded");
    }
}

/// The four entry counts are 12 bits wide in the registers and 8 bits wide in the API: counts that
/// fit are checked here, the others by tlb_1gb_wide.
pub fn tlb_1gb(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_0019, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_tlb_1gb_page_info(), c.within(0x8000_0019)) {
        assocs!("leaf80000019", o;
            dtlb_l1_1gb_associativity = f(r.eax, 28, 31), itlb_l1_1gb_associativity = f(r.eax, 12, 15),
            dtlb_l2_1gb_associativity = f(r.ebx, 28, 31), itlb_l2_1gb_associativity = f(r.ebx, 12, 15));
        if f(r.eax, 16, 27) < 256 { ck!(o.dtlb_l1_1gb_size() as u32 == f(r.eax, 16, 27), "leaf80000019.dtlb_l1_1gb_size"); }
        if f(r.eax, 0, 11) < 256 { ck!(o.itlb_l1_1gb_size() as u32 == f(r.eax, 0, 11), "leaf80000019.itlb_l1_1gb_size"); }
        if f(r.ebx, 16, 27) < 256 { ck!(o.dtlb_l2_1gb_size() as u32 == f(r.ebx, 16, 27), "leaf80000019.dtlb_l2_1gb_size"); }
        if f(r.ebx, 0, 11) < 256 { ck!(o.itlb_l2_1gb_size() as u32 == f(r.ebx, 0, 11), "leaf80000019.itlb_l2_1gb_size"); }
        let _ = (o.dtlb_l1_1gb_size(), o.itlb_l1_1gb_size(), o.dtlb_l2_1gb_size(), o.itlb_l2_1gb_size());
        reach!("leaf 0x80000019 decoded");
    }
}

// ------------------------------------------------------------------ leafs 0x80000007, 0x80000008, 0x8000000A

pub fn apm(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_0007, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_advanced_power_mgmt_info(), c.within(0x8000_0007)) {
        flags!("leaf80000007", o, r.ebx; has_mca_overflow_recovery: 0, has_succor: 1, has_hwa: 2);
        flags!("leaf80000007", o, r.edx; has_ts: 0, has_freq_id_ctrl: 1, has_volt_id_ctrl: 2, has_thermtrip: 3,
            has_tm: 4, has_100mhz_steps: 6, has_hw_pstate: 7, has_invariant_tsc: 8, has_cpb: 9,
            has_ro_effective_freq_iface: 10, has_feedback_iface: 11, has_power_reporting_iface: 12);
        eqs!("leaf80000007", o; cpu_pwr_sample_time_ratio = r.ecx);
        reach!("leaf 0x80000007 decoded");
    }
}

pub fn capacity(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_0008, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_processor_capacity_feature_info(), c.within(0x8000_0008)) {
        flags!("leaf80000008", o, r.ebx; has_cl_zero: 0, has_inst_ret_cntr_msr: 1, has_restore_fp_error_ptrs: 2,
            has_invlpgb: 3, has_rdpru: 4, has_mcommit: 8, has_wbnoinvd: 9, has_int_wbinvd: 13,
            has_unsupported_efer_lmsle: 20, has_invlpgb_nested: 21);
        let bits = f(r.ecx, 12, 15);
        eqs!("leaf80000008", o;
            physical_address_bits = f(r.eax, 0, 7) as u8,
            linear_address_bits = f(r.eax, 8, 15) as u8,
            guest_physical_address_bits = f(r.eax, 16, 23) as u8,
            perf_tsc_size = 40 + 8 * f(r.ecx, 16, 17) as usize,
            apic_id_size = bits as u8,
            num_phys_threads = f(r.ecx, 0, 7) as usize + 1,
            invlpgb_max_pages = f(r.edx, 0, 15) as u16,
            max_rdpru_id = f(r.edx, 16, 31) as u16);
        if bits != 0 {
            ck!(o.maximum_logical_processors() == 1usize << bits, "leaf80000008.maximum_logical_processors");
        } else {
            // the manual defines no value for a size of 0; it must still return
            let _ = o.maximum_logical_processors();
        }
        reach!("leaf 0x80000008 decoded");
    }
}

pub fn svm(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_000a, 0), (0x8000_0001, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_svm_info(), c.amd() && c.within(0x8000_000a) && f(c.tab[1].ecx, 2, 2) == 1) {
        eqs!("leaf8000000A", o; revision = f(r.eax, 0, 7) as u8, supported_asids = r.ebx);
        flags!("leaf8000000A", o, r.edx; has_nested_paging: 0, has_lbr_virtualization: 1, has_svm_lock: 2,
            has_nrip: 3, has_tsc_rate_msr: 4, has_vmcb_clean_bits: 5, has_flush_by_asid: 6, has_decode_assists: 7,
            has_pause_filter: 10, has_pause_filter_threshold: 12, has_avic: 13, has_vmsave_virtualization: 15,
            has_gif: 16, has_gmet: 17, has_sss_check: 19, has_spec_ctrl: 20, has_host_mce_override: 23,
            has_tlb_ctrl: 24);
        reach!("leaf 0x8000000A decoded");
    }
}

// ------------------------------------------------------------------ leafs 0x8000001A .. 0x80000023

pub fn amd_perf(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_001a, 0), (0x8000_001b, 0)]);
    let (r, q) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_performance_optimization_info(), c.within(0x8000_001a)) {
        flags!("leaf8000001A", o, r.eax; has_fp128: 0, has_movu: 1, has_fp256: 2);
        reach!("leaf 0x8000001A decoded");
    }
    if let Some(o) = got(c.id().get_instruction_based_sampling_capabilities(), c.within(0x8000_001b)) {
        flags!("leaf8000001B", o, q.eax; has_feature_flags: 0, has_fetch_sampling: 1, has_execution_sampling: 2,
            has_read_write_operation_counter: 3, has_operation_counter: 4, has_branch_target_address_reporting: 5,
            has_operation_counter_extended: 6, has_invalid_rip_indication: 7,
            has_fused_branch_micro_op_indication: 8, has_l3_miss_filtering: 11);
        reach!("leaf 0x8000001B decoded");
    }
}

/// threads_per_core is one more than an 8-bit field and is returned in 8 bits: 256 is checked by
/// amd_topo_256.
pub fn amd_topo(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_001e, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_processor_topology_info(), c.within(0x8000_001e)) {
        eqs!("leaf8000001E", o;
            x2apic_id = r.eax,
            core_id = f(r.ebx, 0, 7) as u8,
            node_id = f(r.ecx, 0, 7) as u8,
            nodes_per_processor = (f(r.ecx, 8, 10) + 1) as u8);
        if f(r.ebx, 8, 15) < 255 {
            ck!(o.threads_per_core() as u32 == f(r.ebx, 8, 15) + 1, "leaf8000001E.threads_per_core");
        }
        reach!("leaf 0x8000001E decoded");
    }
}

pub fn mem_enc(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_001f, 0), (0x8000_0023, 0)]);
    let (r, q) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_memory_encryption_info(), c.within(0x8000_001f)) {
        flags!("leaf8000001F", o, r.eax; has_sme: 0, has_sev: 1, has_page_flush_msr: 2, has_sev_es: 3,
            has_sev_snp: 4, has_vmpl: 5, has_hw_enforced_cache_coh: 10, has_64bit_mode: 11,
            has_restricted_injection: 12, has_alternate_injection: 13, has_debug_swap: 14,
            has_prevent_host_ibs: 15, has_vte: 16);
        eqs!("leaf8000001F", o;
            c_bit_position = f(r.ebx, 0, 5) as u8,
            physical_address_reduction = f(r.ebx, 6, 11) as u8,
            max_encrypted_guests = r.ecx,
            min_sev_no_es_asid = r.edx);
        reach!("leaf 0x8000001F decoded");
    }
    if let Some(o) = got(c.id().get_multi_key_encrypted_memory_capabilities(), c.within(0x8000_0023)) {
        flags!("leaf80000023", o, q.eax; has_mem_hmk: 0);
        eqs!("leaf80000023", o; max_mem_hmk_encr_key_id = f(q.ebx, 0, 15) as u16);
        reach!("leaf 0x80000023 decoded");
    }
}

pub fn pqos(s: &mut Src) {
    let l = 0x8000_0020;
    let c = Cpu::any(s, [(l, 0), (l, 1), (l, 2), (l, 3), (l, 5)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_pqos_extended_feature_info(), c.within(0x8000_0020)) {
        flags!("leaf80000020", o, r.ebx; has_l3mbe: 1, has_l3smbe: 2, has_bmec: 3, has_l3rr: 4, has_abmc: 5,
            has_sdciae: 6);
        let mb = o.get_l3_memory_bandwidth_enforcement_info();
        let sm = o.get_l3_slow_memory_bandwidth_enforcement_info();
        let ev = o.get_bandwidth_monitoring_event_counters_info();
        let ab = o.get_assignable_bandwidth_monitoring_counters_info();
        ck!(mb.is_some() == (r.ebx & 2 != 0), "leaf80000020.1 present iff EBX bit 1");
        ck!(sm.is_some() == (r.ebx & 4 != 0), "leaf80000020.2 present iff EBX bit 2");
        ck!(ev.is_some() == (r.ebx & 8 != 0), "leaf80000020.3 present iff EBX bit 3");
        ck!(ab.is_some() == (r.ebx & 32 != 0), "leaf80000020.5 present iff EBX bit 5");
        reach!(mb.is_some() && sm.is_some() && ev.is_some() && ab.is_some(), "leaf 0x80000020 with all sub-leafs");
        if let Some(x) = mb {
            eqs!("leaf80000020.1", x; bandwidth_length = c.tab[1].eax, cos_max = c.tab[1].edx);
        }
        if let Some(x) = sm {
            eqs!("leaf80000020.2", x; bandwidth_length = c.tab[2].eax, cos_max = c.tab[2].edx);
        }
        if let Some(x) = ev {
            let q = c.tab[3];
            eqs!("leaf80000020.3", x; number_events = f(q.ebx, 0, 7));
            flags!("leaf80000020.3", x, q.ecx; has_l3_cache_lcl_bw_fill_mon: 0, has_l3_cache_rmt_bw_fill_mon: 1,
                has_l3_cache_lcl_bw_nt_wr_mon: 2, has_l3_cache_rmt_bw_nt_wr_mon: 3,
                has_l3_cache_lcl_slow_bw_fill_mon: 4, has_l3_cache_rmt_slow_bw_fill_mon: 5, has_l3_cache_vic_mon: 6);
        }
        if let Some(x) = ab {
            let q = c.tab[4];
            eqs!("leaf80000020.5", x;
                counter_size = f(q.eax, 0, 7) as u8,
                has_overflow_bit = f(q.eax, 8, 8) == 1,
                max_abmc = f(q.ebx, 0, 15) as u16,
                has_select_cos = f(q.ecx, 0, 0) == 1);
        }
    }
}

pub fn amd_ids2(s: &mut Src) {
    let c = Cpu::any(s, [(0x8000_0021, 0), (0x8000_0022, 0)]);
    let (r, q) = (c.tab[0], c.tab[1]);
    if let Some(o) = got(c.id().get_extended_feature_identification_2(), c.within(0x8000_0021)) {
        flags!("leaf80000021", o, r.eax; has_no_nested_data_bp: 0, has_lfence_always_serializing: 2,
            has_smm_pg_cfg_lock: 3, has_null_select_clears_base: 6, has_upper_address_ignore: 7,
            has_automatic_ibrs: 8, has_no_smm_ctl_msr: 9, has_prefetch_ctl_msr: 13, has_cpuid_user_dis: 17);
        eqs!("leaf80000021", o; microcode_patch_size = f(r.ebx, 0, 11) as u16);
        reach!("leaf 0x80000021 decoded");
    }
    if let Some(o) = got(c.id().get_extended_performance_monitoring_and_debug(), c.within(0x8000_0022)) {
        flags!("leaf80000022", o, q.eax; has_perf_mon_v2: 0, has_lbr_stack: 1, has_lbr_and_pmc_freeze: 2);
        eqs!("leaf80000022", o;
            num_perf_ctr_core = f(q.ebx, 0, 3) as u8,
            num_lbr_stack_size = f(q.ebx, 4, 9) as u8,
            num_perf_ctr_nb = f(q.ebx, 10, 15) as u8);
        reach!("leaf 0x80000022 decoded");
    }
}
