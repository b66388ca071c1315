//! Debug representations: every field shows the value of the accessor of its name.
//!
//! Under Kani the formatting helpers of the standard library (`debug_struct`, `field`, `finish`,
//! `debug_list`, `entry`) are replaced by functions that record the field name and the bytes of the
//! value handed to them; natively the same question is asked of the formatted text.
use crate::*;
use core::fmt::Debug;

#[cfg(kani)]
pub mod rec {
    use core::fmt::{self, Debug, DebugList, DebugStruct, Formatter, FormattingOptions, Write};
    use core::mem::MaybeUninit;

    pub struct Sink;
    impl Write for Sink {
        fn write_str(&mut self, _: &str) -> fmt::Result {
            Ok(())
        }
    }

    #[derive(Clone, Copy)]
    pub struct Rec {
        pub name: &'static str,
        pub size: usize,
        pub w: [MaybeUninit<u64>; 5],
        /// the CPUID queries made since the previous field
        pub log: u64,
    }
    pub const MAX: usize = 48;
    pub static mut REC: [Rec; MAX] = [Rec { name: "", size: 0, w: [MaybeUninit::uninit(); 5], log: 0 }; MAX];
    pub static mut N: usize = 0;
    pub const LMAX: usize = 4;
    /// size and words of each list entry
    pub static mut LIST: [(usize, [u32; 4], [u32; 4]); LMAX] = [(0, [0; 4], [0; 4]); LMAX];
    pub static mut LN: usize = 0;
    pub static mut STARTED: usize = 0;
    pub static mut FINISHED: usize = 0;

    unsafe fn put(name: &str, value: &dyn Debug) {
        kani::assert(N < MAX, "debug: more fields than expected");
        let size = core::mem::size_of_val(value);
        let p = value as *const dyn Debug as *const u8;
        let mut r = Rec { name: core::mem::transmute(name), size, w: [MaybeUninit::uninit(); 5], log: super::LOG };
        let q = r.w.as_mut_ptr() as *mut u8;
        if size == 1 {
            (q as *mut MaybeUninit<u8>).write((p as *const MaybeUninit<u8>).read());
        } else if size == 2 {
            (q as *mut MaybeUninit<u16>).write((p as *const MaybeUninit<u16>).read());
        } else if size == 4 {
            (q as *mut MaybeUninit<u32>).write((p as *const MaybeUninit<u32>).read());
        } else if size == 8 {
            (q as *mut MaybeUninit<u64>).write((p as *const MaybeUninit<u64>).read());
        } else if size == 16 {
            (q as *mut MaybeUninit<[u64; 2]>).write((p as *const MaybeUninit<[u64; 2]>).read_unaligned());
        } else if size == 20 {
            (q as *mut MaybeUninit<[u32; 5]>).write((p as *const MaybeUninit<[u32; 5]>).read_unaligned());
        } else if size == 32 {
            (q as *mut MaybeUninit<[u64; 4]>).write((p as *const MaybeUninit<[u64; 4]>).read_unaligned());
        } else if size == 40 {
            (q as *mut MaybeUninit<[u64; 5]>).write((p as *const MaybeUninit<[u64; 5]>).read_unaligned());
        }
        super::LOG = 0;
        REC[N] = r;
        N += 1;
    }

    pub fn field<'a, 'b, 'c>(this: &'c mut DebugStruct<'a, 'b>, name: &str, value: &dyn Debug) -> &'c mut DebugStruct<'a, 'b>
    where
        'b: 'a,
    {
        unsafe { put(name, value) }
        this
    }
    pub fn finish<'a, 'b, 'c>(_: &'c mut DebugStruct<'a, 'b>) -> fmt::Result
    where
        'b: 'a,
    {
        unsafe { FINISHED += 1 }
        Ok(())
    }
    pub fn debug_struct<'a, 'b>(this: &'b mut Formatter<'a>, _: &str) -> DebugStruct<'b, 'a>
    where
        'a: 'a,
    {
        unsafe {
            STARTED += 1;
            let mut m = MaybeUninit::<DebugStruct>::zeroed();
            *(m.as_mut_ptr() as *mut *mut Formatter<'a>) = this;
            core::mem::transmute_copy(&m)
        }
    }
    pub fn entry<'a, 'b, 'c>(this: &'c mut DebugList<'a, 'b>, value: &dyn Debug) -> &'c mut DebugList<'a, 'b>
    where
        'b: 'a,
    {
        unsafe {
            kani::assert(LN < LMAX, "debug: more list entries than expected");
            let size = core::mem::size_of_val(value);
            LIST[LN].0 = size;
            let p = value as *const dyn Debug as *const u32;
            if size == 16 {
                LIST[LN].1 = *(p as *const [u32; 4]);
            } else if size == 20 {
                let w = *(p as *const [u32; 5]);
                LIST[LN].1 = [w[0], w[1], w[2], w[3]];
                LIST[LN].2[0] = w[4];
            } else if size == 32 {
                let w = *(p as *const [u32; 8]);
                LIST[LN].1 = [w[0], w[1], w[2], w[3]];
                LIST[LN].2 = [w[4], w[5], w[6], w[7]];
            } else {
                kani::assert(false, "debug: a list entry of a size not foreseen");
            }
            LN += 1;
        }
        this
    }
    pub fn list_finish<'a, 'b, 'c>(_: &'c mut DebugList<'a, 'b>) -> fmt::Result
    where
        'b: 'a,
    {
        unsafe { FINISHED += 1 }
        Ok(())
    }
    pub fn debug_list<'a, 'b>(this: &'b mut Formatter<'a>) -> DebugList<'b, 'a>
    where
        'a: 'a,
    {
        unsafe {
            STARTED += 1;
            let mut m = MaybeUninit::<DebugList>::zeroed();
            *(m.as_mut_ptr() as *mut *mut Formatter<'a>) = this;
            core::mem::transmute_copy(&m)
        }
    }

    pub fn run<T: Debug>(o: &T) {
        unsafe {
            N = 0;
            LN = 0;
            LIST = [(0, [0; 4], [0; 4]); LMAX];
            STARTED = 0;
            FINISHED = 0;
        }
        let mut s = Sink;
        let mut f = Formatter::new(&mut s, FormattingOptions::new());
        let ok = o.fmt(&mut f).is_ok();
        crate::ck!(ok && unsafe { STARTED == 1 && FINISHED == 1 }, "debug: the representation is complete");
    }
}

/// What a representation shows.
pub struct Shown {
    #[cfg(not(kani))]
    fields: Vec<(String, String)>,
}

#[cfg(kani)]
pub fn show<T: Debug>(o: &T) -> Shown {
    rec::run(o);
    Shown {}
}
#[cfg(kani)]
impl Shown {
    /// The position of the only field of that name.
    fn find(&self, name: &str) -> Option<usize> {
        let mut at = None;
        let mut n = 0;
        let mut i = 0;
        unsafe {
            while i < rec::N {
                if rec::REC[i].name.len() == name.len() && rec::REC[i].name.as_bytes() == name.as_bytes() {
                    at = Some(i);
                    n += 1;
                }
                i += 1;
            }
        }
        if n == 1 {
            at
        } else {
            None
        }
    }
    /// Does the field `name` show `v`?
    pub fn is<T: PartialEq + Debug>(&self, name: &str, v: T) -> bool {
        match self.find(name) {
            Some(i) => unsafe {
                rec::REC[i].size == core::mem::size_of::<T>() && (rec::REC[i].w.as_ptr() as *const T).read_unaligned() == v
            },
            None => false,
        }
    }
    /// Is the field `name` of the size of a `T` and made from exactly the queries `log`?
    pub fn from_queries<T>(&self, name: &str, log: u64) -> bool {
        match self.find(name) {
            Some(i) => unsafe { rec::REC[i].size == core::mem::size_of::<T>() && rec::REC[i].log == log },
            None => false,
        }
    }
}

#[cfg(not(kani))]
pub fn show<T: Debug>(o: &T) -> Shown {
    Shown { fields: split(&format!("{:?}", o)) }
}
/// The top-level fields of `Name { a: 1, b: Some(X { .. }) }`.
#[cfg(not(kani))]
fn split(t: &str) -> Vec<(String, String)> {
    let mut res = Vec::new();
    let (a, b) = match (t.find(" { "), t.strip_suffix(" }")) {
        (Some(a), Some(b)) => (a, b.len()),
        _ => return res,
    };
    let body = &t[a + 3..b];
    let (mut depth, mut start, mut quote, mut esc) = (0, 0, false, false);
    let mut parts = Vec::new();
    for (i, c) in body.char_indices() {
        if quote {
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                quote = false;
            }
            continue;
        }
        match c {
            '"' => quote = true,
            '{' | '(' | '[' => depth += 1,
            '}' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => {
                parts.push(&body[start..i]);
                start = i + 2;
            }
            _ => {}
        }
    }
    parts.push(&body[start..]);
    for p in parts {
        if let Some((n, v)) = p.split_once(": ") {
            res.push((n.to_string(), v.to_string()));
        }
    }
    res
}
#[cfg(not(kani))]
impl Shown {
    pub fn is<T: PartialEq + Debug>(&self, name: &str, v: T) -> bool {
        let hits: Vec<_> = self.fields.iter().filter(|f| f.0 == name).collect();
        let ok = hits.len() == 1 && hits[0].1 == format!("{:?}", v);
        if !ok {
            println!("field {}: shown {:?}, accessor {:?}", name, hits, v);
        }
        ok
    }
}

/// `fields!("title", record; accessor, ..., "field name" = expression, ...)`
macro_rules! fields {
    ($t:literal, $o:expr; $($m:ident $(as $n:literal)?),* $(,)?) => {{
        let o = $o;
        let d = show(&o);
        $( fields!(@one $t, d, o, $m $(, $n)?); )*
        reach!("record has a representation");
    }};
    (@one $t:literal, $d:ident, $o:ident, $m:ident) => {
        ck!($d.is(stringify!($m), $o.$m()), concat!("debug ", $t, ".", stringify!($m)));
    };
    (@one $t:literal, $d:ident, $o:ident, $m:ident, $n:literal) => {
        ck!($d.is($n, $o.$m()), concat!("debug ", $t, ".", $n));
    };
}

/// A processor with every leaf and everything else symbolic.
fn all<const N: usize>(s: &mut Src, keys: [(u32, u32); N], amd: bool) -> Cpu<N> {
    let mut tab = [CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }; N];
    let mut i = 0;
    while i < N {
        tab[i] = regs(s);
        i += 1;
    }
    let l0 = if amd {
        CpuIdResult { eax: 0x20, ebx: 0x68747541, edx: 0x69746e65, ecx: 0x444d4163 }
    } else {
        CpuIdResult { eax: 0x20, ebx: 0x756e6547, edx: 0x49656e69, ecx: 0x6c65746e }
    };
    let other = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 };
    Cpu { l0, l80: CpuIdResult { eax: 0x8000_0028, ..other }, keys, tab, other }
}

pub fn serial(s: &mut Src) {
    if let Some(o) = all(s, [(1, 0), (3, 0)], false).id().get_processor_serial() {
        fields!("ProcessorSerial", o; serial_lower, serial_middle);
    }
}
pub fn feature_info(s: &mut Src) {
    let amd = s.u8() & 1 == 1;
    let c = all(s, [(1, 0)], amd);
    // the family number has to fit its type: known finding
    let (fam, efam) = (f(c.tab[0].eax, 8, 11), f(c.tab[0].eax, 20, 27));
    assume!(fam != 15 || fam + efam < 256);
    if let Some(o) = c.id().get_feature_info() {
        fields!("FeatureInfo", o; extended_family_id, extended_model_id, family_id, model_id, stepping_id, brand_index,
            cflush_cache_line_size, initial_local_apic_id, max_logical_processor_ids);
    }
}
pub fn cache_parameter(s: &mut Src) {
    if let Some(o) = all(s, [(4, 0)], false).id().get_cache_parameters().and_then(|mut i| i.next()) {
        fields!("CacheParameter", o; cache_type, level, is_self_initializing, is_fully_associative, max_cores_for_cache,
            max_cores_for_package, coherency_line_size, physical_line_partitions, associativity, sets,
            is_write_back_invalidate, is_inclusive, has_complex_indexing);
    }
}
pub fn monitor_mwait(s: &mut Src) {
    if let Some(o) = all(s, [(5, 0)], false).id().get_monitor_mwait_info() {
        fields!("MonitorMwaitInfo", o; smallest_monitor_line, largest_monitor_line, extensions_supported,
            interrupts_as_break_event, supported_c0_states, supported_c1_states, supported_c2_states,
            supported_c3_states, supported_c4_states, supported_c5_states, supported_c6_states, supported_c7_states);
    }
}
pub fn thermal_power(s: &mut Src) {
    if let Some(o) = all(s, [(6, 0)], false).id().get_thermal_power_info() {
        fields!("ThermalPowerInfo", o; dts_irq_threshold, has_dts, has_arat, has_pln, has_ecmd, has_ptm, has_hwp,
            has_hwp_notification, has_hwp_activity_window, has_hwp_energy_performance_preference,
            has_hwp_package_level_request, has_hdc, has_turbo_boost3, has_hwp_capabilities, has_hwp_peci_override,
            has_flexible_hwp, has_hwp_fast_access_mode, has_ignore_idle_processor_hwp_request, has_hw_coord_feedback,
            has_energy_bias_pref);
    }
}
pub fn extended_features(s: &mut Src) {
    if let Some(o) = all(s, [(7, 0), (7, 1)], false).id().get_extended_feature_info() {
        fields!("ExtendedFeatures", o; mawau_value);
    }
}
pub fn dca_perf(s: &mut Src) {
    let c = all(s, [(9, 0), (0xa, 0)], false);
    if let Some(o) = c.id().get_direct_cache_access_info() {
        fields!("DirectCacheAccessInfo", o; get_dca_cap_value as "dca_cap_value");
    }
    if let Some(o) = c.id().get_performance_monitoring_info() {
        fields!("PerformanceMonitoringInfo", o; version_id, number_of_counters, counter_bit_width, ebx_length,
            fixed_function_counters, fixed_function_counters_bit_width);
    }
}
pub fn topology_level(s: &mut Src) {
    if let Some(o) = all(s, [(0xb, 0)], false).id().get_extended_topology_info().and_then(|mut i| i.next()) {
        fields!("ExtendedTopologyLevel", o; processors, level_number as "number", level_type as "type", x2apic_id,
            shift_right_for_next_apic_id as "next_apic_id");
    }
}
pub fn state_info(s: &mut Src) {
    let mut c = all(s, [(0xd, 0), (0xd, 1)], false);
    c.tab[0].eax &= 7; // one component
    c.tab[1].ecx = 0;
    if let Some(o) = c.id().get_extended_state_info() {
        fields!("ExtendedStateInfo", o; xsave_area_size_enabled_features, xsave_area_size_supported_features,
            has_xsaveopt, has_xsavec, has_xgetbv, has_xsaves_xrstors, xsave_size);
    }
}
pub fn state(s: &mut Src) {
    let mut c = all(s, [(0xd, 0), (0xd, 1), (0xd, 2)], false);
    c.tab[0].eax = 7;
    c.tab[1].ecx = 0;
    if let Some(o) = c.id().get_extended_state_info().and_then(|i| i.iter().next()) {
        fields!("ExtendedState", o; size, offset, is_in_ia32_xss, is_in_xcr0, is_compacted_format);
    }
}
pub fn rdt_mon(s: &mut Src) {
    if let Some(o) = all(s, [(0xf, 0), (0xf, 1)], false).id().get_rdt_monitoring_info() {
        if let Some(l3) = o.l3_monitoring() {
            fields!("L3MonitoringInfo", l3; conversion_factor, maximum_rmid_range);
        }
        let d = show(&o);
        ck!(d.is("rmid_range", o.rmid_range()), "debug RdtMonitoringInfo.rmid_range");
    }
}
pub fn rdt_alloc(s: &mut Src) {
    if let Some(o) = all(s, [(0x10, 0), (0x10, 1), (0x10, 2), (0x10, 3)], false).id().get_rdt_allocation_info() {
        if let Some(x) = o.l3_cat() {
            fields!("L3CatInfo", x; capacity_mask_length, isolation_bitmap, highest_cos);
        }
        if let Some(x) = o.l2_cat() {
            fields!("L2CatInfo", x; capacity_mask_length, isolation_bitmap, highest_cos);
        }
        if let Some(x) = o.memory_bandwidth_allocation() {
            fields!("MemBwAllocationInfo", x; max_hba_throttling, highest_cos, has_linear_response_delay);
        }
    }
}
pub fn sgx(s: &mut Src) {
    let mut c = all(s, [(7, 0), (0x12, 0), (0x12, 1)], false);
    c.tab[0].ebx |= 4;
    if let Some(o) = c.id().get_sgx_info() {
        fields!("SgxInfo", o; has_sgx1, has_sgx2, miscselect, max_enclave_size_non_64bit, max_enclave_size_64bit,
            has_encls_leaves_etrackc_erdinfo_eldbc_elduc, has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext);
    }
}
pub fn pt_freq(s: &mut Src) {
    let c = all(s, [(0x14, 0), (0x14, 1), (0x16, 0)], false);
    if let Some(o) = c.id().get_processor_trace_info() {
        fields!("ProcessorTraceInfo", o; configurable_address_ranges, supported_mtc_period_encodings,
            supported_cycle_threshold_value_encodings, supported_psb_frequency_encodings);
    }
    if let Some(o) = c.id().get_processor_frequency_info() {
        fields!("ProcessorFrequencyInfo", o; processor_base_frequency, processor_max_frequency, bus_frequency);
    }
}
pub fn tsc(s: &mut Src) {
    let c = all(s, [(0x15, 0)], false);
    // narrow terms keep the product and quotient within the solver's reach
    assume!(c.tab[0].eax < 16 && c.tab[0].ebx < 64 && c.tab[0].ecx < 64);
    if let Some(o) = c.id().get_tsc_info() {
        fields!("TscInfo", o; denominator, numerator, nominal_frequency, tsc_frequency);
    }
}
pub fn dat(s: &mut Src) {
    let mut c = all(s, [(0x18, 0)], false);
    c.tab[0].eax = 0;
    if let Some(o) = c.id().get_deterministic_address_translation_info().and_then(|mut i| i.next()) {
        fields!("DatInfo", o; has_4k_entries, has_2mb_entries, has_4mb_entries, has_1gb_entries, is_fully_associative);
    }
}
pub fn soc(s: &mut Src) {
    let mut c = all(s, [(0x17, 0)], false);
    c.tab[0].eax &= 3;
    if let Some(o) = c.id().get_soc_vendor_info() {
        fields!("SoCVendorInfo", o; get_soc_vendor_id as "soc_vendor_id", get_project_id as "project_id",
            get_stepping_id as "stepping_id");
    }
}
pub fn hypervisor(s: &mut Src) {
    let mut c = all(s, [(1, 0), (0x4000_0000, 0), (0x4000_0010, 0)], false);
    c.tab[0].ecx |= 1 << 31;
    if let Some(o) = c.id().get_hypervisor_info() {
        fields!("HypervisorInfo", o; identify, tsc_frequency, apic_frequency);
    }
}
pub fn ext_ids(s: &mut Src) {
    let c = all(s, [(0x8000_0001, 0)], true);
    if let Some(o) = c.id().get_extended_processor_and_feature_identifiers() {
        fields!("ExtendedProcessorFeatureIdentifiers", o; extended_signature, pkg_type, brand_id);
    }
}
pub fn capacity(s: &mut Src) {
    let c = all(s, [(0x8000_0008, 0)], true);
    if let Some(o) = c.id().get_processor_capacity_feature_info() {
        fields!("ProcessorCapacityAndFeatureInfo", o; physical_address_bits, linear_address_bits,
            guest_physical_address_bits, has_cl_zero, has_inst_ret_cntr_msr, has_restore_fp_error_ptrs, has_invlpgb,
            has_rdpru, has_mcommit, has_wbnoinvd, has_int_wbinvd, has_unsupported_efer_lmsle, has_invlpgb_nested,
            perf_tsc_size, apic_id_size, maximum_logical_processors, num_phys_threads, invlpgb_max_pages, max_rdpru_id);
    }
}
pub fn amd_topology(s: &mut Src) {
    let mut c = all(s, [(0x8000_001e, 0)], true);
    c.tab[0].ebx &= 0x7fff; // 256 threads per core: known finding
    if let Some(o) = c.id().get_processor_topology_info() {
        fields!("ProcessorTopologyInfo", o; x2apic_id, core_id, threads_per_core, node_id, nodes_per_processor);
    }
}
pub fn pqos(s: &mut Src) {
    let c = all(s, [(0x8000_0020, 0)], true);
    if let Some(o) = c.id().get_pqos_extended_feature_info() {
        fields!("PqosExtendedFeatureInfo", o; has_l3mbe, has_l3smbe, has_bmec, has_l3rr, has_abmc, has_sdciae);
    }
}
pub fn raw_result(s: &mut Src) {
    let r = regs(s);
    let d = show(&r);
    ck!(d.is("eax", r.eax as usize as *const u32), "debug CpuIdResult.eax");
    ck!(d.is("ebx", r.ebx as usize as *const u32), "debug CpuIdResult.ebx");
    ck!(d.is("ecx", r.ecx as usize as *const u32), "debug CpuIdResult.ecx");
    ck!(d.is("edx", r.edx as usize as *const u32), "debug CpuIdResult.edx");
}
pub fn vendor(s: &mut Src) {
    let v = [b'!' | s.u8() & 1, b'#', b'\\', s.u8() & 0x3f | 0x40];
    let w = u32::from_le_bytes(v);
    let c = Cpu { l0: CpuIdResult { eax: 0, ebx: w, ecx: w, edx: w }, ..all(s, [], false) };
    if let Some(o) = c.id().get_vendor_info() {
        fields!("VendorInfo", o; as_str as "brand_string");
    }
}

// ------------------------------------------------------------------ lists

/// The representation of an iterator lists the items it is about to yield.
#[cfg(kani)]
fn listed<I: Iterator + Clone + Debug>(it: &I, most: usize) -> bool {
    rec::run(it);
    let mut items = it.clone();
    let size = core::mem::size_of::<I::Item>();
    let mut same = size == 16 || size == 20 || size == 32;
    let mut i = 0;
    while i <= most {
        let x = items.next();
        unsafe {
            match x {
                None => return same && i == rec::LN,
                Some(x) => {
                    let l = rec::LIST[i];
                    let p = &x as *const I::Item as *const u32;
                    same = same && i < rec::LN && l.0 == size;
                    let a = *(p as *const [u32; 4]);
                    same = same && a[0] == l.1[0] && a[1] == l.1[1] && a[2] == l.1[2] && a[3] == l.1[3];
                    if size == 20 {
                        same = same && *p.add(4) == l.2[0];
                    }
                    if size == 32 {
                        let b = *(p.add(4) as *const [u32; 4]);
                        same = same && b[0] == l.2[0] && b[1] == l.2[1] && b[2] == l.2[2] && b[3] == l.2[3];
                    }
                }
            }
        }
        i += 1;
    }
    false
}
#[cfg(not(kani))]
fn listed<I: Iterator + Clone + Debug>(it: &I, _: usize) -> bool
where
    I::Item: Debug,
{
    let items: Vec<String> = it.clone().map(|x| format!("{:?}", x)).collect();
    let (got, want) = (format!("{:?}", it), format!("[{}]", items.join(", ")));
    if got != want {
        println!("list: shown {}, items {}", got, want);
    }
    got == want
}

pub fn list_cache(s: &mut Src) {
    let c = all(s, [(4, 0), (4, 1)], false);
    if let Some(mut it) = c.id().get_cache_parameters() {
        ck!(listed(&it, 2), "debug CacheParametersIter lists its items");
        let _ = it.next();
        ck!(listed(&it, 2), "debug CacheParametersIter lists its remaining items");
        reach!("cache list");
    }
}
pub fn list_topology(s: &mut Src) {
    let mut c = all(s, [(0xb, 0), (0xb, 1)], false);
    c.tab[0].ecx &= 0xfff;
    if let Some(mut it) = c.id().get_extended_topology_info() {
        ck!(listed(&it, 2), "debug ExtendedTopologyIter lists its items");
        let _ = it.next();
        ck!(listed(&it, 2), "debug ExtendedTopologyIter lists its remaining items");
        reach!("topology list");
    }
}
pub fn list_state(s: &mut Src) {
    let mut c = all(s, [(0xd, 0), (0xd, 1), (0xd, 2), (0xd, 9)], false);
    c.tab[0].eax &= 0x207;
    c.tab[1].ecx = 0;
    if let Some(o) = c.id().get_extended_state_info() {
        let mut it = o.iter();
        ck!(listed(&it, 2), "debug ExtendedStateIter lists its items");
        let _ = it.next();
        ck!(listed(&it, 2), "debug ExtendedStateIter lists its remaining items");
        reach!("state list");
    }
}
pub fn list_sgx(s: &mut Src) {
    let mut c = all(s, [(7, 0), (0x12, 0), (0x12, 1), (0x12, 2), (0x12, 3)], false);
    c.tab[0].ebx |= 4;
    if let Some(o) = c.id().get_sgx_info() {
        let mut it = o.iter();
        ck!(listed(&it, 2), "debug SgxSectionIter lists its items");
        let _ = it.next();
        ck!(listed(&it, 2), "debug SgxSectionIter lists its remaining items");
        reach!("SGX list");
    }
}
pub fn list_dat(s: &mut Src) {
    let mut c = all(s, [(0x18, 0), (0x18, 1), (0x18, 2)], false);
    assume!(c.tab[0].eax < 3);
    if let Some(mut it) = c.id().get_deterministic_address_translation_info() {
        ck!(listed(&it, 3), "debug DatIter lists its items");
        let _ = it.next();
        ck!(listed(&it, 3), "debug DatIter lists its remaining items");
        reach!("DAT list");
    }
}

// ------------------------------------------------------------------ the whole processor

/// A digest of the queries made so far.
pub static mut LOG: u64 = 0;

#[derive(Clone, Copy)]
pub struct LogCpu {
    amd: bool,
    ebx: u32,
    edx: u32,
}
impl CpuIdReader for LogCpu {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        unsafe {
            LOG = LOG.wrapping_mul(0x1_0000_0000_01b3).wrapping_add((eax as u64) << 8 ^ ecx as u64 ^ 0x9e37_79b9);
        }
        let z = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 };
        match eax {
            0 if self.amd => CpuIdResult { eax: 0x20, ebx: 0x68747541, edx: 0x69746e65, ecx: 0x444d4163 },
            0 => CpuIdResult { eax: 0x20, ebx: 0x756e6547, edx: 0x49656e69, ecx: 0x6c65746e },
            1 => CpuIdResult { ecx: 1 << 31, ..z },
            7 => CpuIdResult { ebx: 4, ..z },
            0x4000_0000 => CpuIdResult { eax: 0x4000_0010, ..z },
            0x8000_0000 => CpuIdResult { eax: 0x8000_0028, ..z },
            0x8000_0001 => CpuIdResult { ecx: 4, ..z },
            // no list entry in it
            _ => CpuIdResult { ebx: self.ebx, edx: self.edx, ..z },
        }
    }
}

macro_rules! getters {
    ($id:ident, $d:ident; $($n:literal $m:ident),* $(,)?) => {
        $( {
            #[cfg(kani)]
            unsafe {
                LOG = 0;
                let v = $id.$m();
                fn same<T>(_: &T, d: &Shown) -> bool { d.from_queries::<T>($n, unsafe { LOG }) }
                ck!(same(&v, &$d), concat!("debug CpuId.", $n));
            }
            #[cfg(not(kani))]
            {
                let hits: Vec<_> = $d.fields.iter().filter(|f| f.0 == $n).collect();
                let want = format!("{:?}", $id.$m());
                if hits.len() != 1 || hits[0].1 != want {
                    println!("field {}: shown {:?}, getter {}", $n, hits, want);
                }
                ck!(hits.len() == 1 && hits[0].1 == want, concat!("debug CpuId.", $n));
            }
        } )*
    };
}

fn whole(s: &mut Src, amd: bool) {
    let c = LogCpu { amd, ebx: s.u32() & 0x7f7f_7f7f, edx: s.u32() & 0x7f7f_7f7f };
    let id = CpuId::with_cpuid_reader(c);
    unsafe { LOG = 0 }
    let d = show(&id);
    getters!(id, d; "vendor_info" get_vendor_info, "feature_info" get_feature_info, "cache_info" get_cache_info,
        "processor_serial" get_processor_serial, "cache_parameters" get_cache_parameters,
        "monitor_mwait_info" get_monitor_mwait_info, "thermal_power_info" get_thermal_power_info,
        "extended_feature_info" get_extended_feature_info, "direct_cache_access_info" get_direct_cache_access_info,
        "performance_monitoring_info" get_performance_monitoring_info,
        "extended_topology_info" get_extended_topology_info, "extended_state_info" get_extended_state_info,
        "rdt_monitoring_info" get_rdt_monitoring_info, "rdt_allocation_info" get_rdt_allocation_info,
        "sgx_info" get_sgx_info, "processor_trace_info" get_processor_trace_info, "tsc_info" get_tsc_info,
        "processor_frequency_info" get_processor_frequency_info,
        "deterministic_address_translation_info" get_deterministic_address_translation_info,
        "soc_vendor_info" get_soc_vendor_info, "hypervisor_info" get_hypervisor_info,
        "extended_processor_and_feature_identifiers" get_extended_processor_and_feature_identifiers,
        "processor_brand_string" get_processor_brand_string, "l1_cache_and_tlb_info" get_l1_cache_and_tlb_info,
        "l2_l3_cache_and_tlb_info" get_l2_l3_cache_and_tlb_info,
        "advanced_power_mgmt_info" get_advanced_power_mgmt_info,
        "processor_capacity_feature_info" get_processor_capacity_feature_info, "svm_info" get_svm_info,
        "tlb_1gb_page_info" get_tlb_1gb_page_info, "performance_optimization_info" get_performance_optimization_info,
        "processor_topology_info" get_processor_topology_info, "memory_encryption_info" get_memory_encryption_info);
    reach!("the whole processor has a representation");
}
pub fn whole_intel(s: &mut Src) { whole(s, false) }
pub fn whole_amd(s: &mut Src) { whole(s, true) }
