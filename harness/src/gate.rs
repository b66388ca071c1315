//! Which leafs are reported: the library's documented gating rules, getter by getter.
use crate::*;

macro_rules! gate {
    ($id:expr; $($m:ident = $e:expr),* $(,)?) => {
        $( ck!($id.$m().is_some() == $e, concat!("reported iff supported: ", stringify!($m))); )*
    };
}

/// Basic leafs whose only condition is the maximum (and, on AMD, not being reserved there).
pub fn basic_a(s: &mut Src) {
    let c = Cpu::any(s, []);
    let id = c.id();
    let a = c.amd();
    gate!(id;
        get_vendor_info = true,
        get_feature_info = c.within(1),
        get_cache_info = c.within(2) && !a,
        get_processor_serial = c.within(3) && !a,
        get_cache_parameters = if a { c.within(0x8000_001d) } else { c.within(4) },
        get_monitor_mwait_info = c.within(5),
        get_thermal_power_info = c.within(6),
        get_extended_feature_info = c.within(7),
        get_direct_cache_access_info = c.within(9) && !a,
        get_performance_monitoring_info = c.within(0xa) && !a,
    );
    reach!(a, "AMD");
    reach!(c.intel(), "Intel");
}

pub fn basic_b(s: &mut Src) {
    let c = Cpu::any(s, []);
    let id = c.id();
    gate!(id;
        get_extended_topology_info = c.within(0xb),
        get_extended_topology_info_v2 = c.within(0x1f),
        get_extended_state_info = c.within(0xd),
        get_rdt_monitoring_info = c.within(0xf),
        get_rdt_allocation_info = c.within(0x10),
        get_processor_trace_info = c.within(0x14),
        get_tsc_info = c.within(0x15),
        get_processor_frequency_info = c.within(0x16),
        get_soc_vendor_info = c.within(0x17),
        get_deterministic_address_translation_info = c.within(0x18),
    );
    reach!(c.amd(), "AMD");
    reach!(c.intel(), "Intel");
}

pub fn ext_a(s: &mut Src) {
    let c = Cpu::any(s, []);
    let id = c.id();
    gate!(id;
        get_extended_processor_and_feature_identifiers = c.within(0x8000_0001),
        get_processor_brand_string = c.within(0x8000_0004),
        get_l1_cache_and_tlb_info = c.within(0x8000_0005) && c.amd(),
        get_l2_l3_cache_and_tlb_info = c.within(0x8000_0006),
        get_advanced_power_mgmt_info = c.within(0x8000_0007),
        get_processor_capacity_feature_info = c.within(0x8000_0008),
        get_tlb_1gb_page_info = c.within(0x8000_0019),
        get_performance_optimization_info = c.within(0x8000_001a),
        get_instruction_based_sampling_capabilities = c.within(0x8000_001b),
    );
    reach!(c.amd(), "AMD");
    reach!(c.intel(), "Intel");
}

pub fn ext_b(s: &mut Src) {
    let c = Cpu::any(s, []);
    let id = c.id();
    gate!(id;
        get_processor_topology_info = c.within(0x8000_001e),
        get_memory_encryption_info = c.within(0x8000_001f),
        get_pqos_extended_feature_info = c.within(0x8000_0020),
        get_extended_feature_identification_2 = c.within(0x8000_0021),
        get_extended_performance_monitoring_and_debug = c.within(0x8000_0022),
        get_multi_key_encrypted_memory_capabilities = c.within(0x8000_0023),
        get_extended_cpu_topology = c.within(0x8000_0026),
    );
    reach!(c.amd(), "AMD");
    reach!(c.intel(), "Intel");
}

/// Leafs that also need a feature bit of another leaf.
pub fn conditional(s: &mut Src) {
    let c = Cpu::any(s, [(7, 0), (0x8000_0001, 0), (1, 0), (0x4000_0000, 0)]);
    let id = c.id();
    let sgx = c.within(7) && c.within(0x12) && f(c.tab[0].ebx, 2, 2) == 1;
    let svm = c.amd() && c.within(0x8000_000a) && f(c.tab[1].ecx, 2, 2) == 1;
    let hyp = c.within(1) && f(c.tab[2].ecx, 31, 31) == 1 && c.tab[3].eax != 0;
    gate!(id; get_sgx_info = sgx, get_svm_info = svm, get_hypervisor_info = hyp);
    reach!(sgx && hyp, "SGX and hypervisor");
    reach!(svm && hyp, "SVM and hypervisor");
}
