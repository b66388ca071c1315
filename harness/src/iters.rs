//! Iterators over sub-leafs: which sub-leafs are read, in which order, where they end, and how
//! each item is decoded.
use crate::*;

const Z: CpuIdResult = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 };

/// A processor whose leaf `leaf` has `K` listed sub-leafs (`first`, `first + 1`, ...).
fn sub<const K: usize>(s: &mut Src, leaf: u32, first: u32) -> Cpu<K> {
    let mut keys = [(0u32, 0u32); K];
    let mut i = 0;
    while i < K {
        keys[i] = (leaf, first + i as u32);
        i += 1;
    }
    Cpu::any(s, keys)
}

// ------------------------------------------------------------------ leaf 4 / 0x8000001D

fn ck_cache(o: &CacheParameter, r: CpuIdResult) {
    let want = match f(r.eax, 0, 4) {
        1 => CacheType::Data,
        2 => CacheType::Instruction,
        _ => CacheType::Unified,
    };
    eqs!("cache", o;
        cache_type = want,
        level = f(r.eax, 5, 7) as u8,
        is_self_initializing = f(r.eax, 8, 8) == 1,
        is_fully_associative = f(r.eax, 9, 9) == 1,
        max_cores_for_cache = f(r.eax, 14, 25) as usize + 1,
        max_cores_for_package = f(r.eax, 26, 31) as usize + 1,
        coherency_line_size = f(r.ebx, 0, 11) as usize + 1,
        physical_line_partitions = f(r.ebx, 12, 21) as usize + 1,
        associativity = f(r.ebx, 22, 31) as usize + 1,
        sets = r.ecx as usize + 1,
        is_write_back_invalidate = f(r.edx, 0, 0) == 1,
        is_inclusive = f(r.edx, 1, 1) == 1,
        has_complex_indexing = f(r.edx, 2, 2) == 1);
}

fn cache<const K: usize>(s: &mut Src, amd: bool) {
    let c: Cpu<K> = sub(s, if amd { 0x8000_001d } else { 4 }, 0);
    assume!(c.amd() == amd);
    if let Some(mut it) = got(c.id().get_cache_parameters(), if amd { c.within(0x8000_001d) } else { c.within(4) }) {
        let mut i = 0;
        while i < K {
            let r = c.tab[i];
            let ty = f(r.eax, 0, 4);
            let got = it.next();
            if ty == 0 {
                ck!(got.is_none(), "cache: ends at the first null sub-leaf");
                reach!(i > 0, "cache list ends after at least one cache");
                return;
            }
            if ty > 3 {
                // reserved cache type: the manuals define no list beyond it
                return;
            }
            ck!(got.is_some(), "cache: every sub-leaf up to the first null one is reported");
            if let Some(o) = got {
                ck_cache(&o, r);
            }
            i += 1;
        }
        reach!("cache list fills the bound");
    }
}
pub fn cache_intel_2(s: &mut Src) { cache::<2>(s, false) }
pub fn cache_amd_2(s: &mut Src) { cache::<2>(s, true) }
pub fn cache_intel_5(s: &mut Src) { cache::<5>(s, false) }
pub fn cache_amd_5(s: &mut Src) { cache::<5>(s, true) }

// ------------------------------------------------------------------ leafs 0xB, 0x1F

fn topo<const K: usize>(s: &mut Src, v2: bool) {
    let c: Cpu<K> = sub(s, if v2 { 0x1f } else { 0xb }, 0);
    let id = c.id();
    let it = if v2 { id.get_extended_topology_info_v2() } else { id.get_extended_topology_info() };
    if let Some(mut it) = got(it, c.within(if v2 { 0x1f } else { 0xb })) {
        let mut i = 0;
        while i < K {
            let r = c.tab[i];
            let ty = f(r.ecx, 8, 15);
            // level types above 5: see the known findings
            if ty > 5 {
                return;
            }
            let got = it.next();
            if ty == 0 {
                ck!(got.is_none(), "topology: ends at the first invalid level");
                reach!(i > 0, "topology ends after at least one level");
                return;
            }
            ck!(got.is_some(), "topology: every level up to the first invalid one is reported");
            if let Some(o) = got {
                let want = match ty {
                    1 => TopologyType::SMT,
                    2 => TopologyType::Core,
                    3 => TopologyType::Module,
                    4 => TopologyType::Tile,
                    _ => TopologyType::Die,
                };
                eqs!("topology", o;
                    processors = f(r.ebx, 0, 15) as u16,
                    level_number = f(r.ecx, 0, 7) as u8,
                    level_type = want,
                    x2apic_id = r.edx,
                    shift_right_for_next_apic_id = f(r.eax, 0, 4));
            }
            i += 1;
        }
        reach!("topology fills the bound");
    }
}
pub fn topo_b_3(s: &mut Src) { topo::<3>(s, false) }
pub fn topo_1f_3(s: &mut Src) { topo::<3>(s, true) }
pub fn topo_b_7(s: &mut Src) { topo::<7>(s, false) }
pub fn topo_1f_7(s: &mut Src) { topo::<7>(s, true) }

/// Three pulls from any list, unknown level types included.
pub fn topo_any(s: &mut Src) {
    let v2 = s.u8() & 1 == 1;
    let c: Cpu<3> = sub(s, if v2 { 0x1f } else { 0xb }, 0);
    let id = c.id();
    let it = if v2 { id.get_extended_topology_info_v2() } else { id.get_extended_topology_info() };
    if let Some(mut it) = it {
        let mut i = 0;
        while i < 3 {
            if let Some(o) = it.next() {
                let ty = o.level_type();
                ck!(ty == o.level_type(), "topology: level_type answers");
                let _ = (o.processors(), o.level_number(), o.x2apic_id(), o.shift_right_for_next_apic_id());
            }
            i += 1;
        }
        reach!("three pulls");
    }
}

// ------------------------------------------------------------------ leaf 0x80000026

fn amd_topo<const K: usize>(s: &mut Src) {
    let c: Cpu<K> = sub(s, 0x8000_0026, 0);
    if let Some(mut it) = got(c.id().get_extended_cpu_topology(), c.within(0x8000_0026)) {
        let mut i = 0;
        while i < K {
            let r = c.tab[i];
            let ty = f(r.ecx, 8, 15);
            let got = it.next();
            if ty == 0 {
                ck!(got.is_none(), "AMD topology: ends at the first reserved level");
                reach!(i > 0, "AMD topology ends after at least one level");
                return;
            }
            ck!(got.is_some(), "AMD topology: every level up to the first reserved one is reported");
            if let Some(o) = got {
                let want = match ty {
                    1 => HierarchyLevelType::Core,
                    2 => HierarchyLevelType::Complex,
                    3 => HierarchyLevelType::Die,
                    4 => HierarchyLevelType::Socket,
                    x => HierarchyLevelType::Unknown(x as u8),
                };
                eqs!("amd-topology", o;
                    mask_width = f(r.eax, 0, 4) as u8,
                    has_efficiency_ranking_available = f(r.eax, 29, 29) == 1,
                    has_heterogeneous_cores = f(r.eax, 30, 30) == 1,
                    has_asymmetric_topology = f(r.eax, 31, 31) == 1,
                    num_logical_processors = f(r.ebx, 0, 15) as u16,
                    pwr_efficiency_ranking = f(r.ebx, 16, 23) as u8,
                    native_mode_id = f(r.ebx, 24, 27) as u8,
                    core_type = f(r.ebx, 28, 31) as u8,
                    input_ecx = f(r.ecx, 0, 7) as u8,
                    extended_apic_id = r.edx);
                ck!(o.level_type() == want, "amd-topology.level_type");
            }
            i += 1;
        }
        reach!("AMD topology fills the bound");
    }
}
pub fn amd_topo_3(s: &mut Src) { amd_topo::<3>(s) }
pub fn amd_topo_7(s: &mut Src) { amd_topo::<7>(s) }

// ------------------------------------------------------------------ leaf 0xD

/// Leaf 0xD with every sub-leaf n >= 2 answering registers that identify n.
#[derive(Clone, Copy)]
pub struct StateCpu {
    l0: CpuIdResult,
    l80: CpuIdResult,
    d0: CpuIdResult,
    d1: CpuIdResult,
    k: CpuIdResult,
    other: CpuIdResult,
}
impl StateCpu {
    fn at(&self, n: u32) -> CpuIdResult {
        CpuIdResult { eax: self.k.eax ^ n, ebx: self.k.ebx ^ (n << 8), ecx: self.k.ecx ^ (n << 16), edx: self.k.edx }
    }
}
impl CpuIdReader for StateCpu {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        if eax == 0 && ecx == 0 {
            self.l0
        } else if eax == 0x8000_0000 && ecx == 0 {
            self.l80
        } else if eax == 0xd {
            match ecx {
                0 => self.d0,
                1 => self.d1,
                n => self.at(n),
            }
        } else {
            self.other
        }
    }
}

/// State components defined for XCR0 (2..=7, 9, 17, 18) and for IA32_XSS (8, 10..=16).
const USER: u32 = 0b110_0000_0010_1111_1100;
const SUPER: u32 = 0b1_1111_1101_0000_0000;

fn state(s: &mut Src, pulls: u32, mask: u32) {
    let c = StateCpu { l0: any_l0(s), l80: regs(s), d0: regs(s), d1: regs(s), k: regs(s), other: regs(s) };
    // bits the manuals leave reserved are 0 (legacy x87 and SSE, bits 0 and 1, are no sub-leafs)
    assume!(c.d0.eax & !(USER | 3) == 0);
    assume!(c.d1.ecx & !SUPER == 0);
    let todo = (c.d0.eax | c.d1.ecx) & !3;
    assume!(todo & !mask == 0);
    if let Some(o) = got(CpuId::with_cpuid_reader(c).get_extended_state_info(), c.l0.eax >= 0xd) {
        let mut it = o.iter();
        let mut left = todo;
        let mut n = 0;
        while n < pulls {
            let got = it.next();
            if left == 0 {
                ck!(got.is_none(), "state: ends after the last enabled component");
                reach!(n > 0, "state list ends after at least one component");
                return;
            }
            let bit = left.trailing_zeros();
            left &= left - 1;
            ck!(got.is_some(), "state: every enabled component is reported");
            if let Some(x) = got {
                let r = c.at(bit);
                ck!(x.subleaf == bit, "state: components come in ascending order");
                eqs!("state", x;
                    size = r.eax,
                    offset = r.ebx,
                    is_in_ia32_xss = f(r.ecx, 0, 0) == 1,
                    is_in_xcr0 = f(r.ecx, 0, 0) == 0,
                    is_compacted_format = f(r.ecx, 1, 1) == 1,
                    location = if f(r.ecx, 0, 0) == 1 { ExtendedRegisterStateLocation::Ia32Xss } else { ExtendedRegisterStateLocation::Xcr0 });
                let want = match bit {
                    2 => ExtendedRegisterType::Avx,
                    3 => ExtendedRegisterType::MpxBndregs,
                    4 => ExtendedRegisterType::MpxBndcsr,
                    5 => ExtendedRegisterType::Avx512Opmask,
                    6 => ExtendedRegisterType::Avx512ZmmHi256,
                    7 => ExtendedRegisterType::Avx512ZmmHi16,
                    8 => ExtendedRegisterType::Pt,
                    9 => ExtendedRegisterType::Pkru,
                    0xd => ExtendedRegisterType::Hdc,
                    n => ExtendedRegisterType::Unknown(n),
                };
                ck!(x.register() == want, "state.register");
            }
            n += 1;
        }
        reach!("state list fills the bound");
    }
}
/// The first two components, whatever is enabled.
pub fn state_first2(s: &mut Src) { state(s, 2, !0) }
/// Complete lists over the low components (2..=9).
pub fn state_low(s: &mut Src) { state(s, 5, 0x3ff) }
/// Complete lists over the high components (10..=18).
pub fn state_high(s: &mut Src) { state(s, 5, 0x7fc00) }
pub fn state_first6(s: &mut Src) { state(s, 6, !0) }

// ------------------------------------------------------------------ leaf 0x12

fn sgx<const K: usize>(s: &mut Src) {
    // sub-leafs 2.. are sections; leaf 7 says whether there is SGX at all
    let c: Cpu<K> = sub(s, 0x12, 2);
    assume!(c.other.ebx & 4 != 0); // leaf 7 (an unlisted leaf here) reports SGX
    if let Some(o) = got(c.id().get_sgx_info(), c.within(7) && c.within(0x12)) {
        let mut it = o.iter();
        let mut i = 0;
        while i < K {
            let r = c.tab[i];
            let got = it.next();
            if f(r.eax, 0, 3) != 1 {
                ck!(got.is_none(), "SGX: ends at the first sub-leaf that is no EPC section");
                reach!(i > 0, "SGX sections end after at least one");
                return;
            }
            ck!(got.is_some(), "SGX: every section up to the first invalid one is reported");
            if let Some(SgxSectionInfo::Epc(e)) = got {
                eqs!("sgx", e;
                    physical_base = (f(r.ebx, 0, 19) as u64) << 32 | (f(r.eax, 12, 31) as u64) << 12,
                    size = (f(r.edx, 0, 19) as u64) << 32 | (f(r.ecx, 12, 31) as u64) << 12);
            }
            i += 1;
        }
        reach!("SGX sections fill the bound");
    }
}
pub fn sgx_3(s: &mut Src) { sgx::<3>(s) }
pub fn sgx_7(s: &mut Src) { sgx::<7>(s) }

// ------------------------------------------------------------------ leaf 0x18

fn dat<const K: usize>(s: &mut Src) {
    let c: Cpu<K> = sub(s, 0x18, 0);
    let last = c.tab[0].eax;
    assume!(last < K as u32);
    if let Some(mut it) = got(c.id().get_deterministic_address_translation_info(), c.within(0x18)) {
        let mut i = 0u32;
        let mut any = false;
        while i <= last {
            let r = c.tab[i as usize];
            i += 1;
            if f(r.edx, 0, 4) == 0 {
                reach!("DAT skips an invalid sub-leaf");
                continue;
            }
            let got = it.next();
            any = true;
            ck!(got.is_some(), "DAT: every valid sub-leaf is reported");
            if let Some(o) = got {
                let want = match f(r.edx, 0, 4) {
                    1 => DatType::DataTLB,
                    2 => DatType::InstructionTLB,
                    3 => DatType::UnifiedTLB,
                    4 => DatType::LoadOnly,
                    5 => DatType::StoreOnly,
                    _ => DatType::Unknown,
                };
                flags!("DAT", o, r.ebx; has_4k_entries: 0, has_2mb_entries: 1, has_4mb_entries: 2, has_1gb_entries: 3);
                eqs!("DAT", o;
                    is_fully_associative = f(r.edx, 8, 8) == 1,
                    partitioning = f(r.ebx, 8, 10) as u8,
                    ways = f(r.ebx, 16, 31) as u16,
                    sets = r.ecx,
                    cache_type = want,
                    cache_level = f(r.edx, 5, 7) as u8,
                    max_addressable_ids = (f(r.edx, 14, 25) + 1) as u16);
            }
        }
        ck!(it.next().is_none(), "DAT: ends at the last sub-leaf the processor reports");
        reach!(any && last as usize == K - 1, "DAT fills the bound");
    }
}
pub fn dat_3(s: &mut Src) { dat::<3>(s) }
pub fn dat_6(s: &mut Src) { dat::<6>(s) }

/// One pull from a list of up to three sub-leafs starting with any contents.
pub fn dat_any(s: &mut Src) {
    let c: Cpu<3> = sub(s, 0x18, 0);
    assume!(c.tab[0].eax < 3);
    if let Some(mut it) = c.id().get_deterministic_address_translation_info() {
        let mut i = 0;
        while i < 4 {
            if let Some(o) = it.next() {
                let _ = (o.cache_type(), o.max_addressable_ids(), o.sets(), o.ways(), o.partitioning());
            }
            i += 1;
        }
        reach!("four pulls");
    }
}

// ------------------------------------------------------------------ leaf 0x17

pub fn soc_ids(s: &mut Src) {
    let c = Cpu::any(s, [(0x17, 0)]);
    let r = c.tab[0];
    if let Some(o) = got(c.id().get_soc_vendor_info(), c.within(0x17)) {
        eqs!("SoC", o; get_soc_vendor_id = f(r.ebx, 0, 15) as u16, get_project_id = r.ecx, get_stepping_id = r.edx);
        ck!(o.get_vendor_brand().is_some() == (r.eax >= 3), "SoC: brand present iff sub-leafs 1 to 3 exist");
        ck!(o.get_vendor_attributes().is_some() == (r.eax > 3), "SoC: attributes present iff sub-leafs above 3 exist");
        reach!(r.eax > 3, "SoC with attributes");
    }
}

/// K listed sub-leafs 4..; the processor's last sub-leaf is at most 3 + K.
fn soc_attrs<const K: usize>(s: &mut Src) {
    let c: Cpu<K> = sub(s, 0x17, 4);
    // leaf 0x17 sub-leaf 0 is an unlisted entry here
    let last = c.other.eax;
    assume!(last <= 3 + K as u32);
    if let Some(o) = got(c.id().get_soc_vendor_info(), c.within(0x17)) {
        if let Some(mut it) = o.get_vendor_attributes() {
            let mut n = 4;
            while n <= last {
                let got = it.next();
                ck!(got.is_some(), "SoC: every attribute sub-leaf is reported");
                if let Some(x) = got {
                    ck!(req(x, c.tab[(n - 4) as usize]), "SoC: attributes come from sub-leafs 4, 5, ... in order");
                }
                n += 1;
            }
            ck!(it.next().is_none(), "SoC: attributes end at the last sub-leaf the processor reports");
            reach!(last == 3 + K as u32, "SoC attributes fill the bound");
        }
    }
}
pub fn soc_attrs_3(s: &mut Src) { soc_attrs::<3>(s) }
pub fn soc_attrs_6(s: &mut Src) { soc_attrs::<6>(s) }

// ------------------------------------------------------------------ long lists

/// A processor whose leaf `leaf` has many sub-leafs: a value of their own each, up to `last`, and one
/// null sub-leaf after that. With `holes`, all but two of them are null.
#[derive(Clone, Copy)]
struct Long {
    l0: CpuIdResult,
    l80: CpuIdResult,
    leaf: u32,
    // sub-leaf n: `k` with n mixed in, `kind` set in the register that tells null sub-leafs
    k: CpuIdResult,
    last: u32,
    hole: Option<(u32, u32)>,
    other: CpuIdResult,
}
impl Long {
    fn any(s: &mut Src, leaf: u32, most: u32) -> Self {
        let c = Long { l0: any_l0(s), l80: regs(s), leaf, k: regs(s), last: s.u32(), hole: None, other: regs(s) };
        assume!(c.last <= most);
        c
    }
    fn null(&self, n: u32) -> bool {
        match self.hole {
            None => n > self.last,
            Some((p, q)) => n != p && n != q,
        }
    }
    fn at(&self, n: u32) -> CpuIdResult {
        let k = self.k;
        let null = self.null(n);
        let set = |r: u32, mask: u32, v: u32| (r & !mask) | if null { 0 } else { v };
        match self.leaf {
            4 | 0x8000_001d => CpuIdResult { eax: set(k.eax, 0x1f, 1 + n % 3), ebx: k.ebx, ecx: k.ecx ^ n, edx: k.edx },
            0xb | 0x1f | 0x8000_0026 => CpuIdResult { eax: k.eax, ebx: k.ebx, ecx: set(k.ecx ^ n, 0xff00, (1 + n % 4) << 8), edx: k.edx ^ (n << 7) },
            0x12 => CpuIdResult { eax: set(k.eax, 0xf, 1), ebx: k.ebx ^ n, ecx: k.ecx, edx: k.edx ^ n },
            0x18 => CpuIdResult { eax: if n == 0 { self.last } else { k.eax }, ebx: k.ebx, ecx: k.ecx ^ n, edx: set(k.edx, 0x1f, 1 + n % 5) },
            _ => CpuIdResult { eax: if n == 0 { self.last } else { k.eax }, ebx: k.ebx ^ n, ecx: k.ecx, edx: k.edx },
        }
    }
    fn within(&self) -> bool {
        self.leaf <= if self.leaf < 0x8000_0000 { self.l0.eax } else { self.l80.eax }
    }
    fn id(&self) -> CpuId<Self> {
        CpuId::with_cpuid_reader(*self)
    }
}
impl CpuIdReader for Long {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        if eax == self.leaf {
            self.at(ecx)
        } else if eax == 0 && ecx == 0 {
            self.l0
        } else if eax == 0x8000_0000 && ecx == 0 {
            self.l80
        } else {
            self.other
        }
    }
}

fn long_cache(s: &mut Src, amd: bool, most: u32) {
    let c = Long::any(s, if amd { 0x8000_001d } else { 4 }, most);
    assume!(is_amd(c.l0) == amd);
    if let Some(mut it) = got(c.id().get_cache_parameters(), c.within()) {
        let mut n = 0;
        while n <= c.last {
            let got = it.next();
            ck!(got.is_some(), "cache: every sub-leaf up to the first null one is reported");
            if let Some(o) = got {
                ck_cache(&o, c.at(n));
            }
            n += 1;
        }
        ck!(it.next().is_none(), "cache: ends at the first null sub-leaf");
        reach!(c.last == most, "cache list fills the bound");
    }
}
pub fn long_cache_intel(s: &mut Src) { long_cache(s, false, 40) }
pub fn long_cache_amd(s: &mut Src) { long_cache(s, true, 40) }
pub fn far_cache_intel(s: &mut Src) { long_cache(s, false, 130) }
pub fn far_cache_amd(s: &mut Src) { long_cache(s, true, 130) }

fn long_topo(s: &mut Src, v2: bool, most: u32) {
    let c = Long::any(s, if v2 { 0x1f } else { 0xb }, most);
    let id = c.id();
    let it = if v2 { id.get_extended_topology_info_v2() } else { id.get_extended_topology_info() };
    if let Some(mut it) = got(it, c.within()) {
        let mut n = 0;
        while n <= c.last {
            let got = it.next();
            ck!(got.is_some(), "topology: every level up to the first invalid one is reported");
            if let Some(o) = got {
                let r = c.at(n);
                eqs!("topology", o;
                    processors = f(r.ebx, 0, 15) as u16,
                    level_number = f(r.ecx, 0, 7) as u8,
                    x2apic_id = r.edx,
                    shift_right_for_next_apic_id = f(r.eax, 0, 4));
                ck!(o.level_type() as u8 as u32 == f(r.ecx, 8, 15), "topology.level_type");
            }
            n += 1;
        }
        ck!(it.next().is_none(), "topology: ends at the first invalid level");
        reach!(c.last == most, "topology fills the bound");
    }
}
pub fn long_topo_b(s: &mut Src) { long_topo(s, false, 40) }
pub fn long_topo_1f(s: &mut Src) { long_topo(s, true, 40) }
pub fn far_topo_b(s: &mut Src) { long_topo(s, false, 130) }
pub fn far_topo_1f(s: &mut Src) { long_topo(s, true, 130) }

fn list_amd_topo(s: &mut Src, most: u32) {
    let c = Long::any(s, 0x8000_0026, most);
    if let Some(mut it) = got(c.id().get_extended_cpu_topology(), c.within()) {
        let mut n = 0;
        while n <= c.last {
            let got = it.next();
            ck!(got.is_some(), "AMD topology: every level up to the first reserved one is reported");
            if let Some(o) = got {
                let r = c.at(n);
                eqs!("amd-topology", o;
                    mask_width = f(r.eax, 0, 4) as u8,
                    num_logical_processors = f(r.ebx, 0, 15) as u16,
                    input_ecx = f(r.ecx, 0, 7) as u8,
                    extended_apic_id = r.edx);
            }
            n += 1;
        }
        ck!(it.next().is_none(), "AMD topology: ends at the first reserved level");
        reach!(c.last == most, "AMD topology fills the bound");
    }
}
pub fn long_amd_topo(s: &mut Src) { list_amd_topo(s, 40) }
pub fn far_amd_topo(s: &mut Src) { list_amd_topo(s, 130) }

fn list_sgx(s: &mut Src, most: u32) {
    let c = Long::any(s, 0x12, most);
    assume!(c.last >= 1);
    assume!(c.other.ebx & 4 != 0); // leaf 7 reports SGX
    if let Some(o) = got(c.id().get_sgx_info(), c.l0.eax >= 7 && c.within()) {
        let mut it = o.iter();
        let mut n = 2;
        while n <= c.last {
            let got = it.next();
            ck!(got.is_some(), "SGX: every section up to the first invalid one is reported");
            if let Some(SgxSectionInfo::Epc(e)) = got {
                let r = c.at(n);
                eqs!("sgx", e;
                    physical_base = (f(r.ebx, 0, 19) as u64) << 32 | (f(r.eax, 12, 31) as u64) << 12,
                    size = (f(r.edx, 0, 19) as u64) << 32 | (f(r.ecx, 12, 31) as u64) << 12);
            }
            n += 1;
        }
        ck!(it.next().is_none(), "SGX: ends at the first sub-leaf that is no EPC section");
        reach!(c.last == most, "SGX sections fill the bound");
    }
}
pub fn long_sgx(s: &mut Src) { list_sgx(s, 40) }
pub fn far_sgx(s: &mut Src) { list_sgx(s, 130) }

/// Up to 41 sub-leafs, all null but two.
pub fn long_dat(s: &mut Src) {
    let mut c = Long::any(s, 0x18, 40);
    let (p, q) = (s.u32(), s.u32());
    assume!(p < q && q <= c.last);
    c.hole = Some((p, q));
    if let Some(mut it) = got(c.id().get_deterministic_address_translation_info(), c.within()) {
        let mut k = 0;
        while k < 2 {
            let n = if k == 0 { p } else { q };
            let got = it.next();
            ck!(got.is_some(), "DAT: every valid sub-leaf is reported");
            if let Some(o) = got {
                let r = c.at(n);
                eqs!("DAT", o; sets = r.ecx, cache_level = f(r.edx, 5, 7) as u8, ways = f(r.ebx, 16, 31) as u16);
            }
            k += 1;
        }
        ck!(it.next().is_none(), "DAT: ends at the last sub-leaf the processor reports");
        reach!(c.last == 40 && q == 40, "DAT fills the bound");
    }
}

/// The attribute sub-leafs from 4 to any last one.
fn list_soc(s: &mut Src, most: u32) {
    let c = Long::any(s, 0x17, most);
    if let Some(o) = got(c.id().get_soc_vendor_info(), c.within()) {
        if let Some(mut it) = got(o.get_vendor_attributes(), c.last > 3) {
            let mut n = 4;
            while n <= c.last {
                let got = it.next();
                ck!(got.is_some(), "SoC: every attribute sub-leaf is reported");
                if let Some(x) = got {
                    ck!(req(x, c.at(n)), "SoC: attributes come from sub-leafs 4, 5, ... in order");
                }
                n += 1;
            }
            ck!(it.next().is_none(), "SoC: attributes end at the last sub-leaf the processor reports");
            reach!(c.last == most, "SoC attributes fill the bound");
        }
    }
}
pub fn long_soc(s: &mut Src) { list_soc(s, 40) }
pub fn far_soc(s: &mut Src) { list_soc(s, 130) }
