//! Arithmetic, iterator independence, value types, and the regions of the known findings.
use crate::*;

// ------------------------------------------------------------------ TSC frequency

fn tsc(r: CpuIdResult) -> Option<u64> {
    let c = Cpu { l0: CpuIdResult { eax: 0x20, ebx: 0x756e6547, edx: 0x49656e69, ecx: 0x6c65746e },
        l80: CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }, keys: [(0x15, 0)], tab: [r],
        other: CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 } };
    match c.id().get_tsc_info() {
        Some(o) => o.tsc_frequency(),
        None => {
            ck!(false, "leaf 0x15 is reported");
            None
        }
    }
}

/// crystal * numerator / denominator, no matter how large the terms.
pub fn tsc_value(s: &mut Src) {
    let r = regs(s);
    let got = tsc(r);
    if r.eax == 0 || r.ebx == 0 || r.ecx == 0 {
        ck!(got.is_none(), "TSC frequency unknown when a term is 0");
        reach!("TSC frequency unknown");
    } else {
        ck!(got == Some(r.ecx as u64 * r.ebx as u64 / r.eax as u64), "TSC frequency is crystal * numerator / denominator");
        reach!("TSC frequency known");
    }
}

/// The same by multiplication only, for terms of at most 12 bits.
pub fn tsc_bounds(s: &mut Src) {
    let r = regs(s);
    assume!(r.eax > 0 && r.ebx > 0 && r.ecx > 0);
    assume!(r.eax < 64 && r.ebx < 256 && r.ecx < 256);
    match tsc(r) {
        Some(q) => {
            let p = r.ecx as u64 * r.ebx as u64;
            ck!(q < 0x10000 && q * r.eax as u64 <= p && p < (q + 1) * r.eax as u64, "TSC frequency rounds the exact quotient down");
            reach!("TSC frequency known");
        }
        None => ck!(false, "TSC frequency known when no term is 0"),
    }
}

/// Denominator 2, numerator 188, any crystal.
pub fn tsc_wide_a(s: &mut Src) {
    let x = s.u32();
    assume!(x != 0);
    let got = tsc(CpuIdResult { eax: 2, ebx: 188, ecx: x, edx: 0 });
    ck!(got == Some(x as u64 * 94), "TSC frequency, any crystal");
    reach!(x > 0x8000_0000, "large crystal");
}
/// A crystal of 2^31 Hz, denominator 2, any numerator.
pub fn tsc_wide_b(s: &mut Src) {
    let x = s.u32();
    assume!(x != 0);
    let got = tsc(CpuIdResult { eax: 2, ebx: x, ecx: 0x8000_0000, edx: 0 });
    ck!(got == Some((x as u64) << 30), "TSC frequency, any numerator");
    reach!(x > 0x8000_0000, "large numerator");
}
/// Any terms, no claim on the value.
pub fn tsc_any(s: &mut Src) {
    let r = regs(s);
    let _ = tsc(r);
    reach!(r.eax == 0, "zero denominator");
}

// ------------------------------------------------------------------ clones of iterators

fn one<const N: usize>(s: &mut Src, keys: [(u32, u32); N], amd: bool) -> Cpu<N> {
    let mut c = Cpu::any(s, keys);
    c.l0 = if amd {
        CpuIdResult { eax: 0x20, ebx: 0x68747541, edx: 0x69746e65, ecx: 0x444d4163 }
    } else {
        CpuIdResult { eax: 0x20, ebx: 0x756e6547, edx: 0x49656e69, ecx: 0x6c65746e }
    };
    c.l80 = CpuIdResult { eax: 0x8000_0026, ebx: 0, ecx: 0, edx: 0 };
    c
}

/// Advances an iterator, copies it, exhausts the copy by two steps, and compares what the original
/// and a third copy report next.
macro_rules! clones {
    ($it:expr, $same:expr, $m:literal) => {{
        let mut it = $it;
        let _ = it.next();
        let mut a = it.clone();
        let mut b = it.clone();
        let _ = a.next();
        let _ = a.next();
        let x = it.next();
        let y = b.next();
        ck!($same(&x, &y), $m);
        reach!(x.is_some(), "clone of a list with a second element");
    }};
}

fn opt<T, F: Fn(&T, &T) -> bool>(x: &Option<T>, y: &Option<T>, f: F) -> bool {
    match (x, y) {
        (None, None) => true,
        (Some(a), Some(b)) => f(a, b),
        _ => false,
    }
}

pub fn clone_cache(s: &mut Src) {
    let c = one(s, [(4, 0), (4, 1), (4, 2)], false);
    if let Some(i) = c.id().get_cache_parameters() {
        clones!(i, |x: &Option<CacheParameter>, y: &Option<CacheParameter>| opt(x, y, |a, b| a == b),
            "cache list: a clone continues independently");
    }
}
pub fn clone_topology(s: &mut Src) {
    let c = one(s, [(0xb, 0), (0xb, 1), (0xb, 2)], false);
    if let Some(i) = c.id().get_extended_topology_info() {
        clones!(i, |x: &Option<ExtendedTopologyLevel>, y: &Option<ExtendedTopologyLevel>| opt(x, y, |a, b| a == b),
            "topology list: a clone continues independently");
    }
}
pub fn clone_amd_topology(s: &mut Src) {
    let c = one(s, [(0x8000_0026, 0), (0x8000_0026, 1), (0x8000_0026, 2)], true);
    if let Some(i) = c.id().get_extended_cpu_topology() {
        clones!(i, |x: &Option<ExtendedCpuTopologyLevel>, y: &Option<ExtendedCpuTopologyLevel>| opt(x, y, |a, b| a == b),
            "AMD topology list: a clone continues independently");
    }
}
pub fn clone_sgx(s: &mut Src) {
    let mut c = one(s, [(0x12, 2), (0x12, 3), (0x12, 4)], false);
    c.other.ebx |= 4;
    if let Some(o) = c.id().get_sgx_info() {
        clones!(o.iter(), |x: &Option<SgxSectionInfo>, y: &Option<SgxSectionInfo>| opt(x, y, |a, b| {
            let (SgxSectionInfo::Epc(a), SgxSectionInfo::Epc(b)) = (a, b);
            a.physical_base() == b.physical_base() && a.size() == b.size()
        }), "SGX list: a clone continues independently");
    }
}

// ------------------------------------------------------------------ value types

pub fn all_zero(s: &mut Src) {
    let r = regs(s);
    ck!(r.all_zero() == (r.eax == 0 && r.ebx == 0 && r.ecx == 0 && r.edx == 0), "all_zero iff every register is 0");
    reach!(r.all_zero(), "all zero");
}

/// A closure used as reader, and a second instance created from it, see the same registers.
pub fn closure_reader(s: &mut Src) {
    let (l0, a, b, q) = (any_l0(s), regs(s), regs(s), s.u32());
    let rd = move |eax: u32, ecx: u32| if eax == 0 { l0 } else if ecx == q { a } else { b };
    ck!(req(rd.cpuid2(7, q), a), "cpuid2 hands both inputs to the reader");
    ck!(req(rd.cpuid1(7), if q == 0 { a } else { b }), "cpuid1 reads sub-leaf 0");
    let id = CpuId::with_cpuid_reader(rd);
    ck!(id.get_feature_info().is_some() == (l0.eax >= 1), "with_cpuid_reader uses the reader");
    #[allow(deprecated)]
    let id2 = CpuId::with_cpuid_fn(rd);
    ck!(id2.get_feature_info().is_some() == (l0.eax >= 1), "with_cpuid_fn uses the reader");
    reach!(l0.eax >= 1, "leaf 1");
}

// ------------------------------------------------------------------ known findings: the regions
// left out elsewhere, each decided here

pub fn kf_family(s: &mut Src) {
    let c = Cpu::any(s, [(1, 0)]);
    assume!(c.within(1) && (c.intel() || c.amd()));
    let r = c.tab[0];
    let (fam, efam) = (f(r.eax, 8, 11), f(r.eax, 20, 27));
    assume!(fam == 15 && fam + efam > 255);
    if let Some(o) = c.id().get_feature_info() {
        ck!(o.family_id() as u32 == fam + efam, "leaf1.family_id above 255");
    }
}
pub fn kf_threads(s: &mut Src) {
    let mut c = one(s, [(0x8000_001e, 0)], true);
    c.tab[0].ebx |= 0xff00;
    if let Some(o) = c.id().get_processor_topology_info() {
        ck!(o.threads_per_core() as u32 == 256, "leaf8000001E.threads_per_core of 256");
    }
}
pub fn kf_tlb_1gb(s: &mut Src) {
    let c = one(s, [(0x8000_0019, 0)], true);
    let r = c.tab[0];
    if let Some(o) = c.id().get_tlb_1gb_page_info() {
        eqs!("leaf80000019", OWide(&o);
            dtlb_l1 = f(r.eax, 16, 27), itlb_l1 = f(r.eax, 0, 11), dtlb_l2 = f(r.ebx, 16, 27), itlb_l2 = f(r.ebx, 0, 11));
    }
}
struct OWide<'a>(&'a Tlb1gbPageInfo);
impl OWide<'_> {
    fn dtlb_l1(&self) -> u32 { self.0.dtlb_l1_1gb_size() as u32 }
    fn itlb_l1(&self) -> u32 { self.0.itlb_l1_1gb_size() as u32 }
    fn dtlb_l2(&self) -> u32 { self.0.dtlb_l2_1gb_size() as u32 }
    fn itlb_l2(&self) -> u32 { self.0.itlb_l2_1gb_size() as u32 }
}
