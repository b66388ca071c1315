//! Property bodies over the public API of raw-cpuid, written once and used twice:
//!  * under `cargo kani` (`cfg(kani)`): every input word is a solver variable, every `ck!` is a
//!    proof obligation;
//!  * natively (`replay` binary): the input words come from a solver counterexample.
#![allow(clippy::all, dead_code, unused_imports, unused_macros)]
#![allow(deprecated)]
#![allow(static_mut_refs)]
#![cfg_attr(kani, feature(formatting_options))]

pub use raw_cpuid::*;

// ---------------------------------------------------------------- input source

/// Where input words come from.
pub struct Src {
    #[cfg(not(kani))]
    vals: std::collections::VecDeque<Vec<u8>>,
}

#[cfg(kani)]
impl Src {
    pub fn new() -> Self {
        Src {}
    }
    pub fn u32(&mut self) -> u32 {
        kani::any()
    }
    pub fn u8(&mut self) -> u8 {
        kani::any()
    }
}

#[cfg(not(kani))]
impl Src {
    pub fn from_vals(v: Vec<Vec<u8>>) -> Self {
        Src { vals: v.into() }
    }
    fn take(&mut self, n: usize) -> u64 {
        let v = match self.vals.pop_front() {
            Some(v) => v,
            None => {
                // the solver's trace left the word out: the value does not matter
                vec![0; n]
            }
        };
        if v.len() != n {
            eprintln!("REPLAY-INPUT-MISMATCH: expected {} byte(s), got {:?}", n, v);
            std::process::exit(4);
        }
        v.iter().rev().fold(0u64, |a, b| (a << 8) | *b as u64)
    }
    pub fn u32(&mut self) -> u32 {
        self.take(4) as u32
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1) as u8
    }
}

// ---------------------------------------------------------------- verdict macros

/// A proof obligation. With feature `touch` the expression is only evaluated, so that the remaining
/// obligations are the absence of panics, overflows, bad memory accesses and endless loops in it.
#[macro_export]
macro_rules! ck {
    ($c:expr, $m:expr) => {{
        let ok: bool = $c;
        #[cfg(all(kani, not(feature = "touch")))]
        kani::assert(ok, $m);
        #[cfg(all(not(kani), not(feature = "touch")))]
        if !ok {
            println!("CK-FAILED: {}", $m);
            $crate::fail();
        }
        #[cfg(feature = "touch")]
        let _ = ok;
    }};
}

/// An assumption about the inputs.
#[macro_export]
macro_rules! assume {
    ($c:expr) => {{
        #[cfg(kani)]
        kani::assume($c);
        #[cfg(not(kani))]
        if !($c) {
            println!("ASSUMPTION-NOT-MET: {}", stringify!($c));
            std::process::exit(3);
        }
    }};
}

/// A reachability witness: the solver must find an input that gets here.
#[macro_export]
macro_rules! reach {
    ($m:expr) => {{
        #[cfg(kani)]
        kani::cover!(true, $m);
        #[cfg(not(kani))]
        $crate::reached($m);
    }};
    ($c:expr, $m:expr) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        if $c {
            $crate::reached($m);
        }
    }};
}

#[cfg(not(kani))]
pub fn fail() -> ! {
    std::process::exit(101)
}
#[cfg(not(kani))]
pub fn reached(m: &str) {
    println!("REACHED: {}", m);
}

/// `o.accessor() == expected` for a list of accessors.
#[macro_export]
macro_rules! eqs {
    ($t:literal, $o:expr; $($m:ident = $e:expr),* $(,)?) => {
        $( $crate::ck!($o.$m() == $e, concat!($t, ".", stringify!($m))); )*
    };
}

/// `o.accessor() == (reg bit n is set)` for a list of accessors.
#[macro_export]
macro_rules! flags {
    ($t:literal, $o:expr, $r:expr; $($m:ident : $b:expr),* $(,)?) => {
        $( $crate::ck!($o.$m() == ((($r) >> $b) & 1 == 1), concat!($t, ".", stringify!($m))); )*
    };
}

/// As `flags!`, and only on AMD(-compatible) processors.
#[macro_export]
macro_rules! aflags {
    ($t:literal, $a:expr, $o:expr, $r:expr; $($m:ident : $b:expr),* $(,)?) => {
        $( $crate::ck!($o.$m() == ($a && (($r) >> $b) & 1 == 1), concat!($t, ".", stringify!($m))); )*
    };
}

/// The inclusive bit field hi:lo, independent of the crate's own helper.
#[inline(always)]
pub fn f(r: u32, lo: u32, hi: u32) -> u32 {
    let w = hi - lo + 1;
    if w == 32 {
        r
    } else {
        (r >> lo) % (1u32 << w)
    }
}

/// The getter answers exactly when the leaf is there.
pub fn got<T>(o: Option<T>, want: bool) -> Option<T> {
    ck!(o.is_some() == want, "the leaf is reported iff the processor has it");
    o
}

// ---------------------------------------------------------------- the symbolic processor

pub fn regs(s: &mut Src) -> CpuIdResult {
    let eax = s.u32();
    let ebx = s.u32();
    let ecx = s.u32();
    let edx = s.u32();
    CpuIdResult { eax, ebx, ecx, edx }
}

pub fn req(a: CpuIdResult, b: CpuIdResult) -> bool {
    a.eax == b.eax && a.ebx == b.ebx && a.ecx == b.ecx && a.edx == b.edx
}

/// A processor: leaf 0, leaf 0x8000_0000, `N` further (leaf, sub-leaf) entries, and one value for
/// every other query.
#[derive(Clone, Copy)]
pub struct Cpu<const N: usize> {
    pub l0: CpuIdResult,
    pub l80: CpuIdResult,
    pub keys: [(u32, u32); N],
    pub tab: [CpuIdResult; N],
    pub other: CpuIdResult,
}

impl<const N: usize> CpuIdReader for Cpu<N> {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        if eax == 0 && ecx == 0 {
            return self.l0;
        }
        if eax == 0x8000_0000 && ecx == 0 {
            return self.l80;
        }
        let mut i = 0;
        while i < N {
            if self.keys[i].0 == eax && self.keys[i].1 == ecx {
                return self.tab[i];
            }
            i += 1;
        }
        self.other
    }
}

/// Reads 12 vendor bytes as the manuals lay them out: EBX, EDX, ECX.
const fn vregs(v: &[u8; 12]) -> (u32, u32, u32) {
    (
        u32::from_le_bytes([v[0], v[1], v[2], v[3]]),
        u32::from_le_bytes([v[4], v[5], v[6], v[7]]),
        u32::from_le_bytes([v[8], v[9], v[10], v[11]]),
    )
}
const INTEL: (u32, u32, u32) = vregs(b"GenuineIntel");
const AMD: (u32, u32, u32) = vregs(b"AuthenticAMD");
const HYGON: (u32, u32, u32) = vregs(b"HygonGenuine");

fn is_vendor(l0: CpuIdResult, v: (u32, u32, u32)) -> bool {
    l0.ebx == v.0 && l0.edx == v.1 && l0.ecx == v.2
}
pub fn is_intel(l0: CpuIdResult) -> bool {
    is_vendor(l0, INTEL)
}
/// AMD or AMD-compatible (Hygon).
pub fn is_amd(l0: CpuIdResult) -> bool {
    is_vendor(l0, AMD) || is_vendor(l0, HYGON)
}

pub const ASCII_MASK: u32 = 0x8080_8080;

/// Any leaf 0 whose 12 vendor bytes are ASCII (any of the 2^84 strings, the known ones included).
pub fn any_l0(s: &mut Src) -> CpuIdResult {
    let l0 = regs(s);
    assume!((l0.ebx | l0.ecx | l0.edx) & ASCII_MASK == 0);
    l0
}

impl<const N: usize> Cpu<N> {
    /// Everything symbolic.
    pub fn any(s: &mut Src, keys: [(u32, u32); N]) -> Self {
        let l0 = any_l0(s);
        let l80 = regs(s);
        let other = regs(s);
        let mut tab = [CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }; N];
        let mut i = 0;
        while i < N {
            tab[i] = regs(s);
            i += 1;
        }
        Cpu { l0, l80, keys, tab, other }
    }
    pub fn id(&self) -> CpuId<Self> {
        CpuId::with_cpuid_reader(*self)
    }
    pub fn amd(&self) -> bool {
        is_amd(self.l0)
    }
    pub fn intel(&self) -> bool {
        is_intel(self.l0)
    }
    /// Is `leaf` within the maximum the processor reports?
    pub fn within(&self, leaf: u32) -> bool {
        if leaf < 0x8000_0000 {
            leaf <= self.l0.eax
        } else {
            leaf <= self.l80.eax
        }
    }
}

pub mod debug;
pub mod decode;
pub mod gate;
pub mod iters;
pub mod leaf2;
pub mod misc;
pub mod text;

// ---------------------------------------------------------------- harness registry

/// Stands in for `core::str::from_utf8` in harnesses whose text is assumed ASCII, where the real
/// function always answers `Ok` with the same bytes. The assumption is itself an obligation here.
#[cfg(kani)]
pub fn ascii_from_utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    let mut i = 0;
    while i < v.len() {
        kani::assert(v[i] < 0x80, "STUB: text handed to from_utf8 is ASCII");
        i += 1;
    }
    Ok(unsafe { core::str::from_utf8_unchecked(v) })
}

/// Stands in for `core::str::from_utf8` where the text may be anything: the Unicode standard's
/// definition of well-formed UTF-8.
#[cfg(kani)]
pub fn spec_from_utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    if text::utf8(v) {
        Ok(unsafe { core::str::from_utf8_unchecked(v) })
    } else {
        // any value of the error type will do: callers only see that it is an error
        Err(unsafe { core::mem::zeroed() })
    }
}

/// Stand in for the `str::trim` family where the text is ASCII (each states that as an obligation):
/// the blanks among ASCII characters are U+0009 to U+000D and U+0020.
#[cfg(kani)]
pub fn ascii_trim_start(s: &str) -> &str {
    let v = s.as_bytes();
    let mut i = 0;
    while i < v.len() && text::blank(v[i]) {
        i += 1;
    }
    unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(v.as_ptr().add(i), v.len() - i)) }
}
#[cfg(kani)]
pub fn ascii_trim_end(s: &str) -> &str {
    let v = s.as_bytes();
    let mut n = v.len();
    while n > 0 && text::blank(v[n - 1]) {
        n -= 1;
    }
    unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(v.as_ptr(), n)) }
}
#[cfg(kani)]
pub fn ascii_trim(s: &str) -> &str {
    ascii_trim_start(ascii_trim_end(s))
}

macro_rules! harnesses {
    ($( $name:ident = $body:path, $unwind:literal $(, $kind:ident)? ;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $( harnesses!(@one $name $body, $unwind $(, $kind)?); )*
        }
        #[cfg(not(kani))]
        pub fn run(name: &str, s: &mut Src) -> bool {
            match name {
                $( stringify!($name) => { $body(s); true } )*
                _ => false,
            }
        }
        #[cfg(not(kani))]
        pub const NAMES: &[&str] = &[$( stringify!($name) ),*];
    };
    (@one $name:ident $body:path, $unwind:literal) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(core::str::from_utf8, super::ascii_from_utf8)]
        fn $name() { $body(&mut Src::new()); kani::cover!(true, "harness end"); }
    };
    // any text: UTF-8 validation by the specification
    (@one $name:ident $body:path, $unwind:literal, utf8) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(core::str::from_utf8, super::spec_from_utf8)]
        fn $name() { $body(&mut Src::new()); kani::cover!(true, "harness end"); }
    };
    // text that is cut and trimmed: `str::trim` by its definition over ASCII
    (@one $name:ident $body:path, $unwind:literal, trim) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(core::str::from_utf8, super::ascii_from_utf8)]
        #[kani::stub(str::trim, super::ascii_trim)]
        #[kani::stub(str::trim_start, super::ascii_trim_start)]
        #[kani::stub(str::trim_end, super::ascii_trim_end)]
        fn $name() { $body(&mut Src::new()); kani::cover!(true, "harness end"); }
    };
    (@one $name:ident $body:path, $unwind:literal, utf8trim) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(core::str::from_utf8, super::spec_from_utf8)]
        #[kani::stub(str::trim, super::ascii_trim)]
        #[kani::stub(str::trim_start, super::ascii_trim_start)]
        #[kani::stub(str::trim_end, super::ascii_trim_end)]
        fn $name() { $body(&mut Src::new()); kani::cover!(true, "harness end"); }
    };
    // decided by an SMT solver instead of a SAT solver
    (@one $name:ident $body:path, $unwind:literal, smt) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::solver(z3)]
        #[kani::stub(core::str::from_utf8, super::ascii_from_utf8)]
        fn $name() { $body(&mut Src::new()); kani::cover!(true, "harness end"); }
    };
    // Debug representations: the formatting helpers record what they are given
    (@one $name:ident $body:path, $unwind:literal, debug) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(core::str::from_utf8, super::ascii_from_utf8)]
        #[kani::stub(core::fmt::DebugStruct::field, super::debug::rec::field)]
        #[kani::stub(core::fmt::DebugStruct::finish, super::debug::rec::finish)]
        #[kani::stub(core::fmt::Formatter::debug_struct, super::debug::rec::debug_struct)]
        #[kani::stub(core::fmt::DebugList::entry, super::debug::rec::entry)]
        #[kani::stub(core::fmt::DebugList::finish, super::debug::rec::list_finish)]
        #[kani::stub(core::fmt::Formatter::debug_list, super::debug::rec::debug_list)]
        fn $name() { $body(&mut Src::new()); kani::cover!(true, "harness end"); }
    };
    (@one $name:ident $body:path, $unwind:literal, real) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        fn $name() { $body(&mut Src::new()); kani::cover!(true, "harness end"); }
    };
}

harnesses! {
    leaf1 = decode::leaf1, 14;
    leaf1_flags = decode::leaf1_flags, 14;
    leaf7 = decode::leaf7, 14;
    leaf3 = decode::leaf3, 14;
    leaf5 = decode::leaf5, 14;
    leaf6 = decode::leaf6, 14;
    leaf9_a = decode::leaf9_a, 14;
    leaf_d_info = decode::leaf_d_info, 14;
    leaf_f = decode::leaf_f, 14;
    leaf_10 = decode::leaf_10, 14;
    leaf_12 = decode::leaf_12, 14;
    leaf_14 = decode::leaf_14, 14;
    leaf_15_fields = decode::leaf_15_fields, 14;
    hypervisor = decode::hypervisor, 14;
    ext_features = decode::ext_features, 14;
    l1_cache = decode::l1_cache, 14;
    l2_l3_cache = decode::l2_l3_cache, 14;
    tlb_1gb = decode::tlb_1gb, 14;
    apm = decode::apm, 14;
    capacity = decode::capacity, 14;
    svm = decode::svm, 14;
    amd_perf = decode::amd_perf, 14;
    amd_topo = decode::amd_topo, 14;
    mem_enc = decode::mem_enc, 14;
    pqos = decode::pqos, 14;
    amd_ids2 = decode::amd_ids2, 14;
    gate_basic_a = gate::basic_a, 14;
    gate_basic_b = gate::basic_b, 14;
    gate_ext_a = gate::ext_a, 14;
    gate_ext_b = gate::ext_b, 14;
    gate_conditional = gate::conditional, 14;
    it_cache_intel_2 = iters::cache_intel_2, 14;
    it_cache_amd_2 = iters::cache_amd_2, 14;
    it_cache_intel_5 = iters::cache_intel_5, 14;
    it_cache_amd_5 = iters::cache_amd_5, 14;
    it_topo_b_3 = iters::topo_b_3, 14;
    it_topo_1f_3 = iters::topo_1f_3, 14;
    it_topo_b_7 = iters::topo_b_7, 14;
    it_topo_1f_7 = iters::topo_1f_7, 14;
    it_amd_topo_3 = iters::amd_topo_3, 14;
    it_amd_topo_7 = iters::amd_topo_7, 14;
    it_state_first2 = iters::state_first2, 34;
    it_state_low = iters::state_low, 34;
    it_state_high = iters::state_high, 34;
    it_state_first6 = iters::state_first6, 34;
    it_sgx_3 = iters::sgx_3, 14;
    it_sgx_7 = iters::sgx_7, 14;
    it_dat_3 = iters::dat_3, 14;
    it_dat_6 = iters::dat_6, 14;
    it_soc_ids = iters::soc_ids, 14;
    it_soc_attrs_3 = iters::soc_attrs_3, 14;
    it_soc_attrs_6 = iters::soc_attrs_6, 14;
    long_cache_intel = iters::long_cache_intel, 44;
    long_cache_amd = iters::long_cache_amd, 44;
    long_topo_b = iters::long_topo_b, 44;
    long_topo_1f = iters::long_topo_1f, 44;
    long_amd_topo = iters::long_amd_topo, 44;
    long_sgx = iters::long_sgx, 44;
    long_dat = iters::long_dat, 44;
    long_soc = iters::long_soc, 44;
    far_cache_intel = iters::far_cache_intel, 134;
    far_cache_amd = iters::far_cache_amd, 134;
    far_topo_b = iters::far_topo_b, 134;
    far_topo_1f = iters::far_topo_1f, 134;
    far_amd_topo = iters::far_amd_topo, 134;
    far_sgx = iters::far_sgx, 134;
    far_soc = iters::far_soc, 134;
    vendor_ascii = text::vendor_ascii, 21;
    vendor_utf8_c = text::vendor_utf8_c, 21, real;
    vendor_utf8_all = text::vendor_utf8_all, 21, utf8;
    brand_head = text::brand_head, 50, trim;
    brand_mid = text::brand_mid, 50, trim;
    brand_tail = text::brand_tail, 50, trim;
    brand_utf8 = text::brand_utf8, 50, utf8trim;
    brand_full = text::brand_full, 50, trim;
    brand_plain = text::brand_plain, 50, trim;
    soc_brand = text::soc_brand, 50;
    leaf2_first = leaf2::first, 115;
    leaf2_after_1 = leaf2::after_1, 115;
    leaf2_after_2 = leaf2::after_2, 115;
    leaf2_after_3 = leaf2::after_3, 115;
    leaf2_after_4 = leaf2::after_4, 115;
    leaf2_after_5 = leaf2::after_5, 115;
    leaf2_after_6 = leaf2::after_6, 115;
    leaf2_after_7 = leaf2::after_7, 115;
    leaf2_after_8 = leaf2::after_8, 115;
    leaf2_after_9 = leaf2::after_9, 115;
    leaf2_after_10 = leaf2::after_10, 115;
    leaf2_after_11 = leaf2::after_11, 115;
    leaf2_after_12 = leaf2::after_12, 115;
    leaf2_after_13 = leaf2::after_13, 115;
    leaf2_after_14 = leaf2::after_14, 115;
    leaf2_after_15 = leaf2::after_15, 115;
    leaf2_table = leaf2::table, 115;
    kf_leaf2_c3 = leaf2::c3, 115;
    tsc_value = misc::tsc_value, 14, smt;
    tsc_bounds = misc::tsc_bounds, 14;
    tsc_wide_a = misc::tsc_wide_a, 14;
    tsc_wide_b = misc::tsc_wide_b, 14;
    tsc_any = misc::tsc_any, 14;
    topo_any = iters::topo_any, 14;
    dat_any = iters::dat_any, 14;
    clone_cache = misc::clone_cache, 14;
    clone_topology = misc::clone_topology, 14;
    clone_amd_topology = misc::clone_amd_topology, 14;
    clone_sgx = misc::clone_sgx, 14;
    all_zero = misc::all_zero, 14;
    closure_reader = misc::closure_reader, 14;
    dbg_serial = debug::serial, 66, debug;
    dbg_feature_info = debug::feature_info, 66, debug;
    dbg_cache_parameter = debug::cache_parameter, 66, debug;
    dbg_monitor_mwait = debug::monitor_mwait, 66, debug;
    dbg_thermal_power = debug::thermal_power, 66, debug;
    dbg_extended_features = debug::extended_features, 66, debug;
    dbg_dca_perf = debug::dca_perf, 66, debug;
    dbg_topology_level = debug::topology_level, 66, debug;
    dbg_state_info = debug::state_info, 66, debug;
    dbg_state = debug::state, 66, debug;
    dbg_rdt_mon = debug::rdt_mon, 66, debug;
    dbg_rdt_alloc = debug::rdt_alloc, 66, debug;
    dbg_sgx = debug::sgx, 66, debug;
    dbg_pt_freq = debug::pt_freq, 66, debug;
    dbg_tsc = debug::tsc, 66, debug;
    dbg_dat = debug::dat, 66, debug;
    dbg_soc = debug::soc, 66, debug;
    dbg_hypervisor = debug::hypervisor, 66, debug;
    dbg_ext_ids = debug::ext_ids, 66, debug;
    dbg_capacity = debug::capacity, 66, debug;
    dbg_amd_topology = debug::amd_topology, 66, debug;
    dbg_pqos = debug::pqos, 66, debug;
    dbg_raw_result = debug::raw_result, 66, debug;
    dbg_vendor = debug::vendor, 66, debug;
    dbg_list_cache = debug::list_cache, 16, debug;
    dbg_list_topology = debug::list_topology, 16, debug;
    dbg_list_state = debug::list_state, 40, debug;
    dbg_list_sgx = debug::list_sgx, 16, debug;
    dbg_list_dat = debug::list_dat, 16, debug;
    dbg_whole_intel = debug::whole_intel, 66, debug;
    dbg_whole_amd = debug::whole_amd, 66, debug;
    kf_family = misc::kf_family, 14;
    kf_threads = misc::kf_threads, 14;
    kf_tlb_1gb = misc::kf_tlb_1gb, 14;
}
