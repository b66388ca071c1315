//! The terminal report (`raw_cpuid::display`), read back row by row and line by line.
#![recursion_limit = "1024"]
#![allow(static_mut_refs, dead_code, unused_imports, clippy::all)]
#![cfg_attr(kani, feature(formatting_options, fmt_internals, type_alias_impl_trait))]
extern crate alloc;
use cpuid_harness::*;
pub use cpuid_harness::Src;
use raw_cpuid::*;

#[cfg(kani)]
pub mod fmtstub;
pub mod dump;
pub mod report;

/// How a value is shown.
pub trait Shown {
    fn shown(self) -> String;
}
impl Shown for bool {
    fn shown(self) -> String {
        if self { "✅".to_string() } else { "❌".to_string() }
    }
}
impl Shown for String {
    fn shown(self) -> String {
        self
    }
}
macro_rules! shown {
    ($($t:ty),*) => { $( impl Shown for $t { fn shown(self) -> String { format!("{}", self) } } )* };
}
shown!(u8, u16, u32, u64, u128, usize, Associativity, CacheType, TopologyType, ExtendedRegisterStateLocation, DatType);

pub fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    let mut ok = true;
    // a word at a time
    while i + 8 <= a.len() {
        unsafe {
            ok &= (a.as_ptr().wrapping_add(i) as *const u64).read_unaligned() == (b.as_ptr().wrapping_add(i) as *const u64).read_unaligned();
        }
        i += 8;
    }
    while i < a.len() {
        ok &= a[i] == b[i];
        i += 1;
    }
    ok
}

/// A walk through the recorded report.
pub struct Rep {
    /// the current text, and how many there were so far
    text: *const rec::Text,
    t: usize,
    /// the last row of the texts before, and the row last looked at
    before: *const rec::Row,
    row: *const rec::Row,
}
pub use termimad as rec;
impl Rep {
    /// Does the next line read `want`? Rows are then looked for below it.
    pub fn line(&mut self, want: &str) -> bool {
        unsafe {
            if (*self.text).next.is_null() {
                return false;
            }
            self.text = (*self.text).next;
            let mut r = self.before;
            while !(*r).next.is_null() && (*(*r).next).texts <= self.t {
                r = (*r).next;
            }
            self.before = r;
            self.row = r;
            self.t += 1;
            let ok = same((*self.text).s, want);
            #[cfg(not(kani))]
            if !ok {
                println!("line {:?}, not {:?}", (*self.text).s, want);
            }
            ok
        }
    }
    /// Is the row after `r` in the current section and labelled `want`?
    fn row_at(&self, r: *const rec::Row, want: &[&str]) -> bool {
        unsafe {
            let r = (*r).next;
            if r.is_null() || (*r).texts != self.t || (*r).n != want.len() + 1 {
                return false;
            }
            let mut k = 0;
            while k < want.len() {
                if !same((*r).cell[k], want[k]) {
                    return false;
                }
                k += 1;
            }
        }
        true
    }
    /// Has the current section a row labelled `want`, with `value` as its last cell?
    pub fn row(&mut self, want: &[&str], value: String) -> bool {
        unsafe {
            // most often the next one
            if !self.row_at(self.row, want) {
                let mut r = self.before;
                while !r.is_null() && !self.row_at(r, want) {
                    r = (*r).next;
                }
                if r.is_null() {
                    #[cfg(not(kani))]
                    println!("no row {:?}", want);
                    return false;
                }
                self.row = r;
            }
            self.row = (*self.row).next;
            let shown = (*self.row).cell[want.len()];
            let ok = same(shown, &value);
            #[cfg(not(kani))]
            if !ok {
                println!("row {:?} shows {:?}, not {:?}", want, shown, value);
            }
            ok
        }
    }
    /// Is the current text the last one?
    pub fn done(&self) -> bool {
        unsafe { (*self.text).next.is_null() }
    }
}

/// Has the report drawn, and recorded but for its first `skip` lines.
pub fn report<const N: usize>(c: &Cpu<N>, skip: usize) -> (CpuId<Cpu<N>>, Rep) {
    rec::start(skip);
    raw_cpuid::display::markdown(c.id());
    unsafe { (c.id(), Rep { text: rec::TEXT, t: 0, before: rec::ROW, row: rec::ROW }) }
}

macro_rules! harnesses {
    ($( $name:ident = $body:path, $unwind:literal $(, $from:path => $to:path)? ;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $( harnesses!(@one $name $body, $unwind $(, $from => $to)?); )*
        }
        #[cfg(not(kani))]
        pub fn run(name: &str, s: &mut Src) -> bool {
            match name {
                $( stringify!($name) => { $body(s); true } )*
                _ => false,
            }
        }
    };
    (@one $name:ident $body:path, $unwind:literal $(, $from:path => $to:path)?) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(<u8 as core::fmt::Display>::fmt, fmtstub::d_u8)]
        #[kani::stub(<u16 as core::fmt::Display>::fmt, fmtstub::d_u16)]
        #[kani::stub(<u32 as core::fmt::Display>::fmt, fmtstub::d_u32)]
        #[kani::stub(<u64 as core::fmt::Display>::fmt, fmtstub::d_u64)]
        #[kani::stub(<usize as core::fmt::Display>::fmt, fmtstub::d_usize)]
        #[kani::stub(<u128 as core::fmt::Display>::fmt, fmtstub::d_u128)]
        #[kani::stub(<u8 as core::fmt::LowerHex>::fmt, fmtstub::x_u8)]
        #[kani::stub(<u32 as core::fmt::LowerHex>::fmt, fmtstub::x_u32)]
        #[kani::stub(<usize as core::fmt::LowerHex>::fmt, fmtstub::x_usize)]
        #[kani::stub(<u64 as core::fmt::LowerHex>::fmt, fmtstub::x_u64)]
        #[kani::stub(<i32 as core::fmt::LowerHex>::fmt, fmtstub::x_i32)]
        #[kani::stub(<raw_cpuid::CpuIdResult as core::fmt::Debug>::fmt, fmtstub::d_regs)]
        $( #[kani::stub($from, $to)] )?
        #[kani::stub(<raw_cpuid::Associativity as core::fmt::Display>::fmt, fmtstub::d_assoc)]
        #[kani::stub(<raw_cpuid::ExtendedRegisterStateLocation as core::fmt::Display>::fmt, fmtstub::d_location)]
        #[kani::stub(<u32 as alloc::string::ToString>::to_string, fmtstub::to_string)]
        #[kani::stub(alloc::fmt::format, fmtstub::format)]
        #[kani::stub(alloc::alloc::dealloc_nonnull, fmtstub::dealloc)]
        #[kani::stub(<str as alloc::borrow::ToOwned>::to_owned, fmtstub::to_owned)]
        #[kani::stub(core::fmt::Formatter::write_str, fmtstub::write_str)]
        #[kani::stub(core::fmt::Formatter::pad, fmtstub::pad)]
        #[kani::stub(core::fmt::Formatter::write_fmt, fmtstub::write_fmt)]
        #[kani::stub(<raw_cpuid::HierarchyLevelType as core::fmt::Display>::fmt, fmtstub::d_level)]
        #[kani::stub(core::str::from_utf8, cpuid_harness::ascii_from_utf8)]
        #[kani::stub(str::trim, cpuid_harness::ascii_trim)]
        #[kani::stub(str::trim_start, cpuid_harness::ascii_trim_start)]
        #[kani::stub(str::trim_end, cpuid_harness::ascii_trim_end)]
        fn $name() { $body(&mut Src::new()); kani::cover!(true, "harness end"); }
    };
}

harnesses! {
    raw_dump = dump::raw_dump, 12, core::fmt::Arguments::new => dump::watch::Made::new_arguments;
    raw_dump_long = dump::raw_dump_long, 12, core::fmt::Arguments::new => dump::watch::Made::new_arguments;
    rep_leaf1 = report::leaf1, 500;
    rep_leaf3_5 = report::leaf3_5, 500;
    rep_leaf6_7 = report::leaf6_7, 500;
    rep_leaf9_b = report::leaf9_b, 500;
    rep_leaf_d_a = report::leaf_d_a, 500;
    rep_leaf_d_b = report::leaf_d_b, 500;
    rep_leaf_d_c = report::leaf_d_c, 500;
    rep_leaf_d_d = report::leaf_d_d, 500;
    rep_leaf_f_12 = report::leaf_f_12, 500;
    rep_leaf_14_18 = report::leaf_14_18, 500;
    rep_amd_5_8 = report::amd_5_8, 500;
    rep_amd_a_1e = report::amd_a_1e, 500;
    rep_amd_1f_20_a = report::amd_1f_20_a, 500;
    rep_amd_1f_20_b = report::amd_1f_20_b, 500;
    rep_amd_1f_20_c = report::amd_1f_20_c, 500;
    rep_amd_21_26 = report::amd_21_26, 500;
}
