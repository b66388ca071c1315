//! Formatting under analysis. The standard library writes through `dyn Write`, which the symbolic
//! executor cannot follow; these stand-ins interpret the compiled format string themselves and put
//! numbers down in a fixed-length encoding that is injective in the number, so that two texts are
//! the same exactly when their encodings are. Nothing of the crate under test is replaced except the
//! `Display` texts of its enumerations (encoded likewise; the texts themselves are decided by C29).
use core::fmt::*;

pub const CAP: usize = 160;
/// Where the text being put together goes, and its length so far.
static mut TO: *mut u8 = core::ptr::null_mut();
static mut LEN: usize = 0;
/// Options of the placeholder being filled in.
static mut FLAGS: u32 = 0;
static mut WIDTH: u16 = 0;

struct Nowhere;
impl Write for Nowhere {
    fn write_str(&mut self, _s: &str) -> Result {
        Ok(())
    }
}

unsafe fn bytes(p: *const u8, n: usize) {
    core::ptr::copy_nonoverlapping(p, TO.wrapping_add(LEN), n);
    LEN += n;
}
pub fn put(s: &str) {
    unsafe { bytes(s.as_ptr(), s.len()) }
}
fn byte(b: u8) {
    unsafe {
        *TO.wrapping_add(LEN) = b;
        LEN += 1;
    }
}
fn enc(v: u64) -> Result {
    let b = v.to_le_bytes();
    unsafe { bytes(b.as_ptr(), 8) };
    Ok(())
}

// methods of Formatter
pub fn write_str<'a: 'a>(_f: &mut Formatter<'a>, s: &str) -> Result {
    put(s);
    Ok(())
}
pub fn pad<'a: 'a>(_f: &mut Formatter<'a>, s: &str) -> Result {
    put(s);
    Ok(())
}
pub fn write_fmt<'a: 'a>(_f: &mut Formatter<'a>, a: Arguments<'_>) -> Result {
    crate::dump::watch::withdrawn();
    inner(a);
    Ok(())
}

// the layout of core::fmt::Arguments in this toolchain
#[derive(Clone, Copy)]
struct Raw {
    template: *const u8,
    args: *const Arg,
}
#[derive(Clone, Copy)]
enum ArgType {
    Placeholder { value: core::ptr::NonNull<()>, formatter: unsafe fn(core::ptr::NonNull<()>, &mut Formatter<'_>) -> Result },
    #[allow(dead_code)]
    Count(u16),
}
#[repr(align(2))]
#[derive(Clone, Copy)]
struct Arg {
    ty: ArgType,
}

fn inner(a: Arguments<'_>) {
    let raw: Raw = unsafe { core::mem::transmute(a) };
    kani::assert(raw.args as usize & 1 == 0, "STUB: format strings have placeholders");
    let t = |k: usize| unsafe { *raw.template.wrapping_add(k) };
    let t2 = |k: usize| t(k) as u32 | (t(k + 1) as u32) << 8;
    let mut k = 0;
    let mut i = 0;
    let mut sink = Nowhere;
    loop {
        let n = t(k);
        k += 1;
        if n == 0 {
            break;
        }
        if n < 0x80 {
            unsafe { bytes(raw.template.wrapping_add(k), n as usize) };
            k += n as usize;
            continue;
        }
        kani::assert(n >= 0xC0 && n & 0x30 == 0, "STUB: format strings are short and widths literal");
        let (mut flags, mut width) = (b' ' as u32, 0);
        if n & 1 != 0 {
            flags = t2(k) | t2(k + 2) << 16;
            k += 4;
        }
        if n & 2 != 0 {
            width = t2(k) as u16;
            k += 2;
        }
        if n & 4 != 0 {
            k += 2;
        }
        if n & 8 != 0 {
            i = t2(k) as usize;
            k += 2;
        }
        let mut f = Formatter::new(&mut sink, FormattingOptions::new());
        if let ArgType::Placeholder { value, formatter } = unsafe { *raw.args.wrapping_add(i) }.ty {
            unsafe {
                let old = (FLAGS, WIDTH);
                FLAGS = flags;
                WIDTH = width;
                let _ = formatter(value, &mut f);
                FLAGS = old.0;
                WIDTH = old.1;
            }
        }
        i += 1;
    }
}

/// A string that owns nothing.
unsafe fn loan(p: *const u8, n: usize) -> String {
    String::from_utf8_unchecked(Vec::from_raw_parts(p as *mut u8, n, 0))
}
/// Runs `f` with a text of its own to write to.
fn own(f: impl FnOnce()) -> String {
    unsafe {
        let old = (TO, LEN);
        TO = alloc::alloc::alloc(core::alloc::Layout::new::<[u8; CAP]>());
        LEN = 0;
        f();
        let r = loan(TO, LEN);
        TO = old.0;
        LEN = old.1;
        r
    }
}
/// What printing `a` shows.
pub fn text_of(a: Arguments<'_>) -> String {
    own(|| inner(a))
}
/// The line of the raw dump for a leaf.
pub fn text_of_line(leaf: u32, r: raw_cpuid::CpuIdResult) -> String {
    own(|| {
        put("(0x");
        let _ = enc(leaf as u64);
        put(", 0x");
        let _ = enc(0);
        put(") => ");
        regs(&r);
    })
}
fn regs(r: &raw_cpuid::CpuIdResult) {
    let _ = (enc(r.eax as u64), enc(r.ebx as u64), enc(r.ecx as u64), enc(r.edx as u64));
}
pub fn d_regs(r: &raw_cpuid::CpuIdResult, _f: &mut Formatter<'_>) -> Result {
    regs(r);
    Ok(())
}
pub fn format(a: Arguments<'_>) -> String {
    crate::dump::watch::withdrawn();
    if termimad::skipping() {
        return String::new();
    }
    own(|| inner(a))
}
pub fn to_string<T: Display + ?Sized>(x: &T) -> String {
    if termimad::skipping() {
        return String::new();
    }
    own(|| {
        let mut sink = Nowhere;
        let mut f = Formatter::new(&mut sink, FormattingOptions::new());
        let _ = Display::fmt(x, &mut f);
    })
}
pub fn to_owned(s: &str) -> String {
    unsafe { loan(s.as_ptr(), s.len()) }
}

// numbers
pub fn d_u8(x: &u8, _f: &mut Formatter<'_>) -> Result {
    enc(*x as u64)
}
pub fn d_u16(x: &u16, _f: &mut Formatter<'_>) -> Result {
    enc(*x as u64)
}
pub fn d_u32(x: &u32, _f: &mut Formatter<'_>) -> Result {
    enc(*x as u64)
}
pub fn d_u64(x: &u64, _f: &mut Formatter<'_>) -> Result {
    enc(*x)
}
pub fn d_usize(x: &usize, _f: &mut Formatter<'_>) -> Result {
    enc(*x as u64)
}
pub fn d_u128(x: &u128, _f: &mut Formatter<'_>) -> Result {
    enc(*x as u64)?;
    enc((*x >> 64) as u64)
}
const ALTERNATE: u32 = 1 << 23;
const ZERO_PAD: u32 = 1 << 24;
fn hex(x: u64, digits: u16) -> Result {
    let (flags, width) = unsafe { (FLAGS, WIDTH) };
    let zeros = flags & ZERO_PAD != 0 || (flags & 0x1f_ffff == b'0' as u32 && flags >> 29 & 1 == 1);
    if zeros && flags & ALTERNATE == 0 && width == digits {
        // all digits, whatever the value
        let mut i = digits;
        while i > 0 {
            i -= 1;
            let d = (x >> (4 * i)) as u8 & 15;
            byte(if d < 10 { b'0' + d } else { b'a' + d - 10 });
        }
        return Ok(());
    }
    if flags & ALTERNATE != 0 && width == 0 {
        byte(b'0');
        byte(b'x');
    } else {
        // any other form: the options are part of the encoding
        enc((flags as u64) << 16 | width as u64)?;
    }
    enc(x)
}
pub fn x_u8(x: &u8, _f: &mut Formatter<'_>) -> Result {
    hex(*x as u64, 2)
}
pub fn x_i32(x: &i32, _f: &mut Formatter<'_>) -> Result {
    hex(*x as u32 as u64, 8)
}
pub fn x_u64(x: &u64, _f: &mut Formatter<'_>) -> Result {
    hex(*x, 16)
}
pub fn x_u32(x: &u32, _f: &mut Formatter<'_>) -> Result {
    hex(*x as u64, 8)
}
pub fn x_usize(x: &usize, _f: &mut Formatter<'_>) -> Result {
    hex(*x as u64, 16)
}

// enumerations of the crate
use raw_cpuid as rc;
pub fn d_assoc(x: &rc::Associativity, _f: &mut Formatter<'_>) -> Result {
    use rc::Associativity::*;
    enc(match x {
        Unknown => 1000,
        Disabled => 1001,
        DirectMapped => 1002,
        NWay(n) => *n as u64,
        FullyAssociative => 1003,
    })
}
pub fn d_location(x: &rc::ExtendedRegisterStateLocation, _f: &mut Formatter<'_>) -> Result {
    use rc::ExtendedRegisterStateLocation::*;
    enc(match x {
        Xcr0 => 1000,
        Ia32Xss => 1001,
    })
}
pub fn d_level(x: &rc::HierarchyLevelType, _f: &mut Formatter<'_>) -> Result {
    use rc::HierarchyLevelType::*;
    enc(match x {
        Reserved => 1000,
        Core => 1001,
        Complex => 1002,
        Die => 1003,
        Socket => 1004,
        Unknown(n) => *n as u64,
    })
}

/// What the report built stays: the recorder refers to it.
pub unsafe fn dealloc(_ptr: core::ptr::NonNull<u8>, _layout: core::alloc::Layout) {}
