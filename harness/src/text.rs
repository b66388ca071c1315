//! Identification strings.
use crate::*;

/// Is `b` well-formed UTF-8? Written from the Unicode standard, table 3-7.
pub fn utf8(b: &[u8]) -> bool {
    let n = b.len();
    let mut i = 0;
    while i < n {
        let c = b[i];
        let (len, lo, hi) = if c < 0x80 {
            (1, 0, 0)
        } else if c >= 0xc2 && c <= 0xdf {
            (2, 0x80, 0xbf)
        } else if c == 0xe0 {
            (3, 0xa0, 0xbf)
        } else if (c >= 0xe1 && c <= 0xec) || c == 0xee || c == 0xef {
            (3, 0x80, 0xbf)
        } else if c == 0xed {
            (3, 0x80, 0x9f)
        } else if c == 0xf0 {
            (4, 0x90, 0xbf)
        } else if c >= 0xf1 && c <= 0xf3 {
            (4, 0x80, 0xbf)
        } else if c == 0xf4 {
            (4, 0x80, 0x8f)
        } else {
            return false;
        };
        if i + len > n {
            return false;
        }
        if len > 1 && (b[i + 1] < lo || b[i + 1] > hi) {
            return false;
        }
        if len > 2 && b[i + 2] & 0xc0 != 0x80 {
            return false;
        }
        if len > 3 && b[i + 3] & 0xc0 != 0x80 {
            return false;
        }
        i += len;
    }
    true
}

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// The bytes of EAX, EBX, ECX, EDX, lowest byte first.
fn bytes16(r: CpuIdResult, out: &mut [u8], at: usize) {
    let w = [r.eax, r.ebx, r.ecx, r.edx];
    let mut i = 0;
    while i < 16 {
        out[at + i] = (w[i / 4] >> (8 * (i % 4) as u32)) as u8;
        i += 1;
    }
}

#[derive(Clone, Copy)]
pub struct VendorCpu(CpuIdResult);
impl CpuIdReader for VendorCpu {
    fn cpuid2(&self, eax: u32, _: u32) -> CpuIdResult {
        if eax == 0 {
            self.0
        } else {
            CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }
        }
    }
}

fn vendor_text(r: CpuIdResult, ascii: bool) {
    let o = CpuId::with_cpuid_reader(VendorCpu(r)).get_vendor_info();
    ck!(o.is_some(), "the vendor leaf is always reported");
    if let Some(o) = o {
        let mut b = [0u8; 12];
        let w = [r.ebx, r.edx, r.ecx];
        let mut i = 0;
        while i < 12 {
            b[i] = (w[i / 4] >> (8 * (i % 4) as u32)) as u8;
            i += 1;
        }
        let t = o.as_str().as_bytes();
        if ascii || utf8(&b) {
            ck!(same(t, &b), "vendor: the 12 characters of EBX, EDX, ECX in this order");
            reach!("vendor text");
        } else {
            ck!(same(t, b"InvalidVendorString"), "vendor: placeholder when the bytes are no text");
            reach!("vendor placeholder");
        }
        if ascii {
            ck!(same(o.as_string().as_bytes(), &b), "vendor: as_string is as_str");
        }
    }
}
/// Every ASCII vendor string.
pub fn vendor_ascii(s: &mut Src) {
    vendor_text(any_l0(s), true)
}
/// Any bytes in ECX.
pub fn vendor_utf8_c(s: &mut Src) {
    let (a, x) = (s.u32(), s.u32());
    vendor_text(CpuIdResult { eax: a, ebx: 0x756e6547, edx: 0x49656e69, ecx: x }, false)
}
/// Any 12 bytes.
pub fn vendor_utf8_all(s: &mut Src) {
    vendor_text(regs(s), false)
}

// ------------------------------------------------------------------ brand strings

/// Answers the three registers sets of a 48 byte string, and everything else with constants.
#[derive(Clone, Copy)]
pub struct TextCpu {
    leaf: [(u32, u32); 3],
    t: [CpuIdResult; 3],
    other: CpuIdResult,
}
impl CpuIdReader for TextCpu {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        if eax == 0 {
            CpuIdResult { eax: 0x20, ebx: 0x756e6547, edx: 0x49656e69, ecx: 0x6c65746e }
        } else if eax == 0x8000_0000 {
            CpuIdResult { eax: 0x8000_0026, ebx: 0, ecx: 0, edx: 0 }
        } else if (eax, ecx) == self.leaf[0] {
            self.t[0]
        } else if (eax, ecx) == self.leaf[1] {
            self.t[1]
        } else if (eax, ecx) == self.leaf[2] {
            self.t[2]
        } else {
            self.other
        }
    }
}

const BRAND: [(u32, u32); 3] = [(0x8000_0002, 0), (0x8000_0003, 0), (0x8000_0004, 0)];
const SOC: [(u32, u32); 3] = [(0x17, 1), (0x17, 2), (0x17, 3)];

pub fn blank(c: u8) -> bool {
    c == b' ' || (c >= 9 && c <= 13)
}

/// 48 bytes: `x` at `at..at + K`, and text around it.
fn around<const K: usize>(x: [u8; K], at: usize) -> [u8; 48] {
    let mut b = [0u8; 48];
    let mut i = 0;
    while i < 48 {
        b[i] = b'A' + (i % 26) as u8;
        i += 1;
    }
    i = 0;
    while i < K {
        b[at + i] = x[i];
        i += 1;
    }
    b
}
fn words(b: &[u8; 48]) -> [CpuIdResult; 3] {
    let mut w = [0u32; 12];
    let mut i = 0;
    while i < 12 {
        w[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        i += 1;
    }
    [
        CpuIdResult { eax: w[0], ebx: w[1], ecx: w[2], edx: w[3] },
        CpuIdResult { eax: w[4], ebx: w[5], ecx: w[6], edx: w[7] },
        CpuIdResult { eax: w[8], ebx: w[9], ecx: w[10], edx: w[11] },
    ]
}

fn brand_is(b: &[u8; 48]) {
    let c = TextCpu { leaf: BRAND, t: words(b), other: CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 } };
    let o = CpuId::with_cpuid_reader(c).get_processor_brand_string();
    ck!(o.is_some(), "brand string is reported");
    if let Some(o) = o {
        let t = o.as_str().as_bytes();
        let mut end = 0;
        while end < 48 && b[end] != 0 {
            end += 1;
        }
        let mut start = 0;
        while start < end && blank(b[start]) {
            start += 1;
        }
        while end > start && blank(b[end - 1]) {
            end -= 1;
        }
        ck!(t.len() == end - start, "brand: the text up to the first NUL, without the blanks around it (length)");
        let mut i = 0;
        while i < t.len() {
            ck!(t[i] == b[start + i], "brand: the text up to the first NUL, without the blanks around it");
            i += 1;
        }
        reach!(start > 0, "brand with leading blanks");
        reach!(end < 48, "brand ended early");
    }
}
fn bytes<const K: usize>(s: &mut Src) -> [u8; K] {
    let mut x = [0u8; K];
    let mut i = 0;
    while i < K {
        x[i] = s.u8();
        assume!(x[i] < 0x80);
        i += 1;
    }
    x
}
/// Every ASCII brand string: any characters, NULs and blanks anywhere.
pub fn brand_full(s: &mut Src) {
    let x: [u8; 48] = bytes(s);
    brand_is(&x)
}
pub fn brand_head(s: &mut Src) {
    let x: [u8; 6] = bytes(s);
    brand_is(&around(x, 0))
}
pub fn brand_tail(s: &mut Src) {
    let x: [u8; 6] = bytes(s);
    brand_is(&around(x, 42))
}
pub fn brand_mid(s: &mut Src) {
    let x: [u8; 6] = bytes(s);
    brand_is(&around(x, 13))
}
/// Any three bytes, ASCII or not; the string ends after them.
pub fn brand_utf8(s: &mut Src) {
    let x = [s.u8(), s.u8(), s.u8()];
    let mut b = [0u8; 48];
    let mut i = 0;
    while i < 3 {
        b[i] = b'A';
        // no NUL and no blank, ASCII or not: those are decided by the other harnesses
        assume!(x[i] > b' ');
        b[i + 3] = x[i];
        i += 1;
    }
    b[6] = b'A';
    let c = TextCpu { leaf: BRAND, t: words(&b), other: CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 } };
    if let Some(o) = CpuId::with_cpuid_reader(c).get_processor_brand_string() {
        let t = o.as_str().as_bytes();
        if utf8(&b[..7]) {
            ck!(same(t, &b[..7]), "brand: well-formed text as it is");
            reach!(x[0] >= 0x80, "brand with non-ASCII text");
        } else {
            ck!(same(t, b"Invalid Processor Brand String"), "brand: placeholder when the bytes are no text");
            reach!("brand placeholder");
        }
    }
}

/// All 48 characters symbolic: every byte of the text is the right byte of the right register.
pub fn brand_plain(s: &mut Src) {
    let t = [regs(s), regs(s), regs(s)];
    let mut b = [0u8; 48];
    bytes16(t[0], &mut b, 0);
    bytes16(t[1], &mut b, 16);
    bytes16(t[2], &mut b, 32);
    let mut i = 0;
    while i < 48 {
        assume!(b[i] > b' ' && b[i] < 0x7f);
        i += 1;
    }
    let c = TextCpu { leaf: BRAND, t, other: CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 } };
    if let Some(o) = CpuId::with_cpuid_reader(c).get_processor_brand_string() {
        let x = o.as_str().as_bytes();
        ck!(x.len() == 48, "brand: all 48 characters when there is no NUL and no blank");
        let mut i = 0;
        while i < x.len() {
            ck!(x[i] == b[i], "brand: characters in register order");
            i += 1;
        }
        reach!("48 character brand");
    }
}

/// The SoC brand: all 48 bytes as they are.
pub fn soc_brand(s: &mut Src) {
    let t = [regs(s), regs(s), regs(s)];
    let mut b = [0u8; 48];
    bytes16(t[0], &mut b, 0);
    bytes16(t[1], &mut b, 16);
    bytes16(t[2], &mut b, 32);
    let mut i = 0;
    while i < 48 {
        assume!(b[i] < 0x80);
        i += 1;
    }
    let c = TextCpu { leaf: SOC, t, other: CpuIdResult { eax: 3, ebx: 0, ecx: 0, edx: 0 } };
    let o = CpuId::with_cpuid_reader(c).get_soc_vendor_info();
    ck!(o.is_some(), "SoC leaf is reported");
    if let Some(Some(o)) = o.map(|x| x.get_vendor_brand()) {
        ck!(same(o.as_str().as_bytes(), &b), "SoC brand: the 48 characters of sub-leafs 1 to 3");
        ck!(same(o.as_string().as_bytes(), &b), "SoC brand: as_string is as_str");
        reach!("SoC brand");
    } else {
        ck!(false, "SoC brand is reported");
    }
}
