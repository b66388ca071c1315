//! Leaf 2: descriptor bytes. The list of descriptors is the one of the Intel SDM (table 3-12).
use crate::*;

/// 0 unknown or null, 1 General, 2 Cache, 3 TLB, 4 STLB, 5 DTLB, 6 Prefetch,
/// 7 a data or instruction TLB that older manuals file under caches, 8 TLB or General.
pub const KIND: [u8; 256] = {
    let mut k = [0u8; 256];
    let cache: [u8; 65] = [
        0x06, 0x08, 0x09, 0x0a, 0x0c, 0x0d, 0x0e, 0x1d, 0x21, 0x22, 0x23, 0x24, 0x25, 0x29, 0x2c, 0x30, 0x40, 0x41,
        0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x60, 0x66, 0x67, 0x68, 0x70,
        0x71, 0x72, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x7f, 0x80, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0xd0, 0xd1,
        0xd2, 0xd6, 0xd7, 0xd8, 0xdc, 0xdd, 0xde, 0xe2, 0xe3, 0xe4, 0xea,
    ];
    let mut i = 0;
    while i < cache.len() {
        k[cache[i] as usize] = 2;
        i += 1;
    }
    k[0xeb] = 2;
    k[0xec] = 2;
    let tlb: [u8; 31] = [
        0x01, 0x02, 0x03, 0x04, 0x05, 0x0b, 0x4f, 0x50, 0x51, 0x52, 0x55, 0x56, 0x57, 0x59, 0x5a, 0x5b, 0x5c, 0x5d,
        0x61, 0x63, 0x64, 0x76, 0xb0, 0xb1, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xba, 0xc0,
    ];
    i = 0;
    while i < tlb.len() {
        k[tlb[i] as usize] = 3;
        i += 1;
    }
    k[0xc1] = 4;
    k[0xc3] = 4;
    k[0xca] = 4;
    k[0xa0] = 5;
    k[0xc2] = 5;
    k[0xc4] = 5;
    k[0xf0] = 6;
    k[0xf1] = 6;
    k[0x6a] = 7;
    k[0x6b] = 7;
    k[0x6c] = 7;
    k[0x6d] = 7;
    k[0xfe] = 8;
    k[0xff] = 1;
    k
};

fn kind_ok(n: u8, t: &CacheInfoType) -> bool {
    match (KIND[n as usize], t) {
        (1, CacheInfoType::General)
        | (2, CacheInfoType::Cache)
        | (3, CacheInfoType::TLB)
        | (4, CacheInfoType::STLB)
        | (5, CacheInfoType::DTLB)
        | (6, CacheInfoType::Prefetch)
        | (7, CacheInfoType::Cache)
        | (7, CacheInfoType::TLB)
        | (7, CacheInfoType::DTLB)
        | (8, CacheInfoType::General)
        | (8, CacheInfoType::TLB) => true,
        _ => false,
    }
}

#[derive(Clone, Copy)]
pub struct L2Cpu {
    max: u32,
    r: CpuIdResult,
}
impl CpuIdReader for L2Cpu {
    fn cpuid2(&self, eax: u32, _: u32) -> CpuIdResult {
        if eax == 0 {
            CpuIdResult { eax: self.max, ebx: 0x756e6547, edx: 0x49656e69, ecx: 0x6c65746e }
        } else if eax == 2 {
            self.r
        } else {
            CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0 }
        }
    }
}

/// Position p (1..16) is byte p / 4 of register p % 4 (EAX, EBX, ECX, EDX); position 0 is the
/// iteration count in AL and no descriptor.
fn byte(r: CpuIdResult, p: usize) -> u8 {
    let w = [r.eax, r.ebx, r.ecx, r.edx];
    (w[p % 4] >> (8 * (p / 4) as u32)) as u8
}
/// Does position p hold a descriptor the manual defines?
fn live(r: CpuIdResult, p: usize) -> bool {
    let w = [r.eax, r.ebx, r.ecx, r.edx];
    w[p % 4] < 0x8000_0000 && KIND[byte(r, p) as usize] != 0
}
fn list(r: CpuIdResult) -> CacheInfoIter {
    match CpuId::with_cpuid_reader(L2Cpu { max: 2, r }).get_cache_info() {
        Some(i) => i,
        None => {
            ck!(false, "leaf 2 is reported");
            loop {}
        }
    }
}
fn ck_item(r: CpuIdResult, p: usize, got: &Option<CacheInfo>) {
    ck!(got.is_some(), "leaf2: every descriptor of a valid register is reported");
    if let Some(x) = got {
        ck!(x.num == byte(r, p), "leaf2: descriptors come in register order, byte by byte");
        ck!(kind_ok(x.num, &x.typ), "leaf2: descriptor kind");
    }
}
/// C3 is a known finding: see leaf2_c3.
fn no_c3(r: CpuIdResult) -> bool {
    let mut p = 1;
    let mut ok = true;
    while p < 16 {
        ok = ok && byte(r, p) != 0xc3;
        p += 1;
    }
    ok
}

/// The first item of any register contents.
pub fn first(s: &mut Src) {
    let r = regs(s);
    assume!(no_c3(r));
    let got = list(r).next();
    let mut p = 1;
    while p < 16 {
        if live(r, p) {
            ck_item(r, p, &got);
            reach!(p > 8, "leaf2: first descriptor in an upper byte");
            return;
        }
        p += 1;
    }
    ck!(got.is_none(), "leaf2: no item when there is no descriptor");
    reach!("leaf2: no descriptor");
}

/// The item that follows a descriptor at position `at`, whatever the bytes behind it.
fn after(s: &mut Src, at: usize) {
    // bytes in front of `at` are null, the byte at `at` is descriptor 01
    let w = regs(s);
    let keep = |reg: u32| -> u32 {
        let mut m = 0u32;
        let mut b = 0;
        while b < 4 {
            if b * 4 + reg > at as u32 {
                m |= 0xff << (8 * b);
            }
            b += 1;
        }
        m
    };
    let put = |reg: u32| -> u32 {
        if reg == at as u32 % 4 {
            1 << (8 * (at as u32 / 4))
        } else {
            0
        }
    };
    let r = CpuIdResult {
        eax: w.eax & keep(0) | put(0),
        ebx: w.ebx & keep(1) | put(1),
        ecx: w.ecx & keep(2) | put(2),
        edx: w.edx & keep(3) | put(3),
    };
    assume!(no_c3(r));
    assume!(live(r, at));
    let mut it = list(r);
    let a = it.next();
    ck_item(r, at, &a);
    let got = it.next();
    let mut p = at + 1;
    while p < 16 {
        if live(r, p) {
            ck_item(r, p, &got);
            reach!("leaf2: a second descriptor");
            return;
        }
        p += 1;
    }
    ck!(got.is_none(), "leaf2: ends after the last descriptor");
    ck!(it.next().is_none(), "leaf2: stays ended");
    reach!("leaf2: end of list");
}
macro_rules! afters { ($($n:ident $p:literal),*) => { $( pub fn $n(s: &mut Src) { after(s, $p) } )* } }
afters!(after_1 1, after_2 2, after_3 3, after_4 4, after_5 5, after_6 6, after_7 7, after_8 8, after_9 9,
    after_10 10, after_11 11, after_12 12, after_13 13, after_14 14, after_15 15);

/// Known finding: descriptor C3 (documented by `desc`) is not in the table.
pub fn c3(s: &mut Src) {
    let w = regs(s);
    let r = CpuIdResult { eax: 0, ebx: 0, ecx: 0, edx: 0xc3 | w.edx & 0x7f00_0000 };
    let got = list(r).next();
    ck_item(r, 3, &got);
}

/// The table lists each descriptor once, with its manual's kind, and `desc` knows it.
pub fn table(s: &mut Src) {
    let i = s.u8() as usize;
    assume!(i < CACHE_INFO_TABLE.len());
    let e = CACHE_INFO_TABLE[i];
    if e.num != 0 {
        ck!(kind_ok(e.num, &e.typ), "leaf2 table: descriptor kind");
    }
    let d = e.desc().as_bytes();
    let u = b"Unknown cache type!";
    ck!(d.len() > 0 && !(d.len() == u.len() && d[0] == u[0]), "leaf2 table: every entry has a description");
    reach!("table entry");
}
