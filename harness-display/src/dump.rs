//! The raw dump, read line by line: the walk expects the line of the next leaf each time.
use crate::*;

/// The leafs still to come: the next one, its range, and the last leafs of the ranges.
#[derive(Clone, Copy)]
struct Walk {
    cur: u32,
    range: usize,
    last: [u32; 3],
}
const FIRST: [u32; 3] = [0, 0x4000_0000, 0x8000_0000];
const END: usize = 3;

impl Walk {
    fn new(last: [u32; 3]) -> Self {
        Walk { cur: 0, range: 0, last }
    }
    fn done(&self) -> bool {
        self.range == END
    }
    fn advance(&mut self) {
        if self.done() {
            return;
        }
        if self.cur < self.last[self.range] {
            self.cur += 1;
            return;
        }
        self.range += 1;
        // a range without leafs is passed over
        while self.range < END && self.last[self.range] < FIRST[self.range] {
            self.range += 1;
        }
        if self.range < END {
            self.cur = FIRST[self.range];
        }
    }
    fn expected(&self, c: &dyn Fn(u32) -> CpuIdResult) -> String {
        let cur = self.cur;
        format!("({:#x}, {:#x}) => {:?}", cur, 0x0, c(cur))
    }
}

#[cfg(kani)]
pub mod watch {
    //! Kani has `println!` make its `Arguments` and print nothing: every `Arguments` that is made and
    //! not turned into a string is taken for a printed line.
    use super::*;
    use core::fmt::Arguments;

    static mut ON: bool = false;
    static mut WALK: Walk = Walk { cur: 0, range: 0, last: [0; 3] };
    static mut READ: Option<unsafe fn(*const (), u32) -> CpuIdResult> = None;
    static mut CPU: *const () = core::ptr::null();
    static mut PENDING: bool = false;
    static mut PENDING_OK: bool = false;

    unsafe fn read<R: CpuIdReader>(c: *const (), leaf: u32) -> CpuIdResult {
        (*(c as *const R)).cpuid2(leaf, 0)
    }
    fn commit() {
        unsafe {
            if PENDING {
                PENDING = false;
                ck!(!WALK.done(), "no line but those of the leafs");
                ck!(PENDING_OK, "each leaf's line in order");
                WALK.advance();
            }
        }
    }
    // the standard library's type of an argument has no name here
    type Arg<'a> = impl Sized;
    #[define_opaque(Arg)]
    fn arg<'a>(t: &'a [u8; 1], a: &'a [Arg<'a>; 1]) -> Arguments<'a> {
        unsafe { Arguments::new(t, a) }
    }
    pub struct Made<'a>(&'a ());
    impl<'a> Made<'a> {
    pub unsafe fn new_arguments<const N: usize, const M: usize>(
        template: &'a [u8; N],
        args: &'a [Arg<'a>; M],
    ) -> Arguments<'a> {
        let make = || -> Arguments<'a> { core::mem::transmute((template as *const u8, args as *const _ as *const u8)) };
        if ON {
            ON = false;
            commit();
            let got = fmtstub::text_of(make());
            let want = fmtstub::text_of_line(WALK.cur, READ.unwrap()(CPU, WALK.cur));
            PENDING = true;
            PENDING_OK = same(&got, &want) || (got.len() == want.len() + 1 && got.as_bytes()[want.len()] == b'\n' && same(&got[..want.len()], &want));
            ON = true;
        }
        make()
    }
    }
    /// The last `Arguments` became a string: nothing was printed.
    pub fn withdrawn() {
        unsafe { PENDING = false }
    }
    pub fn dumped<R: CpuIdReader + Copy>(c: &R, last: [u32; 3]) {
        unsafe {
            WALK = Walk::new(last);
            READ = Some(read::<R>);
            CPU = c as *const R as *const ();
            ON = true;
            raw_cpuid::display::raw(*c);
            ON = false;
            commit();
            ck!(WALK.done(), "every leaf has its line");
        }
    }
}

#[cfg(not(kani))]
fn dumped<R: CpuIdReader + Copy>(c: &R, last: [u32; 3]) {
    let text = captured(|| raw_cpuid::display::raw(*c));
    let mut w = Walk::new(last);
    for l in text.lines() {
        ck!(!w.done(), "no line but those of the leafs");
        let want = w.expected(&|leaf| c.cpuid2(leaf, 0));
        if l != want {
            println!("line {:?}, not {:?}", l, want);
        }
        ck!(l == want, "each leaf's line in order");
        w.advance();
    }
    ck!(w.done(), "every leaf has its line");
}

/// What `f` prints. Its standard output goes to a file of limited size for the while.
#[cfg(not(kani))]
fn captured(f: impl FnOnce()) -> String {
    use std::io::{Read, Seek, Write};
    use std::os::fd::AsRawFd;
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(fd: i32) -> i32;
        fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    }
    let path = std::env::temp_dir().join(format!("cpuid-dump-{}", std::process::id()));
    let mut file = std::fs::OpenOptions::new().read(true).write(true).create_new(true).open(&path).unwrap();
    std::fs::remove_file(&path).unwrap();
    let mut text = String::new();
    unsafe {
        // RLIMIT_FSIZE: a dump without end is killed
        setrlimit(1, &[1 << 20, 1 << 20]);
        std::io::stdout().flush().unwrap();
        let old = dup(1);
        dup2(file.as_raw_fd(), 1);
        f();
        std::io::stdout().flush().unwrap();
        dup2(old, 1);
        close(old);
    }
    file.rewind().unwrap();
    file.read_to_string(&mut text).unwrap();
    text
}

const KEYS: [(u32, u32); 8] = [
    (1, 0), (2, 0), (3, 0),
    (0x4000_0000, 0), (0x4000_0001, 0), (0x4000_0002, 0),
    (0x8000_0001, 0), (0x8000_0002, 0),
];
fn dump(s: &mut Src) {
    let most = [3, 2, 2];
    let mut c = Cpu { l0: regs(s), l80: regs(s), keys: KEYS, tab: [report::ZERO; 8], other: regs(s) };
    let mut i = 0;
    while i < 8 {
        c.tab[i] = regs(s);
        i += 1;
    }
    let last = [c.l0.eax, c.tab[3].eax, c.l80.eax];
    let mut i = 0;
    while i < 3 {
        // a maximum below the first leaf of its range: the range is missing
        assume!(last[i] <= FIRST[i] + most[i]);
        i += 1;
    }
    #[cfg(kani)]
    watch::dumped(&c, last);
    #[cfg(not(kani))]
    dumped(&c, last);
}
pub fn raw_dump(s: &mut Src) {
    dump(s)
}
/// A processor with many leafs, no two alike.
#[derive(Clone, Copy)]
struct Long {
    last: [u32; 3],
    seed: CpuIdResult,
}
impl CpuIdReader for Long {
    fn cpuid2(&self, eax: u32, ecx: u32) -> CpuIdResult {
        let x = self.seed;
        let first = match eax {
            0 => self.last[0],
            0x4000_0000 => self.last[1],
            0x8000_0000 => self.last[2],
            _ => x.eax ^ eax,
        };
        CpuIdResult { eax: first, ebx: x.ebx ^ eax, ecx: x.ecx ^ ecx, edx: x.edx }
    }
}
pub fn raw_dump_long(s: &mut Src) {
    let c = Long { last: [s.u32(), s.u32(), s.u32()], seed: regs(s) };
    assume!(c.last[0] <= 8 && c.last[1] <= 0x4000_0004 && c.last[2] <= 0x8000_0008);
    #[cfg(kani)]
    watch::dumped(&c, c.last);
    #[cfg(not(kani))]
    dumped(&c, c.last);
}
