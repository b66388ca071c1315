//! Stands in for the terminal markdown renderer: instead of drawing, it records the texts and the
//! table cells it is given, in order. Only what a template shows (`${key}`) is recorded.
#![allow(static_mut_refs)]

/// The cells of one table row, and how many texts came before it.
pub struct Row {
    pub texts: usize,
    pub n: usize,
    pub cell: [&'static str; MAXC],
    pub next: *mut Row,
}
pub struct Text {
    pub s: &'static str,
    pub next: *mut Text,
}
pub const MAXC: usize = 3;

// both lists begin with an empty node
pub static mut TEXT: *mut Text = std::ptr::null_mut();
pub static mut ROW: *mut Row = std::ptr::null_mut();
static mut LAST_TEXT: *mut Text = std::ptr::null_mut();
static mut LAST_ROW: *mut Row = std::ptr::null_mut();
pub static mut TEXTS: usize = 0;
static mut SKIP: usize = 0;

/// Keeps a copy: what is recorded outlives the report.
#[cfg(kani)]
fn keep(s: &str) -> &'static str {
    // strings under analysis are never freed
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(s.as_ptr(), s.len())) }
}
#[cfg(not(kani))]
fn keep(s: &str) -> &'static str {
    let v: Vec<u8> = s.as_bytes().to_vec();
    let v: &'static [u8] = Box::leak(v.into_boxed_slice());
    unsafe { std::str::from_utf8_unchecked(v) }
}
/// Forgets what was recorded, and leaves out the first `skip` texts and what comes with them from now on.
pub fn start(skip: usize) {
    unsafe {
        SKIP = skip;
        TEXTS = 0;
        TEXT = Box::leak(Box::new(Text { s: "", next: std::ptr::null_mut() }));
        ROW = Box::leak(Box::new(Row { texts: 0, n: 0, cell: [""; MAXC], next: std::ptr::null_mut() }));
        LAST_TEXT = TEXT;
        LAST_ROW = ROW;
    }
}
fn text(s: &str) {
    unsafe {
        if SKIP > 0 {
            SKIP -= 1;
            return;
        }
        let t: *mut Text = Box::leak(Box::new(Text { s: keep(s), next: std::ptr::null_mut() }));
        (*LAST_TEXT).next = t;
        LAST_TEXT = t;
        TEXTS += 1;
    }
}
/// Is what comes now left out?
pub fn skipping() -> bool {
    unsafe { SKIP > 0 }
}
fn row() {
    unsafe {
        if TEXTS > 0 {
            let r: *mut Row = Box::leak(Box::new(Row { texts: TEXTS, n: 0, cell: [""; MAXC], next: std::ptr::null_mut() }));
            (*LAST_ROW).next = r;
            LAST_ROW = r;
        }
    }
}
fn cell(s: &str) {
    unsafe {
        let r = &mut *LAST_ROW;
        if TEXTS > 0 && r.n < MAXC {
            r.cell[r.n] = keep(s);
            r.n += 1;
        }
    }
}

#[derive(Default, Clone)]
pub struct MadSkin {}
impl MadSkin {
    pub fn no_style() -> Self {
        MadSkin {}
    }
    pub fn print_text(&self, s: &str) {
        text(s)
    }
    pub fn print_inline(&self, s: &str) {
        text(s)
    }
    pub fn print_expander(&self, _e: minimad::TextTemplateExpander<'_, '_>) {}
}
pub fn print_text(s: &str) {
    text(s)
}
pub fn print_inline(s: &str) {
    text(s)
}

pub mod minimad {
    use super::{cell, row};

    pub struct TextTemplate<'s> {
        src: &'s str,
    }
    impl<'s> From<&'s str> for TextTemplate<'s> {
        fn from(src: &'s str) -> Self {
            TextTemplate { src }
        }
    }
    impl<'s> TextTemplate<'s> {
        pub fn expander<'b>(&'b self) -> TextTemplateExpander<'s, 'b> {
            TextTemplateExpander { template: self, sub: SubTemplateExpander { template: self, keys: [(std::ptr::null(), false); 4], n: 0 } }
        }
    }
    pub struct SubTemplateExpander<'s, 'b> {
        template: &'b TextTemplate<'s>,
        // keys looked up before
        keys: [(*const u8, bool); 4],
        n: usize,
    }
    pub struct TextTemplateExpander<'s, 'b> {
        template: &'b TextTemplate<'s>,
        sub: SubTemplateExpander<'s, 'b>,
    }
    /// Is `${key}` in the template?
    fn shown(src: &str, key: &str) -> bool {
        let (s, k) = (src.as_bytes(), key.as_bytes());
        let mut i = 0;
        while i + k.len() + 3 <= s.len() {
            if s[i] == b'$' && s[i + 1] == b'{' && s[i + 2 + k.len()] == b'}' {
                let mut j = 0;
                while j < k.len() && s[i + 2 + j] == k[j] {
                    j += 1;
                }
                if j == k.len() {
                    return true;
                }
            }
            i += 1;
        }
        false
    }
    impl<'s, 'b> SubTemplateExpander<'s, 'b> {
        fn shown(&mut self, key: &str) -> bool {
            let mut i = 0;
            while i < self.n {
                if self.keys[i].0 == key.as_ptr() {
                    return self.keys[i].1;
                }
                i += 1;
            }
            let r = shown(self.template.src, key);
            if self.n < 4 {
                self.keys[self.n] = (key.as_ptr(), r);
                self.n += 1;
            }
            r
        }
        pub fn set(&mut self, name: &'b str, value: &'s str) -> &mut Self {
            if !super::skipping() && self.shown(name) {
                cell(value);
            }
            self
        }
        pub fn set_md(&mut self, name: &'b str, value: &'s str) -> &mut Self {
            self.set(name, value)
        }
    }
    impl<'s, 'b> TextTemplateExpander<'s, 'b> {
        pub fn sub(&mut self, _name: &'b str) -> &mut SubTemplateExpander<'s, 'b> {
            row();
            &mut self.sub
        }
        pub fn set(&mut self, name: &str, value: &'s str) -> &mut Self {
            if !super::skipping() && shown(self.template.src, name) {
                row();
                cell(name);
                cell(value);
            }
            self
        }
        pub fn set_md(&mut self, name: &str, value: &'s str) -> &mut Self {
            self.set(name, value)
        }
    }
}
