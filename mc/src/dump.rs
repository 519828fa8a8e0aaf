//! Canonical dump shared by the reference model and the view of the implementation's result.
use std::borrow::Cow;

pub const HDR: u32 = 1; // versions, class flags, this/super/interfaces
pub const MEM: u32 = 2; // fields and methods: flags, names, descriptors
pub const ATL: u32 = 4; // attribute lists: names and kinds
pub const POOL: u32 = 8; // constant pool iteration
pub const CODE: u32 = 16; // Code, stack maps, debug tables
pub const ANN: u32 = 32; // annotations
pub const META: u32 = 64; // all other attributes
pub const OPS: u32 = 128; // decoded instructions
pub const HASOPS: u32 = 256; // whether each Code has decoded bytecode
pub const PRINT: u32 = 512; // printed form of every descriptor
pub const DESC: u32 = 1024; // structure of every descriptor (wherever it occurs)
pub const NAMES: u32 = 2048; // every name and text
pub const ALL: u32 = HDR | MEM | ATL | POOL | CODE | ANN | META | OPS | HASOPS;

/// Text as the reference model sees it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Text {
    In { off: usize, len: usize },
    Re(String),
    Raw { off: usize, len: usize },
}

impl Text {
    pub fn str<'a>(&'a self, b: &'a [u8]) -> Option<&'a str> {
        match self {
            Text::In { off, len } => Some(std::str::from_utf8(&b[*off..*off + *len]).unwrap()),
            Text::Re(s) => Some(s),
            Text::Raw { .. } => None,
        }
    }
    pub fn sub(&self, from: usize, to: usize) -> Text {
        match self {
            Text::In { off, .. } => Text::In { off: off + from, len: to - from },
            Text::Re(s) => Text::Re(s[from..to].to_string()),
            Text::Raw { .. } => unreachable!(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RDesc {
    pub dims: usize,
    /// primitive letter, 'L' or 'V'
    pub base: u8,
    pub class: Option<Text>,
    /// the text the descriptor was read from
    pub src: Text,
}

pub struct D<'a> {
    pub out: Vec<u8>,
    pub mask: u32,
    /// provenance mode: report where text lives instead of what it says
    pub prov: bool,
    pub on: bool,
    pub input: &'a [u8],
}

impl<'a> D<'a> {
    pub fn new(mask: u32, prov: bool, input: &'a [u8], mut buf: Vec<u8>) -> Self {
        buf.clear();
        D { out: buf, mask, prov, on: false, input }
    }
    /// Switches the current section; returns the previous state for `pop`.
    pub fn sec(&mut self, s: u32) -> bool {
        let o = self.on;
        self.on = self.prov || self.mask & s != 0;
        o
    }
    pub fn pop(&mut self, o: bool) {
        self.on = o;
    }
    pub fn tag(&mut self, s: &str) {
        if self.on && !self.prov {
            self.out.extend_from_slice(s.as_bytes());
            self.out.push(b' ');
        }
    }
    pub fn nl(&mut self) {
        if self.on {
            self.out.push(b'\n');
        }
    }
    pub fn num(&mut self, v: i64) {
        if self.on && !self.prov {
            push_num(&mut self.out, v);
            self.out.push(b' ');
        }
    }
    pub fn bits(&mut self, v: u64) {
        if self.on && !self.prov {
            self.out.extend_from_slice(format!("{:x} ", v).as_bytes());
        }
    }
    fn put_text(&mut self, s: &str) {
        push_num(&mut self.out, s.len() as i64);
        self.out.push(b'"');
        self.out.extend_from_slice(s.as_bytes());
        self.out.push(b'"');
        self.out.push(b' ');
    }
    fn text_on(&self) -> bool {
        self.on || self.mask & NAMES != 0
    }
    // ---- text, model side
    pub fn rtext(&mut self, t: &Text) {
        if !self.text_on() {
            return;
        }
        if self.prov {
            match t {
                Text::In { len: 0, .. } => self.out.extend_from_slice(b"E "),
                Text::In { .. } => self.out.extend_from_slice(b"B "),
                Text::Re(s) if s.is_empty() => self.out.extend_from_slice(b"E "),
                Text::Re(_) => self.out.extend_from_slice(b"O "),
                Text::Raw { off, len } => self.raw_at(*off, *len),
            }
            return;
        }
        match t {
            Text::Raw { off, len } => self.raw_at(*off, *len),
            _ => {
                let input = self.input;
                let s = match t {
                    Text::In { off, len } => std::str::from_utf8(&input[*off..*off + *len]).unwrap(),
                    Text::Re(s) => s.as_str(),
                    _ => unreachable!(),
                };
                self.put_text(s);
            }
        }
    }
    pub fn raw_at(&mut self, off: usize, len: usize) {
        if !self.text_on() {
            return;
        }
        if self.prov {
            if len == 0 {
                self.out.extend_from_slice(b"@E ");
            } else {
                self.out.push(b'@');
                push_num(&mut self.out, off as i64);
                self.out.push(b'+');
                push_num(&mut self.out, len as i64);
                self.out.push(b' ');
            }
            return;
        }
        let input = self.input;
        self.put_raw(&input[off..off + len]);
    }
    fn put_raw(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b"raw");
        push_num(&mut self.out, b.len() as i64);
        self.out.push(b':');
        for x in b {
            self.out.push(b"0123456789abcdef"[(x >> 4) as usize]);
            self.out.push(b"0123456789abcdef"[(x & 15) as usize]);
        }
        self.out.push(b' ');
    }
    // ---- text, implementation side
    pub fn cow(&mut self, c: &Cow<'_, str>) {
        if !self.text_on() {
            return;
        }
        if self.prov {
            match c {
                _ if c.is_empty() => self.out.extend_from_slice(b"E "),
                Cow::Borrowed(s) => {
                    if self.offset_of(s.as_bytes()).is_some() {
                        self.out.extend_from_slice(b"B ")
                    } else {
                        self.out.extend_from_slice(b"X ")
                    }
                }
                Cow::Owned(_) => self.out.extend_from_slice(b"O "),
            }
            return;
        }
        self.put_text(c);
    }
    fn offset_of(&self, s: &[u8]) -> Option<usize> {
        let lo = self.input.as_ptr() as usize;
        let p = s.as_ptr() as usize;
        if p >= lo && p + s.len() <= lo + self.input.len() {
            Some(p - lo)
        } else {
            None
        }
    }
    pub fn raw_slice(&mut self, s: &[u8]) {
        if !self.text_on() {
            return;
        }
        if self.prov {
            match self.offset_of(s) {
                _ if s.is_empty() => self.out.extend_from_slice(b"@E "),
                Some(off) => self.raw_at(off, s.len()),
                None => self.out.extend_from_slice(b"@X "),
            }
            return;
        }
        self.put_raw(s);
    }
    // ---- descriptors
    pub fn rdesc(&mut self, d: &RDesc) {
        let o = self.on;
        self.on = o || self.mask & DESC != 0;
        self.num(d.dims as i64);
        if self.on && !self.prov {
            self.out.push(d.base);
            self.out.push(b' ');
        }
        if let Some(c) = &d.class {
            self.rtext(c);
        }
        self.on = o;
    }
    pub fn printed(&mut self, s: &str) {
        if self.mask & PRINT != 0 && !self.prov {
            self.put_text(s);
        }
    }
}

pub fn push_num(out: &mut Vec<u8>, v: i64) {
    let mut t = [0u8; 20];
    let mut i = 20;
    let neg = v < 0;
    let mut u = v.unsigned_abs();
    loop {
        i -= 1;
        t[i] = b'0' + (u % 10) as u8;
        u /= 10;
        if u == 0 {
            break;
        }
    }
    if neg {
        out.push(b'-');
    }
    out.extend_from_slice(&t[i..]);
}

/// Human-readable first difference of two dumps.
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let from = a[..n].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1).max(n.saturating_sub(200));
    let cut = |v: &[u8]| {
        let f = from.min(v.len());
        let e = (n + 160).min(v.len()).max(f);
        String::from_utf8_lossy(&v[f..e]).replace('\n', " | ")
    };
    format!("expected: {} // reported: {}", cut(a), cut(b))
}
