//! Reference model: a second reading of the class file format, written from the JVM specification
//! (chapter 4) and the texts in properties.jsonl, independent of the implementation. It is total
//! over byte strings: accept with this content, reject because of this rule, or unspecified (the
//! properties do not say). Nothing in here is clever on purpose.
use crate::dump::*;

/// Bitmask of property numbers (bit n = property Cn) that demand a rejection.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rej {
    pub props: u32,
    pub what: &'static str,
}
pub const fn p(n: u32) -> u32 {
    1 << n
}

pub enum Stop {
    Rej(Rej),
    /// outside what the properties specify (and the model gives up here)
    Unspec,
}
type R<T> = Result<T, Stop>;

fn rej<T>(props: u32, what: &'static str) -> R<T> {
    Err(Stop::Rej(Rej { props, what }))
}

pub enum Verdict {
    Accept { dump: Vec<u8>, reenc: usize },
    Reject(Rej, Vec<u8>),
    Unspec(Vec<u8>),
}

pub const MAX_ATTR_DEPTH: u32 = 6;
pub const MAX_ANN_DEPTH: u32 = 24;

#[derive(Clone, Debug)]
pub enum Ent {
    Zero,
    Unused,
    Utf8(Text),
    Int(i32),
    Float(u32),
    Long(i64),
    Double(u64),
    Class(u16),
    Str(u16),
    Ref(u8, u16, u16),
    Nat(u16, u16),
    Handle(u8, u16),
    MType(u16),
    Dyn(u16, u16),
    Indy(u16, u16),
    Module(u16),
    Package(u16),
}

// ---------------------------------------------------------------- text

/// Valid UTF-8: itself. Otherwise well-formed modified UTF-8 whose surrogates pair up: re-encoded.
/// Otherwise raw.
pub fn text_of(b: &[u8], off: usize, len: usize) -> Text {
    let s = &b[off..off + len];
    if std::str::from_utf8(s).is_ok() {
        return Text::In { off, len };
    }
    match mutf8(s) {
        Some(t) => Text::Re(t),
        None => Text::Raw { off, len },
    }
}

pub fn mutf8(s: &[u8]) -> Option<String> {
    // step 1: UTF-16 code units as JVMS 4.4.7 defines them
    let mut u: Vec<u16> = vec![];
    let mut i = 0;
    let cont = |k: usize| -> Option<u16> {
        let c = *s.get(k)?;
        if c & 0xC0 == 0x80 {
            Some((c & 0x3F) as u16)
        } else {
            None
        }
    };
    while i < s.len() {
        let x = s[i] as u16;
        if x >= 1 && x <= 0x7F {
            u.push(x);
            i += 1;
        } else if x & 0xE0 == 0xC0 {
            let v = ((x & 0x1F) << 6) | cont(i + 1)?;
            if v < 0x80 && v != 0 {
                return None; // not the shortest form
            }
            u.push(v);
            i += 2;
        } else if x & 0xF0 == 0xE0 {
            let v = ((x & 0x0F) << 12) | (cont(i + 1)? << 6) | cont(i + 2)?;
            if v < 0x800 {
                return None;
            }
            u.push(v);
            i += 3;
        } else {
            return None;
        }
    }
    // step 2: the code units as Unicode text
    String::from_utf16(&u).ok()
}

// ---------------------------------------------------------------- names and descriptors

pub fn unqualified(s: &str) -> bool {
    !s.is_empty() && !s.contains(['.', ';', '[', '/'])
}
pub fn binary_name(s: &str) -> bool {
    s.split('/').all(unqualified)
}
pub fn plain_method_name(s: &str) -> bool {
    unqualified(s) && !s.contains(['<', '>'])
}
pub fn module_name(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if (c[i] as u32) < 0x20 || c[i] == ':' || c[i] == '@' {
            return false;
        }
        if c[i] == '\\' {
            if i + 1 >= c.len() || !['\\', ':', '@'].contains(&c[i + 1]) {
                return false;
            }
            i += 1;
        }
        i += 1;
    }
    true
}

pub struct FD {
    pub dims: usize,
    pub base: u8,
    pub class: (usize, usize),
    pub from: usize,
    pub to: usize,
}
/// One field descriptor at s[i..]; None if there is none.
pub fn field_at(s: &str, i: usize) -> Option<FD> {
    let b = s.as_bytes();
    let mut k = i;
    while b.get(k) == Some(&b'[') {
        k += 1;
    }
    let dims = k - i;
    if dims > 255 {
        return None;
    }
    let base = *b.get(k)?;
    if b"BCDFIJSZ".contains(&base) {
        return Some(FD {
            dims,
            base,
            class: (0, 0),
            from: i,
            to: k + 1,
        });
    }
    if base != b'L' {
        return None;
    }
    let end = k + 1 + s[k + 1..].find(';')?;
    if !binary_name(&s[k + 1..end]) {
        return None;
    }
    Some(FD {
        dims,
        base,
        class: (k + 1, end),
        from: i,
        to: end + 1,
    })
}
pub fn field_desc(s: &str) -> Option<FD> {
    field_at(s, 0).filter(|d| d.to == s.len())
}
/// Parameters and return (None: void).
pub fn method_desc(s: &str) -> Option<(Vec<FD>, Option<FD>)> {
    let b = s.as_bytes();
    if b.first() != Some(&b'(') {
        return None;
    }
    let mut i = 1;
    let mut ps = vec![];
    let mut units = 0;
    while *b.get(i)? != b')' {
        let d = field_at(s, i)?;
        i = d.to;
        units += if d.dims == 0 && (d.base == b'J' || d.base == b'D') {
            2
        } else {
            1
        };
        ps.push(d);
    }
    if units > 255 {
        return None;
    }
    i += 1;
    if &s[i..] == "V" {
        return Some((ps, None));
    }
    let r = field_at(s, i)?;
    if r.to != s.len() {
        return None;
    }
    Some((ps, Some(r)))
}

// ---------------------------------------------------------------- reader

#[derive(Clone)]
struct Rd<'a> {
    b: &'a [u8],
    pos: usize,
    end: usize,
    /// properties that demand rejection when the data runs out
    props: u32,
}
impl<'a> Rd<'a> {
    fn need(&self, n: usize) -> R<()> {
        if self.end - self.pos < n {
            return rej(self.props, "data ends early");
        }
        Ok(())
    }
    fn u1(&mut self) -> R<u8> {
        self.need(1)?;
        self.pos += 1;
        Ok(self.b[self.pos - 1])
    }
    fn u2(&mut self) -> R<u16> {
        Ok((self.u1()? as u16) << 8 | self.u1()? as u16)
    }
    fn u4(&mut self) -> R<u32> {
        self.need(4)?;
        Ok((self.u2()? as u32) << 16 | self.u2()? as u32)
    }
    fn u8(&mut self) -> R<u64> {
        self.need(8)?;
        Ok((self.u4()? as u64) << 32 | self.u4()? as u64)
    }
}

// ---------------------------------------------------------------- model

pub struct M<'a> {
    b: &'a [u8],
    major: u16,
    pool: Vec<Ent>,
    pub d: D<'a>,
    bytecode: bool,
    unspec: bool,
    reenc: usize,
}

const TEXT: u32 = p(6);

pub const CLASS_FLAGS: u16 = 0x0001 | 0x0010 | 0x0020 | 0x0200 | 0x0400 | 0x1000 | 0x2000 | 0x4000 | 0x8000;
pub const FIELD_FLAGS: u16 = 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0040 | 0x0080 | 0x1000 | 0x4000;
pub const METHOD_FLAGS: u16 =
    0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0020 | 0x0040 | 0x0080 | 0x0100 | 0x0400 | 0x0800 | 0x1000;
pub const INNER_FLAGS: u16 = 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0200 | 0x0400 | 0x1000 | 0x2000 | 0x4000;

/// Runs the model on `b`.
pub fn run(b: &[u8], bytecode: bool, mask: u32, prov: bool, buf: Vec<u8>) -> Verdict {
    let mut m = M {
        b,
        major: 0,
        pool: vec![],
        d: D::new(mask, prov, b, buf),
        bytecode,
        unspec: false,
        reenc: 0,
    };
    match m.class() {
        Err(Stop::Rej(r)) => Verdict::Reject(r, m.d.out),
        Err(Stop::Unspec) => Verdict::Unspec(m.d.out),
        Ok(()) if m.unspec => Verdict::Unspec(m.d.out),
        Ok(()) => Verdict::Accept {
            dump: m.d.out,
            reenc: m.reenc,
        },
    }
}

impl<'a> M<'a> {
    fn at(&self, i: u16) -> &Ent {
        self.pool.get(i as usize).unwrap_or(&Ent::Zero)
    }
    /// Text of entry i, which has to be text.
    fn text(&self, i: u16, props: u32) -> R<Text> {
        match self.pool.get(i as usize) {
            Some(Ent::Utf8(Text::Raw { .. })) => rej(props | TEXT, "bytes that are no text used as text"),
            Some(Ent::Utf8(t)) => Ok(t.clone()),
            _ => rej(props, "reference that has to designate text does not"),
        }
    }
    fn s(&self, t: &Text) -> String {
        t.str(self.b).unwrap().to_string()
    }
    fn class_at(&self, i: u16, props: u32) -> R<Text> {
        match self.pool.get(i as usize) {
            Some(Ent::Class(n)) => self.text(*n, props),
            _ => rej(props, "reference that has to designate a class does not"),
        }
    }
    fn nat(&self, i: u16, props: u32) -> R<(Text, Text)> {
        match self.pool.get(i as usize) {
            Some(Ent::Nat(n, d)) => Ok((self.text(*n, props)?, self.text(*d, props)?)),
            _ => rej(props, "reference that has to designate a name and type does not"),
        }
    }

    // ------------------------------------------------------------ pool

    fn read_pool(&mut self, r: &mut Rd) -> R<()> {
        let count = r.u2()?;
        self.pool.push(Ent::Zero);
        while self.pool.len() < count as usize {
            let tag = r.u1()?;
            let v = self.major;
            let e = match tag {
                1 => {
                    let n = r.u2()? as usize;
                    r.need(n)?;
                    let t = text_of(self.b, r.pos, n);
                    if let Text::Re(s) = &t {
                        self.reenc = self.reenc.max(s.len().max(n));
                    }
                    r.pos += n;
                    Ent::Utf8(t)
                }
                3 => Ent::Int(r.u4()? as i32),
                4 => Ent::Float(r.u4()?),
                5 => Ent::Long(r.u8()? as i64),
                6 => Ent::Double(r.u8()?),
                7 => Ent::Class(r.u2()?),
                8 => Ent::Str(r.u2()?),
                9..=11 => Ent::Ref(tag, r.u2()?, r.u2()?),
                12 => Ent::Nat(r.u2()?, r.u2()?),
                15 if v >= 51 => {
                    let k = r.u1()?;
                    if !(1..=9).contains(&k) {
                        return rej(p(5), "undefined method handle kind");
                    }
                    Ent::Handle(k, r.u2()?)
                }
                16 if v >= 51 => Ent::MType(r.u2()?),
                17 if v >= 55 => Ent::Dyn(r.u2()?, r.u2()?),
                18 if v >= 51 => Ent::Indy(r.u2()?, r.u2()?),
                19 if v >= 53 => Ent::Module(r.u2()?),
                20 if v >= 53 => Ent::Package(r.u2()?),
                _ => return rej(p(5), "tag not legal for this version"),
            };
            self.pool.push(e);
            if tag == 5 || tag == 6 {
                if self.pool.len() >= count as usize {
                    return rej(p(5), "no room for the second slot of an 8-byte constant");
                }
                self.pool.push(Ent::Unused);
            }
        }
        Ok(())
    }

    fn check_pool(&mut self) -> R<()> {
        let c5 = p(5);
        for i in 1..self.pool.len() {
            let e = self.pool[i].clone();
            match e {
                Ent::Class(n) => {
                    let t = self.text(n, c5)?;
                    let s = self.s(&t);
                    if s.starts_with('[') {
                        if field_desc(&s).is_none() {
                            return rej(c5 | p(14), "array class name is no descriptor");
                        }
                    } else if !binary_name(&s) {
                        return rej(c5 | p(15), "illegal class name");
                    }
                }
                Ent::Str(n) => {
                    if !matches!(self.at(n), Ent::Utf8(_)) {
                        return rej(c5, "string constant does not designate text");
                    }
                }
                Ent::Ref(tag, c, n) => {
                    self.class_at(c, c5)?;
                    let (name, desc) = self.nat(n, c5)?;
                    let (name, desc) = (self.s(&name), self.s(&desc));
                    if tag == 9 {
                        if field_desc(&desc).is_none() {
                            return rej(c5 | p(14), "field reference without field descriptor");
                        }
                    } else {
                        let Some((_, ret)) = method_desc(&desc) else {
                            return rej(c5 | p(14), "method reference without method descriptor");
                        };
                        if name == "<init>" {
                            if ret.is_some() {
                                if tag == 10 {
                                    return rej(c5, "reference to a non-void <init>");
                                }
                                self.unspec = true;
                            }
                        } else if tag == 11 && name == "<clinit>" {
                            self.unspec = true;
                        } else if unqualified(&name) && !plain_method_name(&name) {
                            return rej(c5 | p(15), "reference to an illegal method name");
                        }
                    }
                }
                Ent::Nat(n, d) => {
                    let name = self.text(n, c5)?;
                    if !unqualified(&self.s(&name)) {
                        return rej(c5 | p(15), "illegal member name");
                    }
                    let desc = self.s(&self.text(d, c5)?);
                    if field_desc(&desc).is_none() && method_desc(&desc).is_none() {
                        // wrong if anything refers to it; otherwise the properties are silent
                        self.unspec = true;
                    }
                }
                Ent::Handle(k, t) => {
                    let tag = match self.at(t) {
                        Ent::Ref(tag, _, _) => *tag,
                        _ => return rej(c5, "method handle target is no member"),
                    };
                    let ok = match k {
                        1..=4 => tag == 9,
                        5 | 8 => tag == 10,
                        6 | 7 => tag == 10 || (tag == 11 && self.major >= 52),
                        _ => tag == 11,
                    };
                    if !ok {
                        return rej(c5, "method handle kind does not match its target");
                    }
                    if k >= 5 {
                        if let Ent::Ref(_, _, n) = self.at(t) {
                            if let Ent::Nat(nm, _) = self.at(*n) {
                                if let Ent::Utf8(t) = self.at(*nm) {
                                    if let Some(s) = t.str(self.b) {
                                        if s == "<clinit>" || (s == "<init>") != (k == 8) {
                                            self.unspec = true;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                Ent::MType(d) => {
                    let t = self.text(d, c5)?;
                    if method_desc(&self.s(&t)).is_none() {
                        return rej(c5 | p(14), "method type is no method descriptor");
                    }
                }
                Ent::Dyn(_, n) => {
                    let (_, d) = self.nat(n, c5)?;
                    if field_desc(&self.s(&d)).is_none() {
                        return rej(c5 | p(14), "dynamic constant without field descriptor");
                    }
                }
                Ent::Indy(_, n) => {
                    let (_, d) = self.nat(n, c5)?;
                    if method_desc(&self.s(&d)).is_none() {
                        return rej(c5 | p(14), "call site without method descriptor");
                    }
                }
                Ent::Module(n) => {
                    let t = self.text(n, c5)?;
                    let s = self.s(&t);
                    if s.is_empty() {
                        self.unspec = true;
                    }
                    if !module_name(&s) {
                        return rej(c5 | p(15), "illegal module name");
                    }
                }
                Ent::Package(n) => {
                    let t = self.text(n, c5)?;
                    if !binary_name(&self.s(&t)) {
                        return rej(c5 | p(15), "illegal package name");
                    }
                }
                _ => (),
            }
        }
        Ok(())
    }

    fn out_member(&mut self, c: u16, n: u16) -> R<()> {
        let t = self.class_at(c, 0)?;
        self.d.rtext(&t);
        self.out_nat(n)
    }
    fn out_nat(&mut self, n: u16) -> R<()> {
        let (a, b) = self.nat(n, 0)?;
        self.d.rtext(&a);
        self.d.rtext(&b);
        Ok(())
    }
    fn out_str(&mut self, n: u16) {
        if let Ent::Utf8(t) = self.at(n).clone() {
            self.d.rtext(&t);
        }
    }
    fn out_handle(&mut self, k: u8, t: u16) -> R<()> {
        if let Ent::Ref(tag, c, n) = *self.at(t) {
            self.d.num(k as i64);
            self.d.num(tag as i64 - 9);
            self.out_member(c, n)?;
        }
        Ok(())
    }
    /// Emits a loadable constant; false if the entry is not one.
    fn out_loadable(&mut self, i: u16) -> R<bool> {
        match self.at(i).clone() {
            Ent::Int(v) => {
                self.d.tag("int");
                self.d.num(v as i64);
            }
            Ent::Float(v) => {
                self.d.tag("float");
                self.d.bits(v as u64);
            }
            Ent::Long(v) => {
                self.d.tag("long");
                self.d.num(v);
            }
            Ent::Double(v) => {
                self.d.tag("double");
                self.d.bits(v);
            }
            Ent::Str(n) => {
                self.d.tag("str");
                self.out_str(n);
            }
            Ent::Class(n) => {
                self.d.tag("class");
                let t = self.text(n, 0)?;
                self.d.rtext(&t);
            }
            Ent::Handle(k, t) => {
                self.d.tag("mh");
                self.out_handle(k, t)?;
            }
            Ent::MType(d) => {
                self.d.tag("mt");
                let t = self.text(d, 0)?;
                self.d.rtext(&t);
            }
            Ent::Dyn(x, n) => {
                self.d.tag("dyn");
                self.d.num(x as i64);
                self.out_nat(n)?;
            }
            _ => return Ok(false),
        }
        Ok(true)
    }

    fn out_pool(&mut self) -> R<()> {
        let o = self.d.sec(POOL);
        for i in 1..self.pool.len() {
            if self.out_loadable(i as u16)? {
                self.d.nl();
                continue;
            }
            match self.pool[i].clone() {
                Ent::Ref(tag, c, n) => {
                    self.d.tag(["fref", "mref", "imref"][tag as usize - 9]);
                    self.out_member(c, n)?;
                }
                Ent::Nat(..) => {
                    self.d.tag("nat");
                    self.out_nat(i as u16)?;
                }
                Ent::Indy(x, n) => {
                    self.d.tag("indy");
                    self.d.num(x as i64);
                    self.out_nat(n)?;
                }
                Ent::Module(n) => {
                    self.d.tag("module");
                    self.out_str(n);
                }
                Ent::Package(n) => {
                    self.d.tag("package");
                    self.out_str(n);
                }
                _ => continue,
            }
            self.d.nl();
        }
        self.d.pop(o);
        Ok(())
    }

    // ------------------------------------------------------------ class

    fn class(&mut self) -> R<()> {
        let mut rd = Rd {
            b: self.b,
            pos: 0,
            end: self.b.len(),
            props: p(10),
        };
        let r = &mut rd;
        if r.u4()? != 0xCAFEBABE {
            return rej(p(9), "wrong magic number");
        }
        let minor = r.u2()?;
        self.major = r.u2()?;
        self.read_pool(r)?;
        self.check_pool()?;
        let flags = r.u2()? & CLASS_FLAGS;
        let is_module = flags & 0x8000 != 0;
        if is_module {
            if self.major < 53 {
                return rej(p(9), "module flag before version 53");
            }
            if flags != 0x8000 {
                return rej(p(9), "module flag with other flags");
            }
        } else if self.pool.iter().any(|e| matches!(e, Ent::Module(_) | Ent::Package(_))) {
            return rej(p(5), "module or package entry outside a module");
        }
        self.d.sec(HDR);
        self.d.tag("version");
        self.d.num(self.major as i64);
        self.d.num(minor as i64);
        self.d.num(flags as i64);
        let this = r.u2()?;
        let t = self.class_name(this)?;
        self.d.rtext(&t);
        let sup = r.u2()?;
        if sup == 0 {
            self.d.tag("none");
        } else {
            let t = self.class_name(sup)?;
            self.d.rtext(&t);
        }
        let n = r.u2()?;
        self.d.num(n as i64);
        let nifs = n;
        for _ in 0..n {
            let i = r.u2()?;
            let t = self.class_name(i)?;
            self.d.rtext(&t);
        }
        self.d.nl();
        let nf = self.fields(r)?;
        let nm = self.methods(r, flags & 0x0200 != 0)?;
        let (nbsm, bsmlen) = self.attributes(r, 0)?;
        if r.pos != r.end {
            return rej(p(10), "extra bytes after the class");
        }
        if is_module && (sup != 0 || nifs > 0 || nf > 0 || nm > 0) {
            return rej(p(9), "module with superclass, interfaces, fields or methods");
        }
        for e in &self.pool {
            if let Ent::Dyn(x, _) | Ent::Indy(x, _) = e {
                if nbsm != 1 {
                    return rej(p(19), "dynamic constant without exactly one bootstrap table");
                }
                if *x as usize >= bsmlen {
                    return rej(p(19), "bootstrap index outside the table");
                }
            }
        }
        self.out_pool()
    }

    /// A class name in the header: a binary name (no array).
    fn class_name(&mut self, i: u16) -> R<Text> {
        let t = self.class_at(i, p(9))?;
        if !binary_name(&self.s(&t)) {
            return rej(p(9) | p(15), "class reference in the header is no binary name");
        }
        Ok(t)
    }

    fn out_fd(&mut self, src: &Text, d: &FD) {
        let class = if d.base == b'L' {
            Some(src.sub(d.class.0, d.class.1))
        } else {
            None
        };
        let rd = RDesc {
            dims: d.dims,
            base: d.base,
            class,
            src: src.sub(d.from, d.to),
        };
        self.d.rdesc(&rd);
        if self.d.mask & PRINT != 0 {
            let s = self.s(src)[d.from..d.to].to_string();
            self.d.printed(&s);
        }
    }

    /// Field descriptor from pool entry i, parsed and emitted.
    fn field_descriptor(&mut self, i: u16, props: u32) -> R<Text> {
        let t = self.text(i, props)?;
        let s = self.s(&t);
        let Some(d) = field_desc(&s) else {
            return rej(props | p(14), "illegal field descriptor");
        };
        self.out_fd(&t, &d);
        Ok(t)
    }

    fn fields(&mut self, r: &mut Rd) -> R<u16> {
        let n = r.u2()?;
        let mut seen = std::collections::HashSet::new();
        self.d.sec(MEM);
        self.d.tag("fields");
        self.d.num(n as i64);
        self.d.nl();
        for _ in 0..n {
            self.d.sec(MEM);
            let flags = r.u2()? & FIELD_FLAGS;
            let (ni, di) = (r.u2()?, r.u2()?);
            let name = self.text(ni, p(9))?;
            let ns = self.s(&name);
            if !unqualified(&ns) {
                return rej(p(9) | p(15), "illegal field name");
            }
            self.d.num(flags as i64);
            self.d.rtext(&name);
            let desc = self.field_descriptor(di, p(9))?;
            self.d.nl();
            if !seen.insert((ns, self.s(&desc))) {
                return rej(p(9), "duplicate field");
            }
            self.attributes(r, 0)?;
        }
        Ok(n)
    }

    fn methods(&mut self, r: &mut Rd, interface: bool) -> R<u16> {
        let n = r.u2()?;
        let mut seen = std::collections::HashSet::new();
        self.d.sec(MEM);
        self.d.tag("methods");
        self.d.num(n as i64);
        self.d.nl();
        for _ in 0..n {
            self.d.sec(MEM);
            let flags = r.u2()? & METHOD_FLAGS;
            let (ni, di) = (r.u2()?, r.u2()?);
            let name = self.text(ni, p(9))?;
            let ns = self.s(&name);
            let special = ns == "<init>" || ns == "<clinit>";
            if !special && !plain_method_name(&ns) {
                return rej(p(9) | p(15), "illegal method name");
            }
            if interface && ns == "<init>" {
                return rej(p(9) | p(15), "<init> in an interface");
            }
            let t = self.text(di, p(9))?;
            let ds = self.s(&t);
            let Some((ps, ret)) = method_desc(&ds) else {
                return rej(p(9) | p(14), "illegal method descriptor");
            };
            if special && ret.is_some() {
                return rej(p(9), "non-void initialiser");
            }
            if ns == "<clinit>" && self.major >= 51 && !ps.is_empty() {
                return rej(p(9), "<clinit> with arguments");
            }
            self.d.num(flags as i64);
            self.d.rtext(&name);
            let o = self.d.sec(MEM | DESC);
            self.d.num(ps.len() as i64);
            self.d.pop(o);
            for d in &ps {
                self.out_fd(&t, d);
            }
            match &ret {
                Some(d) => self.out_fd(&t, d),
                None => {
                    let o = self.d.sec(MEM | DESC);
                    self.d.tag("void");
                    self.d.pop(o);
                }
            }
            self.d.printed(&ds);
            self.d.nl();
            if !seen.insert((ns, ds)) {
                return rej(p(9), "duplicate method");
            }
            self.attributes(r, 0)?;
        }
        Ok(n)
    }

    // ------------------------------------------------------------ attributes

    /// Returns the number of bootstrap tables and the length of the last one.
    fn attributes(&mut self, r: &mut Rd, depth: u32) -> R<(u32, usize)> {
        if depth > MAX_ATTR_DEPTH {
            return Err(Stop::Unspec);
        }
        let n = r.u2()?;
        let o = self.d.sec(ATL);
        self.d.tag("attrs");
        self.d.num(n as i64);
        self.d.nl();
        let mut bsms = (0, 0);
        for _ in 0..n {
            let ni = r.u2()?;
            let name = self.text(ni, p(13))?;
            let len = r.u4()? as usize;
            r.need(len)?;
            let mut c = Rd {
                b: self.b,
                pos: r.pos,
                end: r.pos + len,
                props: p(10),
            };
            self.d.sec(ATL);
            self.d.tag("attr");
            self.d.rtext(&name);
            let ns = self.s(&name);
            let end = c.end;
            self.attribute(&ns, &mut c, depth, &mut bsms)?;
            self.d.nl();
            if c.pos != end {
                return rej(p(10), "attribute longer than its contents");
            }
            r.pos = end;
        }
        self.d.pop(o);
        Ok(bsms)
    }

    fn opt_text(&mut self, r: &mut Rd, props: u32) -> R<Option<Text>> {
        let i = r.u2()?;
        if i == 0 {
            self.d.tag("none");
            return Ok(None);
        }
        let t = self.text(i, props)?;
        self.d.rtext(&t);
        Ok(Some(t))
    }
    fn any_text(&mut self, r: &mut Rd, props: u32) -> R<Text> {
        let i = r.u2()?;
        let t = self.text(i, props)?;
        self.d.rtext(&t);
        Ok(t)
    }
    fn any_class(&mut self, r: &mut Rd, props: u32) -> R<()> {
        let i = r.u2()?;
        let t = self.class_at(i, props)?;
        self.d.rtext(&t);
        Ok(())
    }
    fn opt_class(&mut self, r: &mut Rd, props: u32) -> R<()> {
        let i = r.u2()?;
        if i == 0 {
            self.d.tag("none");
            return Ok(());
        }
        let t = self.class_at(i, props)?;
        self.d.rtext(&t);
        Ok(())
    }
    fn n2(&mut self, r: &mut Rd) -> R<u16> {
        let v = r.u2()?;
        self.d.num(v as i64);
        Ok(v)
    }
    fn n1(&mut self, r: &mut Rd) -> R<u8> {
        let v = r.u1()?;
        self.d.num(v as i64);
        Ok(v)
    }
    fn mod_at(&mut self, r: &mut Rd) -> R<()> {
        match *self.at(r.u2()?) {
            Ent::Module(n) => {
                let t = self.text(n, 0)?;
                self.d.rtext(&t);
                Ok(())
            }
            _ => rej(p(13), "reference that has to designate a module does not"),
        }
    }
    fn pkg_at(&mut self, r: &mut Rd) -> R<()> {
        match *self.at(r.u2()?) {
            Ent::Package(n) => {
                let t = self.text(n, 0)?;
                self.d.rtext(&t);
                Ok(())
            }
            _ => rej(p(13), "reference that has to designate a package does not"),
        }
    }
    fn closed_flags(&mut self, r: &mut Rd, mask: u16) -> R<()> {
        let v = r.u2()?;
        if v & !mask != 0 {
            return rej(p(13), "undefined bit in closed flags");
        }
        self.d.num(v as i64);
        Ok(())
    }
    fn var_name(&mut self, r: &mut Rd, props: u32) -> R<()> {
        let t = self.any_text(r, props)?;
        if !unqualified(&self.s(&t)) {
            return rej(props | p(15), "illegal variable or component name");
        }
        Ok(())
    }

    fn attribute(&mut self, name: &str, r: &mut Rd, depth: u32, bsms: &mut (u32, usize)) -> R<()> {
        let c13 = p(13);
        self.d.tag(if KNOWN.contains(&name) { name } else { "Other" });
        self.d.sec(META);
        match name {
            "ConstantValue" => {
                let i = r.u2()?;
                if !matches!(
                    self.at(i),
                    Ent::Int(_) | Ent::Float(_) | Ent::Long(_) | Ent::Double(_) | Ent::Str(_)
                ) {
                    return rej(c13, "constant value of the wrong kind");
                }
                self.out_loadable(i)?;
            }
            "Code" => self.code(r, depth)?,
            "StackMapTable" => self.stack_map(r)?,
            "Exceptions" | "NestMembers" | "PermittedSubclasses" => {
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.any_class(r, c13)?;
                }
            }
            "InnerClasses" => {
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.any_class(r, c13)?;
                    self.opt_class(r, c13)?;
                    self.opt_text(r, c13)?;
                    let f = r.u2()? & INNER_FLAGS;
                    self.d.num(f as i64);
                }
            }
            "EnclosingMethod" => {
                self.any_class(r, c13)?;
                let i = r.u2()?;
                if i == 0 {
                    self.d.tag("none");
                } else if matches!(self.at(i), Ent::Nat(..)) {
                    self.out_nat(i)?;
                } else {
                    return rej(c13, "enclosing method is no name and type");
                }
            }
            "Synthetic" | "Deprecated" => (),
            "Signature" | "SourceFile" => {
                self.any_text(r, c13)?;
            }
            "SourceDebugExtension" => {
                let t = text_of(self.b, r.pos, r.end - r.pos);
                if let Text::Raw { .. } = t {
                    return rej(c13 | TEXT, "debug extension is no text");
                }
                if let Text::Re(s) = &t {
                    self.reenc = self.reenc.max(s.len());
                }
                self.d.rtext(&t);
                r.pos = r.end;
            }
            "LineNumberTable" => {
                self.d.sec(CODE);
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.n2(r)?;
                    self.n2(r)?;
                }
            }
            "LocalVariableTable" => {
                self.d.sec(CODE);
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.n2(r)?;
                    self.n2(r)?;
                    self.var_name(r, p(11))?;
                    let i = r.u2()?;
                    self.field_descriptor(i, p(11))?;
                    self.n2(r)?;
                }
            }
            "LocalVariableTypeTable" => {
                self.d.sec(CODE);
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.n2(r)?;
                    self.n2(r)?;
                    self.var_name(r, p(11))?;
                    self.any_text(r, p(11))?;
                    self.n2(r)?;
                }
            }
            "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" => {
                self.d.sec(ANN);
                self.annotations(r)?;
            }
            "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => {
                self.d.sec(ANN);
                let n = self.n1(r)?;
                for _ in 0..n {
                    self.annotations(r)?;
                }
            }
            "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => {
                self.d.sec(ANN);
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.type_annotation(r)?;
                }
            }
            "AnnotationDefault" => {
                self.d.sec(ANN);
                self.element_value(r, 0)?;
            }
            "BootstrapMethods" => {
                let n = self.n2(r)?;
                *bsms = (bsms.0 + 1, n as usize);
                for _ in 0..n {
                    let h = r.u2()?;
                    let Ent::Handle(k, t) = *self.at(h) else {
                        return rej(c13, "bootstrap method is no method handle");
                    };
                    self.out_handle(k, t)?;
                    let m = self.n2(r)?;
                    for _ in 0..m {
                        let a = r.u2()?;
                        if !self.out_loadable(a)? {
                            return rej(c13, "bootstrap argument is not loadable");
                        }
                    }
                }
            }
            "MethodParameters" => {
                let n = self.n1(r)?;
                for _ in 0..n {
                    if let Some(t) = self.opt_text(r, c13)? {
                        if !unqualified(&self.s(&t)) {
                            return rej(c13 | p(15), "illegal parameter name");
                        }
                    }
                    self.closed_flags(r, 0x9010)?;
                }
            }
            "Module" => {
                self.mod_at(r)?;
                self.closed_flags(r, 0x9020)?;
                self.opt_text(r, c13)?;
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.mod_at(r)?;
                    self.closed_flags(r, 0x9060)?;
                    self.opt_text(r, c13)?;
                }
                for _ in 0..2 {
                    // exports, opens
                    let n = self.n2(r)?;
                    for _ in 0..n {
                        self.pkg_at(r)?;
                        self.closed_flags(r, 0x9000)?;
                        let k = self.n2(r)?;
                        for _ in 0..k {
                            self.mod_at(r)?;
                        }
                    }
                }
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.any_class(r, c13)?;
                }
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.any_class(r, c13)?;
                    let k = self.n2(r)?;
                    for _ in 0..k {
                        self.any_class(r, c13)?;
                    }
                }
            }
            "ModulePackages" => {
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.pkg_at(r)?;
                }
            }
            "ModuleMainClass" | "NestHost" => self.any_class(r, c13)?,
            "Record" => {
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.d.sec(META);
                    self.var_name(r, c13)?;
                    let i = r.u2()?;
                    self.field_descriptor(i, c13)?;
                    self.attributes(r, depth + 1)?;
                }
            }
            _ => {
                self.d.raw_at(r.pos, r.end - r.pos);
                r.pos = r.end;
            }
        }
        Ok(())
    }

    fn vtype(&mut self, r: &mut Rd) -> R<()> {
        match r.u1()? {
            0 => self.d.tag("top"),
            1 => self.d.tag("int"),
            2 => self.d.tag("float"),
            3 => self.d.tag("double"),
            4 => self.d.tag("long"),
            5 => self.d.tag("null"),
            6 => self.d.tag("uninitThis"),
            7 => {
                self.d.tag("object");
                self.any_class(r, p(11))?;
            }
            8 => {
                self.d.tag("uninit");
                self.n2(r)?;
            }
            _ => return rej(p(11), "undefined verification type"),
        }
        Ok(())
    }

    fn stack_map(&mut self, r: &mut Rd) -> R<()> {
        self.d.sec(CODE);
        let n = self.n2(r)?;
        for _ in 0..n {
            let t = r.u1()?;
            match t {
                0..=63 => {
                    self.d.tag("same");
                    self.d.num(t as i64);
                }
                64..=127 => {
                    self.d.tag("same1");
                    self.d.num(t as i64 - 64);
                    self.vtype(r)?;
                }
                247 => {
                    self.d.tag("same1");
                    self.n2(r)?;
                    self.vtype(r)?;
                }
                248..=250 => {
                    self.d.tag("chop");
                    self.n2(r)?;
                    self.d.num(251 - t as i64);
                }
                251 => {
                    self.d.tag("same");
                    self.n2(r)?;
                }
                252..=254 => {
                    self.d.tag("append");
                    self.n2(r)?;
                    self.d.num(t as i64 - 251);
                    for _ in 251..t {
                        self.vtype(r)?;
                    }
                }
                255 => {
                    self.d.tag("full");
                    self.n2(r)?;
                    for _ in 0..2 {
                        let k = self.n2(r)?;
                        for _ in 0..k {
                            self.vtype(r)?;
                        }
                    }
                }
                _ => return rej(p(11), "undefined frame type"),
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ annotations

    fn annotations(&mut self, r: &mut Rd) -> R<()> {
        let n = self.n2(r)?;
        for _ in 0..n {
            self.annotation(r, 0)?;
        }
        Ok(())
    }
    fn annotation(&mut self, r: &mut Rd, depth: u32) -> R<()> {
        let i = r.u2()?;
        self.field_descriptor(i, p(12))?;
        let n = self.n2(r)?;
        for _ in 0..n {
            self.any_text(r, p(12))?;
            self.element_value(r, depth)?;
        }
        Ok(())
    }
    fn element_value(&mut self, r: &mut Rd, depth: u32) -> R<()> {
        if depth > MAX_ANN_DEPTH {
            return Err(Stop::Unspec);
        }
        let tag = r.u1()?;
        let o = self.d.on;
        self.d.tag(match tag {
            b'B' => "B",
            b'C' => "C",
            b'D' => "D",
            b'F' => "F",
            b'I' => "I",
            b'J' => "J",
            b'S' => "S",
            b'Z' => "Z",
            b's' => "s",
            b'e' => "e",
            b'c' => "c",
            b'@' => "@",
            b'[' => "[",
            _ => return rej(p(12), "undefined element tag"),
        });
        match tag {
            b'B' | b'C' | b'I' | b'S' | b'Z' => match *self.at(r.u2()?) {
                Ent::Int(v) => self.d.num(v as i64),
                _ => return rej(p(12), "element constant of the wrong kind"),
            },
            b'D' => match *self.at(r.u2()?) {
                Ent::Double(v) => self.d.bits(v),
                _ => return rej(p(12), "element constant of the wrong kind"),
            },
            b'F' => match *self.at(r.u2()?) {
                Ent::Float(v) => self.d.bits(v as u64),
                _ => return rej(p(12), "element constant of the wrong kind"),
            },
            b'J' => match *self.at(r.u2()?) {
                Ent::Long(v) => self.d.num(v),
                _ => return rej(p(12), "element constant of the wrong kind"),
            },
            b's' => {
                self.any_text(r, p(12))?;
            }
            b'e' => {
                let i = r.u2()?;
                self.field_descriptor(i, p(12))?;
                self.any_text(r, p(12))?;
            }
            b'c' => {
                let t = self.any_text(r, p(12))?;
                let s = self.s(&t);
                if s != "V" && field_desc(&s).is_none() {
                    return rej(p(12) | p(14), "class literal is no return descriptor");
                }
            }
            b'@' => self.annotation(r, depth + 1)?,
            _ => {
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.element_value(r, depth + 1)?;
                }
            }
        }
        self.d.on = o;
        Ok(())
    }
    fn type_annotation(&mut self, r: &mut Rd) -> R<()> {
        let t = r.u1()?;
        match t {
            0x00 | 0x01 => {
                self.d.tag("typeparam");
                self.n1(r)?;
            }
            0x10 => {
                self.d.tag("supertype");
                self.n2(r)?;
            }
            0x11 | 0x12 => {
                self.d.tag("bound");
                self.n1(r)?;
                self.n1(r)?;
            }
            0x13..=0x15 => self.d.tag("empty"),
            0x16 => {
                self.d.tag("formal");
                self.n1(r)?;
            }
            0x17 => {
                self.d.tag("throws");
                self.n2(r)?;
            }
            0x40 | 0x41 => {
                self.d.tag("localvar");
                let n = self.n2(r)?;
                for _ in 0..n {
                    self.n2(r)?;
                    self.n2(r)?;
                    self.n2(r)?;
                }
            }
            0x42 => {
                self.d.tag("catch");
                self.n2(r)?;
            }
            0x43..=0x46 => {
                self.d.tag("offset");
                self.n2(r)?;
            }
            0x47..=0x4B => {
                self.d.tag("typearg");
                self.n2(r)?;
                self.n1(r)?;
            }
            _ => return rej(p(12), "undefined target type"),
        }
        let n = self.n1(r)?;
        for _ in 0..n {
            let k = r.u1()?;
            if k > 3 {
                return rej(p(12), "undefined path kind");
            }
            self.d.num(k as i64);
            self.n1(r)?;
        }
        self.annotation(r, 0)
    }

    // ------------------------------------------------------------ code

    fn code(&mut self, r: &mut Rd, depth: u32) -> R<()> {
        self.d.sec(CODE);
        self.n2(r)?;
        self.n2(r)?;
        let len = r.u4()? as usize;
        r.need(len)?;
        let (from, to) = (r.pos, r.pos + len);
        self.d.raw_at(from, len);
        r.pos = to;
        let n = self.n2(r)?;
        for _ in 0..n {
            self.n2(r)?;
            self.n2(r)?;
            self.n2(r)?;
            self.opt_class(r, p(11))?;
        }
        self.d.nl();
        if self.bytecode {
            self.instructions(from, to)?;
        }
        let o = self.d.sec(HASOPS);
        self.d.tag(if self.bytecode { "decoded" } else { "notdecoded" });
        self.d.pop(o);
        self.d.nl();
        self.attributes(r, depth + 1)?;
        Ok(())
    }

    fn member_op(&mut self, r: &mut Rd, tags: &[u8], init_ok: bool) -> R<()> {
        let i = r.u2()?;
        match *self.at(i) {
            Ent::Ref(tag, c, n) if tags.contains(&tag) => {
                if tags.len() == 2 && tag == 11 && self.major < 52 {
                    self.unspec = true;
                }
                if tag != 9 {
                    let (name, _) = self.nat(n, 0)?;
                    if !init_ok && self.s(&name).starts_with('<') {
                        self.unspec = true;
                    }
                }
                self.out_member(c, n)
            }
            _ => rej(p(16), "member operand of the wrong kind"),
        }
    }
    /// Class operand that may be an array type; emitted as array descriptor or plain name.
    fn type_op(&mut self, r: &mut Rd) -> R<usize> {
        let i = r.u2()?;
        let t = self.class_at(i, p(16))?;
        let s = self.s(&t);
        if s.starts_with('[') {
            self.d.tag("array");
            let d = field_desc(&s).unwrap();
            self.out_fd(&t, &d);
            Ok(d.dims)
        } else {
            self.d.tag("name");
            self.d.rtext(&t);
            Ok(0)
        }
    }

    fn instructions(&mut self, from: usize, to: usize) -> R<()> {
        let c16 = p(16);
        let o = self.d.sec(OPS);
        let mut rd = Rd {
            b: self.b,
            pos: from,
            end: to,
            props: c16,
        };
        let r = &mut rd;
        let mut starts = vec![false; to - from];
        let mut jumps: Vec<(i64, i64)> = vec![];
        while r.pos < to {
            let at = r.pos - from;
            starts[at] = true;
            let op = r.u1()?;
            let mut jump = |d: i64| jumps.push((at as i64, at as i64 + d));
            self.d.num(at as i64);
            match op {
                // one-letter families with the operand in the opcode
                0x1a..=0x2d => {
                    let k = op - 0x1a;
                    self.d
                        .tag(["iload", "lload", "fload", "dload", "aload"][k as usize / 4]);
                    self.d.num(k as i64 % 4);
                }
                0x3b..=0x4e => {
                    let k = op - 0x3b;
                    self.d
                        .tag(["istore", "lstore", "fstore", "dstore", "astore"][k as usize / 4]);
                    self.d.num(k as i64 % 4);
                }
                0x10 => {
                    self.d.tag("bipush");
                    let v = r.u1()? as i8;
                    self.d.num(v as i64);
                }
                0x11 => {
                    self.d.tag("sipush");
                    let v = r.u2()? as i16;
                    self.d.num(v as i64);
                }
                0x12..=0x14 => {
                    self.d.tag(["ldc", "ldc_w", "ldc2_w"][op as usize - 0x12]);
                    let i = if op == 0x12 { r.u1()? as u16 } else { r.u2()? };
                    let wide = matches!(self.at(i), Ent::Long(_) | Ent::Double(_));
                    let dynamic = matches!(self.at(i), Ent::Dyn(..));
                    if !self.out_loadable(i)? {
                        return rej(c16, "loaded constant is not loadable");
                    }
                    if !dynamic && wide != (op == 0x14) {
                        self.unspec = true; // documented: the width is not validated
                    }
                }
                0x15..=0x19 | 0x36..=0x3a | 0xa9 => {
                    self.d.tag(local_op(op).unwrap());
                    self.n1(r)?;
                }
                0x84 => {
                    self.d.tag("iinc");
                    self.n1(r)?;
                    let v = r.u1()? as i8;
                    self.d.num(v as i64);
                }
                0x99..=0xa8 | 0xc6 | 0xc7 => {
                    self.d
                        .tag(BRANCH[if op >= 0xc6 { op - 0xc6 + 16 } else { op - 0x99 } as usize]);
                    let v = r.u2()? as i16 as i64;
                    self.d.num(v);
                    jump(v);
                }
                0xc8 | 0xc9 => {
                    self.d.tag(if op == 0xc8 { "goto" } else { "jsr" });
                    let v = r.u4()? as i32 as i64;
                    self.d.num(v);
                    jump(v);
                }
                0xaa | 0xab => {
                    self.d.tag(if op == 0xaa { "tableswitch" } else { "lookupswitch" });
                    let pad = (4 - (at + 1) % 4) % 4;
                    r.need(pad)?;
                    r.pos += pad;
                    let def = r.u4()? as i32 as i64;
                    self.d.num(def);
                    jump(def);
                    if op == 0xaa {
                        let low = r.u4()? as i32 as i64;
                        let high = r.u4()? as i32 as i64;
                        if low > high {
                            return rej(c16, "inverted switch range");
                        }
                        self.d.num(low);
                        self.d.num(high);
                        r.need(((high - low + 1) as usize).saturating_mul(4))?;
                        for _ in low..=high {
                            let v = r.u4()? as i32 as i64;
                            self.d.num(v);
                            jump(v);
                        }
                    } else {
                        let n = r.u4()? as i32 as i64;
                        if n < 0 {
                            return rej(c16, "negative pair count");
                        }
                        r.need((n as usize).saturating_mul(8))?;
                        let mut last = None;
                        for _ in 0..n {
                            let k = r.u4()? as i32 as i64;
                            let v = r.u4()? as i32 as i64;
                            self.d.num(k);
                            self.d.num(v);
                            jump(v);
                            if last.is_some_and(|l| l >= k) {
                                self.unspec = true; // must be sorted; the properties are silent
                            }
                            last = Some(k);
                        }
                    }
                }
                0xb2..=0xb5 => {
                    self.d
                        .tag(["getstatic", "putstatic", "getfield", "putfield"][op as usize - 0xb2]);
                    self.member_op(r, &[9], true)?;
                }
                0xb6 => {
                    self.d.tag("invokevirtual");
                    self.member_op(r, &[10], false)?;
                }
                0xb7 => {
                    self.d.tag("invokespecial");
                    self.member_op(r, &[10, 11], true)?;
                }
                0xb8 => {
                    self.d.tag("invokestatic");
                    self.member_op(r, &[10, 11], false)?;
                }
                0xb9 => {
                    self.d.tag("invokeinterface");
                    self.member_op(r, &[11], false)?;
                    if self.n1(r)? == 0 {
                        self.unspec = true;
                    }
                    if r.u1()? != 0 {
                        return rej(c16, "nonzero reserved byte");
                    }
                }
                0xba => {
                    self.d.tag("invokedynamic");
                    match *self.at(r.u2()?) {
                        Ent::Indy(x, n) => {
                            self.d.num(x as i64);
                            self.out_nat(n)?;
                        }
                        _ => return rej(c16, "call site operand of the wrong kind"),
                    }
                    if r.u2()? != 0 {
                        return rej(c16, "nonzero reserved bytes");
                    }
                }
                0xbb => {
                    self.d.tag("new");
                    let i = r.u2()?;
                    let t = self.class_at(i, c16)?;
                    if self.s(&t).starts_with('[') {
                        self.unspec = true;
                    }
                    self.d.rtext(&t);
                }
                0xbc => {
                    self.d.tag("newarray");
                    let k = r.u1()?;
                    if !(4..=11).contains(&k) {
                        return rej(c16, "bad array type");
                    }
                    self.d.tag(PRIM[k as usize - 4]);
                }
                0xbd | 0xc0 | 0xc1 => {
                    self.d.tag(match op {
                        0xbd => "anewarray",
                        0xc0 => "checkcast",
                        _ => "instanceof",
                    });
                    let dims = self.type_op(r)?;
                    if op == 0xbd && dims == 255 {
                        self.unspec = true;
                    }
                }
                0xc4 => {
                    let w = r.u1()?;
                    if w == 0x84 {
                        self.d.tag("iinc");
                        self.n2(r)?;
                        let v = r.u2()? as i16;
                        self.d.num(v as i64);
                    } else if let Some(name) = local_op(w) {
                        self.d.tag(name);
                        self.n2(r)?;
                    } else {
                        return rej(c16, "bad wide form");
                    }
                }
                0xc5 => {
                    self.d.tag("multianewarray");
                    let dims = self.type_op(r)?;
                    let n = self.n1(r)?;
                    if n == 0 || dims < n as usize {
                        self.unspec = true;
                    }
                }
                0xca => self.d.tag("breakpoint"),
                0xfe => self.d.tag("impdep1"),
                0xff => self.d.tag("impdep2"),
                _ => match simple_op(op) {
                    Some(n) => self.d.tag(n),
                    None => return rej(c16, "undefined opcode"),
                },
            }
            self.d.nl();
        }
        for (_, t) in jumps {
            if t < 0 || t >= starts.len() as i64 || !starts[t as usize] {
                return rej(p(17), "jump target is no instruction");
            }
        }
        self.d.pop(o);
        Ok(())
    }
}

pub const KNOWN: [&str; 30] = [
    "ConstantValue",
    "Code",
    "StackMapTable",
    "Exceptions",
    "InnerClasses",
    "EnclosingMethod",
    "Synthetic",
    "Signature",
    "SourceFile",
    "SourceDebugExtension",
    "LineNumberTable",
    "LocalVariableTable",
    "LocalVariableTypeTable",
    "Deprecated",
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
    "AnnotationDefault",
    "BootstrapMethods",
    "MethodParameters",
    "Module",
    "ModulePackages",
    "ModuleMainClass",
    "NestHost",
    "NestMembers",
    "PermittedSubclasses",
    "Record",
];

fn local_op(op: u8) -> Option<&'static str> {
    Some(match op {
        0x15 => "iload",
        0x16 => "lload",
        0x17 => "fload",
        0x18 => "dload",
        0x19 => "aload",
        0x36 => "istore",
        0x37 => "lstore",
        0x38 => "fstore",
        0x39 => "dstore",
        0x3a => "astore",
        0xa9 => "ret",
        _ => return None,
    })
}

pub const PRIM: [&str; 8] = ["boolean", "char", "float", "double", "byte", "short", "int", "long"];
const BRANCH: [&str; 18] = [
    "ifeq",
    "ifne",
    "iflt",
    "ifge",
    "ifgt",
    "ifle",
    "if_icmpeq",
    "if_icmpne",
    "if_icmplt",
    "if_icmpge",
    "if_icmpgt",
    "if_icmple",
    "if_acmpeq",
    "if_acmpne",
    "goto",
    "jsr",
    "ifnull",
    "ifnonnull",
];

/// Operand-free instructions by opcode (JVMS 7).
fn simple_op(op: u8) -> Option<&'static str> {
    const A: [&str; 16] = [
        "nop",
        "aconst_null",
        "iconst_m1",
        "iconst_0",
        "iconst_1",
        "iconst_2",
        "iconst_3",
        "iconst_4",
        "iconst_5",
        "lconst_0",
        "lconst_1",
        "fconst_0",
        "fconst_1",
        "fconst_2",
        "dconst_0",
        "dconst_1",
    ];
    const B: [&str; 8] = [
        "iaload", "laload", "faload", "daload", "aaload", "baload", "caload", "saload",
    ];
    const C: [&str; 53] = [
        "iastore", "lastore", "fastore", "dastore", "aastore", "bastore", "castore", "sastore", "pop", "pop2", "dup",
        "dup_x1", "dup_x2", "dup2", "dup2_x1", "dup2_x2", "swap", "iadd", "ladd", "fadd", "dadd", "isub", "lsub",
        "fsub", "dsub", "imul", "lmul", "fmul", "dmul", "idiv", "ldiv", "fdiv", "ddiv", "irem", "lrem", "frem", "drem",
        "ineg", "lneg", "fneg", "dneg", "ishl", "lshl", "ishr", "lshr", "iushr", "lushr", "iand", "land", "ior", "lor",
        "ixor", "lxor",
    ];
    const D: [&str; 20] = [
        "i2l", "i2f", "i2d", "l2i", "l2f", "l2d", "f2i", "f2l", "f2d", "d2i", "d2l", "d2f", "i2b", "i2c", "i2s",
        "lcmp", "fcmpl", "fcmpg", "dcmpl", "dcmpg",
    ];
    const E: [&str; 6] = ["ireturn", "lreturn", "freturn", "dreturn", "areturn", "return"];
    let o = op as usize;
    Some(match op {
        0x00..=0x0f => A[o],
        0x2e..=0x35 => B[o - 0x2e],
        0x4f..=0x83 => C[o - 0x4f],
        0x85..=0x98 => D[o - 0x85],
        0xac..=0xb1 => E[o - 0xac],
        0xbe => "arraylength",
        0xbf => "athrow",
        0xc2 => "monitorenter",
        0xc3 => "monitorexit",
        _ => return None,
    })
}
