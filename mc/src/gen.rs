//! Generators: palette pools, one choice-driven generator per attribute kind, whole classes, seeds.
use crate::asm::*;
use crate::engine::Ch;

/// A class skeleton whose pool holds at least one entry of every kind the version allows.
pub struct Pal {
    pub major: u16,
    pub module: bool,
    pub c: Class,
    pub head: Vec<u8>,
    names: Vec<(String, u16)>,
    /// one index per kind of entry, and the unusual ones (0, unusable slot, out of range, ...)
    pub reps: Vec<u16>,
    /// every index from 0 to one past the end, and some above
    pub every: Vec<u16>,
    pub this: u16,
    pub cls: u16,
    pub cls2: u16,
    pub arr: u16,
    pub text: u16,
    pub name: u16,
    pub name2: u16,
    pub fdesc: u16,
    pub odesc: u16,
    pub mdesc: u16,
    pub vdesc: u16,
    pub int: u16,
    pub float: u16,
    pub long: u16,
    pub double: u16,
    pub string: u16,
    pub fref: u16,
    pub mref: u16,
    pub imref: u16,
    pub nat: u16,
    pub natm: u16,
    pub handle: u16,
    pub mtype: u16,
    pub dynamic: u16,
    pub indy: u16,
    pub module_ix: u16,
    pub module2: u16,
    pub package: u16,
    pub raw: u16,
    pub reenc: u16,
    pub empty: u16,
    pub bsm: Option<Vec<u8>>,
    tmpl: Option<Attr>,
}

/// Where an attribute is placed.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Host {
    Class,
    Field,
    Method,
    Code,
    Record,
}
pub const HOSTS: [Host; 5] = [Host::Class, Host::Field, Host::Method, Host::Code, Host::Record];

impl Pal {
    pub fn new(major: u16, module: bool, attrs: &[&str]) -> Pal {
        let mut c = if module { Class::new_module(major) } else { Class::new(major) };
        let q = &mut c.pool;
        let mut reps = vec![0u16];
        let this = c.this;
        let cls = q.class("p/C");
        let cls2 = q.class("p/D");
        let int = q.int(-0x01020304);
        let float = q.float(0x40490fdb);
        let long = q.long(-0x0102030405060708);
        let double = q.double(0x400921fb54442d18);
        let text = q.utf8("some text");
        let name = q.utf8("nm");
        let name2 = q.utf8("other");
        let fdesc = q.utf8("[[J");
        let odesc = q.utf8("Lx/Y;");
        let mdesc = q.utf8("(I[Lx;)V");
        let vdesc = q.utf8("V");
        let empty = q.utf8("");
        let dotted = q.utf8("a.b");
        let init = q.utf8("<init>");
        let trail = q.utf8("II");
        let raw = q.utf8b(&[0x61, 0xED, 0xA0, 0x80]);
        let reenc = q.utf8b(&[0x6e, 0xC0, 0x80, 0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80]);
        let arr = q.class("[Lx/Y;");
        let string = q.string(b"some text");
        let sraw = q.e2(8, raw);
        let fref = q.member(9, "p/C", "nm", "[[J");
        let mref = q.member(10, "p/D", "m", "(I)J");
        let imref = q.member(11, "p/C", "im", "()V");
        let nat = q.nat("nm", "[[J");
        let natm = q.nat("m", "(I)J");
        reps.extend([this, cls, cls2, arr, int, float, long, long + 1, double, text, name, fdesc, odesc, mdesc, vdesc]);
        reps.extend([empty, dotted, init, trail, raw, reenc, string, sraw, fref, mref, imref, nat, natm]);
        let (mut handle, mut mtype, mut dynamic, mut indy) = (0, 0, 0, 0);
        let mut bsm = None;
        let mut names: Vec<(String, u16)> = vec![];
        if major >= 51 {
            handle = q.handle(6, mref);
            let h2 = q.handle(1, fref);
            mtype = q.mtype("(I[Lx;)V");
            indy = q.dynamic(18, 1, "call", "(J)Ly;");
            reps.extend([handle, h2, mtype, indy]);
            if major >= 55 {
                dynamic = q.dynamic(17, 0, "con", "D");
                reps.push(dynamic);
            }
            let n = q.utf8("BootstrapMethods");
            names.push(("BootstrapMethods".into(), n));
            let body = W::new().b2(2).i2(handle).b2(0).i2(handle).b2(1).i2(int).done();
            let mut o = vec![];
            Attr { name: n, len: None, body }.put(&mut o);
            bsm = Some(o);
        }
        let (mut module_ix, mut module2, mut package) = (0, 0, 0);
        if module {
            module_ix = q.module("mod.a");
            module2 = q.module("mod\\@b");
            package = q.package("pk/g");
            reps.extend([module_ix, module2, package]);
        }
        for a in ["Code", "Record"] {
            names.push((a.into(), q.utf8(a)));
        }
        for a in attrs {
            names.push((a.to_string(), q.utf8(a)));
        }
        let next = q.next as u16;
        reps.extend([next, 256 + cls, 65535]);
        let mut every: Vec<u16> = (0..=next + 1).collect();
        every.extend([256 + cls, 256 * cls, 65535]);
        let b = c.bytes();
        // drop: flags.. (this, super, no interfaces, fields, methods, attributes = 14 bytes)
        let head = b[..b.len() - 14].to_vec();
        Pal {
            major,
            module,
            c,
            head,
            names,
            reps,
            every,
            this,
            cls,
            cls2,
            arr,
            text,
            name,
            name2,
            fdesc,
            odesc,
            mdesc,
            vdesc,
            int,
            float,
            long,
            double,
            string,
            fref,
            mref,
            imref,
            nat,
            natm,
            handle,
            mtype,
            dynamic,
            indy,
            module_ix,
            module2,
            package,
            raw,
            reenc,
            empty,
            bsm,
            tmpl: None,
        }
    }
    /// The attribute generated at the second attribute position of every class (for nesting).
    pub fn with_template(mut self, a: Attr) -> Pal {
        self.tmpl = Some(a);
        self
    }
    pub fn aname(&self, n: &str) -> u16 {
        self.names.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("attribute name {} missing", n)).1
    }
    pub fn attr(&self, n: &str, body: Vec<u8>) -> Attr {
        Attr { name: self.aname(n), len: None, body }
    }
    /// The class file with these attributes at the given place.
    pub fn put(&self, host: Host, attrs: &[Attr]) -> Vec<u8> {
        let a = attrs_bytes(attrs);
        self.put_raw(host, &a)
    }
    /// As `put`, with the attribute list (count included) given as bytes.
    pub fn put_raw(&self, host: Host, attrs: &[u8]) -> Vec<u8> {
        let mut o = Vec::with_capacity(self.head.len() + attrs.len() + 96);
        o.extend_from_slice(&self.head);
        let w = |o: &mut Vec<u8>, v: u16| o.extend_from_slice(&v.to_be_bytes());
        w(&mut o, self.c.flags);
        w(&mut o, self.c.this);
        w(&mut o, self.c.sup);
        w(&mut o, 0);
        if host == Host::Field {
            w(&mut o, 1);
            w(&mut o, 2);
            w(&mut o, self.name);
            w(&mut o, self.fdesc);
            o.extend_from_slice(attrs);
        } else {
            w(&mut o, 0);
        }
        match host {
            Host::Method => {
                w(&mut o, 1);
                w(&mut o, 1);
                w(&mut o, self.name2);
                w(&mut o, self.mdesc);
                o.extend_from_slice(attrs);
            }
            Host::Code => {
                w(&mut o, 1);
                w(&mut o, 1);
                w(&mut o, self.name2);
                w(&mut o, self.mdesc);
                w(&mut o, 1);
                w(&mut o, self.aname("Code"));
                let body = [&[0, 2, 0, 3, 0, 0, 0, 1, 0xb1, 0, 0][..], attrs].concat();
                o.extend_from_slice(&(body.len() as u32).to_be_bytes());
                o.extend_from_slice(&body);
            }
            _ => w(&mut o, 0),
        }
        let more = self.bsm.is_some() as u16;
        match host {
            Host::Class => {
                let n = u16::from_be_bytes([attrs[0], attrs[1]]);
                w(&mut o, n.wrapping_add(more));
                o.extend_from_slice(&attrs[2..]);
            }
            Host::Record => {
                w(&mut o, 1 + more);
                w(&mut o, self.aname("Record"));
                let mut body = vec![0, 1];
                w(&mut body, self.name);
                w(&mut body, self.fdesc);
                body.extend_from_slice(attrs);
                o.extend_from_slice(&(body.len() as u32).to_be_bytes());
                o.extend_from_slice(&body);
            }
            _ => w(&mut o, more),
        }
        if let Some(b) = &self.bsm {
            o.extend_from_slice(b);
        }
        o
    }
    /// A class whose only method has the given body, exception table and code attributes.
    pub fn with_code(&self, code: &[u8], table: &[[u16; 4]], attrs: &[Attr]) -> Vec<u8> {
        let body = code_body(3, 4, code, table, attrs);
        self.put(Host::Method, &[self.attr("Code", body)])
    }
    pub fn ix(&self, ch: &mut Ch, default: u16) -> u16 {
        match ch.pick(self.reps.len() + 1) {
            0 => default,
            k => self.reps[k - 1],
        }
    }
}

pub const U2: [u16; 12] = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x1234];
pub fn u2v(ch: &mut Ch, default: u16) -> u16 {
    match ch.pick(U2.len() + 1) {
        0 => default,
        k => U2[k - 1],
    }
}
pub const U1: [u8; 9] = [0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xfe, 0xff];
pub fn u1v(ch: &mut Ch, default: u8) -> u8 {
    match ch.pick(U1.len() + 1) {
        0 => default,
        k => U1[k - 1],
    }
}
/// (declared, actual) number of elements; `d` by default.
pub fn count(ch: &mut Ch, d: usize) -> (u32, usize) {
    let alts = [d, 0, 1, 2, 3];
    let n = match ch.long() {
        Some(n) => n,
        None => alts[ch.pick(5)],
    };
    let decl = match ch.pick(4) {
        0 => n as u32,
        1 => n as u32 + 1,
        2 => (n as u32).wrapping_sub(1) & 0xffff,
        _ => 0xffff,
    };
    (decl, n)
}

// ---------------------------------------------------------------- attribute contents

pub const EV_TAGS: [u8; 20] = *b"IBCDFJSZsec@[V\0Li\xffb\x40";

pub fn element_value(ch: &mut Ch, p: &Pal, w: W, depth: usize, dflt: u8) -> W {
    let tag = match ch.pick(EV_TAGS.len() + 1) {
        0 => dflt,
        k => EV_TAGS[k - 1],
    };
    let w = w.b1(tag as u32);
    match tag {
        b'D' => w.i2(p.ix(ch, p.double)),
        b'F' => w.i2(p.ix(ch, p.float)),
        b'J' => w.i2(p.ix(ch, p.long)),
        b's' => w.i2(p.ix(ch, p.text)),
        b'e' => {
            let a = p.ix(ch, p.odesc);
            w.i2(a).i2(p.ix(ch, p.name))
        }
        b'c' => w.i2(p.ix(ch, p.vdesc)),
        b'@' if depth > 0 => annotation(ch, p, w, depth - 1),
        b'[' if depth > 0 => {
            let (d, n) = count(ch, 2);
            let mut w = w.b2(d);
            for i in 0..n {
                let it0 = ch.begin(i, n);
                w = element_value(ch, p, w, depth - 1, if i == 0 { b'I' } else { b's' });
                ch.end(it0);
            }
            w
        }
        b'@' => w.i2(p.odesc).b2(0),
        b'[' => w.b2(0),
        _ => w.i2(p.ix(ch, p.int)),
    }
}
pub fn annotation(ch: &mut Ch, p: &Pal, w: W, depth: usize) -> W {
    let t = p.ix(ch, p.odesc);
    let (d, n) = count(ch, 2);
    let mut w = w.i2(t).b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        w = w.i2(p.ix(ch, if i == 0 { p.name } else { p.name2 }));
        w = element_value(ch, p, w, depth, [b'J', b'e', b'F'][i % 3]);
        ch.end(it0);
    }
    w
}
pub fn annotations(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b2(d);
    for k in 0..n {
        let it0 = ch.begin(k, n);
        w = annotation(ch, p, w, 2);
        ch.end(it0);
    }
    w.done()
}
pub fn parameter_annotations(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b1(d);
    for k in 0..n {
        let it0 = ch.begin(k, n);
        w = w.raw(&annotations1(ch, p));
        ch.end(it0);
    }
    w.done()
}
fn annotations1(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 1);
    let mut w = W::new().b2(d);
    for k in 0..n {
        let it0 = ch.begin(k, n);
        w = annotation(ch, p, w, 1);
        ch.end(it0);
    }
    w.done()
}
pub const TARGETS: [u8; 29] = [
    0x00, 0x01, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48,
    0x49, 0x4a, 0x4b, 0x02, 0x0f, 0x18, 0x3f, 0x4c, 0x80, 0xff,
];
pub fn type_annotation(ch: &mut Ch, p: &Pal, w: W, dflt: u8) -> W {
    let t = match ch.pick(TARGETS.len() + 1) {
        0 => dflt,
        k => TARGETS[k - 1],
    };
    let mut w = w.b1(t as u32);
    match t {
        0x00 | 0x01 | 0x16 => w = w.b1(u1v(ch, 7) as u32),
        0x10 | 0x17 | 0x42..=0x46 => w = w.i2(u2v(ch, 0x0708)),
        0x11 | 0x12 => {
            w = w.b1(u1v(ch, 5) as u32);
            w = w.b1(u1v(ch, 6) as u32)
        }
        0x40 | 0x41 => {
            let (d, n) = count(ch, 2);
            w = w.b2(d);
            for i in 0..n {
                let it0 = ch.begin(i, n);
                let i = i as u16;
                for j in 0..3 {
                    w = w.i2(u2v(ch, (0x0203 + j * 0x0404u16).wrapping_add(i.wrapping_mul(0x1111))));
                }
                ch.end(it0);
            }
        }
        0x47..=0x4b => {
            w = w.i2(u2v(ch, 0x0a0b));
            w = w.b1(u1v(ch, 9) as u32)
        }
        _ => (),
    }
    let (d, n) = count(ch, 2);
    w = w.b1(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        let i = i as u8;
        w = w.b1(ch.of(&[i % 4, 0, 1, 2, 3, 4, 255]) as u32);
        w = w.b1(u1v(ch, i.wrapping_add(0x11)) as u32);
        ch.end(it0);
    }
    annotation(ch, p, w, 1)
}
pub fn type_annotations(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        w = type_annotation(ch, p, w, [0x40, 0x47, 0x11][i % 3]);
        ch.end(it0);
    }
    w.done()
}

pub fn vtype(ch: &mut Ch, p: &Pal, w: W, dflt: u8) -> W {
    let t = match ch.pick(13) {
        0 => dflt,
        k @ 1..=10 => k as u8 - 1,
        11 => 0x80,
        _ => 0xff,
    };
    let w = w.b1(t as u32);
    match t {
        7 => w.i2(p.ix(ch, p.cls)),
        8 => w.i2(u2v(ch, 0x0102)),
        _ => w,
    }
}
pub const FRAMES: [u8; 18] = [0, 1, 63, 64, 65, 127, 128, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 200];
pub fn frame(ch: &mut Ch, p: &Pal, w: W, dflt: u8) -> W {
    let t = match ch.pick(FRAMES.len() + 1) {
        0 => dflt,
        k => FRAMES[k - 1],
    };
    let mut w = w.b1(t as u32);
    match t {
        64..=127 => w = vtype(ch, p, w, 7),
        247 => {
            w = w.i2(u2v(ch, 0x0304));
            w = vtype(ch, p, w, 8)
        }
        248..=251 => w = w.i2(u2v(ch, 0x0405)),
        252..=254 => {
            w = w.i2(u2v(ch, 0x0506));
            for i in 251..t {
                w = vtype(ch, p, w, [7, 1, 4][(i - 251) as usize]);
            }
        }
        255 => {
            w = w.i2(u2v(ch, 0x0607));
            for l in [[7u8, 3, 0], [8, 2, 5]] {
                let (d, n) = count(ch, 2);
                w = w.b2(d);
                for i in 0..n {
                    let it = ch.begin(i, n);
                    w = vtype(ch, p, w, l[i % 3]);
                    ch.end(it);
                }
            }
        }
        _ => (),
    }
    w
}
pub fn stack_map(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        w = frame(ch, p, w, [255, 253, 70][i % 3]);
        ch.end(it0);
    }
    w.done()
}
pub fn line_numbers(ch: &mut Ch, _: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        let i = i as u16;
        w = w.i2(u2v(ch, i.wrapping_mul(0x2020).wrapping_add(0x0102)));
        w = w.i2(u2v(ch, i.wrapping_mul(0x2020).wrapping_add(0x0304)));
        ch.end(it0);
    }
    w.done()
}
fn locals(ch: &mut Ch, p: &Pal, what: u16) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        let i = i as u16;
        w = w.i2(u2v(ch, i.wrapping_mul(0x2020).wrapping_add(0x0102)));
        w = w.i2(u2v(ch, i.wrapping_mul(0x2020).wrapping_add(0x0304)));
        w = w.i2(p.ix(ch, if i == 0 { p.name } else { p.name2 }));
        w = w.i2(p.ix(ch, if i == 0 { what } else { p.odesc }));
        w = w.i2(u2v(ch, i.wrapping_mul(0x2020).wrapping_add(0x0506)));
        ch.end(it0);
    }
    w.done()
}
pub fn local_variables(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    locals(ch, p, p.fdesc)
}
pub fn local_variable_types(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    locals(ch, p, p.text)
}
fn indices(ch: &mut Ch, p: &Pal, a: u16, b: u16) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        w = w.i2(p.ix(ch, if i == 0 { a } else { b }));
        ch.end(it0);
    }
    w.done()
}
pub fn classes(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    indices(ch, p, p.cls, p.cls2)
}
pub fn packages(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    indices(ch, p, p.package, p.package)
}
pub fn one_class(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    p.ix(ch, p.cls2).to_be_bytes().to_vec()
}
pub fn one_text(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    p.ix(ch, p.text).to_be_bytes().to_vec()
}
pub fn constant_value(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    p.ix(ch, p.long).to_be_bytes().to_vec()
}
pub fn nothing(_: &mut Ch, _: &Pal) -> Vec<u8> {
    vec![]
}
pub fn bytes(ch: &mut Ch, _: &Pal) -> Vec<u8> {
    ch.of(&[&b"xyz"[..], b"", b"\0", b"\xff\xfe", b"abcdefgh"]).to_vec()
}
pub fn debug_text(ch: &mut Ch, _: &Pal) -> Vec<u8> {
    ch.of(&[
        &b"dbg"[..],
        b"",
        b"\0",
        b"\xc3\xa9",
        b"\xc0\x80",
        b"\xed\xa0\xbd\xed\xb8\x80",
        b"\xed\xa0\xbd",
        b"\xed\xb8\x80\xed\xa0\xbd",
        b"\xf0\x9f\x98\x80",
        b"a\xff",
        b"\xc1\x81",
        b"\xe0\x81\x81",
        b"\x80",
        b"\xe2\x82",
    ])
    .to_vec()
}
pub fn inner_classes(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        w = w.i2(p.ix(ch, if i == 0 { p.cls } else { p.cls2 }));
        w = w.i2(p.ix(ch, if i == 0 { p.cls2 } else { 0 }));
        w = w.i2(p.ix(ch, if i == 0 { p.name } else { 0 }));
        w = w.i2(u2v(ch, if i == 0 { 0x0009 } else { 0x0600 }));
        ch.end(it0);
    }
    w.done()
}
pub fn enclosing_method(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let a = p.ix(ch, p.cls2);
    W::new().i2(a).i2(p.ix(ch, p.natm)).done()
}
pub fn bootstrap_methods(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        w = w.i2(p.ix(ch, p.handle));
        let (d, m) = count(ch, 2);
        w = w.b2(d);
        for j in 0..m {
            let it1 = ch.begin(j, m);
            w = w.i2(p.ix(ch, [p.int, p.cls, p.string, p.mtype][(2 * i + j) % 4]));
            ch.end(it1);
        }
        ch.end(it0);
    }
    w.done()
}
pub const PFLAGS: [u16; 14] = [0x0010, 0, 0x1000, 0x8000, 0x9010, 0x9000, 0x0001, 0x0020, 0x0040, 0x0060, 0x4000, 0x0100, 0x0008, 0xffff];
pub fn method_parameters(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b1(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        w = w.i2(p.ix(ch, if i == 0 { p.name } else { 0 }));
        w = w.i2(ch.of(&PFLAGS));
        ch.end(it0);
    }
    w.done()
}
pub fn module(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let mut w = W::new().i2(p.ix(ch, p.module_ix));
    w = w.i2(match ch.pick(PFLAGS.len() + 1) {
        0 => 0x0020,
        k => PFLAGS[k - 1],
    });
    w = w.i2(p.ix(ch, p.text));
    let (d, n) = count(ch, 2);
    w = w.b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        w = w.i2(p.ix(ch, p.module2));
        w = w.i2(match ch.pick(PFLAGS.len() + 1) {
            0 => [0x0040u16, 0x8020][i % 2],
            k => PFLAGS[k - 1],
        });
        w = w.i2(p.ix(ch, if i == 0 { 0 } else { p.text }));
        ch.end(it0);
    }
    for _ in 0..2 {
        let (d, n) = count(ch, 2);
        w = w.b2(d);
        for i in 0..n {
            let it0 = ch.begin(i, n);
            w = w.i2(p.ix(ch, p.package));
            w = w.i2(match ch.pick(PFLAGS.len() + 1) {
                0 => [0x1000u16, 0x8000][i % 2],
                k => PFLAGS[k - 1],
            });
            w = w.raw(&indices(ch, p, p.module_ix, p.module2));
            ch.end(it0);
        }
    }
    w = w.raw(&classes(ch, p));
    let (d, n) = count(ch, 2);
    w = w.b2(d);
    for k in 0..n {
        let it0 = ch.begin(k, n);
        w = w.i2(p.ix(ch, p.cls));
        w = w.raw(&classes(ch, p));
        ch.end(it0);
    }
    w.done()
}
pub fn record(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let (d, n) = count(ch, 2);
    let mut w = W::new().b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        w = w.i2(p.ix(ch, if i == 0 { p.name } else { p.name2 }));
        w = w.i2(p.ix(ch, if i == 0 { p.fdesc } else { p.odesc }));
        let t = p.tmpl.clone().unwrap_or(Attr { name: p.text, len: None, body: vec![1, 2, 3] });
        let k = ch.of(&[1usize, 0, 2]);
        w = w.raw(&attrs_bytes(&vec![t; k]));
        ch.end(it0);
    }
    w.done()
}
/// Code attribute with every field chosen.
pub fn code(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    let ms = u2v(ch, 0x0102);
    let ml = u2v(ch, 0x0304);
    let code: &[u8] = ch.of(&[&[0x03u8, 0x57, 0xb1][..], &[0xb1], &[], &[0x00; 17], &[0xa7, 0, 3, 0xb1], &[0xa7, 0, 1], &[0xcb]]);
    let cl = match ch.pick(6) {
        0 => code.len() as u32,
        1 => code.len() as u32 + 1,
        2 => (code.len() as u32).wrapping_sub(1),
        3 => 0x7fff_ffff,
        4 => 0x8000_0000,
        _ => 0x0001_0000 + code.len() as u32,
    };
    let (d, n) = count(ch, 2);
    let mut w = W::new().i2(ms).i2(ml).b4(cl).raw(code).b2(d);
    for i in 0..n {
        let it0 = ch.begin(i, n);
        let i = i as u16;
        for j in 0..3 {
            w = w.i2(u2v(ch, (0x0203 + j * 0x0404u16).wrapping_add(i.wrapping_mul(0x1111))));
        }
        w = w.i2(p.ix(ch, if i == 0 { p.cls } else { 0 }));
        ch.end(it0);
    }
    let a = match ch.pick(5) {
        0 => vec![p.attr("LineNumberTable", vec![0, 1, 1, 2, 3, 4])],
        1 => vec![],
        2 => vec![p.attr("LineNumberTable", vec![0, 1, 0, 0, 0, 9]), p.attr("StackMapTable", vec![0, 1, 5])],
        3 => vec![p.attr("StackMapTable", vec![0, 1, 5]), p.attr("LineNumberTable", vec![0, 1, 0, 0, 0, 9])],
        _ => vec![Attr { name: p.text, len: None, body: vec![7, 8, 9] }],
    };
    w.raw(&attrs_bytes(&a)).done()
}

pub type Fam = fn(&mut Ch, &Pal) -> Vec<u8>;
pub struct Family {
    pub attr: &'static str,
    pub f: Fam,
    pub module: bool,
    pub host: Host,
    /// the property that owns the contents
    pub prop: u32,
}
const fn fam(attr: &'static str, f: Fam, host: Host, prop: u32) -> Family {
    Family { attr, f, module: false, host, prop }
}
pub const FAMILIES: [Family; 33] = [
    fam("ConstantValue", constant_value, Host::Field, 13),
    fam("Code", code, Host::Method, 11),
    fam("StackMapTable", stack_map, Host::Code, 11),
    fam("Exceptions", classes, Host::Method, 13),
    fam("InnerClasses", inner_classes, Host::Class, 13),
    fam("EnclosingMethod", enclosing_method, Host::Class, 13),
    fam("Synthetic", nothing, Host::Field, 13),
    fam("Signature", one_text, Host::Class, 13),
    fam("SourceFile", one_text, Host::Class, 13),
    fam("SourceDebugExtension", debug_text, Host::Class, 13),
    fam("LineNumberTable", line_numbers, Host::Code, 11),
    fam("LocalVariableTable", local_variables, Host::Code, 11),
    fam("LocalVariableTypeTable", local_variable_types, Host::Code, 11),
    fam("Deprecated", nothing, Host::Class, 13),
    fam("RuntimeVisibleAnnotations", annotations, Host::Class, 12),
    fam("RuntimeInvisibleAnnotations", annotations, Host::Field, 12),
    fam("RuntimeVisibleParameterAnnotations", parameter_annotations, Host::Method, 12),
    fam("RuntimeInvisibleParameterAnnotations", parameter_annotations, Host::Method, 12),
    fam("RuntimeVisibleTypeAnnotations", type_annotations, Host::Code, 12),
    fam("RuntimeInvisibleTypeAnnotations", type_annotations, Host::Class, 12),
    fam("AnnotationDefault", annotation_default, Host::Method, 12),
    fam("BootstrapMethods", bootstrap_methods, Host::Field, 13),
    fam("MethodParameters", method_parameters, Host::Method, 13),
    Family { attr: "Module", f: module, module: true, host: Host::Class, prop: 13 },
    Family { attr: "ModulePackages", f: packages, module: true, host: Host::Class, prop: 13 },
    Family { attr: "ModuleMainClass", f: one_class, module: true, host: Host::Class, prop: 13 },
    fam("NestHost", one_class, Host::Class, 13),
    fam("NestMembers", classes, Host::Class, 13),
    fam("PermittedSubclasses", classes, Host::Class, 13),
    fam("Record", record, Host::Class, 13),
    fam("Unknown", bytes, Host::Class, 13),
    fam("code", bytes, Host::Class, 13),
    fam("Synthetic ", bytes, Host::Method, 13),
];
pub fn annotation_default(ch: &mut Ch, p: &Pal) -> Vec<u8> {
    element_value(ch, p, W::new(), 3, b'[').done()
}

/// Names every palette used with a family needs.
pub fn family_names(f: &Family) -> Vec<&'static str> {
    let mut v = vec![f.attr];
    if f.attr == "Code" {
        v.extend(["LineNumberTable", "StackMapTable"]);
    }
    v
}
pub fn family_pal(f: &Family) -> Pal {
    let major = if f.module { 55 } else { 61 };
    Pal::new(major, f.module, &family_names(f))
}

/// The default members of all families: (label, bytes, first byte after the pool).
pub fn family_seeds() -> Vec<(String, Vec<u8>, usize)> {
    let mut v = vec![];
    for f in &FAMILIES {
        let p = family_pal(f);
        let mut ch = Ch::fixed(&[]);
        let body = (f.f)(&mut ch, &p);
        let a = p.attr(f.attr, body);
        v.push((f.attr.to_string(), p.put(f.host, &[a]), p.head.len()));
    }
    v
}

/// Every attribute kind at every place at once.
pub fn everything(major: u16) -> Vec<u8> {
    let mut names: Vec<&str> = FAMILIES.iter().filter(|f| !f.module).map(|f| f.attr).collect();
    names.sort();
    names.dedup();
    let p = Pal::new(major, false, &names);
    let mut at: [Vec<Attr>; 5] = Default::default();
    for f in FAMILIES.iter().filter(|f| !f.module) {
        let slot = HOSTS.iter().position(|h| *h == f.host).unwrap();
        if f.attr == "BootstrapMethods" || f.attr == "Code" || f.attr == "Record" {
            continue;
        }
        let mut ch = Ch::fixed(&[]);
        let body = (f.f)(&mut ch, &p);
        at[slot].push(p.attr(f.attr, body.clone()));
        if ["Signature", "Deprecated", "RuntimeVisibleAnnotations"].contains(&f.attr) {
            for (i, h) in HOSTS.iter().enumerate() {
                if *h != f.host {
                    at[i].push(p.attr(f.attr, body.clone()));
                }
            }
        }
    }
    let mut c = p.c.clone();
    c.ifs = vec![p.cls, p.cls2];
    let mut m = W::new().b1(0x12).b1(p.int as u32).b1(0x15).b1(3);
    m = m.b1(0xb6).i2(p.mref).b1(0xb2).i2(p.fref).b1(0xc4).b1(0x84).b2(0x0102).b2(0xfffe);
    if p.indy != 0 {
        m = m.b1(0xba).i2(p.indy).b2(0);
    }
    while m.0.len() % 4 != 3 {
        m = m.b1(0);
    }
    m = m.b1(0xaa).b4(24).b4(1).b4(2).b4(23).b4(24);
    while m.0.len() % 4 != 3 {
        m = m.b1(0);
    }
    m = m.b1(0xab).b4(25).b4(2).b4(5).b4(26).b4(9).b4(27);
    m = m.b1(0xb1).b1(0xb1).b1(0xa7).b2(0xffff).b1(0xb1);
    c.methods.push(Member {
        flags: 9,
        name: p.name2,
        desc: p.mdesc,
        attrs: {
            let mut a = at[2].clone();
            a.push(p.attr("Code", code_body(2, 9, &m.0, &[[0, 4, 4, p.cls], [0, 9, 1, 0]], &at[3])));
            a
        },
    });
    c.methods.push(Member { flags: 0x401, name: p.name, desc: p.mdesc, attrs: vec![] });
    c.fields.push(Member { flags: 0x19, name: p.name, desc: p.fdesc, attrs: at[1].clone() });
    c.fields.push(Member { flags: 2, name: p.name2, desc: p.odesc, attrs: vec![] });
    c.attrs = at[0].clone();
    let body = W::new().b2(1).i2(p.name).i2(p.odesc).raw(&attrs_bytes(&at[4])).done();
    c.attrs.push(p.attr("Record", body));
    if p.handle != 0 {
        c.attrs.push(p.attr("BootstrapMethods", W::new().b2(2).i2(p.handle).b2(1).i2(p.string).i2(p.handle).b2(0).done()));
    }
    c.bytes()
}
pub fn everything_module(major: u16) -> Vec<u8> {
    let fams: Vec<&Family> =
        FAMILIES.iter().filter(|f| f.module || ["SourceFile", "InnerClasses", "RuntimeVisibleAnnotations"].contains(&f.attr)).collect();
    let names: Vec<&str> = fams.iter().map(|f| f.attr).collect();
    let p = Pal::new(major, true, &names);
    let a: Vec<Attr> = fams
        .iter()
        .map(|f| {
            let mut ch = Ch::fixed(&[]);
            p.attr(f.attr, (f.f)(&mut ch, &p))
        })
        .collect();
    p.put(Host::Class, &a)
}
/// The smallest class files.
pub fn tiny(major: u16) -> Vec<u8> {
    Class::new(major).bytes()
}
