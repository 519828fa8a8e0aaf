//! Class file assembler used by the generators. It writes whatever it is told to, legal or not.
use std::collections::HashMap;

#[derive(Clone, Default)]
pub struct Pool {
    pub bytes: Vec<u8>,
    pub next: u32,
    map: HashMap<Vec<u8>, u16>,
}

pub fn u2(v: u32) -> [u8; 2] {
    (v as u16).to_be_bytes()
}

impl Pool {
    pub fn new() -> Self {
        Pool {
            bytes: vec![],
            next: 1,
            map: HashMap::new(),
        }
    }
    /// Appends an entry verbatim (no sharing) and returns its index.
    pub fn push(&mut self, e: &[u8]) -> u16 {
        let ix = self.next as u16;
        self.bytes.extend_from_slice(e);
        self.next += if e[0] == 5 || e[0] == 6 { 2 } else { 1 };
        ix
    }
    fn intern(&mut self, e: Vec<u8>) -> u16 {
        if let Some(i) = self.map.get(&e) {
            return *i;
        }
        let i = self.push(&e);
        self.map.insert(e, i);
        i
    }
    pub fn e2(&mut self, tag: u8, a: u16) -> u16 {
        self.intern([&[tag][..], &a.to_be_bytes()].concat())
    }
    pub fn e4(&mut self, tag: u8, a: u16, b: u16) -> u16 {
        self.intern([&[tag][..], &a.to_be_bytes(), &b.to_be_bytes()].concat())
    }
    pub fn utf8b(&mut self, s: &[u8]) -> u16 {
        self.intern([&[1][..], &u2(s.len() as u32), s].concat())
    }
    pub fn utf8(&mut self, s: &str) -> u16 {
        self.utf8b(s.as_bytes())
    }
    pub fn int(&mut self, v: i32) -> u16 {
        self.intern([&[3][..], &v.to_be_bytes()].concat())
    }
    pub fn float(&mut self, v: u32) -> u16 {
        self.intern([&[4][..], &v.to_be_bytes()].concat())
    }
    pub fn long(&mut self, v: i64) -> u16 {
        self.intern([&[5][..], &v.to_be_bytes()].concat())
    }
    pub fn double(&mut self, v: u64) -> u16 {
        self.intern([&[6][..], &v.to_be_bytes()].concat())
    }
    pub fn class(&mut self, s: &str) -> u16 {
        let n = self.utf8(s);
        self.e2(7, n)
    }
    pub fn classb(&mut self, s: &[u8]) -> u16 {
        let n = self.utf8b(s);
        self.e2(7, n)
    }
    pub fn string(&mut self, s: &[u8]) -> u16 {
        let n = self.utf8b(s);
        self.e2(8, n)
    }
    pub fn nat(&mut self, n: &str, d: &str) -> u16 {
        let n = self.utf8(n);
        let d = self.utf8(d);
        self.e4(12, n, d)
    }
    /// tag 9 field, 10 method, 11 interface method
    pub fn member(&mut self, tag: u8, c: &str, n: &str, d: &str) -> u16 {
        let c = self.class(c);
        let n = self.nat(n, d);
        self.e4(tag, c, n)
    }
    pub fn handle(&mut self, kind: u8, r: u16) -> u16 {
        self.intern([&[15, kind][..], &r.to_be_bytes()].concat())
    }
    pub fn mtype(&mut self, d: &str) -> u16 {
        let d = self.utf8(d);
        self.e2(16, d)
    }
    /// tag 17 dynamic, 18 invokedynamic
    pub fn dynamic(&mut self, tag: u8, bsm: u16, n: &str, d: &str) -> u16 {
        let n = self.nat(n, d);
        self.e4(tag, bsm, n)
    }
    pub fn module(&mut self, s: &str) -> u16 {
        let n = self.utf8(s);
        self.e2(19, n)
    }
    pub fn package(&mut self, s: &str) -> u16 {
        let n = self.utf8(s);
        self.e2(20, n)
    }
}

/// Byte writer.
#[derive(Clone, Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(vec![])
    }
    pub fn b1(mut self, v: u32) -> W {
        self.0.push(v as u8);
        self
    }
    pub fn b2(mut self, v: u32) -> W {
        self.0.extend_from_slice(&u2(v));
        self
    }
    pub fn b4(mut self, v: u32) -> W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn i2(self, v: u16) -> W {
        self.b2(v as u32)
    }
    pub fn raw(mut self, v: &[u8]) -> W {
        self.0.extend_from_slice(v);
        self
    }
    pub fn done(self) -> Vec<u8> {
        self.0
    }
}

#[derive(Clone)]
pub struct Attr {
    pub name: u16,
    /// declared length; None: the real one
    pub len: Option<u32>,
    pub body: Vec<u8>,
}
impl Attr {
    pub fn put(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&self.name.to_be_bytes());
        o.extend_from_slice(&self.len.unwrap_or(self.body.len() as u32).to_be_bytes());
        o.extend_from_slice(&self.body);
    }
}
pub fn attrs_bytes(a: &[Attr]) -> Vec<u8> {
    let mut o = u2(a.len() as u32).to_vec();
    for x in a {
        x.put(&mut o)
    }
    o
}

#[derive(Clone)]
pub struct Member {
    pub flags: u16,
    pub name: u16,
    pub desc: u16,
    pub attrs: Vec<Attr>,
}

#[derive(Clone)]
pub struct Class {
    pub magic: u32,
    pub minor: u16,
    pub major: u16,
    pub pool: Pool,
    /// declared pool count; None: the real one
    pub count: Option<u16>,
    pub flags: u16,
    pub this: u16,
    pub sup: u16,
    pub ifs: Vec<u16>,
    pub fields: Vec<Member>,
    pub methods: Vec<Member>,
    pub attrs: Vec<Attr>,
    pub tail: Vec<u8>,
}

impl Class {
    /// Class "A" extends "B", nothing else.
    pub fn new(major: u16) -> Class {
        let mut pool = Pool::new();
        let this = pool.class("A");
        let sup = pool.class("B");
        Class {
            magic: 0xCAFEBABE,
            minor: 0,
            major,
            pool,
            count: None,
            flags: 0x21,
            this,
            sup,
            ifs: vec![],
            fields: vec![],
            methods: vec![],
            attrs: vec![],
            tail: vec![],
        }
    }
    /// A module descriptor class.
    pub fn new_module(major: u16) -> Class {
        let mut pool = Pool::new();
        let this = pool.class("module-info");
        let mut c = Class::new(major);
        c.pool = pool;
        c.this = this;
        c.sup = 0;
        c.flags = 0x8000;
        c
    }
    pub fn attr(&mut self, name: &str, body: Vec<u8>) -> Attr {
        let name = self.pool.utf8(name);
        Attr { name, len: None, body }
    }
    pub fn add_attr(&mut self, name: &str, body: Vec<u8>) {
        let a = self.attr(name, body);
        self.attrs.push(a);
    }
    pub fn member(&mut self, flags: u16, name: &str, desc: &str, attrs: Vec<Attr>) -> Member {
        Member {
            flags,
            name: self.pool.utf8(name),
            desc: self.pool.utf8(desc),
            attrs,
        }
    }
    pub fn add_field(&mut self, flags: u16, name: &str, desc: &str, attrs: Vec<Attr>) {
        let m = self.member(flags, name, desc, attrs);
        self.fields.push(m);
    }
    pub fn add_method(&mut self, flags: u16, name: &str, desc: &str, attrs: Vec<Attr>) {
        let m = self.member(flags, name, desc, attrs);
        self.methods.push(m);
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::with_capacity(self.pool.bytes.len() + 256);
        o.extend_from_slice(&self.magic.to_be_bytes());
        o.extend_from_slice(&self.minor.to_be_bytes());
        o.extend_from_slice(&self.major.to_be_bytes());
        o.extend_from_slice(&self.count.unwrap_or(self.pool.next as u16).to_be_bytes());
        o.extend_from_slice(&self.pool.bytes);
        o.extend_from_slice(&self.flags.to_be_bytes());
        o.extend_from_slice(&self.this.to_be_bytes());
        o.extend_from_slice(&self.sup.to_be_bytes());
        o.extend_from_slice(&u2(self.ifs.len() as u32));
        for i in &self.ifs {
            o.extend_from_slice(&i.to_be_bytes());
        }
        for ms in [&self.fields, &self.methods] {
            o.extend_from_slice(&u2(ms.len() as u32));
            for m in ms {
                o.extend_from_slice(&m.flags.to_be_bytes());
                o.extend_from_slice(&m.name.to_be_bytes());
                o.extend_from_slice(&m.desc.to_be_bytes());
                o.extend_from_slice(&attrs_bytes(&m.attrs));
            }
        }
        o.extend_from_slice(&attrs_bytes(&self.attrs));
        o.extend_from_slice(&self.tail);
        o
    }
}

/// Contents of a Code attribute.
pub fn code_body(max_stack: u16, max_locals: u16, code: &[u8], table: &[[u16; 4]], attrs: &[Attr]) -> Vec<u8> {
    let mut w = W::new()
        .i2(max_stack)
        .i2(max_locals)
        .b4(code.len() as u32)
        .raw(code)
        .b2(table.len() as u32);
    for r in table {
        for v in r {
            w = w.i2(*v);
        }
    }
    w.raw(&attrs_bytes(attrs)).done()
}
