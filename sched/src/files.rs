//! The class files the threads work on: one small file per kind of pool entry, files with everything,
//! and files that are refused in different ways.
use crate::asm::*;
use std::sync::OnceLock;

pub struct File {
    pub name: &'static str,
    pub bytes: Vec<u8>,
}

fn code(c: &mut Class, bytes: &[u8]) -> Attr {
    c.attr("Code", code_body(4, 4, bytes, &[], &[]))
}
fn small(f: impl Fn(&mut Class)) -> Vec<u8> {
    let mut c = Class::new(55);
    f(&mut c);
    c.bytes()
}
/// A bootstrap table with one method, whose handle is `h`.
fn bootstrap(c: &mut Class) {
    let m = c.pool.member(10, "A", "b", "()V");
    let h = c.pool.handle(6, m);
    c.add_attr("BootstrapMethods", W::new().b2(1).i2(h).b2(0).done());
}
/// A bit of everything, few entries.
fn mixed() -> Vec<u8> {
    small(|c| {
        let f = c.pool.member(9, "A", "f", "I");
        let m = c.pool.member(10, "A", "m", "()V");
        c.pool.member(11, "B", "m", "()V");
        let s = c.pool.string(b"text");
        c.pool.string(&[0xED, 0xA0, 0xBD]);
        c.pool.long(5);
        c.pool.mtype("()V");
        bootstrap(c);
        c.pool.dynamic(17, 0, "f", "I");
        let i = c.pool.dynamic(18, 0, "m", "()V");
        let b = W::new().b1(0xb2).i2(f).b1(0x57).b1(0x12).b1(s as u32).b1(0x57).b1(0xb8).i2(m).b1(0xba).i2(i).b2(0).b1(0xa7).b2(0xfffb).b1(0xb1).done();
        let a = code(c, &b);
        c.add_method(9, "m", "()V", vec![a]);
        c.add_field(9, "f", "[LA;", vec![]);
    })
}
fn module() -> Vec<u8> {
    let mut c = Class::new_module(55);
    let m = c.pool.module("m.n");
    c.pool.package("p/q");
    let b = W::new().i2(m).b2(0).b2(0).b2(0).b2(0).b2(0).b2(0).b2(0).done();
    c.add_attr("Module", b);
    c.bytes()
}
/// Element values nested `n` arrays deep.
pub fn nested_values(n: usize) -> Vec<u8> {
    small(|c| {
        let t = c.pool.utf8("LT;");
        let e = c.pool.utf8("e");
        let v = c.pool.int(1);
        let mut w = W::new().b2(1).i2(t).b2(1).i2(e);
        for _ in 0..n {
            w = w.b1(b'[' as u32).b2(1);
        }
        c.add_attr("RuntimeVisibleAnnotations", w.b1(b'I' as u32).i2(v).done());
    })
}
/// Records whose component has an attribute that is a record, `n` deep.
pub fn nested_records(n: usize) -> Vec<u8> {
    let mut c = Class::new(60);
    let r = c.pool.utf8("Record");
    let x = c.pool.utf8("x");
    let d = c.pool.utf8("I");
    let mut inner: Vec<Attr> = vec![];
    for _ in 0..n {
        let body = W::new().b2(1).i2(x).i2(d).raw(&attrs_bytes(&inner)).done();
        inner = vec![Attr { name: r, len: None, body }];
    }
    c.attrs = inner;
    c.bytes()
}
/// The deepest nesting of both kinds the implementation accepts. Runs the code under test.
pub fn depths() -> [u32; 2] {
    fn deepest(f: impl Fn(usize) -> Vec<u8>) -> u32 {
        (1..150).take_while(|n| cafebabe_ts::parse_class(&f(*n)).is_ok()).last().unwrap_or(1) as u32
    }
    [deepest(nested_values), deepest(nested_records)]
}
fn raw_pool(f: impl Fn(&mut Class, u16)) -> Vec<u8> {
    small(|c| {
        let n = c.pool.next as u16;
        f(c, n)
    })
}

fn make(depths: [u32; 2]) -> Vec<File> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![
        ("class", small(|_| ())),
        ("string", small(|c| {
            c.pool.string(b"s");
        })),
        ("field reference", small(|c| {
            c.pool.member(9, "A", "f", "I");
        })),
        ("method reference", small(|c| {
            c.pool.member(10, "A", "m", "()V");
        })),
        ("interface method reference", small(|c| {
            c.pool.member(11, "A", "m", "()V");
        })),
        ("method handle", small(|c| {
            let m = c.pool.member(10, "A", "m", "()V");
            c.pool.handle(5, m);
        })),
        ("method type", small(|c| {
            c.pool.mtype("()V");
        })),
        ("dynamic", small(|c| {
            bootstrap(c);
            c.pool.dynamic(17, 0, "f", "I");
        })),
        ("call site", small(|c| {
            bootstrap(c);
            c.pool.dynamic(18, 0, "m", "()V");
        })),
        ("numbers", small(|c| {
            c.pool.int(1);
            c.pool.float(0x7fc0_0001);
            c.pool.long(-1);
            c.pool.double(3);
        })),
        ("module", module()),
        // the same name from several places: entries and locks are shared between references
        ("shared entries", small(|c| {
            c.pool.member(9, "A", "x", "I");
            c.pool.member(9, "A", "y", "I");
            c.pool.member(10, "A", "A", "()V");
            c.pool.string(b"A");
        })),
        ("a constant loaded by code", small(|c| {
            let s = c.pool.string(b"s");
            let a = code(c, &[0x12, s as u8, 0x57, 0xa7, 0xff, 0xfd, 0xb1]);
            c.add_method(9, "m", "()V", vec![a]);
        })),
        ("mixed", mixed()),
        ("everything", include_bytes!("../files/everything.class").to_vec()),
        ("everything of modules", include_bytes!("../files/module.class").to_vec()),
    ];
    // features a small class has once or not at all
    v.push(("overloads and other twins", small(|c| {
        c.add_method(9, "m", "()V", vec![]);
        c.add_method(9, "m", "(I)V", vec![]);
        c.add_method(9, "n", "()V", vec![]);
        c.add_field(9, "m", "I", vec![]);
        c.add_field(9, "m", "J", vec![]);
    })));
    v.push(("switches", small(|c| {
        let t = W::new().b1(0x03).b1(0xaa).b2(0).b4(23).b4(0).b4(1).b4(23).b4(23);
        let b = t.b1(0x03).b2(0).b1(0xb1).done();
        let a = code(c, &b);
        c.add_method(9, "t", "()V", vec![a]);
        let t = W::new().b1(0x03).b1(0xab).b2(0).b4(23).b4(1).b4(1).b4(23);
        let b = t.b4(0).b1(0xb1).done();
        let a = code(c, &b);
        c.add_method(9, "l", "()V", vec![a]);
    })));
    v.push(("tables of code", small(|c| {
        let x = c.pool.utf8("x");
        let d = c.pool.utf8("I");
        let lines = c.attr("LineNumberTable", W::new().b2(1).b2(0).b2(7).done());
        let vars = c.attr("LocalVariableTable", W::new().b2(1).b2(0).b2(2).i2(x).i2(d).b2(0).done());
        let body = code_body(1, 1, &[0x00, 0xb1], &[[0, 1, 1, 0]], &[lines, vars]);
        let a = c.attr("Code", body);
        c.add_method(9, "m", "()V", vec![a]);
    })));
    v.push(("annotations", small(|c| {
        let t = c.pool.utf8("LT;");
        let e = c.pool.utf8("e");
        let b = W::new().b2(2).i2(t).b2(0).i2(t).b2(1).i2(e).b1(b's' as u32).i2(e).done();
        c.add_attr("RuntimeVisibleAnnotations", b.clone());
        c.add_attr("RuntimeInvisibleAnnotations", b);
    })));
    v.push(("attributes of unknown names", small(|c| {
        c.add_attr("Unknown", vec![1, 2]);
        c.add_attr("Unknown", vec![]);
    })));
    v.push(("inner classes", small(|c| {
        let i = c.pool.class("A$B");
        let o = c.pool.class("A");
        let n = c.pool.utf8("B");
        c.add_attr("InnerClasses", W::new().b2(1).i2(i).i2(o).i2(n).b2(1).done());
    })));
    let d = depths[0] as usize;
    v.push(("deepest element values", nested_values(d)));
    v.push(("element values too deep", nested_values(d + 1)));
    let d = depths[1] as usize;
    v.push(("deepest records", nested_records(d)));
    v.push(("records too deep", nested_records(d + 1)));
    v.push(("class cycle", raw_pool(|c, n| {
        c.pool.push(&[7, 0, n as u8 + 1]);
        c.pool.push(&[7, 0, n as u8]);
    })));
    v.push(("names and types in a circle", raw_pool(|c, n| {
        let m = c.pool.class("A");
        let n = n + (m >= n) as u16;
        c.pool.push(&[12, 0, n as u8 + 1, 0, n as u8 + 1]);
        c.pool.push(&[12, 0, n as u8, 0, n as u8]);
        c.pool.push(&[9, 0, m as u8, 0, n as u8]);
    })));
    v.push(("self reference", raw_pool(|c, n| {
        c.pool.push(&[8, 0, n as u8]);
    })));
    v.push(("undecodable name", small(|c| {
        let x = c.pool.utf8b(&[0xED, 0xA0, 0xBD]);
        let d = c.pool.utf8("I");
        c.pool.e4(12, x, d);
    })));
    v.push(("bad descriptor", small(|c| {
        c.pool.member(9, "A", "f", "Q");
    })));
    v.push(("jump into nowhere", small(|c| {
        let a = code(c, &[0xa7, 0, 1, 0xb1]);
        c.add_method(9, "m", "()V", vec![a]);
    })));
    v.push(("two equal fields", small(|c| {
        c.add_field(9, "f", "I", vec![]);
        c.add_field(9, "f", "I", vec![]);
    })));
    v.push(("two equal methods", small(|c| {
        c.add_method(9, "m", "()V", vec![]);
        c.add_method(9, "m", "()V", vec![]);
    })));
    v.push(("an equal method after others", small(|c| {
        c.add_method(9, "a", "()V", vec![]);
        c.add_method(9, "b", "()V", vec![]);
        c.add_method(9, "a", "()V", vec![]);
    })));
    v.push(("unknown instruction", small(|c| {
        let a = code(c, &[0xcb, 0xb1]);
        c.add_method(9, "m", "()V", vec![a]);
    })));
    v.push(("attribute of a wrong length", small(|c| {
        c.add_attr("SourceFile", vec![0, 1, 0]);
    })));
    v.push(("two tables of bootstrap methods", small(|c| {
        bootstrap(c);
        bootstrap(c);
        c.pool.dynamic(17, 0, "f", "I");
    })));
    v.push(("dynamic without bootstrap methods", small(|c| {
        c.pool.dynamic(17, 0, "f", "I");
    })));
    v.push(("element value of an unknown kind", small(|c| {
        let t = c.pool.utf8("LT;");
        c.add_attr("RuntimeVisibleAnnotations", W::new().b2(1).i2(t).b2(1).i2(t).b1(b'?' as u32).i2(t).done());
    })));
    v.push(("bad class name", small(|c| {
        c.pool.class("a//b");
    })));
    v.push(("bad method name", small(|c| {
        c.add_method(9, "<m>", "()V", vec![]);
    })));
    v.push(("reference of another kind", small(|c| {
        let n = c.pool.utf8("x");
        c.pool.e2(7, n - 1);
        c.pool.e4(12, 1, 2);
        let k = c.pool.int(0);
        c.pool.e2(8, k);
    })));
    v.push(("variable of a bad type", small(|c| {
        let x = c.pool.utf8("x");
        let d = c.pool.utf8("V");
        let vars = c.attr("LocalVariableTable", W::new().b2(1).b2(0).b2(1).i2(x).i2(d).b2(0).done());
        let a = c.attr("Code", code_body(1, 1, &[0xb1], &[], &[vars]));
        c.add_method(9, "m", "()V", vec![a]);
    })));
    v.push(("bytes after the end", {
        let mut b = small(|_| ());
        b.push(0);
        b
    }));
    let mut cut = mixed();
    cut.truncate(cut.len() - 1);
    v.push(("mixed, cut off", cut));
    v.push(("not a class", b"hello".to_vec()));
    v.into_iter().map(|(name, bytes)| File { name, bytes }).collect()
}

static FILES: OnceLock<Vec<File>> = OnceLock::new();
/// The files depend on what depths of nesting are accepted, which a process of its own finds out.
pub fn prepare(depths: [u32; 2]) {
    let _ = FILES.set(make(depths));
}
pub fn all() -> &'static [File] {
    FILES.get().expect("prepared")
}
pub fn find(name: &str) -> usize {
    all().iter().position(|f| f.name == name).expect(name)
}
