//! Siblings that are almost equal: two items of one list, the second changed in one or two bytes.
use crate::asm::*;
use crate::engine::*;
use crate::gen::*;
use crate::spaces::{locate, starts};

type Wrap = Box<dyn Fn(&[&[u8]]) -> Vec<u8> + Sync>;

/// A list with an item, another for its place behind the first, and one of another sort to go between them.
struct Site {
    group: u32,
    first: Vec<u8>,
    second: Vec<u8>,
    between: Vec<u8>,
    file: Wrap,
}

fn list_attr(p: &Pal, host: Host, attr: &'static str, before: Vec<u8>, width: usize, after: Vec<u8>) -> Wrap {
    let mut c = p.c.clone();
    let aname = c.pool.utf8(attr);
    let code = c.pool.utf8("Code");
    let (fname, mname) = (c.pool.utf8("host"), c.pool.utf8("hosted"));
    let (fdesc, mdesc) = (c.pool.utf8("I"), c.pool.utf8("()V"));
    Box::new(move |items| {
        let mut body = before.clone();
        match width {
            1 => body.push(items.len() as u8),
            _ => body.extend((items.len() as u16).to_be_bytes()),
        }
        items.iter().for_each(|i| body.extend_from_slice(i));
        body.extend_from_slice(&after);
        let a = Attr { name: aname, len: None, body };
        let mut c = c.clone();
        match host {
            Host::Class | Host::Record => c.attrs.push(a),
            Host::Field => c.fields.push(Member { flags: 1, name: fname, desc: fdesc, attrs: vec![a] }),
            Host::Method => c.methods.push(Member { flags: 0x401, name: mname, desc: mdesc, attrs: vec![a] }),
            Host::Code => {
                let body = code_body(2, 4, &[&[0u8; 48][..], &[0xb1]].concat(), &[], &[a]);
                c.methods.push(Member { flags: 9, name: mname, desc: mdesc, attrs: vec![Attr { name: code, len: None, body }] });
            }
        }
        c.bytes()
    })
}

fn sites() -> Vec<Site> {
    let mut v = vec![];
    let names = crate::spaces3::all_names();
    let mut p = Pal::new(61, false, &names);
    if let Some(b) = p.bsm.clone() {
        p.c.attrs.push(Attr { name: u16::from_be_bytes([b[0], b[1]]), len: None, body: b[6..].to_vec() });
    }
    let pm = Pal::new(55, true, &names);
    let mut bare = Pal::new(61, false, &names);
    // no constants that need bootstrap methods
    bare.c = {
        let mut c = Class::new(61);
        for k in 0..4 {
            c.pool.int(k);
        }
        c
    };
    let one = |v: &mut Vec<Site>, group: u32, item: Vec<u8>, between: Vec<u8>, file: Wrap| {
        v.push(Site { group, first: item.clone(), second: item, between, file })
    };
    let w = W::new;

    // stack map frames
    let full = w().b1(255).b2(0x0105).b2(4).b1(7).i2(p.cls).b1(1).b1(7).i2(p.cls2).b1(8).b2(7).b2(3).b1(7).i2(p.arr).b1(3).b1(2).done();
    let append = w().b1(254).b2(0x0105).b1(7).i2(p.cls).b1(1).b1(7).i2(p.cls2).done();
    let same1 = w().b1(247).b2(0x0105).b1(7).i2(p.cls).done();
    for f in [full.clone(), append, same1] {
        one(&mut v, 11, f, vec![3], list_attr(&p, Host::Code, "StackMapTable", vec![], 2, vec![]));
    }
    let lines = w().b2(0x0103).b2(0x0207).b2(1).b2(2).done();
    let line_file = list_attr(&p, Host::Code, "LineNumberTable", vec![], 2, vec![]);
    one(&mut v, 11, lines[..4].to_vec(), lines[4..].to_vec(), line_file);
    for (attr, desc) in [("LocalVariableTable", p.odesc), ("LocalVariableTypeTable", p.text)] {
        let var = |a: u32, n: u16, d: u16, i: u32| w().b2(a).b2(a + 3).i2(n).i2(d).b2(i).done();
        let second = if attr == "LocalVariableTable" { p.fdesc } else { p.empty };
        one(&mut v, 11, var(0x0102, p.name, desc, 0x0103), var(1, p.name2, second, 5), list_attr(&p, Host::Code, attr, vec![], 2, vec![]));
    }
    // exception tables, and instructions
    {
        let mut c = p.c.clone();
        let (code, m, d) = (c.pool.utf8("Code"), c.pool.utf8("hosted"), c.pool.utf8("()V"));
        let c2 = c.clone();
        let table: Wrap = Box::new(move |items| {
            let t: Vec<[u16; 4]> = items
                .iter()
                .map(|i| [0, 2, 4, 6].map(|k| u16::from_be_bytes([i[k], i[k + 1]])))
                .collect();
            let body = code_body(1, 1, &[0xb1u8; 300], &t, &[]);
            let mut c = c2.clone();
            c.methods.push(Member { flags: 9, name: m, desc: d, attrs: vec![Attr { name: code, len: None, body }] });
            c.bytes()
        });
        one(&mut v, 11, w().b2(3).b2(0x0105).b2(0x0102).i2(p.cls).done(), w().b2(0).b2(1).b2(2).b2(0).done(), table);
        let ins = [
            // sizes are multiples of four
            [&[0xaau8, 0, 0, 0][..], &120u32.to_be_bytes(), &3u32.to_be_bytes(), &5u32.to_be_bytes(), &[0, 0, 0, 120, 0, 0, 0, 140, 0, 0, 0, 0]].concat(),
            [&[0xabu8, 0, 0, 0][..], &120u32.to_be_bytes(), &3u32.to_be_bytes(), &[0, 0, 0, 1, 0, 0, 0, 120, 0, 0, 1, 1, 0, 0, 0, 140, 0, 1, 1, 2, 0, 0, 0, 0]].concat(),
            w().b1(0xb4).i2(p.fref).b1(0xb6).i2(p.mref).b1(0xb9).i2(p.imref).b1(2).b1(0).b1(0xbb).i2(p.cls).b1(0x13).i2(p.int).done(),
            w().b1(0xc4).b1(0x84).b2(0x0102).b2(0x0304).b1(0xc4).b1(0x15).b2(0x0205).b1(0x11).b2(0x0107).b1(0x84).b1(3).b1(4).done(),
            w().b1(0xc0).i2(p.arr).b1(0xc5).i2(p.arr).b1(1).b1(0xba).i2(p.indy).b2(0).b1(0xbd).i2(p.cls2).b1(0x14).i2(p.long).b1(0).done(),
            w().b1(0xa7).b2(11).b1(0x99).b2(8).b1(0xc8).b4(6).b1(0).b1(0).b1(0).b1(0).b1(0).done(),
        ];
        for i in ins {
            let c2 = c.clone();
            let file: Wrap = Box::new(move |items| {
                let ins = [&items.concat()[..], &[0; 150], &[0xb1]].concat();
                let body = code_body(1, 1, &ins, &[], &[]);
                let mut c = c2.clone();
                c.methods.push(Member { flags: 9, name: m, desc: d, attrs: vec![Attr { name: code, len: None, body }] });
                c.bytes()
            });
            one(&mut v, 16, i, vec![4, 5, 6, 7], file);
        }
    }

    // annotations
    let element = |n: u16, tag: u8, i: u16| w().i2(n).b1(tag as u32).i2(i).done();
    let inner = w().i2(p.fdesc).b2(1).raw(&element(p.name, b'I', p.int)).done();
    let array = w().b1(b'[' as u32).b2(3).b1(b'S' as u32).i2(p.int).b1(b's' as u32).i2(p.text).b1(b'B' as u32).i2(p.int).done();
    let anno = w()
        .i2(p.odesc)
        .b2(4)
        .raw(&element(p.name, b'J', p.long))
        .raw(&w().i2(p.name2).raw(&array).done())
        .raw(&w().i2(p.name).b1(b'@' as u32).raw(&inner).done())
        .raw(&w().i2(p.text).b1(b'e' as u32).i2(p.odesc).i2(p.name).done())
        .done();
    let marker = w().i2(p.fdesc).b2(0).done();
    let file = || list_attr(&p, Host::Class, "RuntimeVisibleAnnotations", vec![], 2, vec![]);
    one(&mut v, 12, anno.clone(), marker.clone(), file());
    one(&mut v, 12, inner.clone(), marker.clone(), file());
    let elements = list_attr(&p, Host::Field, "RuntimeInvisibleAnnotations", w().b2(1).i2(p.odesc).done(), 2, vec![]);
    one(&mut v, 12, w().i2(p.name2).raw(&array).done(), element(p.name, b'C', p.int), elements);
    for item in [
        w().b1(b'@' as u32).raw(&inner).done(),
        w().b1(b'e' as u32).i2(p.odesc).i2(p.name).done(),
        array.clone(),
        w().b1(b'S' as u32).i2(p.int).done(),
    ] {
        let file = list_attr(&p, Host::Method, "AnnotationDefault", vec![b'['], 2, vec![]);
        one(&mut v, 12, item, w().b1(b'c' as u32).i2(p.vdesc).done(), file);
    }
    let para = w().b2(2).raw(&inner).raw(&marker).done();
    one(&mut v, 12, para, w().b2(0).done(), list_attr(&p, Host::Method, "RuntimeVisibleParameterAnnotations", vec![], 1, vec![]));
    for (target, host) in [
        (w().b1(0x40).b2(2).b2(0x0102).b2(3).b2(4).b2(0x0103).b2(5).b2(0x0106).done(), Host::Code),
        (w().b1(0x4a).b2(0x0102).b1(3).done(), Host::Code),
        (w().b1(0x12).b1(2).b1(3).done(), Host::Method),
        (w().b1(0x13).done(), Host::Field),
    ] {
        let item = w().raw(&target).b1(3).b1(0).b1(0).b1(3).b1(4).b1(1).b1(0).raw(&inner).done();
        let other = w().b1(0x17).b2(9).b1(0).raw(&marker).done();
        one(&mut v, 12, item, other, list_attr(&p, host, "RuntimeVisibleTypeAnnotations", vec![], 2, vec![]));
    }

    // lists of references
    for (attr, host) in [("Exceptions", Host::Method), ("NestMembers", Host::Class), ("PermittedSubclasses", Host::Class)] {
        let item = p.cls.to_be_bytes().to_vec();
        one(&mut v, 13, item, p.arr.to_be_bytes().to_vec(), list_attr(&p, host, attr, vec![], 2, vec![]));
    }
    one(
        &mut v,
        13,
        w().i2(p.cls).i2(p.cls2).i2(p.name).b2(0x0009).done(),
        w().i2(p.arr).b2(0).b2(0).b2(1).done(),
        list_attr(&p, Host::Class, "InnerClasses", vec![], 2, vec![]),
    );
    one(&mut v, 13, w().i2(p.name).b2(0x1010).done(), w().b2(0).b2(0x8000).done(), list_attr(&p, Host::Method, "MethodParameters", vec![], 1, vec![]));
    {
        let mut b = bare.c.clone();
        let handle = {
            let m = b.pool.member(10, "p/D", "m", "(I)J");
            b.pool.handle(6, m)
        };
        let field = b.pool.member(9, "p/D", "f", "J");
        let (h2, i, s, t) = (b.pool.handle(1, field), b.pool.int(77), b.pool.string(b"text"), b.pool.mtype("(J)J"));
        let mut q = Pal::new(61, false, &[]);
        q.c = b;
        let item = w().i2(handle).b2(5).i2(i).i2(s).i2(t).i2(h2).i2(i).done();
        one(&mut v, 13, item, w().i2(h2).b2(0).done(), list_attr(&q, Host::Class, "BootstrapMethods", vec![], 2, vec![]));
    }
    {
        let sig = Attr { name: p.aname("Signature"), len: None, body: p.text.to_be_bytes().to_vec() };
        let mut c = p.c.clone();
        let unknown = Attr { name: c.pool.utf8("Mine"), len: None, body: (1u8..9).collect() };
        let vis = Attr { name: p.aname("RuntimeVisibleAnnotations"), len: None, body: w().b2(1).raw(&inner).done() };
        let item = w().i2(p.name).i2(p.odesc).raw(&attrs_bytes(&[sig.clone(), unknown.clone(), vis.clone()])).done();
        let mut q = Pal::new(61, false, &names);
        q.c = c.clone();
        one(&mut v, 13, item, w().i2(p.name2).i2(p.fdesc).b2(0).done(), list_attr(&q, Host::Class, "Record", vec![], 2, vec![]));

        // attributes, members, interfaces
        let put = |a: &Attr| {
            let mut o = vec![];
            a.put(&mut o);
            o
        };
        let exc = Attr { name: p.aname("Exceptions"), len: None, body: w().b2(3).i2(p.cls).i2(p.cls2).i2(p.cls).done() };
        let raw = |x: &[u8]| Attr {
            name: u16::from_be_bytes([x[0], x[1]]),
            len: Some(u32::from_be_bytes([x[2], x[3], x[4], x[5]])),
            body: x[6..].to_vec(),
        };
        for (group, a) in [(10, &unknown), (10, &exc), (10, &vis)] {
            let base = c.clone();
            let file: Wrap = Box::new(move |items| {
                let mut c = base.clone();
                let name = c.pool.utf8("hosted");
                let desc = c.pool.utf8("()V");
                c.methods.push(Member { flags: 0x401, name, desc, attrs: items.iter().map(|x| raw(x)).collect() });
                c.bytes()
            });
            one(&mut v, group, put(a), put(&sig), file);
        }
        let names: Vec<u16> = (0..3).map(|k| c.pool.utf8(&format!("member{}", k))).collect();
        let cv = Attr { name: p.aname("ConstantValue"), len: None, body: p.string.to_be_bytes().to_vec() };
        let dep = Attr { name: p.aname("Deprecated"), len: None, body: vec![] };
        let map = Attr { name: p.aname("StackMapTable"), len: None, body: w().b2(1).raw(&full).done() };
        let line = Attr { name: p.aname("LineNumberTable"), len: None, body: w().b2(2).b2(0).b2(1).b2(3).b2(4).done() };
        let ins = w().b1(0xb4).i2(p.fref).b1(0xb6).i2(p.mref).b1(0xa7).b2(3).b1(0x13).i2(p.int).b1(0xb1).done();
        let code = Attr { name: p.aname("Code"), len: None, body: code_body(2, 3, &ins, &[[0, 3, 6, p.cls]], &[line, map]) };
        let bodies: [(u16, u16, Vec<Attr>); 3] =
            [(0x19, p.fdesc, vec![cv, sig.clone(), unknown]), (0x09, p.mdesc, vec![code, exc]), (0x0401, p.mdesc, vec![vis, sig])];
        for (k, (flags, desc, attrs)) in bodies.into_iter().enumerate() {
            let item = |n: u16| w().b2(flags as u32).i2(n).i2(desc).raw(&attrs_bytes(&attrs)).done();
            let between = w().b2(if k == 0 { 1 } else { 0x401 }).i2(names[2]).i2(desc).raw(&attrs_bytes(&[dep.clone()])).done();
            let tail = {
                let mut t = vec![];
                let base = c.bytes();
                // interfaces, fields, methods: none; then the attributes of the class
                let attrs = attrs_bytes(&c.attrs);
                t.extend_from_slice(&base[..base.len() - attrs.len() - 4]);
                (t, attrs)
            };
            let file: Wrap = Box::new(move |items| {
                let (head, attrs) = &tail;
                let list = [&u2(items.len() as u32)[..], &items.concat()].concat();
                let both = if k == 0 { [&list[..], &[0, 0]].concat() } else { [&[0, 0], &list[..]].concat() };
                [&head[..], &both, attrs].concat()
            });
            v.push(Site { group: if k == 1 { 11 } else { 8 }, first: item(names[0]), second: item(names[1]), between, file });
        }
        let base = c.clone();
        let file: Wrap = Box::new(move |items| {
            let mut c = base.clone();
            c.ifs = items.iter().map(|i| u16::from_be_bytes([i[0], i[1]])).collect();
            c.bytes()
        });
        one(&mut v, 8, p.cls.to_be_bytes().to_vec(), p.this.to_be_bytes().to_vec(), file);
    }
    // modules
    for list in 0..5usize {
        let item = [
            w().i2(pm.module_ix).b2(0x8060).i2(pm.text).done(),
            w().i2(pm.package).b2(0x1000).b2(3).i2(pm.module_ix).i2(pm.module2).i2(pm.module_ix).done(),
            w().i2(pm.package).b2(0x1000).b2(3).i2(pm.module_ix).i2(pm.module2).i2(pm.module_ix).done(),
            w().i2(pm.cls).done(),
            w().i2(pm.cls).b2(3).i2(pm.cls).i2(pm.cls2).i2(pm.arr).done(),
        ];
        let short = [
            w().i2(pm.module2).b2(0).b2(0).done(),
            w().i2(pm.package).b2(0x8000).b2(0).done(),
            w().i2(pm.package).b2(0x8000).b2(0).done(),
            w().i2(pm.arr).done(),
            w().i2(pm.arr).b2(0).done(),
        ];
        let mut before = w().i2(pm.module_ix).b2(0x8020).i2(pm.text).done();
        before.extend(vec![0; 2 * list]);
        let mut q = Pal::new(55, true, &names);
        if let Some(b) = pm.bsm.clone() {
            q.c.attrs.push(Attr { name: u16::from_be_bytes([b[0], b[1]]), len: None, body: b[6..].to_vec() });
        }
        let file = list_attr(&q, Host::Class, "Module", before, 2, vec![0; 2 * (4 - list)]);
        one(&mut v, 13, item[list].clone(), short[list].clone(), file);
        if list == 0 {
            let file = list_attr(&q, Host::Class, "ModulePackages", vec![], 2, vec![]);
            one(&mut v, 13, pm.package.to_be_bytes().to_vec(), pm.package.to_be_bytes().to_vec(), file);
        }
    }

    // texts, in each role
    let ascii = b"com/example/some/Outer$Inner$Other_1".to_vec();
    let plain = b"access$some$Outer$Inner$Other_1".to_vec();
    let mut mixed = b"first".to_vec();
    mixed.extend([0xc0, 0x80, 0xc3, 0xa9]);
    mixed.extend(b"middle of it");
    mixed.extend([0xe4, 0xb8, 0xad, 0xed, 0xa0, 0xbd, 0xed, 0xb8, 0x80]);
    mixed.extend(b"and last");
    let field = b"[[Lcom/example/Outer$Inner;".to_vec();
    let method = b"(I[JLcom/example/Outer;[[Lp/Q;D)Lx/Y;".to_vec();
    for (group, role, text, other) in [
        (6, 0, &ascii, &b"z"[..]),
        (6, 0, &mixed, b"z"),
        (6, 1, &mixed, b"z"),
        (15, 2, &plain, b"z"),
        (15, 2, &mixed, b"z"),
        (15, 3, &mixed, b"z"),
        (15, 4, &ascii, b"z"),
        (14, 5, &field, b"Z"),
        (14, 6, &method, b"()V"),
    ] {
        let file: Wrap = Box::new(move |items| {
            let mut c = Class::new(61);
            let x = c.pool.utf8("x");
            let (i, d) = (c.pool.utf8("I"), c.pool.utf8("()V"));
            let at: Vec<u16> = items
                .iter()
                .map(|t| {
                    let mut e = vec![1];
                    e.extend(u2(t.len() as u32));
                    e.extend_from_slice(t);
                    c.pool.push(&e)
                })
                .collect();
            let uniq: Vec<u16> = (0..items.len()).map(|k| c.pool.utf8(&format!("m{}", k))).collect();
            for (k, a) in at.iter().enumerate() {
                match role {
                    0 => c.attrs.push(Attr { name: *a, len: None, body: vec![k as u8] }),
                    1 => {
                        c.pool.push(&[8, a.to_be_bytes()[0], a.to_be_bytes()[1]]);
                    }
                    2 => c.fields.push(Member { flags: 1, name: *a, desc: i, attrs: vec![] }),
                    3 => c.methods.push(Member { flags: 0x401, name: *a, desc: d, attrs: vec![] }),
                    4 => {
                        c.pool.push(&[7, a.to_be_bytes()[0], a.to_be_bytes()[1]]);
                    }
                    5 => c.fields.push(Member { flags: 1, name: uniq[k], desc: *a, attrs: vec![] }),
                    _ => c.methods.push(Member { flags: 0x401, name: uniq[k], desc: *a, attrs: vec![] }),
                }
            }
            let _ = x;
            c.bytes()
        });
        one(&mut v, group, text.clone(), other.to_vec(), file);
    }
    v
}

/// The changes of an item: their number, and the one with a number.
fn changes(len: usize) -> u64 {
    let l = len as u64;
    255 * l + 4 * l * l
}
fn change(item: &[u8], n: u64, out: &mut Vec<u8>) -> bool {
    out.clear();
    out.extend_from_slice(item);
    let l = item.len() as u64;
    if n < 255 * l {
        let (at, x) = ((n / 255) as usize, n % 255 + 1);
        out[at] ^= x as u8;
        return true;
    }
    let n = n - 255 * l;
    let (what, i, j) = (n / (l * l), (n / l % l) as usize, (n % l) as usize);
    match what {
        0 if i < j => out.swap(i, j),
        1 if i != j => {
            out[i] = out[i].wrapping_add(1);
            out[j] = out[j].wrapping_sub(1);
        }
        2 if i < j => {
            out[i] ^= 1;
            out[j] ^= 1;
        }
        3 if i + 2 <= j && j + 2 <= item.len() => {
            out.swap(i, j);
            out.swap(i + 1, j + 1);
        }
        _ => return false,
    }
    out[..] != *item
}

/// Each list of a class with two items that differ in one or two bytes.
pub fn near_siblings(cx: &Ctx, groups: &[u32], kind: u8) {
    let mut sites = sites();
    sites.retain(|s| groups.is_empty() || groups.contains(&s.group));
    let (st, n) = starts(sites.iter().map(|s| 3 * changes(s.second.len())));
    cx.sweep(
        "near siblings",
        &format!(
            "{} lists (of members, attributes, frames, table entries, instructions, annotations, module parts, texts, ...) with an item and a \
             second one like it, but for any one byte, or two bytes or 16-bit fields swapped, or changed by +1 and -1 or in their lowest bit; \
             in a row, with another item between them, or followed by the first again",
            sites.len()
        ),
        n,
        || {
            let (sites, st) = (&sites, &st);
            let mut other = vec![];
            move |i, out: &mut Vec<u8>| {
                let (k, j) = locate(st, i);
                let s = &sites[k];
                if !change(&s.second, j / 3, &mut other) {
                    return None;
                }
                let items: &[&[u8]] = match j % 3 {
                    0 => &[&s.first, &other],
                    1 => &[&s.first, &s.between, &other],
                    _ => &[&s.first, &other, &s.first],
                };
                *out = (s.file)(items);
                Some(kind)
            }
        },
    );
}
