//! Two of a kind in one class: whatever is remembered of the first must not show in the second.
use crate::asm::*;
use crate::engine::*;
use crate::gen::*;
use crate::spaces3::{accepted, all_names};

/// Contents of an attribute: legal ones (the default first) and illegal ones, one choice away from it.
pub fn contents(f: &Family, p: &Pal, good: usize, bad: usize) -> (Vec<Vec<u8>>, usize) {
    let mut buf = vec![];
    let mut ch = Ch::fixed(&[]);
    let first = (f.f)(&mut ch, p);
    let (mut g, mut b) = (vec![], vec![]);
    for (pos, n) in ch.arity.clone().iter().enumerate() {
        for alt in 1..*n {
            let devs = [(pos as u32, alt)];
            let body = (f.f)(&mut Ch::fixed(&devs), p);
            if body == first || body.len() >= 200 || g.contains(&body) || b.contains(&body) {
                continue;
            }
            if accepted(&p.put(f.host, &[p.attr(f.attr, body.clone())]), &mut buf) {
                g.push(body);
            } else {
                b.push(body);
            }
        }
    }
    let spread = |v: &[Vec<u8>], max: usize| -> Vec<Vec<u8>> {
        let take = v.len().min(max);
        (0..take).map(|k| v[k * v.len() / take].clone()).collect()
    };
    let mut out = vec![first];
    out.extend(spread(&g, good - 1));
    let n = out.len();
    out.extend(spread(&b, bad));
    (out, n)
}

/// Three items of a class with an attribute of the same kind, the second with other contents.
pub fn twin_contents(cx: &Ctx, pick: impl Fn(&Family) -> bool, good: usize, bad: usize, kind: u8) {
    let names = all_names();
    let p = Pal::new(61, false, &names);
    let fams: Vec<&Family> = FAMILIES.iter().filter(|f| !f.module && !["Record", "BootstrapMethods"].contains(&f.attr) && pick(f)).collect();
    let lists: Vec<(Vec<Vec<u8>>, usize)> = fams.iter().map(|f| contents(f, &p, good, bad)).collect();
    let mut base = p.c.clone();
    if let Some(b) = &p.bsm {
        base.attrs.push(Attr { name: u16::from_be_bytes([b[0], b[1]]), len: None, body: b[6..].to_vec() });
    }
    let uniq: Vec<u16> = (0..3).map(|k| base.pool.utf8(&format!("u{}", k))).collect();
    let desc = [base.pool.utf8("I"), base.pool.utf8("()V")];
    let max = (good + bad) as u64;
    let radix = [max, max, 4, fams.len() as u64];
    cx.sweep(
        "twin contents",
        &format!(
            "three fields, methods, codes or record components with an attribute of the same kind, the first and third with one \
             contents, the second with another: all pairs of up to {} legal and {} illegal contents",
            good, bad
        ),
        product(&radix),
        || {
            let (fams, lists, base, p, uniq) = (&fams, &lists, &base, &p, &uniq);
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let f = fams[d[3]];
                let (list, legal) = &lists[d[3]];
                let (x, y) = (list.get(d[0])?, list.get(d[1])?);
                if d[0] >= *legal {
                    return None;
                }
                let attr = |k: usize| Attr { name: p.aname(f.attr), len: None, body: [x, y, x][k].clone() };
                let mut c = base.clone();
                match d[2] {
                    0 => (0..3).for_each(|k| c.fields.push(Member { flags: 1, name: uniq[k], desc: desc[0], attrs: vec![attr(k)] })),
                    1 => (0..3).for_each(|k| c.methods.push(Member { flags: 1, name: uniq[k], desc: desc[1], attrs: vec![attr(k)] })),
                    2 => {
                        for (k, name) in uniq.iter().enumerate() {
                            let body = code_body(1, 2, &[0, 0xb1], &[[0, 1, 0, 0]], &[attr(k)]);
                            let attrs = vec![Attr { name: p.aname("Code"), len: None, body }];
                            c.methods.push(Member { flags: 9, name: *name, desc: desc[1], attrs });
                        }
                    }
                    _ => {
                        let mut w = W::new().b2(3);
                        for (k, name) in uniq.iter().enumerate() {
                            w = w.i2(*name).i2(desc[0]).raw(&attrs_bytes(&[attr(k)]));
                        }
                        c.attrs.push(Attr { name: p.aname("Record"), len: None, body: w.done() });
                    }
                }
                *out = c.bytes();
                Some(kind)
            }
        },
    );
}

/// Three methods, the second with another code than the others.
pub fn twin_codes(cx: &Ctx, kind: u8) {
    let p = Pal::new(61, false, &["StackMapTable", "LineNumberTable"]);
    let mut forms = crate::spaces2::forms(&p);
    forms.push([&[0xaa, 0, 0, 0][..], &[0, 0, 0, 0], &[0, 0, 0, 1], &[0, 0, 0, 1], &[0, 0, 0, 0]].concat());
    forms.push([&[0xaa, 0, 0, 0][..], &[0, 0, 0, 20], &[0, 0, 0, 1], &[0, 0, 0, 1], &[0, 0, 0, 0]].concat());
    forms.push([&[0xab, 0, 0, 0][..], &[0, 0, 0, 0], &[0, 0, 0, 1], &[0, 0, 0, 1], &[0, 0, 0, 0]].concat());
    for jump in [1i16, 2, 3, -1, 4, 9, 20, 100] {
        for op in [0xa7u8, 0x99] {
            forms.push([&[op][..], &jump.to_be_bytes()].concat());
        }
        forms.push([&[0xc8u8][..], &(jump as i32).to_be_bytes()].concat());
    }
    let bad: [&[u8]; 8] = [&[0xca], &[0x12, 0], &[0x13, 0, 0], &[0x14, 0, 1], &[0xc4, 0], &[0xbc, 3], &[0xba, 0, 1, 0, 0], &[0xb9, 0, 1, 1, 1]];
    forms.extend(bad.iter().map(|b| b.to_vec()));
    let mut base = p.c.clone();
    if let Some(b) = &p.bsm {
        base.attrs.push(Attr { name: u16::from_be_bytes([b[0], b[1]]), len: None, body: b[6..].to_vec() });
    }
    let uniq: Vec<u16> = (0..3).map(|k| base.pool.utf8(&format!("u{}", k))).collect();
    let desc = base.pool.utf8("()V");
    let code = p.aname("Code");
    let n = forms.len() as u64;
    let radix = [n, n, 3];
    cx.sweep(
        "twin codes",
        "three methods, the first and third with one instruction, the second with another: all pairs of instructions, \
         jumps near and far and faulty ones; as they are, and filled up to the same length before or after",
        product(&radix),
        || {
            let (forms, base, uniq) = (&forms, &base, &uniq);
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let mut c = base.clone();
                for k in 0..3 {
                    let f = &forms[d[k % 2]];
                    let fill = 24usize.saturating_sub(f.len());
                    let ins = match d[2] {
                        0 => f.clone(),
                        1 => [&f[..], &vec![0; fill]].concat(),
                        _ => [&vec![0; fill / 4 * 4][..], f, &vec![0; fill % 4]].concat(),
                    };
                    let body = code_body(1, 2, &ins, &[], &[]);
                    c.methods.push(Member { flags: 9, name: uniq[k], desc, attrs: vec![Attr { name: code, len: None, body }] });
                }
                *out = c.bytes();
                Some(kind)
            }
        },
    );
}

fn file(members: &[(u8, &str, &str)]) -> Vec<u8> {
    let mut c = Class::new(61);
    for (k, (what, n, s)) in members.iter().enumerate() {
        match what {
            0 => c.add_field(1, n, s, vec![]),
            1 => c.add_method(0x401, n, s, vec![]),
            2 => {
                c.pool.mtype(s);
            }
            3 => {
                c.pool.member(9, &format!("C{}", k), n, s);
            }
            4 => {
                c.pool.member(10, &format!("C{}", k), n, s);
            }
            _ => {
                c.pool.class(s);
            }
        }
    }
    c.bytes()
}

/// Two descriptors in one class.
pub fn twin_descriptors(cx: &Ctx, kind: u8) {
    let types = ["I", "J", "La;", "Lb;", "[I", "[[J", "La/b;", "Lb/a;"];
    let mut fields: Vec<String> = types.iter().map(|t| t.to_string()).collect();
    fields.extend(["[La/b;", "[Lb/a;", "[Lab;", "Lba;", "L;", "II", "La", "V"].map(String::from));
    let mut methods = vec![];
    for ret in ["V", "I", "La;", "[Lb/a;"] {
        methods.push(format!("(){}", ret));
        for a in types {
            methods.push(format!("({}){}", a, ret));
            for b in types {
                methods.push(format!("({}{}){}", a, b, ret));
            }
        }
    }
    methods.extend(["(IJI)V", "(IIJ)V", "(JII)V", "(La)V", "()VV", "(V)V", "(L;)V", "(La;b)V", "(Lab;)V", "(Lba;)V", "([)V"].map(String::from));
    let (f, m) = (fields.len() as u64, methods.len() as u64);
    // (first is a method, second is a method)
    let radix = [m, m, 10];
    cx.sweep(
        "twin descriptors",
        "two descriptors in one class, on fields, methods, member references and method types: all pairs of 16 field descriptors, of \
         303 method descriptors (up to two parameters of eight types, four return types, and illegal ones) and of one of each",
        product(&radix),
        || {
            let (fields, methods) = (&fields, &methods);
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (x, y) = (d[0], d[1]);
                let text = |method: bool, k: usize| if method { methods[k].as_str() } else { fields[k].as_str() };
                let (a, b) = [(1u8, 1u8), (1, 4), (4, 1), (2, 1), (1, 2), (0, 0), (0, 3), (3, 0), (0, 1), (3, 4)][d[2]];
                let is = |w: u8| matches!(w, 1 | 2 | 4);
                if x as u64 >= if is(a) { m } else { f } || y as u64 >= if is(b) { m } else { f } {
                    return None;
                }
                let (s, t) = (text(is(a), x), text(is(b), y));
                *out = file(&[(a, "n", s), (b, "o", t), (a, "p", s)]);
                Some(kind)
            }
        },
    );
}

/// Two names in one class.
pub fn twin_names(cx: &Ctx, n: u32, kind: u8) {
    let letters = ["a", "b", "/", ".", "<", "\u{e9}"];
    let mut names = vec![String::new()];
    let mut at = 0;
    for _ in 0..n {
        let to = names.len();
        for k in at..to {
            for l in letters {
                let s = format!("{}{}", names[k], l);
                names.push(s);
            }
        }
        at = to;
    }
    let k = names.len() as u64;
    let radix = [k, k, 7];
    cx.sweep(
        "twin names",
        &format!("two names of up to {} characters over {:?} in one class, as names of fields, methods, classes and members: all pairs", n, letters),
        product(&radix),
        || {
            let names = &names;
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (x, y) = (names[d[0]].as_str(), names[d[1]].as_str());
                let (a, b) = [(0u8, 0u8), (1, 1), (5, 5), (0, 1), (5, 0), (4, 5), (3, 4)][d[2]];
                let item = |w: u8, s: &'_ str| -> (u8, String, &'static str) { (w, s.to_string(), ["I", "()V", "", "I", "()V", ""][w as usize]) };
                let v = [item(a, x), item(b, y)];
                let list: Vec<(u8, &str, &str)> = v.iter().map(|(w, s, t)| if *w == 5 { (*w, "", s.as_str()) } else { (*w, s.as_str(), *t) }).collect();
                *out = file(&list);
                Some(kind)
            }
        },
    );
}
