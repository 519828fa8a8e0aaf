//! Spaces of whole files: attribute lists, member lists, contexts, copies, and near-equal texts.
use crate::asm::*;
use crate::engine::*;
use crate::gen::*;
use crate::refmodel::{self, Verdict};
use crate::spaces::*;

pub fn accepted(b: &[u8], buf: &mut Vec<u8>) -> bool {
    match refmodel::run(b, true, 0, false, std::mem::take(buf)) {
        Verdict::Accept { dump, .. } => {
            *buf = dump;
            true
        }
        _ => false,
    }
}
/// Up to `max` different legal contents of an attribute: the default and legal ones one choice away from it.
fn variants(f: &Family, p: &Pal, host: Host, max: usize) -> Vec<Vec<u8>> {
    let mut buf = vec![];
    let mut ch = Ch::fixed(&[]);
    let first = (f.f)(&mut ch, p);
    let arity = ch.arity.clone();
    let mut v = vec![];
    for (pos, n) in arity.iter().enumerate() {
        for alt in 1..*n {
            let devs = [(pos as u32, alt)];
            let mut ch = Ch::fixed(&devs);
            let body = (f.f)(&mut ch, p);
            if body != first && body.len() < 200 && !v.contains(&body) && accepted(&p.put(host, &[p.attr(f.attr, body.clone())]), &mut buf) {
                v.push(body);
            }
        }
    }
    let n = v.len();
    let mut out = vec![first];
    let take = n.min(max - 1);
    for k in 0..take {
        out.push(std::mem::take(&mut v[k * n / take]));
    }
    out
}

pub fn all_names() -> Vec<&'static str> {
    let mut names: Vec<&str> = FAMILIES.iter().map(|f| f.attr).collect();
    names.sort();
    names.dedup();
    names
}

/// Lists of three attributes of all kinds, and long lists of them, at every place.
pub fn attribute_lists(cx: &Ctx, pairs_of: usize, sizes: &[usize], kind: u8) {
    struct At {
        host: Host,
        pal: usize,
        /// contents of each kind
        kinds: Vec<(&'static str, Vec<Vec<u8>>)>,
        start: u64,
    }
    let names = all_names();
    let pals = [Pal::new(61, false, &names), Pal::new(55, true, &names)];
    let mut at = vec![];
    let mut total = 0u64;
    for (host, pal) in HOSTS.iter().map(|h| (*h, 0)).chain([(Host::Class, 1)]) {
        let p = &pals[pal];
        let kinds: Vec<_> = FAMILIES
            .iter()
            .filter(|f| !f.module || pal == 1)
            .map(|f| (f.attr, variants(f, p, host, pairs_of.max(4))))
            .collect();
        let n = kinds.len() as u64;
        let v: u64 = kinds.iter().map(|k| k.1.len().min(pairs_of) as u64).sum();
        at.push(At { host, pal, kinds, start: total });
        total += n * n * n + v * v + sizes.len() as u64 * 4;
    }
    cx.sweep(
        "lists of attributes",
        &format!(
            "all lists of three attributes of all kinds, all lists of two attributes over the kinds with up to {} different \
             contents each, and lists of {:?} attributes of all kinds and different contents in four orders, at class, field, \
             method, code and record component level and in a module descriptor",
            pairs_of, sizes
        ),
        total,
        || {
            let (at, pals) = (&at, &pals);
            move |i, out: &mut Vec<u8>| {
                let a = at.iter().rev().find(|a| a.start <= i).unwrap();
                let p = &pals[a.pal];
                let mut j = i - a.start;
                let n = a.kinds.len() as u64;
                let attr = |k: usize, v: usize| {
                    let (name, bodies) = &a.kinds[k];
                    p.attr(name, bodies[v % bodies.len()].clone())
                };
                let list = if j < n * n * n {
                    let d = digits(j, &[n, n, n]);
                    vec![attr(d[0], 0), attr(d[1], 1), attr(d[2], 2)]
                } else {
                    j -= n * n * n;
                    let flat: Vec<(usize, usize)> =
                        (0..n as usize).flat_map(|k| (0..a.kinds[k].1.len().min(pairs_of)).map(move |v| (k, v))).collect();
                    let f = flat.len() as u64;
                    if j < f * f {
                        let (x, y) = (flat[(j % f) as usize], flat[(j / f) as usize]);
                        vec![attr(x.0, x.1), attr(y.0, y.1)]
                    } else {
                        j -= f * f;
                        let size = sizes[(j / 4) as usize];
                        // kinds that may not be repeated in such a list are left out
                        let once = ["Code", "BootstrapMethods", "Record"];
                        let many: Vec<usize> = (0..n as usize).filter(|k| !once.contains(&a.kinds[*k].0)).collect();
                        let l = many.len();
                        (0..size)
                            .map(|e| match j % 4 {
                                0 => attr(many[e % l], e / l),
                                1 => attr(many[(size - 1 - e) % l], e),
                                2 => attr(many[(e * e + e / l) % l], e / 3),
                                _ => attr(many[e / 7 % l], e % 7),
                            })
                            .collect()
                    }
                };
                *out = p.put(a.host, &list);
                (out.len() <= SLOT_DATA).then_some(kind)
            }
        },
    );
}

/// Every attribute at every place in files of every version, under every flag of the class and of the member.
pub fn contexts(cx: &Ctx, pick: impl Fn(&Family) -> bool, kind: u8) {
    let fams: Vec<&Family> = FAMILIES.iter().filter(|f| pick(f)).collect();
    const LO: u16 = 45;
    const N: usize = 26;
    let radix = [17, 17, 5, N as u64, fams.len() as u64, 2];
    // one palette per kind and version
    let pals: Vec<(Pal, Vec<u8>)> = fams
        .iter()
        .flat_map(|f| {
            (0..N).map(move |k| {
                let p = Pal::new(LO + k as u16, f.module && LO + k as u16 >= 53, &family_names(f));
                let mut ch = Ch::fixed(&[]);
                let body = (f.f)(&mut ch, &p);
                (p, body)
            })
        })
        .collect();
    cx.sweep(
        "attributes in every context",
        "each attribute kind at class, field, method, code and record component level, in versions 45 to 70 with minor versions 0 and 65535, with each flag of \
         the class and each flag of the member inverted: all combinations",
        product(&radix),
        || {
            let (fams, pals) = (&fams, &pals);
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let f = fams[d[4]];
                let (p, body) = &pals[d[4] * N + d[3]];
                let host = HOSTS[d[2]];
                let member = matches!(host, Host::Field | Host::Method | Host::Code);
                if !member && d[1] != 0 || f.module && host != Host::Class {
                    return None;
                }
                *out = p.put(host, &[p.attr(f.attr, body.clone())]);
                if d[5] == 1 {
                    out[4..6].fill(255);
                }
                let h = p.head.len();
                let mut flip = |at: usize, bit: usize| {
                    if bit > 0 {
                        let m = 1u16 << (bit - 1);
                        out[at] ^= (m >> 8) as u8;
                        out[at + 1] ^= m as u8;
                    }
                };
                flip(h, d[0]);
                flip(if host == Host::Field { h + 10 } else { h + 12 }, d[1]);
                Some(kind)
            }
        },
    );
}

/// One attribute with one oversized number, many times in one file.
pub fn copies(cx: &Ctx, times: &[usize], kind: u8) {
    let names = all_names();
    let vals: [u32; 6] = [0xffff, 0x7fff, 0x8000, 0x1000, 0x7fff_ffff, 0x00ff_ffff];
    let mut files = vec![];
    for f in &FAMILIES {
        let p = Pal::new(if f.module { 55 } else { 61 }, f.module, &names);
        let bodies = variants(f, &p, f.host, 3);
        let mut c = p.c.clone();
        let uniq: Vec<u16> = (0..*times.iter().max().unwrap()).map(|k| c.pool.utf8(&format!("u{}", k))).collect();
        let desc = [c.pool.utf8("I"), c.pool.utf8("()V")];
        let name = p.aname(f.attr);
        files.push((f, c, uniq, desc, name, bodies, p.bsm));
    }
    let (st, total) = starts(files.iter().map(|f| f.5.iter().map(|b| (b.len() + 1) as u64).sum::<u64>() * vals.len() as u64 * times.len() as u64 * 3));
    cx.sweep(
        "copies",
        &format!(
            "each attribute in up to three contents with each 16-bit or 32-bit field at any position set to one of six large \
             numbers, {:?} times in one list of attributes, or on as many fields or methods",
            times
        ),
        total,
        || {
            let (files, st) = (&files, &st);
            move |i, out: &mut Vec<u8>| {
                let (k, j) = locate(st, i);
                let (f, c, uniq, desc, name, bodies, bsm) = &files[k];
                let d = digits(j, &[vals.len() as u64, times.len() as u64, 3, bodies.iter().map(|b| (b.len() + 1) as u64).sum()]);
                let mut at = d[3];
                let mut body = vec![];
                for b in bodies {
                    if at <= b.len() {
                        body = b.clone();
                        break;
                    }
                    at -= b.len() + 1;
                }
                let v = vals[d[0]];
                let w = if v > 0xffff { 4 } else { 2 };
                // the last position leaves the contents as they are
                if at < body.len() {
                    if at + w > body.len() {
                        return None;
                    }
                    body[at..at + w].copy_from_slice(&v.to_be_bytes()[4 - w..]);
                } else if d[0] > 0 {
                    return None;
                }
                let n = times[d[1]];
                if f.module && d[2] > 0 {
                    return None;
                }
                let mut c = c.clone();
                let a = Attr { name: *name, len: None, body };
                match d[2] {
                    0 => {
                        let l = vec![a; n];
                        match f.host {
                            Host::Field => c.fields.push(Member { flags: 2, name: uniq[0], desc: desc[0], attrs: l }),
                            Host::Method | Host::Code => c.methods.push(Member { flags: 0x401, name: uniq[0], desc: desc[1], attrs: l }),
                            _ => c.attrs = l,
                        }
                    }
                    1 => {
                        for u in &uniq[..n] {
                            c.fields.push(Member { flags: 2, name: *u, desc: desc[0], attrs: vec![a.clone()] });
                        }
                    }
                    _ => {
                        for u in &uniq[..n] {
                            c.methods.push(Member { flags: 1, name: *u, desc: desc[1], attrs: vec![a.clone()] });
                        }
                    }
                }
                if let Some(b) = bsm {
                    c.attrs.push(Attr { name: u16::from_be_bytes([b[0], b[1]]), len: None, body: b[6..].to_vec() });
                }
                *out = c.bytes();
                Some(kind)
            }
        },
    );
}

/// Long lists of members and interfaces that all differ.
pub fn member_lists(cx: &Ctx, sizes: &[usize], kind: u8) {
    let fd = ["I", "J", "Lp/C;", "[I", "[[Lp/D;", "Z", "D", "La;"];
    let md = ["()V", "(I)V", "()I", "(JD)[J", "(Lp/C;)Lp/D;", "([[Z)V", "(IIII)J", "(La;I)La;"];
    let radix = [3, 4, 3, sizes.len() as u64];
    cx.sweep(
        "long member lists",
        &format!(
            "lists of {:?} fields, methods or interfaces that all differ in name, descriptor, flags and attributes, in four \
             orders, with names and descriptors in three arrangements",
            sizes
        ),
        product(&radix),
        || {
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let n = sizes[d[3]];
                let mut c = Class::new(61);
                if d[0] == 2 {
                    let m = n.min(30000);
                    let ix: Vec<u16> = (0..m).map(|k| c.pool.class(&format!("i{}", k))).collect();
                    c.ifs = (0..n)
                        .map(|e| match d[1] {
                            0 => ix[e % m],
                            1 => ix[(n - 1 - e) % m],
                            2 => ix[(e * 7 + e / m) % m],
                            _ => ix[(e ^ 1) % m],
                        })
                        .collect();
                    if d[2] == 1 {
                        c.flags = 0x601;
                        c.sup = c.pool.class("java/lang/Object");
                    } else if d[2] == 2 {
                        c.major = 45;
                    }
                    *out = c.bytes();
                    return Some(kind);
                }
                let per = n.div_ceil(8);
                let descs: Vec<u16> = if d[0] == 0 { fd } else { md }.iter().map(|s| c.pool.utf8(s)).collect();
                let ix: Vec<u16> = (0..per)
                    .map(|k| {
                        let s = match d[2] {
                            0 => format!("m{}", k),
                            1 => format!("{}m", k),
                            // equal lengths, different in one place only
                            _ => format!("m{:05}{}", k, "x".repeat(if per < 3000 { 30 } else { 1 })),
                        };
                        c.pool.utf8(&s)
                    })
                    .collect();
                let (dep, foo) = (c.attr("Deprecated", vec![]), c.attr("Foo", vec![7, 8, 9]));
                let fl = if d[0] == 0 { [2u16, 9, 0x1a, 0x1004, 0x81, 0x4001] } else { [0x401, 0x1401, 0x404, 0x101, 0x109, 0x500] };
                let list: Vec<Member> = (0..n)
                    .map(|e| {
                        let e = match d[1] {
                            0 => e,
                            1 => n - 1 - e,
                            2 => e % 8 * per + e / 8,
                            _ => e ^ 1,
                        };
                        let (x, y) = if d[1] == 2 { (e % per, e / per) } else { (e / 8, e % 8) };
                        Member {
                            flags: fl[e % 6],
                            name: ix[x % per],
                            desc: descs[y % 8],
                            attrs: match e % 5 {
                                1 => vec![dep.clone()],
                                3 => vec![foo.clone(), dep.clone()],
                                _ => vec![],
                            },
                        }
                    })
                    .collect();
                if d[0] == 0 {
                    c.fields = list
                } else {
                    c.methods = list
                }
                *out = c.bytes();
                (out.len() <= SLOT_DATA).then_some(kind)
            }
        },
    );
    // one pair of equal members in a long list
    let places = |n: usize| -> Vec<(usize, usize)> {
        let mut v = vec![];
        let pts = [0, 1, 2, 7, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, n / 2, n / 2 + 1, n - 3, n - 2, n - 1];
        for a in pts {
            for b in pts {
                if a < b && b < n {
                    v.push((a, b));
                }
            }
        }
        v.sort();
        v.dedup();
        v
    };
    let all: Vec<(usize, usize, usize)> = sizes.iter().filter(|n| **n > 4).flat_map(|n| places(*n).into_iter().map(|(a, b)| (*n, a, b))).collect();
    let np = all.len() as u64;
    cx.sweep(
        "one equal pair in a long member list",
        &format!("lists of {:?} fields or methods, two of which at boundary places are equal in name and descriptor, in name only or in descriptor only", sizes),
        np * 6,
        || {
            let all = &all;
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &[2, 3, np]);
                let (n, a, b) = all[d[2]];
                let mut c = Class::new(61);
                let ds: Vec<u16> = if d[0] == 0 { fd } else { md }.iter().map(|s| c.pool.utf8(s)).collect();
                let per = n.div_ceil(4);
                let ix: Vec<u16> = (0..per).map(|k| c.pool.utf8(&format!("m{}", k))).collect();
                let at = |e: usize| (ix[e / 4], ds[e % 4]);
                let list: Vec<Member> = (0..n)
                    .map(|e| {
                        let (mut name, mut desc) = at(e);
                        if e == b {
                            match d[1] {
                                0 => (name, desc) = at(a),
                                1 => (name, desc) = (at(a).0, ds[5]),
                                _ => desc = at(a).1,
                            }
                            if d[1] == 2 && at(a).1 != at(e).1 {
                                // a name nothing else has
                                name = c.pool.utf8("other");
                            }
                        }
                        Member { flags: if d[0] == 0 { 2 } else { 0x401 }, name, desc, attrs: vec![] }
                    })
                    .collect();
                if d[0] == 0 {
                    c.fields = list
                } else {
                    c.methods = list
                }
                *out = c.bytes();
                Some(kind)
            }
        },
    );
}

/// Pairs of members whose names and descriptors are different but alike.
pub fn near_duplicates(cx: &Ctx, kind: u8) {
    // (name, descriptor) pairs of pairs
    let mut v: Vec<(bool, [String; 4])> = vec![];
    let mut put = |m: bool, a: &str, b: &str, c: &str, d: &str| v.push((m, [a.into(), b.into(), c.into(), d.into()]));
    let seps: Vec<String> = (0u32..0x100).chain([0x3b1, 0x2192, 0x1f600]).filter_map(char::from_u32).map(String::from).chain(["".into(), "::".into(), "->".into(), ", ".into(), ": ".into()]).collect();
    for s in &seps {
        // the same text when name, separator and descriptor are joined
        put(false, &format!("x{}La", s), "Lb;", "x", &format!("La{}Lb;", s));
        put(false, &format!("x{}I", s), "I", "x", &format!("LI{}I;", s));
        put(true, &format!("x{}(La", s), "(Lb;)V", "x", &format!("(La{}(Lb;)V", s));
        put(true, &format!("x{}(LQ", s), "(I)V", "x", &format!("(LQ{}(I;)V", s));
        // names that differ by one character at either end
        put(false, &format!("x{}", s), "I", "x", "I");
        put(false, &format!("{}x", s), "I", "x", "I");
        put(true, &format!("x{}", s), "()V", "x", "()V");
        put(true, &format!("{}x", s), "()V", "x", "()V");
        put(false, "x", &format!("La{};", s), "x", "La;");
        put(true, "x", &format!("(La{};)V", s), "x", "(La;)V");
    }
    let names = ["x", "X", "xx", "x ", " x", "Aa", "BB", "AaAa", "BBBB", "AaBB", "e\u{301}", "\u{e9}", "\u{130}", "i\u{307}", "\u{df}", "ss", "\u{fb01}", "fi", "x\u{0}", "x\u{200b}", "1", "01", "\u{661}", "<init>", "<clinit>"];
    let fd = ["I", "J", "[I", "[J", "[[I", "La;", "LA;", "[La;", "La/b;", "Lb/a;", "La$b;", "LAa;", "LBB;", "LI;", "LJ;"];
    let md = ["()V", "()I", "(I)V", "(I)I", "(J)V", "(II)V", "(IJ)V", "(JI)V", "([I)V", "([[I)V", "(La;)V", "(LA;)V", "(La;Lb;)V", "(Lb;La;)V", "(La/b;)V", "()La;", "()[I"];
    for a in names {
        for b in names {
            put(false, a, "I", b, "I");
            put(true, a, "()V", b, "()V");
            put(true, a, "()V", b, "()I");
        }
    }
    for a in names {
        for b in fd {
            for c in fd {
                put(false, a, b, a, c);
            }
        }
        for b in md {
            for c in md {
                put(true, a, b, a, c);
            }
        }
    }
    for n in [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 253, 254, 255, 256, 257, 1000, 4096, 32767, 65534] {
        let s = "n".repeat(n);
        for at in [0, n / 2, n - 1] {
            let mut t = s.clone();
            t.replace_range(at..at + 1, "z");
            put(false, &s, "I", &t, "I");
            put(true, &s, "()V", &t, "()V");
            if n < 65530 {
                put(false, "x", &format!("L{};", s), "x", &format!("L{};", t));
                put(true, "x", &format!("(L{};)V", s), "x", &format!("(L{};)V", t));
                put(true, "x", &format!("()L{};", s), "x", &format!("()L{};", t));
            }
        }
        put(false, &s, "I", &s, "J");
        put(true, &s, "()V", &s, "()I");
        put(false, &s, "I", &s, "I");
    }
    let n = v.len() as u64;
    cx.sweep(
        "near-equal members",
        "pairs of fields or methods whose names and descriptors are equal when joined by any character below U+0100, equal up to \
         one character, case, composition or order, or different late in a long text; equal pairs too; three orders, two versions",
        n * 6,
        || {
            let v = &v;
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &[3, 2, n]);
                let (m, t) = &v[d[2]];
                let mut c = Class::new([52, 45][d[1]]);
                let mut ix = |s: &String| {
                    let e = encode(s);
                    (e.len() < 65536).then(|| c.pool.utf8b(&e))
                };
                let ix = [ix(&t[0])?, ix(&t[1])?, ix(&t[2])?, ix(&t[3])?];
                let mut list: Vec<Member> =
                    [(0, 1), (2, 3)].iter().map(|(a, b)| Member { flags: 0x401 * *m as u16, name: ix[*a], desc: ix[*b], attrs: vec![] }).collect();
                match d[0] {
                    0 => (),
                    1 => list.reverse(),
                    _ => {
                        let name = c.pool.utf8("between");
                        list.insert(1, Member { flags: 0x401 * *m as u16, name, desc: ix[1], attrs: vec![] });
                    }
                }
                if *m {
                    c.methods = list
                } else {
                    c.fields = list
                }
                *out = c.bytes();
                Some(kind)
            }
        },
    );
}

/// Long names with one unusual character or segment late in them, in every role a name has.
pub fn long_names(cx: &Ctx, kind: u8) {
    let r = NAME_ROLES as u64;
    let lens = [30usize, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65530];
    let odd = [".", ";", "[", "<", ">", ":", "@", "\\", " ", "\u{1f}", "\u{e9}", "\0", "\u{1F600}", "//", "/", "("];
    let shape = [1usize, 2, 5, 9, 0]; // segment lengths; 0: no segments
    let radix = [r, odd.len() as u64 + 1, 5, shape.len() as u64, lens.len() as u64];
    cx.sweep(
        "long names",
        &format!(
            "names of {:?} bytes in one segment or in segments of 1, 2, 5 or 9, plain or with one of {:?} at the start, in the \
             middle, past the 255th byte, near the end or at the end, in every role a name has",
            lens, odd
        ),
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (l, seg) = (lens[d[4]], shape[d[3]]);
                let mut s: String = (0..l).map(|k| if seg > 0 && k % (seg + 1) == seg && k + 1 < l { '/' } else { (b'a' + (k % 26) as u8) as char }).collect();
                if d[1] > 0 {
                    let at = match d[2] {
                        0 => 0,
                        1 => l / 2,
                        2 if l > 256 => 256,
                        2 => return None,
                        3 => l - 2,
                        _ => l,
                    };
                    if at == l {
                        s.push_str(odd[d[1] - 1])
                    } else {
                        s.replace_range(at..at + 1, odd[d[1] - 1]);
                    }
                } else if d[2] > 0 {
                    return None;
                }
                let e = encode(&s);
                if e.len() > 65500 {
                    return None;
                }
                *b = name_role(d[0], &e);
                Some(kind)
            }
        },
    );
}
/// Long class names inside descriptors, with one unusual character late in them.
pub fn long_descriptors(cx: &Ctx, kind: u8) {
    let r = DESC_ROLES as u64;
    let lens = [30usize, 32, 63, 64, 126, 127, 128, 129, 250, 251, 252, 253, 254, 255, 256, 257, 258, 512, 1024, 4096, 32768, 65000];
    let odd = ["", ".", ";", "[", "<", ":", "\u{e9}", "\0", "\u{1F600}", "//", "/", "(", ")"];
    let shape = [0usize, 1, 4];
    let radix = [r, odd.len() as u64, 3, shape.len() as u64, 5, lens.len() as u64];
    cx.sweep(
        "long class names in descriptors",
        &format!("class names of {:?} bytes with one of {:?} in the middle, near the end or at the end, in five surroundings, in every position a descriptor has", lens, odd),
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (l, seg) = (lens[d[5]], shape[d[3]]);
                let mut s: String = (0..l).map(|k| if seg > 0 && k % (seg + 1) == seg && k + 1 < l { '/' } else { (b'a' + (k % 26) as u8) as char }).collect();
                let at = [l / 2, l - 2, l][d[2]];
                if d[1] == 0 && d[2] > 0 {
                    return None;
                }
                if d[1] > 0 {
                    if at == l {
                        s.push_str(odd[d[1]])
                    } else {
                        s.replace_range(at..at + 1, odd[d[1]]);
                    }
                }
                let method = [1, 3, 4, 6, 7].contains(&d[0]);
                let t = match (method, d[4]) {
                    (false, 0) => format!("L{};", s),
                    (false, 1) => format!("[[L{};", s),
                    (false, 2) => format!("L{};I", s),
                    (false, 3) => format!("L{}", s),
                    (false, _) => format!("[L{};;", s),
                    (true, 0) => format!("(L{};)V", s),
                    (true, 1) => format!("(IL{};[J)V", s),
                    (true, 2) => format!("(I)L{};", s),
                    (true, 3) => format!("(L{})V", s),
                    (true, _) => format!("(La;[L{};Lb;)[La;", s),
                };
                let e = encode(&t);
                if e.len() > 65500 {
                    return None;
                }
                *b = desc_role(d[0], &e);
                Some(kind)
            }
        },
    );
}

/// Debug texts around the sizes at which a length no longer fits in fewer bytes.
pub fn debug_lengths(cx: &Ctx, kind: u8) {
    let lens = [0usize, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 65540, 70000, 131071, 131072, 131073, 200_000, 1 << 20];
    let radix = [7, 4, 5, lens.len() as u64];
    let p = Pal::new(61, false, &["SourceDebugExtension", "Synthetic", "Code", "Record"]);
    cx.sweep(
        "debug texts",
        &format!("SourceDebugExtension of {:?} bytes, plain, with one re-encoded or one malformed character at start, middle or end, with right and wrong lengths, at every place", lens),
        product(&radix),
        || {
            let p = &p;
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let l = lens[d[3]];
                let mut s: Vec<u8> = (0..l).map(|k| b'a' + (k % 26) as u8).collect();
                if d[0] > 0 {
                    if l < 2 {
                        return None;
                    }
                    let at = [0, l / 2, l - 2][(d[0] - 1) % 3];
                    s[at..at + 2].copy_from_slice(if d[0] <= 3 { &[0xC0, 0x80] } else { &[0xC0, 0x81] });
                }
                let mut a = p.attr("SourceDebugExtension", s);
                a.len = match d[1] {
                    0 => None,
                    1 => Some(l as u32 + 1),
                    2 => Some((l as u32).wrapping_sub(1)),
                    _ => Some(l as u32 & 0xffff),
                };
                *out = p.put(HOSTS[d[2]], &[a, p.attr("Synthetic", vec![])]);
                (out.len() <= SLOT_DATA).then_some(kind)
            }
        },
    );
}

/// The text entries of a palette that can be made long: (index, text up to where to insert, the rest).
fn stretchable(p: &Pal) -> Vec<(usize, usize, usize)> {
    let b = &p.head;
    let mut v = vec![];
    let (mut i, mut k) = (10, 1);
    while i < b.len() {
        let step = match b[i] {
            1 => {
                let n = u16::from_be_bytes([b[i + 1], b[i + 2]]) as usize;
                let s = &b[i + 3..i + 3 + n];
                let attr = n > 4 && s[0].is_ascii_uppercase();
                let fixed: [&[u8]; 10] = [b"", b"a.b", b"<init>", b"I", b"II", b"V", b"D", b"()V", b"(I)J", b"[[J"];
                if s.is_ascii() && !attr && !fixed.contains(&s) {
                    v.push((i, if s.ends_with(b";") { n - 1 } else if s == b"(I[Lx;)V" { n - 3 } else { n }, k));
                }
                3 + n
            }
            5 | 6 => {
                k += 1;
                9
            }
            3 | 4 | 9..=12 | 17 | 18 => 5,
            15 => 4,
            _ => 3,
        };
        k += 1;
        i += step;
    }
    v
}
/// The file with `by` bytes more in the text entry at `at`.
fn stretched(b: &[u8], at: usize, off: usize, by: usize) -> Vec<u8> {
    let n = u16::from_be_bytes([b[at + 1], b[at + 2]]) as usize + by;
    let mut o = Vec::with_capacity(b.len() + by);
    o.extend_from_slice(&b[..at + 1]);
    o.extend_from_slice(&u2(n as u32));
    o.extend_from_slice(&b[at + 3..at + 3 + off]);
    o.resize(o.len() + by, b'x');
    o.extend_from_slice(&b[at + 3 + off..]);
    o
}
/// One very long text used by every element of a long list.
pub fn shared_texts(cx: &Ctx, per_list: usize, n: usize, len: usize, kind: u8) {
    const NONE: (u32, u32) = (u32::MAX, 0);
    let fams: Vec<(&Family, Pal)> = FAMILIES.iter().map(|f| (f, family_pal(f))).collect();
    let marker = "x".repeat(50);
    // (family, list, deviation of every element, entry)
    let mut cases: Vec<(usize, usize, (u32, u32), (usize, usize, usize))> = vec![];
    let uses = |b: &[u8]| match refmodel::run(b, true, u32::MAX, false, vec![]) {
        Verdict::Accept { dump, .. } => {
            let s = String::from_utf8_lossy(&dump);
            s.matches(&marker).count()
        }
        _ => 0,
    };
    for (k, (f, p)) in fams.iter().enumerate() {
        let mut ch = Ch::fixed(&[]);
        (f.f)(&mut ch, p);
        for list in 0..ch.lists {
            let make = |n: usize, dev: (u32, u32)| {
                let vary = move |_: usize| dev;
                let mut ch = Ch::fixed(&[]);
                ch.stretch = Some((list, n));
                ch.vary = Some(&vary);
                let body = (f.f)(&mut ch, p);
                (p.put(f.host, &[p.attr(f.attr, body)]), ch.seen)
            };
            let (_, seen) = make(9, NONE);
            let mut devs = vec![NONE];
            for (at, n) in seen.first().map(|s| &s[..]).unwrap_or(&[]).iter().enumerate() {
                devs.extend((1..*n).map(|a| (at as u32, a)));
            }
            for e in stretchable(p) {
                let few = uses(&stretched(&make(9, NONE).0, e.0, e.1, 60));
                let mut found = 0;
                for dev in &devs {
                    if found < per_list {
                        let (a, b) = (make(9, *dev).0, make(12, *dev).0);
                        let (x, y) = (uses(&stretched(&a, e.0, e.1, 60)), uses(&stretched(&b, e.0, e.1, 60)));
                        if y >= x + 3 && (found == 0 || x != few) {
                            found += 1;
                            cases.push((k, list, *dev, e));
                        }
                    }
                }
            }
        }
    }
    // instructions, members and pool entries
    let p = Pal::new(61, false, &["StackMapTable", "LineNumberTable"]);
    let mut files: Vec<Vec<u8>> = vec![];
    for e in stretchable(&p) {
        for f in crate::spaces2::forms(&p) {
            if f.len() < 2 {
                continue;
            }
            let make = |n: usize| p.with_code(&f.repeat(n), &[], &[]);
            let m = n.min(65535 / f.len());
            let (x, y) = (uses(&stretched(&make(9), e.0, e.1, 60)), uses(&stretched(&make(12), e.0, e.1, 60)));
            if y >= x + 3 {
                files.push(stretched(&make(m), e.0, e.1, len));
            }
        }
    }
    let long = "x".repeat(len);
    for role in 0..8 {
        let mut c = Class::new(61);
        match role {
            0 | 1 | 2 => {
                let d = c.pool.utf8(&[format!("L{};", long), format!("(L{};)V", long), format!("()L{};", long)][role]);
                for i in 0..n {
                    let name = c.pool.utf8(&format!("m{}", i));
                    let m = Member { flags: 1, name, desc: d, attrs: vec![] };
                    if role == 0 {
                        c.fields.push(m)
                    } else {
                        c.methods.push(m)
                    }
                }
            }
            3 => {
                let k = c.pool.class(&long);
                c.ifs = vec![k; n];
            }
            _ => {
                let t = c.pool.utf8(&long);
                let d = c.pool.utf8("I");
                let nt = c.pool.e4(12, t, d);
                let k = c.this;
                let e = match role {
                    4 => W::new().b1(7).i2(t),
                    5 => W::new().b1(8).i2(t),
                    6 => W::new().b1(12).i2(t).i2(d),
                    _ => W::new().b1(9).i2(k).i2(nt),
                };
                for _ in 0..n {
                    c.pool.push(&e.0);
                }
            }
        }
        files.push(c.bytes());
    }
    let total = (cases.len() + files.len()) as u64;
    cx.sweep(
        "one long text used many times",
        &format!("a text of {} bytes used by each of {} elements of every list, of every instruction that names something, and of every kind of member and pool entry", len, n),
        total,
        || {
            let (fams, cases, files) = (&fams, &cases, &files);
            move |i, out: &mut Vec<u8>| {
                let Some((k, list, dev, e)) = cases.get(i as usize) else {
                    *out = files[i as usize - cases.len()].clone();
                    return Some(kind);
                };
                let (f, p) = &fams[*k];
                let vary = |_: usize| *dev;
                let mut ch = Ch::fixed(&[]);
                ch.stretch = Some((*list, n));
                ch.vary = Some(&vary);
                let body = (f.f)(&mut ch, p);
                *out = stretched(&p.put(f.host, &[p.attr(f.attr, body)]), e.0, e.1, len);
                (out.len() <= SLOT_DATA).then_some(kind)
            }
        },
    );
}

/// Long texts with one unusual unit across a boundary that a reader working in pieces might have.
pub fn straddling_texts(cx: &Ctx, roles: &[usize], kind: u8) {
    let units: Vec<&[u8]> = vec![
        b"\xc0\x80",
        b"\xc3\xa9",
        b"\xe2\x82\xac",
        b"\xed\xa0\xbd\xed\xb8\x80",
        b"\xf0\x9f\x98\x80",
        b"\xed\xa0\xbd",
        b"\xed\xb8\x80",
        b"\xed\xb8\x80\xed\xa0\xbd",
        b"\xff",
        b"\x80",
        b"\xc3",
        b"\xc0\x81",
        b"\0",
    ];
    let mut places: Vec<usize> = vec![];
    for k in 3..=17 {
        for m in [1usize << k, 3 << (k - 1)] {
            places.extend(m.saturating_sub(7)..=m + 2);
        }
    }
    places.sort();
    places.dedup();
    places.retain(|p| *p < 140_000);
    let radix = [units.len() as u64, roles.len() as u64, 4, places.len() as u64];
    cx.sweep(
        "texts with a unit at a boundary",
        "texts with one of 13 encoded units (two, three, four and six bytes, halves, malformed) at each place from 7 before to 2 \
         after each power of two and one and a half times it, followed by nothing, by plain text, by the same unit, or after a \
         re-encoded character at the start",
        product(&radix),
        || {
            let (units, places) = (&units, &places);
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let u = units[d[0]];
                let at = places[d[3]];
                let mut s: Vec<u8> = (0..at).map(|k| b'a' + (k % 26) as u8).collect();
                if d[2] == 3 && at >= 2 {
                    s[..2].copy_from_slice(b"\xc0\x80");
                }
                s.extend_from_slice(u);
                match d[2] {
                    1 => s.extend_from_slice(&[b'z'; 50]),
                    2 => s.extend_from_slice(u),
                    _ => (),
                }
                if s.len() > 65500 && roles[d[1]] != 4 {
                    return None;
                }
                *b = text_role(roles[d[1]], &s);
                Some(kind)
            }
        },
    );
    // texts made of one unit only, at every length
    let radix = [units.len() as u64, roles.len() as u64, 3, 100];
    cx.sweep("texts of one repeated unit", "texts that repeat one of 13 units 0 to 90 times and up to the length limit, shifted by 0 to 2 bytes", product(&radix), || {
        let units = &units;
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &radix);
            let u = units[d[0]];
            let n = if d[3] < 91 { d[3] } else { [128, 255, 256, 1365, 1366, 4096, 8192, 10922, 65500][d[3] - 91] };
            let mut s = vec![b'q'; d[2]];
            s.extend(u.repeat(n.min(65500 / u.len())));
            *b = text_role(roles[d[1]], &s);
            Some(kind)
        }
    });
}

/// Every character there is, and every encoded unit.
pub fn all_characters(cx: &Ctx, name_roles: &[usize], text_roles: &[usize], kind: u8) {
    let n = 0x11_0000u64;
    let r = name_roles.len() as u64;
    cx.sweep("every character in names", &format!("every Unicode character inside a name, in {} roles", r), n * r, || {
        move |i, b: &mut Vec<u8>| {
            let c = char::from_u32((i / r) as u32)?;
            *b = name_role(name_roles[(i % r) as usize], &encode(&format!("x{}y", c)));
            Some(kind)
        }
    });
    let r = text_roles.len() as u64;
    cx.sweep(
        "every character in texts",
        &format!("every Unicode character, in both encodings, and every single UTF-16 unit, surrogates included, in {} roles", r),
        (n * 2 + 0x1_0000) * r,
        || {
            move |i, b: &mut Vec<u8>| {
                let (j, role) = (i / r, text_roles[(i % r) as usize]);
                let s = if j < n {
                    encode(&char::from_u32(j as u32)?.to_string())
                } else if j < 2 * n {
                    char::from_u32((j - n) as u32)?.to_string().into_bytes()
                } else {
                    let u = (j - 2 * n) as u32;
                    vec![0xE0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3f) as u8, 0x80 | (u & 0x3f) as u8]
                };
                *b = text_role(role, &s);
                Some(kind)
            }
        },
    );
}

/// A whole file followed by something that looks like a part of a file.
pub fn followed(cx: &Ctx, kind: u8) {
    let seeds = all_seeds();
    let whole = whole_seeds();
    let n = whole.len() as u64;
    // what follows: each seed, each prefix of the small one, each tail of the file itself
    let tiny = tiny(52);
    let (st, total) = starts(seeds.iter().map(|s| (seeds.len() + tiny.len() + s.1.len()) as u64));
    let _ = n;
    cx.sweep(
        "files followed by parts of files",
        "each seed file followed by each seed file, by each prefix of a small one, by each tail of its own, and preceded by each tail",
        total * 2,
        || {
            let (seeds, tiny, st) = (&seeds, &tiny, &st);
            move |i, b: &mut Vec<u8>| {
                let (k, j) = locate(st, i / 2);
                let (s, j) = (&seeds[k].1, j as usize);
                let other = if j < seeds.len() {
                    &seeds[j].1[..]
                } else if j - seeds.len() < tiny.len() {
                    &tiny[..j - seeds.len() + 1]
                } else {
                    &s[j - seeds.len() - tiny.len()..]
                };
                if i % 2 == 0 {
                    b.extend_from_slice(s);
                    b.extend_from_slice(other);
                } else {
                    b.extend_from_slice(other);
                    b.extend_from_slice(s);
                }
                Some(kind)
            }
        },
    );
}

/// An attribute on one late member of a long list, the others plain; and code on all of them.
pub fn late_places(cx: &Ctx, pick: impl Fn(&Family) -> bool, sizes: &[usize], kind: u8) {
    let names = all_names();
    struct F {
        fam: &'static Family,
        c: Class,
        uniq: Vec<u16>,
        desc: [u16; 2],
        code: u16,
        rec: u16,
        bodies: Vec<Vec<u8>>,
    }
    let top = *sizes.iter().max().unwrap();
    let mut fs = vec![];
    for fam in FAMILIES.iter().filter(|f| !f.module && pick(f)) {
        let p = Pal::new(61, false, &names);
        let bodies = variants(fam, &p, fam.host, 3);
        let mut c = p.c.clone();
        let b = p.bsm.as_ref().unwrap();
        c.attrs.push(Attr { name: u16::from_be_bytes([b[0], b[1]]), len: None, body: b[6..].to_vec() });
        let uniq = (0..top).map(|k| c.pool.utf8(&format!("u{}", k))).collect();
        let desc = [c.pool.utf8("I"), c.pool.utf8("()V")];
        fs.push(F { fam, c, uniq, desc, code: p.aname("Code"), rec: p.aname("Record"), bodies });
    }
    let radix = [4, 4, 3, 11, sizes.len() as u64, fs.len() as u64];
    cx.sweep(
        "attributes of late members",
        &format!(
            "lists of {:?} fields, methods, methods with code or record components, an attribute in up to three contents on one \
             boundary member or on all, with right and wrong lengths, one byte missing or one number changed",
            sizes
        ),
        product(&radix),
        || {
            let fs = &fs;
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let f = &fs[d[5]];
                let n = sizes[d[4]];
                let at = [0, 1, 127, 128, 255, 256, 257, n / 2, n - 2, n - 1, usize::MAX][d[3]];
                if at >= n && at != usize::MAX {
                    return None;
                }
                if f.bodies.len() <= d[2] {
                    return None;
                }
                let body = f.bodies[d[2]].clone();
                let m = body.len() as u32;
                let mut a = Attr { name: f.c.pool.next as u16, len: None, body };
                let mut c = f.c.clone();
                a.name = c.pool.utf8(f.fam.attr);
                match d[1] {
                    0 => (),
                    1 => a.len = Some(m + 1),
                    2 => {
                        a.body.pop()?;
                    }
                    _ => *a.body.last_mut()? ^= 0x41,
                }
                let on = |k: usize| at == usize::MAX || k == at;
                match d[0] {
                    0 | 1 => {
                        let l: Vec<Member> = (0..n)
                            .map(|k| Member { flags: d[0] as u16, name: f.uniq[k], desc: f.desc[d[0]], attrs: if on(k) { vec![a.clone()] } else { vec![] } })
                            .collect();
                        if d[0] == 0 {
                            c.fields = l
                        } else {
                            c.methods = l
                        }
                    }
                    2 => {
                        for k in 0..n {
                            let b = code_body(1, 1, &[0, 0xb1][k % 2..], &[], if on(k) { std::slice::from_ref(&a) } else { &[] });
                            c.methods.push(Member { flags: 1, name: f.uniq[k], desc: f.desc[1], attrs: vec![Attr { name: f.code, len: None, body: b }] });
                        }
                    }
                    _ => {
                        let mut w = W::new().b2(n as u32);
                        for k in 0..n {
                            w = w.i2(f.uniq[k]).i2(f.desc[0]).raw(&attrs_bytes(if on(k) { std::slice::from_ref(&a) } else { &[] }));
                        }
                        c.attrs.push(Attr { name: f.rec, len: None, body: w.done() });
                    }
                }
                *out = c.bytes();
                (out.len() <= SLOT_DATA).then_some(kind)
            }
        },
    );
}
/// Many methods, each with its own code, all different.
pub fn many_codes(cx: &Ctx, sizes: &[usize], kind: u8) {
    let p = Pal::new(61, false, &["StackMapTable", "LineNumberTable"]);
    let f = crate::spaces2::forms(&p);
    let mut c = p.c.clone();
    if let Some(b) = &p.bsm {
        c.attrs.push(Attr { name: u16::from_be_bytes([b[0], b[1]]), len: None, body: b[6..].to_vec() });
    }
    let code = p.aname("Code");
    let lines = p.aname("LineNumberTable");
    let desc = c.pool.utf8("()V");
    // what is wrong with one of them: nothing, an unknown opcode, a jump out, a cut instruction, an undefined constant
    let bad: [&[u8]; 6] = [&[], &[0xca], &[0xa7, 0, 9], &[0x11, 1], &[0x12, 0], &[0xba, 0, 1, 0, 0]];
    let radix = [6, 10, 3, sizes.len() as u64];
    cx.sweep(
        "many methods with code",
        &format!("classes of {:?} methods whose codes run through all instructions in three orders, one at each boundary place with one of five faults", sizes),
        product(&radix),
        || {
            let (c, f) = (&c, &f);
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let n = sizes[d[3]];
                let at = [0, 1, 127, 128, 255, 256, 257, n / 2, n - 2, n - 1][d[1]];
                if at >= n || d[0] == 0 && d[1] > 0 {
                    return None;
                }
                let mut c = c.clone();
                for k in 0..n {
                    let e = match d[2] {
                        0 => k,
                        1 => n - 1 - k,
                        _ => k / 3,
                    };
                    let mut ins = f[e % f.len()].clone();
                    if e % 5 == 0 {
                        ins.extend_from_slice(&f[e / 5 % f.len()]);
                    }
                    if k == at && d[0] > 0 {
                        ins = bad[d[0]].to_vec();
                    }
                    let attrs = if e % 4 == 0 {
                        vec![Attr { name: lines, len: None, body: W::new().b2(1).b2(0).b2(e as u32 & 0xffff).done() }]
                    } else {
                        vec![]
                    };
                    let table: &[[u16; 4]] = if e % 3 == 0 { &[[0, 1, 0, 0]] } else { &[] };
                    let body = code_body(e as u16, k as u16, &ins, table, &attrs);
                    let name = c.pool.utf8(&format!("q{}", k));
                    c.methods.push(Member { flags: 1, name, desc, attrs: vec![Attr { name: code, len: None, body }] });
                }
                *out = c.bytes();
                (out.len() <= SLOT_DATA).then_some(kind)
            }
        },
    );
}
/// Two attributes at two places of one class.
pub fn cross_places(cx: &Ctx, pick: impl Fn(&Family) -> bool, contents: usize, kind: u8) {
    let names = all_names();
    let fams: Vec<&Family> = FAMILIES.iter().filter(|f| !f.module && f.attr != "Record").collect();
    let chosen: Vec<usize> = (0..fams.len()).filter(|k| pick(fams[*k])).collect();
    let p = Pal::new(61, false, &names);
    let bodies: Vec<Vec<Vec<u8>>> = fams.iter().map(|f| variants(f, &p, f.host, contents)).collect();
    let mut base = p.c.clone();
    if let Some(b) = &p.bsm {
        base.attrs.push(Attr { name: u16::from_be_bytes([b[0], b[1]]), len: None, body: b[6..].to_vec() });
    }
    let uniq: Vec<u16> = (0..6).map(|k| base.pool.utf8(&format!("u{}", k))).collect();
    let desc = [base.pool.utf8("I"), base.pool.utf8("()V")];
    const PLACES: usize = 9;
    let nc = contents as u64;
    let radix = [nc, nc, 3, PLACES as u64, PLACES as u64, fams.len() as u64, chosen.len() as u64];
    cx.sweep(
        "two attributes at two places",
        &format!(
            "each attribute and each other one (up to {} contents each) at each two of: class, two fields, two methods, the code of two \
             methods, two record components; lengths right, or either attribute declared one longer",
            contents
        ),
        product(&radix),
        || {
            let (fams, chosen, bodies, base, p, uniq) = (&fams, &chosen, &bodies, &base, &p, &uniq);
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (a, b) = (chosen[d[6]], d[5]);
                if d[3] == d[4] || d[2] > 0 && d[0] + d[1] > 0 {
                    return None;
                }
                let make = |f: usize, v: usize, longer: bool| {
                    let body = bodies[f].get(v)?.clone();
                    let len = longer.then_some(body.len() as u32 + 1);
                    Some(Attr { name: p.aname(fams[f].attr), len, body })
                };
                let mut at: [Vec<Attr>; PLACES] = Default::default();
                at[d[3]].push(make(a, d[0], d[2] == 1)?);
                at[d[4]].push(make(b, d[1], d[2] == 2)?);
                let mut c = base.clone();
                let [cl, f1, f2, m1, m2, c1, c2, r1, r2] = at;
                c.attrs.extend(cl);
                for (k, f) in [f1, f2].into_iter().enumerate() {
                    c.fields.push(Member { flags: 1, name: uniq[k], desc: desc[0], attrs: f });
                }
                for (k, (m, co)) in [(m1, c1), (m2, c2)].into_iter().enumerate() {
                    let body = code_body(1, 2, &[0, 0xb1][k..], &[[0, 1, 0, 0]][k..], &co);
                    let mut attrs = vec![Attr { name: p.aname("Code"), len: None, body }];
                    attrs.extend(m);
                    c.methods.push(Member { flags: 9, name: uniq[2 + k], desc: desc[1], attrs });
                }
                let mut w = W::new().b2(2);
                for (k, r) in [r1, r2].into_iter().enumerate() {
                    w = w.i2(uniq[4 + k]).i2(desc[0]).raw(&attrs_bytes(&r));
                }
                c.attrs.insert(d[3] % 2, Attr { name: p.aname("Record"), len: None, body: w.done() });
                *out = c.bytes();
                Some(kind)
            }
        },
    );
}
