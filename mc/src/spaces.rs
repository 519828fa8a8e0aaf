//! The bounded spaces that are explored exhaustively.
use crate::asm::*;
use crate::check::*;
use crate::engine::*;
use crate::gen::*;

pub type Seeds = Vec<(String, Vec<u8>, usize)>;

/// (seed, position) pairs flattened for sweeps: which case index belongs to which seed.
pub fn locate(starts: &[u64], i: u64) -> (usize, u64) {
    let k = starts.partition_point(|s| *s <= i) - 1;
    (k, i - starts[k])
}
pub fn starts(n: impl Iterator<Item = u64>) -> (Vec<u64>, u64) {
    let mut v = vec![];
    let mut at = 0;
    for x in n {
        v.push(at);
        at += x;
    }
    (v, at)
}

pub fn all_seeds() -> Seeds {
    let mut v = family_seeds();
    for m in [45, 50, 52, 61] {
        v.push((format!("everything {}", m), everything(m), 10));
    }
    v.push(("module".into(), everything_module(55), 10));
    v.push(("tiny".into(), tiny(61), 0));
    v
}
pub fn prop_seeds(prop: u32) -> Seeds {
    let mut v = vec![];
    for (f, s) in FAMILIES.iter().zip(family_seeds()) {
        if f.prop == prop {
            v.push(s);
        }
    }
    v
}
/// One file with every attribute, whole.
pub fn whole_seeds() -> Seeds {
    vec![
        ("everything 61".into(), everything(61), 0),
        ("everything 50".into(), everything(50), 0),
        ("module 55".into(), everything_module(55), 0),
        ("tiny 52".into(), tiny(52), 0),
    ]
}

/// Every byte of the seeds from its start position on, replaced by every other value.
pub fn bytes_all(cx: &Ctx, name: &str, seeds: &Seeds, kind: u8) {
    let (st, n) = starts(seeds.iter().map(|s| (s.1.len() - s.2) as u64 * 256));
    cx.sweep(name, "each byte of each seed file replaced by each of the 256 values", n, || {
        let st = &st;
        move |i, b: &mut Vec<u8>| {
            let (k, j) = locate(st, i);
            let (_, s, from) = &seeds[k];
            let (pos, val) = (from + (j / 256) as usize, (j % 256) as u8);
            if s[pos] == val && j >= 256 {
                return None;
            }
            b.extend_from_slice(s);
            b[pos] = val;
            Some(kind)
        }
    });
}

/// Every pair of bytes at distance < `dist`, each replaced by each of a few values.
pub fn byte_pairs(cx: &Ctx, name: &str, seeds: &Seeds, kind: u8, vals: &[u8], dist: u64) {
    let v = vals.len() as u64;
    let (st, n) = starts(seeds.iter().map(|s| (s.1.len() - s.2) as u64 * dist * v * v));
    cx.sweep(name, &format!("each two bytes less than {} apart, each set to {:02x?}", dist + 1, vals), n, || {
        let st = &st;
        move |i, b: &mut Vec<u8>| {
            let (k, j) = locate(st, i);
            let (_, s, from) = &seeds[k];
            let d = digits(j, &[v, v, dist, u64::MAX]);
            let p1 = from + d[3];
            let p2 = p1 + 1 + d[2];
            if p2 >= s.len() {
                return None;
            }
            b.extend_from_slice(s);
            b[p1] = vals[d[0]];
            b[p2] = vals[d[1]];
            Some(kind)
        }
    });
}

/// Every 16-bit window set to every value of `vals` (empty: all 65536).
pub fn windows16(cx: &Ctx, name: &str, seeds: &Seeds, kind: u8, vals: &[u16]) {
    let nv = if vals.is_empty() { 65536 } else { vals.len() as u64 };
    let (st, n) = starts(seeds.iter().map(|s| (s.1.len() - s.2).saturating_sub(1) as u64 * nv));
    let what = if vals.is_empty() { "all 65536 values".into() } else { format!("{} boundary values", nv) };
    cx.sweep(name, &format!("each two adjacent bytes of each seed file set to {}", what), n, || {
        let st = &st;
        move |i, b: &mut Vec<u8>| {
            let (k, j) = locate(st, i);
            let (_, s, from) = &seeds[k];
            let pos = from + (j / nv) as usize;
            let v = if vals.is_empty() { (j % nv) as u16 } else { vals[(j % nv) as usize] };
            b.extend_from_slice(s);
            b[pos..pos + 2].copy_from_slice(&v.to_be_bytes());
            Some(kind)
        }
    });
}
pub const B32: [u32; 16] = [
    0, 1, 2, 3, 4, 0xff, 0x100, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff,
    0x4000_0000, 0x0fff_ffff,
];
pub fn windows32(cx: &Ctx, name: &str, seeds: &Seeds, kind: u8) {
    let nv = B32.len() as u64;
    let (st, n) = starts(seeds.iter().map(|s| (s.1.len() - s.2).saturating_sub(3) as u64 * nv));
    cx.sweep(name, "each four adjacent bytes of each seed file set to 16 boundary values", n, || {
        let st = &st;
        move |i, b: &mut Vec<u8>| {
            let (k, j) = locate(st, i);
            let (_, s, from) = &seeds[k];
            let pos = from + (j / nv) as usize;
            b.extend_from_slice(s);
            b[pos..pos + 4].copy_from_slice(&B32[(j % nv) as usize].to_be_bytes());
            Some(kind)
        }
    });
}
pub fn bounds16(len: usize) -> Vec<u16> {
    let mut v = U2.to_vec();
    v.extend([3, 4, 5, 6, 0x7ffe, 0xfffd, len as u16, 0x00fe, 0x0101]);
    v.sort();
    v.dedup();
    v
}

/// Every prefix, and every seed followed by 1..=pad extra bytes of a few values.
pub fn truncations(cx: &Ctx, name: &str, seeds: &Seeds, kind: u8) {
    let (st, n) = starts(seeds.iter().map(|s| s.1.len() as u64 + 24));
    cx.sweep(name, "every prefix of each seed file; each seed file followed by 1 to 8 bytes 00, ff or ca", n, || {
        let st = &st;
        move |i, b: &mut Vec<u8>| {
            let (k, j) = locate(st, i);
            let s = &seeds[k].1;
            let j = j as usize;
            if j < s.len() {
                b.extend_from_slice(&s[..j]);
            } else {
                let e = j - s.len();
                b.extend_from_slice(s);
                b.extend(std::iter::repeat_n([0u8, 0xff, 0xca][e % 3], 1 + e / 3));
            }
            Some(kind)
        }
    });
}
/// Every byte deleted, every position with one byte inserted.
pub fn edits(cx: &Ctx, name: &str, seeds: &Seeds, kind: u8) {
    const V: [u8; 6] = [0, 1, 2, 7, 0x80, 0xff];
    let (st, n) = starts(seeds.iter().map(|s| s.1.len() as u64 * 8));
    cx.sweep(name, "each byte of each seed file deleted, doubled, or one of 6 bytes inserted before it", n, || {
        let st = &st;
        move |i, b: &mut Vec<u8>| {
            let (k, j) = locate(st, i);
            let s = &seeds[k].1;
            let (pos, how) = (j as usize / 8, j as usize % 8);
            b.extend_from_slice(&s[..pos]);
            match how {
                0 => (),
                1 => b.extend([s[pos], s[pos]]),
                _ => b.extend([V[how - 2], s[pos]]),
            }
            b.extend_from_slice(&s[pos + 1..]);
            Some(kind)
        }
    });
}

// ---------------------------------------------------------------- attribute families

/// The choice tree of every family of a property, in its usual place.
pub fn families(cx: &Ctx, pick: impl Fn(&Family) -> bool, k: usize, kind: u8) {
    for f in FAMILIES.iter().filter(|f| pick(f)) {
        let p = family_pal(f);
        cx.tree(
            &format!("{} contents, {} deviations", f.attr, k),
            "all contents of the attribute that differ from the default contents in at most k choices \
             (element counts, declared counts, tags, every kind of pool index, boundary values)",
            k,
            |ch| {
                let body = (f.f)(ch, &p);
                Some((kind, p.put(f.host, &[p.attr(f.attr, body)])))
            },
        );
    }
}
/// Every list of every family made long.
pub fn long_lists(cx: &Ctx, pick: impl Fn(&Family) -> bool, sizes: &[usize], k: usize, kind: u8) {
    let fams: Vec<(&Family, Pal)> = FAMILIES.iter().filter(|f| pick(f)).map(|f| (f, family_pal(f))).collect();
    let mut roots = vec![];
    for (i, (f, p)) in fams.iter().enumerate() {
        let mut ch = Ch::fixed(&[]);
        (f.f)(&mut ch, p);
        // the deviations may add lists
        for l in 0..ch.lists + if k > 0 { 4 } else { 0 } {
            roots.extend(sizes.iter().map(|n| (i, l, *n)));
        }
    }
    cx.forest(
        &format!("long lists, {} deviations", k),
        &format!(
            "every list in the contents of every attribute, nested ones too, with each of {:?} elements; contents that \
             differ from the default in at most {} choices, choices made in the first element repeated in all but the \
             second and the last",
            sizes, k
        ),
        k,
        roots.len(),
        |ch, r| {
            let (i, l, n) = roots[r];
            let (f, p) = &fams[i];
            ch.stretch = Some((l, n));
            let body = (f.f)(ch, p);
            if ch.lists <= l {
                return None;
            }
            let b = p.put(f.host, &[p.attr(f.attr, body)]);
            (b.len() <= SLOT_DATA).then_some((kind, b))
        },
    );
}
/// Which element of a varied list stands for the i-th: the first few are told apart, later ones repeat with period 6.
fn column(i: usize) -> usize {
    if i < 8 {
        i
    } else {
        2 + (i - 2) % 6
    }
}
/// One list of one family, and the elements it may have at each place.
struct Varied {
    fam: usize,
    list: usize,
    cols: Vec<Vec<(u32, u32)>>,
}
/// Every list of every family with elements that all differ.
pub fn varied_lists(cx: &Ctx, pick: impl Fn(&Family) -> bool, sizes: &[usize], triples: bool, kind: u8) {
    use crate::refmodel::{self, Verdict};
    let fams: Vec<(&Family, Pal)> = FAMILIES.iter().filter(|f| pick(f)).map(|f| (f, family_pal(f))).collect();
    const NONE: (u32, u32) = (u32::MAX, 0);
    let mut buf = vec![];
    let mut lists = vec![];
    for (fam, (f, p)) in fams.iter().enumerate() {
        let mut ch = Ch::fixed(&[]);
        (f.f)(&mut ch, p);
        for list in 0..ch.lists {
            let probe = |vary: &(dyn Fn(usize) -> (u32, u32) + Sync)| {
                let mut ch = Ch::fixed(&[]);
                ch.stretch = Some((list, 8));
                ch.vary = Some(vary);
                let body = (f.f)(&mut ch, p);
                (p.put(f.host, &[p.attr(f.attr, body)]), ch.seen)
            };
            let (_, seen) = probe(&|_| NONE);
            let mut cols = vec![];
            for (i, ar) in seen.iter().take(8).enumerate() {
                let mut col = vec![NONE];
                for (at, n) in ar.iter().enumerate() {
                    for alt in 1..*n {
                        let dev = (at as u32, alt);
                        let (b, _) = probe(&|k| if k == i { dev } else { NONE });
                        let ok = match refmodel::run(&b, true, 0, false, std::mem::take(&mut buf)) {
                            Verdict::Accept { dump, .. } => {
                                buf = dump;
                                true
                            }
                            _ => false,
                        };
                        if ok {
                            col.push(dev);
                        }
                    }
                }
                cols.push(col);
            }
            if cols.len() == 8 {
                lists.push(Varied { fam, list, cols });
            }
        }
    }
    // (list, n, pattern), numbered consecutively
    let mut st = vec![];
    let mut total = 0u64;
    for v in &lists {
        let c = |i: usize| v.cols[i].len() as u64;
        let small = c(0) * c(1) + if triples { c(0) * c(1) * c(2) } else { 0 };
        st.push((total, small));
        total += small + sizes.len() as u64 * 4;
    }
    cx.sweep(
        "varied lists",
        &format!(
            "every list in the contents of every attribute with legal elements that differ: all pairs{} of elements, and \
             lists of {:?} elements in each of four orders of them",
            if triples { " and triples" } else { "" },
            sizes
        ),
        total,
        || {
            let (fams, lists, st) = (&fams, &lists, &st);
            move |i, out: &mut Vec<u8>| {
                let k = st.partition_point(|s| s.0 <= i) - 1;
                let (v, (start, small)) = (&lists[k], st[k]);
                let (f, p) = &fams[v.fam];
                let j = i - start;
                let c = |i: usize| v.cols[i].len() as u64;
                let pairs = c(0) * c(1);
                let n = if j < pairs {
                    2
                } else if j < small {
                    3
                } else {
                    sizes[((j - small) / 4) as usize]
                };
                let vary = |e: usize| {
                    let col = &v.cols[column(e)];
                    let l = col.len();
                    let at = if n <= 3 {
                        let x = if j < pairs { j } else { j - pairs };
                        (match e {
                            0 => x % c(0),
                            1 => x / c(0) % c(1),
                            _ => x / c(0) / c(1),
                        }) as usize
                    } else {
                        match (j - small) % 4 {
                            0 => e % l,
                            1 => (n - 1 - e) % l,
                            2 => (e * e / l.max(2) + e / l) % l,
                            _ => e / 7 % l,
                        }
                    };
                    col[at]
                };
                let mut ch = Ch::fixed(&[]);
                ch.stretch = Some((v.list, n));
                ch.vary = Some(&vary);
                let body = (f.f)(&mut ch, p);
                *out = p.put(f.host, &[p.attr(f.attr, body)]);
                (out.len() <= SLOT_DATA).then_some(kind)
            }
        },
    );
}
/// Every family at every place, together with its neighbours.
pub fn placements(cx: &Ctx, pick: impl Fn(&Family) -> bool, kind: u8) {
    let fams: Vec<&Family> = FAMILIES.iter().filter(|f| pick(f)).collect();
    let pals: Vec<Pal> = fams
        .iter()
        .map(|f| {
            let mut n = family_names(f);
            n.extend(["Synthetic", "SourceFile"]);
            let p = Pal::new(if f.module { 55 } else { 61 }, f.module, &n);
            let a = p.attr("SourceFile", p.text.to_be_bytes().to_vec());
            p.with_template(a)
        })
        .collect();
    let bodies: Vec<Vec<u8>> = fams
        .iter()
        .zip(&pals)
        .map(|(f, p)| {
            let mut c = Ch::fixed(&[]);
            (f.f)(&mut c, p)
        })
        .collect();
    let radix = [4, 4, 6, 11, 5, fams.len() as u64];
    cx.sweep(
        "attributes in every place",
        "each attribute kind at class, field, method, code and record component level, alone, before or after another \
         attribute, twice, with a right or wrong declared length or count, more or fewer bytes following: all combinations",
        product(&radix),
        || {
            let (fams, pals, bodies) = (&fams, &pals, &bodies);
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (f, p) = (fams[d[5]], &pals[d[5]]);
                let host = HOSTS[d[4]];
                if f.module && host != Host::Class {
                    return None;
                }
                let mut a = p.attr(f.attr, bodies[d[5]].clone());
                let n = a.body.len() as u32;
                a.len = match d[3] {
                    0 => None,
                    1 => Some(n + 1),
                    2 => Some(n.wrapping_sub(1)),
                    3 => Some(n + 2),
                    4 => Some(n.wrapping_sub(2)),
                    5 => Some(0),
                    6 => Some(n + 0x100),
                    7 => Some(n + 0x1_0000),
                    8 => Some(u32::MAX),
                    9 => Some(0x8000_0000),
                    _ => Some(n + 0x100_0000),
                };
                let other = p.attr("Synthetic", vec![]);
                let third = p.attr("SourceFile", p.text.to_be_bytes().to_vec());
                let list = match d[2] {
                    0 => vec![a],
                    1 => vec![a, other],
                    2 => vec![other, a],
                    3 => vec![a.clone(), a],
                    4 => vec![third.clone(), a, other],
                    _ => vec![a, third.clone(), third],
                };
                let mut bytes = attrs_bytes(&list);
                let cnt = [list.len(), list.len() + 1, list.len() - 1, 0][d[1]] as u16;
                bytes[..2].copy_from_slice(&cnt.to_be_bytes());
                *out = p.put_raw(host, &bytes);
                match d[0] {
                    0 => (),
                    1 => out.push(0),
                    2 => {
                        out.pop();
                    }
                    _ => out.extend([0, 0]),
                }
                Some(kind)
            }
        },
    );
    cx.forest(
        "contents in every place",
        "all contents of each attribute that differ from the default contents in at most one choice, at each of the five levels",
        1,
        fams.len() * 5,
        |ch, r| {
            let (f, p) = (fams[r / 5], &pals[r / 5]);
            let host = HOSTS[r % 5];
            if f.module && host != Host::Class {
                return None;
            }
            let body = (f.f)(ch, p);
            Some((kind, p.put(host, &[p.attr(f.attr, body)])))
        },
    );
}
/// Every attribute length from 0 to beyond the contents, at every place.
pub fn lengths(cx: &Ctx, kind: u8) {
    let fams: Vec<&Family> = FAMILIES.iter().collect();
    let pals: Vec<Pal> = fams.iter().map(|f| family_pal(f)).collect();
    let bodies: Vec<Vec<u8>> = fams
        .iter()
        .zip(&pals)
        .map(|(f, p)| {
            let mut c = Ch::fixed(&[]);
            (f.f)(&mut c, p)
        })
        .collect();
    let radix: Vec<u64> = bodies.iter().map(|b| 5 * (b.len() as u64 + 9)).collect();
    let (st, n) = starts(radix.into_iter());
    cx.sweep(
        "declared attribute lengths",
        "each attribute kind at each of the five levels with every declared length from 0 to 8 beyond its contents",
        n,
        || {
            let (st, fams, pals, bodies) = (&st, &fams, &pals, &bodies);
            move |i, b: &mut Vec<u8>| {
                let (k, j) = locate(st, i);
                let host = HOSTS[(j % 5) as usize];
                if fams[k].module && host != Host::Class {
                    return None;
                }
                let mut a = pals[k].attr(fams[k].attr, bodies[k].clone());
                a.len = Some((j / 5) as u32);
                *b = pals[k].put(host, &[a]);
                Some(kind)
            }
        },
    );
}

/// All values of all tags that select a form: element values, frames, verification types, targets.
pub fn tag_bytes(cx: &Ctx, kind: u8) {
    let p = Pal::new(
        61,
        false,
        &["StackMapTable", "AnnotationDefault", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"],
    );
    let ixs = p.every.clone();
    let n = ixs.len() as u64;
    cx.sweep(
        "element tags and indices",
        "AnnotationDefault with each tag byte, followed by each pool index and 0 to 6 further bytes",
        256 * n * 7,
        || {
            let (p, ixs) = (&p, &ixs);
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &[256, n, 7]);
                let mut w = W::new().b1(d[0] as u32).i2(ixs[d[1]]);
                w = w.raw(&[0, p.text as u8, 0, p.int as u8, 0, 0][..d[2]]);
                *b = p.put(Host::Method, &[p.attr("AnnotationDefault", w.done())]);
                Some(kind)
            }
        },
    );
    cx.sweep(
        "frame and verification tags",
        "StackMapTable with one frame of each type byte, two following bytes, and each verification tag byte with each pool index, followed by nothing, one more or two more",
        256 * 256 * 4 * 4,
        || {
            let p = &p;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &[256, 256, 4, 4]);
                let mut w = W::new().b2(1).b1(d[0] as u32);
                if d[0] >= 247 {
                    w = w.b2(0x0102);
                }
                if d[0] == 255 {
                    w = w.b2(d[2] as u32);
                }
                for k in 0..d[2] {
                    let t = if k == 0 { d[1] as u32 } else { [7, 8, 2][k % 3] };
                    w = w.b1(t);
                    if t == 7 {
                        w = w.i2([p.cls, p.arr, p.name, 0][d[3]]);
                    }
                    if t == 8 {
                        w = w.b2([0x0304, 0, 0xffff, 0x8000][d[3]]);
                    }
                }
                if d[0] == 255 {
                    w = w.b2(0);
                }
                *b = p.put(Host::Code, &[p.attr("StackMapTable", w.done())]);
                Some(kind)
            }
        },
    );
    cx.sweep(
        "type annotation targets",
        "type annotation with each target type byte, 0 to 6 operand bytes, and each first path kind byte (visible and invisible, three places)",
        256 * 7 * 256 * 6,
        || {
            let p = &p;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &[256, 7, 256, 6]);
                if d[2] > 7 && d[2] < 250 && d[0] > 0x50 {
                    return None;
                }
                let mut w = W::new().b2(1).b1(d[0] as u32);
                w = w.raw(&[0, 1, 9, 8, 7, 6][..d[1]]);
                if d[0] & 0xfe == 0x40 && d[1] == 2 {
                    w = w.raw(&[1, 2, 3, 4, 5, 6]);
                }
                w = w.b1(2).b1(d[2] as u32).b1(5).b1(3).b1(6);
                w = w.i2(p.odesc).b2(0);
                let name = ["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"][d[3] & 1];
                let host = [Host::Class, Host::Code, Host::Field][d[3] / 2];
                *b = p.put(host, &[p.attr(name, w.done())]);
                Some(kind)
            }
        },
    );
}

// ---------------------------------------------------------------- strings

/// Strings over an alphabet: all of length at most n, by index.
#[derive(Clone)]
pub struct Strings<'a> {
    pub alpha: &'a [&'a str],
    pub n: u32,
}
impl Strings<'_> {
    pub fn total(&self) -> u64 {
        (0..=self.n).map(|k| (self.alpha.len() as u64).pow(k)).sum()
    }
    pub fn get(&self, mut i: u64) -> String {
        let k = self.alpha.len() as u64;
        let mut len = 0;
        let mut block = 1;
        while i >= block {
            i -= block;
            block *= k;
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(self.alpha[(i % k) as usize]);
            i /= k;
        }
        s
    }
}

/// Modified UTF-8 encoding.
pub fn encode(s: &str) -> Vec<u8> {
    let mut o = vec![];
    for u in s.encode_utf16() {
        match u {
            1..=0x7f => o.push(u as u8),
            0 | 0x80..=0x7ff => o.extend([0xC0 | (u >> 6) as u8, 0x80 | (u & 0x3f) as u8]),
            _ => o.extend([0xE0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3f) as u8, 0x80 | (u & 0x3f) as u8]),
        }
    }
    o
}

pub const SHAPES: u8 = 14;
/// The i-th text of a shape.
pub fn shaped(shape: u8, i: usize) -> Vec<u8> {
    let s = match shape {
        0 => format!("x{}", i),
        1 => format!("a/b/c/d{}", i),
        2 => format!("{}{}", "y".repeat(100), i),
        3 => format!("\u{e9}{}", i),
        4 => format!("\0{}", i),
        5 => format!("[[Lx{};", i),
        6 => format!("(La/x{};[J)Ly{};", i, i),
        7 => format!("\u{1d4b3}{}", i),
        8 => format!("{}", i),
        9 => format!("a.{}", i),
        10 => format!("Lp/q/r/C{};", i),
        11 => format!("()Lp/C{};", i),
        12 => format!("[I{}", i),
        _ => return [&b"\xed\xa0\x80"[..], i.to_string().as_bytes()].concat(),
    };
    encode(&s)
}
/// Many files that differ in one text, for every role and shape of the text.
pub fn renamed(cx: &Ctx) {
    let roles = [DESC_ROLES as u64, NAME_ROLES as u64, TEXT_ROLES as u64];
    let (st, n) = starts(roles.iter().map(|r| r * SHAPES as u64));
    cx.sweep(
        "texts that change",
        "histories of 82 parses, with and without bytecode, of files that differ in one text, for every role of a text and 14 shapes of text",
        n,
        || {
            let st = &st;
            move |i, b: &mut Vec<u8>| {
                let (g, j) = locate(st, i);
                b.extend([g as u8, (j / SHAPES as u64) as u8, (j % SHAPES as u64) as u8]);
                Some(RENAMED)
            }
        },
    );
}
pub const DESC_ROLES: usize = 17;
/// A class with the text s where a descriptor (or class) is expected.
pub fn desc_role(role: usize, s: &[u8]) -> Vec<u8> {
    let mut c = Class::new(61);
    let d = c.pool.utf8b(s);
    let nm = c.pool.utf8("m");
    let this = c.this;
    let bsm = |c: &mut Class| {
        let r = c.pool.member(10, "A", "b", "()V");
        let h = c.pool.handle(6, r);
        c.add_attr("BootstrapMethods", W::new().b2(1).i2(h).b2(0).done());
    };
    match role {
        0 => {
            c.fields.push(Member { flags: 0, name: nm, desc: d, attrs: vec![] });
        }
        1 => {
            c.methods.push(Member { flags: 0, name: nm, desc: d, attrs: vec![] });
        }
        2..=4 => {
            let n = c.pool.e4(12, nm, d);
            c.pool.e4(7 + role as u8, this, n);
        }
        5 | 6 => {
            let n = c.pool.e4(12, nm, d);
            c.pool.e4(12 + role as u8, 0, n);
            bsm(&mut c);
        }
        7 => {
            c.pool.e2(16, d);
        }
        8 => {
            c.pool.e2(7, d);
        }
        9 => {
            let lvt = c.attr("LocalVariableTable", W::new().b2(1).b2(0).b2(1).i2(nm).i2(d).b2(2).done());
            let code = code_body(1, 1, &[0xb1], &[], &[lvt]);
            let a = c.attr("Code", code);
            c.add_method(0, "m", "()V", vec![a]);
        }
        10 => c.add_attr("RuntimeVisibleAnnotations", W::new().b2(1).i2(d).b2(0).done()),
        11 => {
            let a = c.attr("AnnotationDefault", W::new().b1(b'e' as u32).i2(d).i2(nm).done());
            c.add_method(0, "m", "()V", vec![a]);
        }
        12 => {
            let a = c.attr("AnnotationDefault", W::new().b1(b'c' as u32).i2(d).done());
            c.add_method(0, "m", "()V", vec![a]);
        }
        13 => c.add_attr("Record", W::new().b2(1).i2(nm).i2(d).b2(0).done()),
        14 | 15 => {
            let k = c.pool.e2(7, d);
            let mut code = W::new().b1(if role == 14 { 0xbd } else { 0xc5 }).i2(k);
            if role == 15 {
                code = code.b1(1);
            }
            let code = code_body(1, 1, &code.b1(0xb1).done(), &[], &[]);
            let a = c.attr("Code", code);
            c.add_method(0, "m", "()V", vec![a]);
        }
        _ => {
            // this class itself
            c.this = c.pool.e2(7, d);
        }
    }
    c.bytes()
}

pub fn descriptor_strings(cx: &Ctx, n: u32, roles: &[usize], kind: u8) {
    let alpha = ["I", "[", "L", ";", "(", ")", "V", "J", "a", "/", ".", "B", "Z", "\u{e9}", "<", "\0", "\u{1F600}"];
    let s = Strings { alpha: &alpha, n };
    let r = roles.len() as u64;
    cx.sweep(
        &format!("descriptor strings up to {}", n),
        &format!("all strings of up to {} characters over {:?} in {} positions that take a descriptor or class", n, alpha, r),
        s.total() * r,
        || {
            let s = &s;
            move |i, b: &mut Vec<u8>| {
                *b = desc_role(roles[(i % r) as usize], &encode(&s.get(i / r)));
                Some(kind)
            }
        },
    );
}
/// Structured descriptors: parameter lists over whole types, with edits.
pub fn descriptor_lists(cx: &Ctx, n: u32, kind: u8) {
    let alpha = [
        "B", "C", "D", "F", "I", "J", "S", "Z", "La;", "Lp/q/R;", "[I", "[[La/b;", "[D", "V", "L;", "La;b", "[", "\u{1F600}", "L\u{1F600};",
        "L/a;", "La/;", "La//b;",
    ];
    let s = Strings { alpha: &alpha, n };
    let wraps = ["", "(", "()", "x"];
    let rets = ["V", "I", "[J", "Lz/Y;", "[[Lz;", "", "VV", "[V", "II"];
    let roles = [1usize, 3, 7, 4, 6];
    let radix = [rets.len() as u64, wraps.len() as u64, roles.len() as u64, s.total()];
    cx.sweep(
        &format!("method descriptors up to {} parameters", n),
        "all lists of parameter types and type fragments with every return type and bracket form in five positions",
        product(&radix),
        || {
            let s = &s;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let list = s.get(d[3] as u64);
                let t = match wraps[d[1]] {
                    "" => format!("({}){}", list, rets[d[0]]),
                    "(" => format!("(({}){}", list, rets[d[0]]),
                    "()" => format!("(){}{}", list, rets[d[0]]),
                    _ => format!("{}){}", list, rets[d[0]]),
                };
                *b = desc_role(roles[d[2]], &encode(&t));
                Some(kind)
            }
        },
    );
}
/// Dimension and parameter counts across their limits.
pub fn descriptor_limits(cx: &Ctx, kind: u8) {
    let elems = ["I", "J", "La;", "Lp/\u{1F600};", "V", "", "[", ";", "(", "a"];
    let radix = [elems.len() as u64, DESC_ROLES as u64, 300];
    cx.sweep("array dimensions", "0 to 299 dimensions over ten element texts in every position", product(&radix), || {
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &radix);
            let t = format!("{}{}", "[".repeat(d[2]), elems[d[0]]);
            let t = if [1, 3, 4, 6, 7].contains(&d[1]) { format!("({})V", t) } else { t };
            *b = desc_role(d[1], &encode(&t));
            Some(kind)
        }
    });
    let tys = ["I", "J", "[J", "La;", "D", "[[I"];
    let rets = ["V", "J", "[I"];
    let roles = [1usize, 3, 4, 6, 7];
    let radix = [3, 5, 6, 6, 4, 262];
    cx.sweep(
        "parameter units",
        "0 to 261 parameters of one type plus 0 to 3 of another, in five positions",
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                if d[5] > 8 && (d[5] < 120 || (d[5] > 134 && d[5] < 248)) {
                    return None;
                }
                let t = format!("({}{}){}", tys[d[2]].repeat(d[5]), tys[d[3]].repeat(d[4]), rets[d[0]]);
                *b = desc_role(roles[d[1]], t.as_bytes());
                Some(kind)
            }
        },
    );
    // every type at every place of lists of every length
    let odd = ["Lp/Q;", "J", "[Lq;", "[[D", "Lx\u{e9};", "Q"];
    let radix = [odd.len() as u64, 2, 3, 255, 256];
    cx.sweep(
        "parameter positions",
        "1 to 255 int or class parameters of which one, at each place, is of another type or none, in three positions",
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (at, n) = (d[3], d[4]);
                if at >= n || n > 24 && n < 250 && ![126, 127, 128].contains(&n) {
                    return None;
                }
                let common = ["I", "La;"][d[1]];
                let t = format!("({}{}{})V", common.repeat(at), odd[d[0]], common.repeat(n - at - 1));
                *b = desc_role([1usize, 3, 7][d[2]], &encode(&t));
                Some(kind)
            }
        },
    );
    // long class names, and long lists near the 65535 byte limit
    cx.sweep("long descriptors", "class names and lists of up to 65535 bytes", 17 * 40, || {
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &[17, 40]);
            let k = [1usize, 2, 255, 256, 257, 1000, 32766, 32767, 32768, 65530][d[1] / 4];
            let t = match d[1] % 4 {
                0 => format!("L{};", "a".repeat(k)),
                1 => format!("L{}a;", "a/".repeat(k.min(32766))),
                2 => format!("L{};I", "a".repeat(k.min(65532))),
                _ => format!("L{}", "a".repeat(k)),
            };
            let t = if [1, 3, 4, 6, 7].contains(&d[0]) { format!("({})V", &t[..t.len().min(65532)]) } else { t };
            *b = desc_role(d[0], &t.as_bytes()[..t.len().min(65535)]);
            Some(kind)
        }
    });
}

pub const NAME_ROLES: usize = 26;
/// One role for each kind of name.
pub const NAME_RULES: [usize; 7] = [3, 4, 5, 8, 12, 14, 15];
/// A class with the text s where a name is expected.
pub fn name_role(role: usize, s: &[u8]) -> Vec<u8> {
    let module = [14, 15].contains(&role);
    let mut c = if module { Class::new_module(61) } else { Class::new(61) };
    let t = c.pool.utf8b(s);
    let d = c.pool.utf8("I");
    let md = c.pool.utf8("()V");
    let k = match role {
        0..=3 | 16 | 22 | 24 | 25 => c.pool.e2(7, t),
        _ => 0,
    };
    let this = c.this;
    let with_code = |c: &mut Class, code: &[u8], table: &[[u16; 4]], attrs: &[Attr]| {
        let body = code_body(1, 1, code, table, attrs);
        let a = c.attr("Code", body);
        c.add_method(0, "m", "()V", vec![a]);
    };
    match role {
        0 => c.this = k,
        1 => c.sup = k,
        2 => c.ifs = vec![k],
        3 => (),
        4 => c.fields.push(Member { flags: 0, name: t, desc: d, attrs: vec![] }),
        5 => c.methods.push(Member { flags: 0, name: t, desc: md, attrs: vec![] }),
        6 => {
            c.flags = 0x0600;
            c.methods.push(Member { flags: 0, name: t, desc: md, attrs: vec![] })
        }
        7 => {
            let n = c.pool.e4(12, t, d);
            c.pool.e4(9, this, n);
        }
        8 | 9 => {
            let n = c.pool.e4(12, t, md);
            c.pool.e4(2 + role as u8, this, n);
        }
        10 | 11 => {
            let name = ["LocalVariableTable", "LocalVariableTypeTable"][role - 10];
            let a = c.attr(name, W::new().b2(1).b2(0).b2(1).i2(t).i2(d).b2(2).done());
            with_code(&mut c, &[0xb1], &[], &[a]);
        }
        12 => {
            let a = c.attr("MethodParameters", W::new().b1(1).i2(t).b2(0x10).done());
            c.add_method(0, "m", "(I)V", vec![a]);
        }
        13 => c.add_attr("Record", W::new().b2(1).i2(t).i2(d).b2(0).done()),
        14 => {
            let m = c.pool.e2(19, t);
            c.add_attr("Module", W::new().i2(m).b2(0).b2(0).b2(0).b2(0).b2(0).b2(0).b2(0).done());
        }
        15 => {
            let m = c.pool.e2(20, t);
            c.add_attr("ModulePackages", W::new().b2(1).i2(m).done());
        }
        16 => {
            let a = c.attr("Exceptions", W::new().b2(1).i2(k).done());
            c.add_method(0, "m", "()V", vec![a]);
        }
        17 => c.add_attr("InnerClasses", W::new().b2(1).i2(this).b2(0).i2(t).b2(1).done()),
        18 => {
            let n = c.pool.e4(12, t, d);
            c.pool.e4(17, 0, n);
            let r = c.pool.member(10, "A", "b", "()V");
            let h = c.pool.handle(6, r);
            c.add_attr("BootstrapMethods", W::new().b2(1).i2(h).b2(0).done());
        }
        19 => {
            let n = c.pool.e4(12, t, md);
            c.add_attr("EnclosingMethod", W::new().i2(this).i2(n).done());
        }
        20 => {
            let o = c.pool.utf8("La;");
            let v = c.pool.int(3);
            c.add_attr("RuntimeVisibleAnnotations", W::new().b2(1).i2(o).b2(1).i2(t).b1(b'I' as u32).i2(v).done());
        }
        21 => {
            let o = c.pool.utf8b(&[b"L", s, b";"].concat());
            c.fields.push(Member { flags: 0, name: d, desc: o, attrs: vec![] });
        }
        22 => with_code(&mut c, &[0xb1], &[[0, 1, 0, k]], &[]),
        23 => {
            let a = c.attr("AnnotationDefault", W::new().b1(b'e' as u32).i2(d).i2(t).done());
            c.add_method(0, "m", "()V", vec![a]);
        }
        24 => {
            let code = W::new().b1(0xbb).i2(k).b1(0xb1).done();
            with_code(&mut c, &code, &[], &[]);
        }
        _ => {
            let a = c.attr("StackMapTable", W::new().b2(1).b1(64).b1(7).i2(k).done());
            with_code(&mut c, &[0xb1], &[], &[a]);
        }
    }
    c.bytes()
}
pub const NAME_ALPHA: [&str; 16] =
    ["a", "/", ".", ";", "[", "<", ">", ":", "@", "\\", "\u{1f}", " ", "(", "\u{e9}", "\0", "\u{1F600}"];
pub fn name_strings(cx: &Ctx, n: u32, kind: u8) {
    let s = Strings { alpha: &NAME_ALPHA, n };
    let r = NAME_ROLES as u64;
    cx.sweep(
        &format!("names up to {}", n),
        &format!("all strings of up to {} characters over {:?} in {} roles", n, NAME_ALPHA, r),
        s.total() * r,
        || {
            let s = &s;
            move |i, b: &mut Vec<u8>| {
                *b = name_role((i % r) as usize, &encode(&s.get(i / r)));
                Some(kind)
            }
        },
    );
}
/// Each single character, and each one-edit neighbour of the special names.
pub fn name_specials(cx: &Ctx, kind: u8) {
    let r = NAME_ROLES as u64;
    let chars: Vec<u32> = (0..0x300).chain((0x300..0x11_0000).step_by(257)).chain([0x20, 0xd7ff, 0xe000, 0xffff, 0x10ffff]).collect();
    let n = chars.len() as u64;
    cx.sweep("single characters", "each character below U+0300 and every 257th above, alone and inside a name, in every role", n * r * 2, || {
        let chars = &chars;
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &[r, 2, n]);
            let c = char::from_u32(chars[d[2]])?;
            let s = if d[1] == 0 { c.to_string() } else { format!("x{}y", c) };
            *b = name_role(d[0], &encode(&s));
            Some(kind)
        }
    });
    let base = ["<init>", "<clinit>", "module-info", "java/lang/Object", "[I", "[Ljava/lang/Object;", "a/b", "a", "La;", "a\\:b"];
    let mut v: Vec<String> = vec![];
    for s in base {
        v.push(s.to_string());
        let cs: Vec<char> = s.chars().collect();
        for k in 0..=cs.len() {
            let (l, r): (String, String) = (cs[..k].iter().collect(), cs[k..].iter().collect());
            for x in NAME_ALPHA.iter().chain(["i", "t", "I", "V", ")"].iter()) {
                v.push(format!("{}{}{}", l, x, r));
                if k < cs.len() {
                    let r: String = cs[k + 1..].iter().collect();
                    v.push(format!("{}{}{}", l, x, r));
                    v.push(format!("{}{}", l, r));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    let n = v.len() as u64;
    cx.sweep("special names", "each text one edit away from special and ordinary names, in every role", n * r, || {
        let v = &v;
        move |i, b: &mut Vec<u8>| {
            *b = name_role((i % r) as usize, &encode(&v[(i / r) as usize]));
            Some(kind)
        }
    });
}
/// ClassName::try_from on text.
pub fn class_names(cx: &Ctx, n: u32) {
    let s = Strings { alpha: &NAME_ALPHA, n };
    cx.sweep(
        &format!("ClassName::try_from up to {}", n),
        &format!("all strings of up to {} characters over {:?}", n, NAME_ALPHA),
        s.total(),
        || {
            let s = &s;
            move |i, b: &mut Vec<u8>| {
                b.extend_from_slice(s.get(i).as_bytes());
                Some(NAME)
            }
        },
    );
}

pub const TEXT_ROLES: usize = 12;
pub fn text_role(role: usize, s: &[u8]) -> Vec<u8> {
    let mut c = Class::new(61);
    match role {
        0 => {
            let k = c.pool.string(s);
            let a = c.attr("ConstantValue", k.to_be_bytes().to_vec());
            c.add_field(0, "f", "I", vec![a]);
        }
        1 => {
            let t = c.pool.utf8b(s);
            c.add_attr("SourceFile", t.to_be_bytes().to_vec());
        }
        2 => {
            let t = c.pool.utf8b(s);
            c.add_attr("Signature", t.to_be_bytes().to_vec());
        }
        3 => {
            let t = c.pool.utf8b(s);
            c.attrs.push(Attr { name: t, len: None, body: vec![] });
        }
        4 => c.add_attr("SourceDebugExtension", s.to_vec()),
        5 => {
            let t = c.pool.utf8b(s);
            let a = c.attr("AnnotationDefault", W::new().b1(b's' as u32).i2(t).done());
            c.add_method(0, "m", "()V", vec![a]);
        }
        6 => {
            c.pool.classb(s);
        }
        7 => {
            let t = c.pool.utf8b(s);
            let d = c.pool.utf8("I");
            c.fields.push(Member { flags: 0, name: t, desc: d, attrs: vec![] });
        }
        8 => {
            // not used as text anywhere
            c.pool.utf8b(s);
            c.pool.string(s);
        }
        9 => {
            let t = c.pool.utf8b(&[b"L", s, b";"].concat());
            let n = c.pool.utf8("f");
            c.fields.push(Member { flags: 0, name: n, desc: t, attrs: vec![] });
        }
        10 => {
            let k = c.pool.string(s);
            let code = W::new().b1(0x13).i2(k).b1(0xb1).done();
            let body = code_body(1, 1, &code, &[], &[]);
            let a = c.attr("Code", body);
            c.add_method(0, "m", "()V", vec![a]);
        }
        _ => {
            // name and type nobody has to look at
            let t = c.pool.utf8b(s);
            let d = c.pool.utf8("I");
            let n = c.pool.e4(12, t, d);
            c.add_attr("EnclosingMethod", W::new().b2(2).i2(n).done());
        }
    }
    c.bytes()
}
pub const TEXT_BYTES: [u8; 26] = [
    0x00, 0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec,
    0xed, 0xee, 0xef, 0xf0, 0xf4, 0xff,
];
pub fn texts(cx: &Ctx, full: u32, small: u32, kind: u8) {
    let r = TEXT_ROLES as u64;
    let n: u64 = (0..=full).map(|k| 256u64.pow(k)).sum();
    cx.sweep(&format!("all texts up to {} bytes", full), "every byte string in 12 roles", n * r, || {
        move |i, b: &mut Vec<u8>| {
            let (mut j, role) = (i / r, (i % r) as usize);
            let mut s = vec![];
            let mut block = 1;
            let mut len = 0;
            while j >= block {
                j -= block;
                block *= 256;
                len += 1;
            }
            for _ in 0..len {
                s.push(j as u8);
                j >>= 8;
            }
            *b = text_role(role, &s);
            Some(kind)
        }
    });
    let k = TEXT_BYTES.len() as u64;
    let n: u64 = (0..=small).map(|l| k.pow(l)).sum();
    let roles = [0usize, 1, 4, 5];
    cx.sweep(
        &format!("boundary texts up to {} bytes", small),
        "every string of boundary bytes of the UTF-8 and modified UTF-8 encodings, in 4 roles",
        n * 4,
        || {
            move |i, b: &mut Vec<u8>| {
                let (mut j, role) = (i / 4, roles[(i % 4) as usize]);
                let mut s = vec![];
                let mut block = 1;
                let mut len = 0;
                while j >= block {
                    j -= block;
                    block *= k;
                    len += 1;
                }
                for _ in 0..len {
                    s.push(TEXT_BYTES[(j % k) as usize]);
                    j /= k;
                }
                *b = text_role(role, &s);
                Some(kind)
            }
        },
    );
    // pairs and triples of encoded code units: surrogates in all orders
    let units: Vec<Vec<u8>> = [0x0u32, 0x1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff]
        .iter()
        .map(|u| vec![0xE0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3f) as u8, 0x80 | (u & 0x3f) as u8])
        .chain([vec![0x41], vec![0xC0, 0x80], vec![0xC3, 0xA9], vec![0xF0, 0x9F, 0x98, 0x80], vec![0], vec![0xC1, 0xBF], vec![0xE2, 0x82], vec![0xF4, 0x90, 0x80, 0x80]])
        .collect();
    let u = units.len() as u64;
    cx.sweep(
        "sequences of encoded units",
        "all sequences of up to 4 encoded code units (surrogates, boundaries, overlong and four-byte forms), in 12 roles (sequences of 4: 3 roles)",
        (u + u * u + u * u * u) * r + u * u * u * u * 3,
        || {
            let units = &units;
            move |i, b: &mut Vec<u8>| {
                let n3 = (u + u * u + u * u * u) * r;
                let (mut j, role, mut len) = if i < n3 { (i / r, (i % r) as usize, 1) } else { ((i - n3) / 3, [0, 1, 4][((i - n3) % 3) as usize], 4) };
                if len == 1 {
                    let mut block = u;
                    while j >= block {
                        j -= block;
                        block *= u;
                        len += 1;
                    }
                }
                let mut s = vec![];
                for _ in 0..len {
                    s.extend_from_slice(&units[(j % u) as usize]);
                    j /= u;
                }
                *b = text_role(role, &s);
                Some(kind)
            }
        },
    );
}
/// Texts of many lengths (all-ASCII and re-encoded), up to the 65535 byte limit.
pub fn long_texts(cx: &Ctx, kind: u8) {
    let lens: Vec<usize> = (0..300).chain([1000, 4095, 4096, 32766, 32767, 32768, 65534, 65535]).collect();
    let n = lens.len() as u64;
    let r = TEXT_ROLES as u64;
    cx.sweep("text lengths", "texts of 0 to 299 bytes and at larger sizes up to 65535, plain, with one re-encoded or one malformed character at start, middle or end", n * 7 * r, || {
        let lens = &lens;
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &[7, r, n]);
            let l = lens[d[2]];
            let mut s: Vec<u8> = (0..l).map(|k| b'a' + (k % 26) as u8).collect();
            let at = [0, l / 2, l.saturating_sub(2)][(d[0] + 2) % 3];
            if d[0] > 0 {
                if l < 2 {
                    return None;
                }
                let at = at.min(l - 2);
                let x = if d[0] <= 3 { [0xC0, 0x80] } else { [0xC0, 0x81] };
                s[at..at + 2].copy_from_slice(&x);
            }
            if d[1] == 9 && l > 65533 {
                return None;
            }
            *b = text_role(d[1], &s);
            Some(kind)
        }
    });
}

// ---------------------------------------------------------------- constant pools

/// All pools of n free entries behind a fixed legal base, every tag and every reference.
pub fn pool_graphs(cx: &Ctx, name: &str, majors: &[u16], n: usize, rich: bool, kind: u8) {
    // base: 1 "A", 2 class A, 3 "I", 4 "()V", 5 n&t A:I ... see below
    let mut protos = vec![];
    for &m in majors {
        for module in [false, true] {
            if module && m < 53 {
                continue;
            }
            let mut c = if module { Class::new_module(m) } else { Class::new(m) };
            let cls = c.this;
            c.sup = 0;
            c.pool = Pool::new();
            let txt = c.pool.utf8("A");
            let cls2 = c.pool.e2(7, txt);
            assert!(cls == 2 && cls2 == 2);
            let fd = c.pool.utf8("I");
            let md = c.pool.utf8("()V");
            let nf = c.pool.e4(12, txt, fd);
            let nm = c.pool.e4(12, txt, md);
            let fr = c.pool.e4(9, 2, nf);
            let mr = c.pool.e4(10, 2, nm);
            let ir = c.pool.e4(11, 2, nm);
            let lg = c.pool.long(7);
            let mut cands = vec![0, txt, cls2, md, nf, nm, mr, lg + 1];
            if rich {
                cands.extend([fd, fr, ir, lg]);
            }
            if m >= 51 {
                let h = c.pool.handle(6, mr);
                c.add_attr("BootstrapMethods", W::new().b2(1).i2(h).b2(0).done());
                if rich {
                    cands.push(h);
                }
            }
            let first = c.pool.next as u16;
            for k in 0..=n as u16 {
                cands.push(first + k); // own and each other's entries, and one past the end
            }
            let mut ents: Vec<Vec<u8>> = vec![vec![1, 0, 1, b'B'], vec![1, 0, 0], vec![3, 0, 0, 0, 1], vec![5, 0, 0, 0, 0, 0, 0, 0, 1]];
            if rich {
                ents.extend([vec![4, 0, 0, 0, 0], vec![6, 0, 0, 0, 0, 0, 0, 0, 1], vec![1, 0, 2, 0xC0, 0x80], vec![1, 0, 3, 0xED, 0xA0, 0x80]]);
            }
            for t in [7u8, 8, 16, 19, 20] {
                for r in &cands {
                    ents.push([&[t][..], &r.to_be_bytes()].concat());
                }
            }
            for t in [9u8, 10, 11, 12] {
                for r in &cands {
                    for s in &cands {
                        if rich || (t != 9 && t != 11) {
                            ents.push([&[t][..], &r.to_be_bytes(), &s.to_be_bytes()].concat());
                        }
                    }
                }
            }
            for t in [17u8, 18] {
                for r in &cands {
                    for x in if rich { &[0u16, 1][..] } else { &[0u16][..] } {
                        ents.push([&[t][..], &x.to_be_bytes(), &r.to_be_bytes()].concat());
                    }
                }
            }
            let kinds: &[u8] = if rich { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255] } else { &[1, 6, 9] };
            for k in kinds {
                for r in &cands {
                    ents.push([&[15, *k][..], &r.to_be_bytes()].concat());
                }
            }
            if rich {
                for t in [0u8, 2, 13, 14, 21, 255] {
                    ents.push(vec![t, 0, 1, 0, 2]);
                }
            }
            protos.push((c, ents));
        }
    }
    let (st, total) = starts(protos.iter().map(|p| (p.1.len() as u64).pow(n as u32)));
    cx.sweep(
        name,
        &format!(
            "all sequences of {} constant-pool entries after a fixed legal base (versions {:?}, class and module): every tag, every reference to base, own, each other's, unusable and outside entries",
            n, majors
        ),
        total,
        || {
            let (st, protos) = (&st, &protos);
            move |i, b: &mut Vec<u8>| {
                let (k, mut j) = locate(st, i);
                let (c, ents) = &protos[k];
                let e = ents.len() as u64;
                b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0]);
                b.extend_from_slice(&c.major.to_be_bytes());
                let at = b.len();
                b.extend_from_slice(&[0, 0]);
                b.extend_from_slice(&c.pool.bytes);
                let mut next = c.pool.next as u16;
                for _ in 0..n {
                    let x = &ents[(j % e) as usize];
                    b.extend_from_slice(x);
                    next += if x[0] == 5 || x[0] == 6 { 2 } else { 1 };
                    j /= e;
                }
                b[at..at + 2].copy_from_slice(&next.to_be_bytes());
                for v in [c.flags, c.this, c.sup, 0, 0, 0] {
                    b.extend_from_slice(&v.to_be_bytes());
                }
                b.extend_from_slice(&attrs_bytes(&c.attrs));
                Some(kind)
            }
        },
    );
}
/// Every version 0..=70 and some above with each single entry kind, well-formed, in class and module.
pub fn pool_versions(cx: &Ctx, kind: u8) {
    let vs: Vec<u16> = (0..=70).chain([255, 256, 0x7fff, 0x8000, 0xffff]).collect();
    let n = vs.len() as u64;
    cx.sweep("tags by version", "each tag 0 to 30 with plausible contents, under versions 0 to 70 and some above with four minor versions, class and module, each handle kind", n * 31 * 2 * 12 * 3 * 4, || {
        let vs = &vs;
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &[31, 2, 12, n, 3, 4]);
            let v = vs[d[3]];
            let mut c = if d[1] == 1 { Class::new_module(v) } else { Class::new(v) };
            c.minor = [0, 1, 3, 65535][d[5]];
            let r = c.pool.member(if d[4] == 0 { 10 } else { 11 }, "A", if d[4] == 2 { "<clinit>" } else { "m" }, "()V");
            let f = c.pool.member(9, "A", "f", "I");
            let txt = c.pool.utf8("pq");
            let md = c.pool.utf8("()V");
            let t = d[0] as u8;
            if d[2] > 0 && t != 15 {
                return None;
            }
            let e: Vec<u8> = match t {
                1 => vec![1, 0, 1, b'x'],
                3 | 4 => vec![t, 1, 2, 3, 4],
                5 | 6 => vec![t, 1, 2, 3, 4, 5, 6, 7, 8],
                7 | 8 | 19 | 20 => W::new().b1(t as u32).i2(txt).done(),
                16 => W::new().b1(16).i2(md).done(),
                15 => W::new().b1(15).b1(d[2] as u32).i2(if (1..=4).contains(&d[2]) { f } else { r }).done(),
                9..=11 => W::new().b1(t as u32).i2(2).i2(if t == 9 { f - 1 } else { r - 1 }).done(),
                12 => W::new().b1(12).i2(txt).i2(md).done(),
                17 | 18 => W::new().b1(t as u32).b2(0).i2(if t == 17 { f - 1 } else { r - 1 }).done(),
                _ => vec![t, 0, 1, 0, 2],
            };
            c.pool.push(&e);
            if (t == 17 || t == 18) && v >= 51 {
                let m = c.pool.member(10, "A", "b", "()V");
                let h = c.pool.handle(6, m);
                c.add_attr("BootstrapMethods", W::new().b2(1).i2(h).b2(0).done());
            }
            *b = c.bytes();
            Some(kind)
        }
    });
}
/// Each reference in a pool that has every kind of entry, replaced by each other index.
pub fn pool_references(cx: &Ctx, majors: &[u16], pairs: bool, kind: u8) {
    for &m in majors {
        for module in [false, true] {
            if module && m < 53 {
                continue;
            }
            let p = Pal::new(m, module, &[]);
            let b = p.put(Host::Class, &[]);
            // positions of the indices inside pool entries
            let mut pos = vec![];
            let mut i = 10;
            while i < p.head.len() {
                match b[i] {
                    1 => i += 3 + u16::from_be_bytes([b[i + 1], b[i + 2]]) as usize,
                    5 | 6 => i += 9,
                    3 | 4 => i += 5,
                    9..=12 => {
                        pos.extend([i + 1, i + 3]);
                        i += 5
                    }
                    17 | 18 => {
                        pos.push(i + 3);
                        i += 5
                    }
                    15 => {
                        pos.push(i + 2);
                        i += 4
                    }
                    _ => {
                        pos.push(i + 1);
                        i += 3
                    }
                }
            }
            let n = p.every.len() as u64;
            let k = pos.len() as u64;
            cx.sweep(
                &format!("pool references, version {}{}", m, if module { ", module" } else { "" }),
                "each reference between entries of a pool with every kind of entry, replaced by each index",
                k * n,
                || {
                    let (b0, pos, p) = (&b, &pos, &p);
                    move |i, b: &mut Vec<u8>| {
                        b.extend_from_slice(b0);
                        let at = pos[(i / n) as usize];
                        b[at..at + 2].copy_from_slice(&p.every[(i % n) as usize].to_be_bytes());
                        Some(kind)
                    }
                },
            );
            if pairs {
                cx.sweep(
                    &format!("pairs of pool references, version {}{}", m, if module { ", module" } else { "" }),
                    "each two references between entries of a pool with every kind of entry, replaced by each two indices",
                    k * k * n * n,
                    || {
                        let (b0, pos, p) = (&b, &pos, &p);
                        move |i, b: &mut Vec<u8>| {
                            let d = digits(i, &[n, n, k, k]);
                            if d[2] >= d[3] {
                                return None;
                            }
                            b.extend_from_slice(b0);
                            for (x, y) in [(d[2], d[0]), (d[3], d[1])] {
                                b[pos[x]..pos[x] + 2].copy_from_slice(&p.every[y].to_be_bytes());
                            }
                            Some(kind)
                        }
                    },
                );
            }
        }
    }
}
/// Orders of entry kinds: every sequence of n entries out of well-formed ones, text last or first.
pub fn pool_orders(cx: &Ctx, n: u32, kind: u8) {
    const KINDS: u64 = 16;
    cx.sweep(
        &format!("orders of {} entries", n),
        "all sequences of well-formed entries of all kinds with distinct values, interleaved with texts before or after the entries that use them",
        KINDS.pow(n) * 2,
        || {
            move |i, b: &mut Vec<u8>| {
                let late = i % 2 == 1; // texts and names come after everything
                let mut seq = vec![];
                let mut j = i / 2;
                for _ in 0..n {
                    seq.push((j % KINDS) as u8);
                    j /= KINDS;
                }
                // slots: entry k of the sequence, then (or before) 13 fixed entries
                let slots: u16 = seq.iter().map(|k| if *k == 2 || *k == 3 { 2 } else { 1 }).sum();
                let fix = if late { 1 + slots } else { 1 };
                let (f_txt, f_cls, f_nf, f_nm, f_fd, f_md, f_txt2, f_fr, f_mr, f_ir, f_h) =
                    (fix, fix + 1, fix + 2, fix + 3, fix + 4, fix + 5, fix + 6, fix + 7, fix + 8, fix + 9, fix + 10);
                let fixed = W::new()
                    .raw(&[1, 0, 1, b'A'])
                    .b1(7)
                    .i2(f_txt)
                    .b1(12)
                    .i2(f_txt2)
                    .i2(f_fd)
                    .b1(12)
                    .i2(f_txt)
                    .i2(f_md)
                    .raw(&[1, 0, 1, b'I', 1, 0, 4])
                    .raw(b"(J)I")
                    .raw(&[1, 0, 2, b'z', b'z'])
                    .b1(9)
                    .i2(f_cls)
                    .i2(f_nf)
                    .b1(10)
                    .i2(f_cls)
                    .i2(f_nm)
                    .b1(11)
                    .i2(f_cls)
                    .i2(f_nm)
                    .b1(15)
                    .b1(6)
                    .i2(f_mr)
                    .raw(&[1, 0, 16])
                    .raw(b"BootstrapMethods");
                let mut w = W::new();
                for (k, e) in seq.iter().enumerate() {
                    let v = 0x0101 * (k as u32 + 1);
                    w = match e {
                        0 => w.b1(3).b4(v << 8),
                        1 => w.b1(4).b4(0x3f80_0000 + v),
                        2 => w.b1(5).b4(v).b4(v + 1),
                        3 => w.b1(6).b4(0x3ff0_0000).b4(v),
                        4 => w.b1(7).i2(f_txt2),
                        5 => w.b1(8).i2(if k % 2 == 0 { f_txt } else { f_txt2 }),
                        6 => w.b1(9).i2(f_cls).i2(f_nf),
                        7 => w.b1(10).i2(f_cls).i2(f_nm),
                        8 => w.b1(11).i2(f_cls).i2(f_nm),
                        9 => w.b1(12).i2(f_txt2).i2(f_fd),
                        10 => {
                            let (h, t) = [(1, f_fr), (5, f_mr), (9, f_ir), (6, f_ir), (4, f_fr), (8, f_mr)][k % 6];
                            w.b1(15).b1(h).i2(t)
                        }
                        11 => w.b1(16).i2(f_md),
                        12 => w.b1(17).b2(k as u32 % 2).i2(f_nf),
                        13 => w.b1(18).b2(k as u32 % 3).i2(f_nm),
                        14 => w.raw(&[1, 0, 1, b'a' + k as u8]),
                        _ => w.raw(&[1, 0, 0]),
                    };
                }
                b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 61]);
                b.extend_from_slice(&(1 + slots + 12).to_be_bytes());
                if late {
                    b.extend_from_slice(&w.0);
                    b.extend_from_slice(&fixed.0);
                } else {
                    b.extend_from_slice(&fixed.0);
                    b.extend_from_slice(&w.0);
                }
                let body = W::new().b2(3).i2(f_h).b2(0).i2(f_h).b2(0).i2(f_h).b2(0);
                let tail = W::new().b2(0x21).i2(f_cls).b2(0).b2(0).b2(0).b2(0).b2(1).i2(fix + 11).b4(body.0.len() as u32).raw(&body.0);
                b.extend_from_slice(&tail.0);
                Some(kind)
            }
        },
    );
}
/// Big pools: n entries of one kind, with or without 8-byte constants, up to the largest.
pub fn pool_sizes(cx: &Ctx, kind: u8) {
    let ns: Vec<u32> = [1u32, 2, 126, 127, 128, 254, 255, 256, 257, 1000, 16383, 32766, 32767, 32768, 65000, 65520, 65521, 65522, 65523, 65524, 65525, 65526, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534].to_vec();
    let n = ns.len() as u64;
    cx.sweep(
        "pool sizes",
        "constant pools of 1 to 65535 slots filled with one kind of entry; the last entry an 8-byte constant; the declared count exact, one less, one more",
        n * 6 * 4 * 3,
        || {
            let ns = &ns;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &[6, 4, 3, n]);
                let mut w: Vec<u8> = vec![1, 0, 1, b'A', 7, 0, 1, 1, 0, 1, b'I', 12, 0, 1, 0, 3, 9, 0, 2, 0, 4];
                let mut slots = 5u32;
                let want = ns[d[3]];
                let room = |s: u32| s < want;
                while room(slots + if d[0] == 2 { 1 } else { 0 }) {
                    match d[0] {
                        0 => w.extend([3, 0, 0, (slots >> 8) as u8, slots as u8]),
                        1 => w.extend([8, 0, 1]),
                        2 => w.extend([5, 0, 0, 0, 0, 0, 0, (slots >> 8) as u8, slots as u8]),
                        3 => w.extend([9, 0, 2, 0, 4]),
                        4 => w.extend([7, 0, 1]),
                        _ => w.extend([1, 0, 0]),
                    }
                    slots += if d[0] == 2 { 2 } else { 1 };
                }
                // the last entry
                match d[1] {
                    0 => (),
                    1 => {
                        w.extend([5, 0, 0, 0, 0, 0, 0, 0, 9]);
                        slots += 2
                    }
                    2 => {
                        w.extend([6, 0, 0, 0, 0, 0, 0, 0, 9]);
                        slots += 2
                    }
                    _ => {
                        w.extend([3, 0, 0, 0, 9]);
                        slots += 1
                    }
                }
                let count = slots as i64 + 1 + [0, -1, 1][d[2]];
                if !(1..=65535).contains(&count) {
                    return None;
                }
                b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 61]);
                b.extend_from_slice(&(count as u16).to_be_bytes());
                b.extend_from_slice(&w);
                b.extend_from_slice(&[0, 0x21, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
                Some(kind)
            }
        },
    );
}
/// Long chains and rings of entries that reference one another.
pub fn big_pool_references(cx: &Ctx, rich: bool, kind: u8) {
    let ns: Vec<u32> = [6u32, 7, 8, 15, 16, 100, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 5000, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 40000, 65533, 65534].to_vec();
    let ns: Vec<u32> = ns.into_iter().filter(|n| rich || *n <= 5000 || [32767, 32768, 65534].contains(n)).collect();
    let n = ns.len() as u64;
    // tags with one reference, and with two of which the first is varied or the second
    let radix = [12, 4, 3, 17, 3, n];
    cx.sweep(
        "references in big pools",
        "pools of up to 65534 entries in which one entry, at the start, in the middle or at the end, refers to the first, \
         its neighbours, itself, the last, or one beyond; the rest of the pool text, classes or 8-byte constants",
        product(&radix),
        || {
            let ns = &ns;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let want = ns[d[5]];
                if want > 5000 && !rich && d[1] != 2 {
                    return None;
                }
                // 1 "A", 2 class A, 3 "I", 4 name and type A I, 5 "()V"
                let mut w: Vec<u8> = vec![1, 0, 1, b'A', 7, 0, 1, 1, 0, 1, b'I', 12, 0, 1, 0, 3, 1, 0, 3, b'(', b')', b'V'];
                let mut slots = 5;
                let place = [6, want / 2, want][d[4]].max(6);
                while slots < want {
                    let at = slots + 1;
                    if at == place {
                        let target = match d[0] {
                            0 => 0,
                            1 => 1,
                            2 => 2,
                            3 => at - 1,
                            4 => at,
                            5 => at + 1,
                            6 => want - 1,
                            7 => want,
                            8 => want + 1,
                            9 => want + 2,
                            10 => 65535,
                            _ => 3,
                        };
                        let t = (target.min(65535) as u16).to_be_bytes();
                        match d[3] {
                            0 => w.extend([7, t[0], t[1]]),
                            1 => w.extend([8, t[0], t[1]]),
                            2 => w.extend([16, t[0], t[1]]),
                            3 => w.extend([9, t[0], t[1], 0, 4]),
                            4 => w.extend([9, 0, 2, t[0], t[1]]),
                            5 => w.extend([10, t[0], t[1], 0, 4]),
                            6 => w.extend([10, 0, 2, t[0], t[1]]),
                            7 => w.extend([11, t[0], t[1], 0, 4]),
                            8 => w.extend([11, 0, 2, t[0], t[1]]),
                            9 => w.extend([12, t[0], t[1], 0, 3]),
                            10 => w.extend([12, 0, 1, t[0], t[1]]),
                            11 => w.extend([15, 1, t[0], t[1]]),
                            12 => w.extend([15, 6, t[0], t[1]]),
                            13 => w.extend([17, 0, 0, t[0], t[1]]),
                            14 => w.extend([18, 0, 0, t[0], t[1]]),
                            15 => w.extend([19, t[0], t[1]]),
                            _ => w.extend([20, t[0], t[1]]),
                        }
                        slots += 1;
                        continue;
                    }
                    match d[1] {
                        0 => w.extend([1, 0, 1, b'B']),
                        1 => w.extend([7, 0, 1]),
                        2 if at + 1 != place && slots + 2 <= want => {
                            w.extend([5, 0, 0, 0, 0, 0, 0, (slots >> 8) as u8, slots as u8]);
                            slots += 1
                        }
                        2 => w.extend([3, 0, 0, 0, 1]),
                        // the neighbour is of the kind asked for
                        _ => w.extend(match d[3] {
                            3 | 5 | 7 => [7, 0, 1].to_vec(),
                            4 => [12, 0, 1, 0, 3].to_vec(),
                            6 | 8 | 14 => [12, 0, 1, 0, 5].to_vec(),
                            13 => [12, 0, 1, 0, 3].to_vec(),
                            11 => [9, 0, 2, 0, 4].to_vec(),
                            2 => [1, 0, 3, b'(', b')', b'V'].to_vec(),
                            _ => [1, 0, 1, b'I'].to_vec(),
                        }),
                    }
                    slots += 1;
                }
                // in a class, in a module, or in a class before the entries were introduced
                let (major, flags) = [(61u8, 0x21u16), (53, 0x8000), (50, 0x21)][d[2]];
                let module = d[2] == 1;
                if module && d[3] < 13 && d[0] != 8 {
                    return None;
                }
                b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, major]);
                b.extend_from_slice(&(slots as u16 + 1).to_be_bytes());
                b.extend_from_slice(&w);
                b.extend_from_slice(&flags.to_be_bytes());
                b.extend_from_slice(&[0, 2, 0, if module { 0 } else { 2 }, 0, 0, 0, 0, 0, 0, 0, 0]);
                Some(kind)
            }
        },
    );
}
pub fn pool_chains(cx: &Ctx, kind: u8) {
    let mut ns: Vec<usize> = (1..=24).collect();
    ns.extend([300, 3000, 20000, 65000, 65530]);
    let kinds: [(u8, u8); 14] =
        [(7, 1), (8, 1), (16, 1), (19, 1), (20, 1), (9, 2), (10, 2), (11, 2), (12, 2), (15, 3), (17, 4), (18, 4), (12, 5), (12, 6)];
    let radix = [14, 7, 4, ns.len() as u64];
    cx.sweep(
        "pool chains",
        "constant pools with chains and rings of 1 to 65530 entries: each of the 14 reference forms; to the previous, the next, the first, the last, two on, itself or the text entry; the end closing the ring, leading to text, to nothing, or out of the pool",
        product(&radix),
        || {
            let ns = &ns;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (tag, form) = kinds[d[0]];
                let n = ns[d[3]];
                b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 61]);
                // entry 1: text; 2: class; 3..3+n: the chain
                b.extend_from_slice(&((n + 3) as u16).to_be_bytes());
                b.extend_from_slice(&[1, 0, 1, b'A', 7, 0, 1]);
                let end = [0usize, 1, 2, 0xffff][d[2]];
                for k in 0..n {
                    let at = 3 + k;
                    let to = match d[1] {
                        0 => if k == 0 { if end == 0 { n + 2 } else { end } } else { at - 1 },
                        1 => if k + 1 == n { if end == 0 { 3 } else { end } } else { at + 1 },
                        2 => if k == 0 { if end == 0 { n + 2 } else { end } } else { 3 },
                        3 => if k + 1 == n { if end == 0 { 3 } else { end } } else { n + 2 },
                        4 => if k + 2 >= n { if end == 0 { 3 + (k + 2) % n } else { end } } else { at + 2 },
                        5 => at,
                        _ => 1,
                    };
                    let t = (to as u16).to_be_bytes();
                    b.push(tag);
                    match form {
                        1 => b.extend(t),
                        2 => b.extend([0, 2, t[0], t[1]]),
                        3 => b.extend([1 + (k % 9) as u8, t[0], t[1]]),
                        4 => b.extend([0, 0, t[0], t[1]]),
                        5 => b.extend([t[0], t[1], t[0], t[1]]),
                        _ => b.extend([0, 1, t[0], t[1]]),
                    }
                }
                b.extend_from_slice(&[0, 0x21, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
                Some(kind)
            }
        },
    );
}
/// Every bit pattern class of numeric constants.
pub fn numbers(cx: &Ctx, kind: u8) {
    cx.sweep(
        "numeric constants",
        "each 16-bit pattern in each half or quarter of int, float, long and double constants, on a background of 0 and of ff; in the pool, as constant value and as ldc operand",
        65536 * 12 * 2,
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &[2, 12, 65536]);
                let fill = [0u8, 0xff][d[0]];
                let v = (d[2] as u16).to_be_bytes();
                let (tag, width, at) = match d[1] {
                    k @ 0..=1 => (3u8, 4, k),
                    k @ 2..=3 => (4, 4, k - 2),
                    k @ 4..=7 => (5, 8, k - 4),
                    k => (6, 8, k - 8),
                };
                let mut e = vec![fill; 1 + width];
                e[0] = tag;
                e[1 + 2 * at..3 + 2 * at].copy_from_slice(&v);
                let mut c = Class::new(61);
                let k = c.pool.push(&e);
                let a = c.attr("ConstantValue", k.to_be_bytes().to_vec());
                c.add_field(0x19, "f", "I", vec![a]);
                let op = if width == 8 { 0x14 } else { 0x13 };
                let body = code_body(2, 0, &[op, (k >> 8) as u8, k as u8, 0xb1], &[], &[]);
                let a = c.attr("Code", body);
                c.add_method(1, "m", "()V", vec![a]);
                *b = c.bytes();
                Some(kind)
            }
        },
    );
}
