//! What one case is, and when it violates a property. Pure functions of (property, kind, bytes).
use crate::alloc;
use crate::dump::*;
use crate::engine::*;
use crate::refmodel::{self, Verdict};
use crate::view;
use cafebabe::bytecode::{ByteCode, Opcode};
use cafebabe::descriptors::ClassName;
use cafebabe::{parse_class, parse_class_with_options, ClassFile, ParseOptions};
use std::borrow::Cow;
use std::fmt::Write;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

/// Number of the property being checked.
pub static PROP: AtomicU32 = AtomicU32::new(0);

/// Kinds of cases.
pub const ON: u8 = 0; // class bytes, bytecode parsed
pub const OFF: u8 = 1; // class bytes, bytecode not parsed
pub const NAME: u8 = 2; // UTF-8 text converted to a ClassName
pub const OFFSETS: u8 = 3; // gaps between instruction offsets, for get_opcode_index
pub const HISTORY: u8 = 4; // operations over the fixed files
pub const OPTIONS: u8 = 5; // option calls (one byte), then class bytes
pub const RENAMED: u8 = 6; // [role group, role, shape of text]: many files that differ in one text

pub const REWRITE: u8 = 7; // two files of equal length: the first is overwritten with the second
pub const SEQUENCE: u8 = 8; // several cases: in order by the default build, in reverse by the other
pub const TRAIL: u8 = 9; // several cases one after another: the last is judged
pub const BOTH: u8 = 10; // class bytes, bytecode parsed, by both builds

pub fn options(on: bool) -> ParseOptions {
    let mut o = ParseOptions::default();
    o.parse_bytecode(on);
    o
}

pub struct Null(pub usize);
impl Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.wrapping_add(s.len());
        Ok(())
    }
}

pub fn check_case(kind: u8, b: &[u8], sc: &mut Scratch) -> Res {
    let prop = PROP.load(Relaxed);
    match (prop, kind) {
        (_, HISTORY) => crate::history::check(b, sc),
        (_, OFFSETS) => offsets(b),
        (_, RENAMED) => renamed(b),
        (_, REWRITE) => crate::history::rewrite(b, sc),
        (_, TRAIL) => {
            let mut r = Res::Ok(Kind::Other, 0);
            for (k, input) in split(b) {
                r = check_case(k, input, sc);
            }
            r
        }
        (_, SEQUENCE) => crate::history::sequence(b),
        (_, NAME) => class_name(prop, b),
        (1, _) => total(kind, b),
        (2, _) => memory(kind, b, sc),
        (3, _) => leaks(kind, b, sc),
        (18, _) => disabled(kind, b, sc),
        (_, BOTH) => match compare(prop, ON, b, sc) {
            Res::Ok(k, h) => other_build(prop, b, sc).unwrap_or(Res::Ok(k, h)),
            bad => bad,
        },
        (20, _) => crate::history::same(kind, b, sc),
        _ => compare(prop, kind, b, sc),
    }
}

/// (sections compared, provenance mode, whether acceptance is demanded)
fn profile(prop: u32) -> (u32, bool, bool) {
    match prop {
        4 => (POOL, false, false),
        5 => (0, false, true),
        6 => (NAMES, false, true),
        7 => (ALL & !POOL, true, false),
        8 => (HDR | MEM | ATL, false, false),
        9 => (0, false, true),
        10 => (0, false, false),
        11 => (CODE | ATL, false, true),
        12 => (ANN | ATL, false, true),
        13 => (META | ATL, false, true),
        14 => (DESC | PRINT, false, true),
        15 => (NAMES, false, true),
        16 => (OPS | HASOPS, false, true),
        17 => (0, false, true),
        19 => (0, false, true),
        _ => (ALL, false, true),
    }
}

pub fn demands(prop: u32) -> bool {
    profile(prop).2
}

/// What the thread-safe build does wrong with an input on which the other build is right.
#[cfg(not(feature = "ts"))]
fn other_build(_: u32, _: &[u8], _: &mut Scratch) -> Option<Res> {
    None
}
#[cfg(feature = "ts")]
fn other_build(prop: u32, b: &[u8], sc: &mut Scratch) -> Option<Res> {
    let need = profile(prop).2;
    let mut one = std::mem::take(&mut sc.a);
    let mut other = std::mem::take(&mut sc.b);
    one.clear();
    other.clear();
    // a panic of the build for one thread is judged by `compare`
    let first = guarded(|| crate::history::outcome(b, true, &mut one)).is_ok();
    let r = guarded(|| crate::history::outcome_ts(b, true, &mut other));
    let good = first && one.starts_with(b"ok");
    let res = match r {
        _ if !first => None,
        Err(m) if good && need => Some(Res::Bad(format!("the thread-safe build panics on a file that must be accepted: {}", m), "panics")),
        Err(_) => None,
        Ok(()) => match (good, other.starts_with(b"ok")) {
            (true, false) if need => Some(Res::Bad(format!("the thread-safe build rejects a file that must be accepted: {}", String::from_utf8_lossy(&other)), "rejects")),
            (true, true) if one != other => Some(Res::Bad(format!("by the thread-safe build: {}", first_diff(&one, &other)), "differs")),
            (false, true) => Some(Res::Bad(format!("the thread-safe build accepts what the other rejects: {}", String::from_utf8_lossy(&one)), "accepts")),
            _ => None,
        },
    };
    sc.a = one;
    sc.b = other;
    res
}

fn compare(prop: u32, kind: u8, b: &[u8], sc: &mut Scratch) -> Res {
    let on = kind == ON;
    let (mask, prov, need) = profile(prop);
    let buf = std::mem::take(&mut sc.a);
    let v = refmodel::run(b, on, mask, prov, buf);
    match v {
        Verdict::Unspec(buf) => {
            sc.a = buf;
            Res::Ok(Kind::Unspec, 1)
        }
        Verdict::Reject(r, buf) => {
            sc.a = buf;
            if r.props & (1 << prop) == 0 {
                return Res::Ok(Kind::Reject(r.what), fnv(r.what.as_bytes()));
            }
            let o = options(on);
            match guarded(|| parse_class_with_options(b, &o).is_ok()) {
                Ok(true) => Res::Bad(format!("accepted, but must be rejected: {}", r.what), "accepts"),
                _ => Res::Ok(Kind::Reject(r.what), fnv(r.what.as_bytes())),
            }
        }
        Verdict::Accept { dump, .. } => {
            let o = options(on);
            let out = std::mem::take(&mut sc.b);
            let r = guarded(|| match parse_class_with_options(b, &o) {
                Err(e) => Err(e.to_string()),
                Ok(c) => {
                    let mut d = D::new(mask, prov, b, out);
                    view::class_file(&c, &mut d);
                    let l = match prop {
                        4 => iteration(&c),
                        17 => lookups(&c),
                        _ => None,
                    };
                    Ok((d.out, l))
                }
            });
            let res = match r {
                Err(m) if need => Res::Bad(format!("panics on a file that must be accepted: {}", m), "panics"),
                Err(_) => Res::Ok(Kind::Other, 2),
                Ok(Err(e)) if need => Res::Bad(format!("rejected, but must be accepted: {}", e), "rejects"),
                Ok(Err(_)) => Res::Ok(Kind::Other, 3),
                Ok(Ok((_, Some(m)))) => Res::Bad(m, "lookup"),
                Ok(Ok((out, None))) => {
                    let res = if out != dump {
                        Res::Bad(first_diff(&dump, &out), "differs")
                    } else {
                        Res::Ok(Kind::Accept, fnv(&dump))
                    };
                    sc.b = out;
                    res
                }
            };
            sc.a = dump;
            res
        }
    }
}

pub fn far() -> [usize; 9] {
    [
        usize::MAX,
        usize::MAX - 1,
        usize::MAX / 2,
        usize::MAX / 2 + 1,
        1 << 31,
        (1 << 31) - 1,
        1 << 32,
        (1 << 32) + 1,
        1 << 16,
    ]
}
fn lookup_all(bc: &ByteCode<'_>, upto: usize) -> Option<String> {
    let mut next = 0;
    for (o, listed) in (0..upto).map(|o| (o, true)).chain(far().map(|o| (o, false))) {
        let want = if listed {
            if next < bc.opcodes.len() && bc.opcodes[next].0 == o {
                next += 1;
                Some(next - 1)
            } else {
                None
            }
        } else {
            bc.opcodes.iter().position(|x| x.0 == o)
        };
        let got = bc.get_opcode_index(o);
        if got != want {
            return Some(format!("get_opcode_index({}) is {:?}, the listing says {:?}", o, got, want));
        }
    }
    None
}
fn lookups(c: &ClassFile<'_>) -> Option<String> {
    let mut bad = None;
    view::each_code(c, &mut |cd| {
        if let Some(bc) = &cd.bytecode {
            if bad.is_none() {
                bad = lookup_all(bc, cd.code.len() + 3);
            }
        }
    });
    bad
}

/// However the constant pool is walked, it is the same sequence.
fn iteration<'a>(c: &'a ClassFile<'a>) -> Option<String> {
    struct H(u64);
    impl Write for H {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for x in s.bytes() {
                self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
            }
            Ok(())
        }
    }
    fn text<T: std::fmt::Debug>(x: Option<T>) -> u64 {
        let mut h = H(0xcbf2_9ce4_8422_2325);
        let _ = write!(h, "{:?}", x);
        h.0
    }
    let mut it = c.constantpool_iter();
    let mut seq = vec![];
    loop {
        let (lo, hi) = it.size_hint();
        let x = it.next();
        seq.push((text(x.as_ref()), lo, hi));
        if x.is_none() {
            break;
        }
    }
    for k in 0..3 {
        if it.next().is_some() {
            return Some(format!("the constant pool iterator yields an item again, {} calls after its end", k + 1));
        }
    }
    let n = seq.len() - 1;
    for (k, (_, lo, hi)) in seq.iter().enumerate() {
        if *lo > n - k || hi.is_some_and(|h| h < n - k) {
            return Some(format!("size_hint is {:?} with {} items left", (lo, hi), n - k));
        }
    }
    let at = |k: usize| seq[k.min(n)].0;
    if c.constantpool_iter().count() != n {
        return Some(format!("count() is not {}", n));
    }
    if text(c.constantpool_iter().last()) != if n == 0 { at(n) } else { at(n - 1) } {
        return Some("last() is not the last item".into());
    }
    // two at once, one ahead of the other
    let (mut a, mut b) = (c.constantpool_iter(), c.constantpool_iter());
    let _ = b.next();
    for k in 0..=n {
        if text(a.next()) != at(k) || text(b.next()) != at(k + 1) {
            return Some(format!("item {} differs when two iterations take turns", k));
        }
    }
    let far = if n <= 40 { vec![] } else { vec![n / 2, n - 1, n, n + 1, usize::MAX] };
    let near = (0..=n + 1).take(if n <= 40 { usize::MAX } else { 2 });
    for k in near.chain(far) {
        let mut i = c.constantpool_iter();
        if text(i.nth(k)) != at(k) || text(i.next()) != at(k.saturating_add(1)) {
            return Some(format!("nth({}) or what follows it is not the item at that place", k));
        }
        if text(c.constantpool_iter().skip(k).next()) != at(k) {
            return Some(format!("skip({}) does not continue at that place", k));
        }
        if k > 0 && text(c.constantpool_iter().step_by(k).nth(1)) != at(k) {
            return Some(format!("step_by({}) does not reach that place", k));
        }
    }
    None
}

fn offsets(b: &[u8]) -> Res {
    let mut at = 0usize;
    let opcodes: Vec<(usize, Opcode<'_>)> = b
        .iter()
        .enumerate()
        .map(|(i, g)| {
            at += *g as usize + (i > 0) as usize;
            (at, Opcode::Nop)
        })
        .collect();
    let bc = ByteCode { opcodes };
    match guarded(|| lookup_all(&bc, at + 3)) {
        Err(m) => Res::Bad(format!("get_opcode_index panics: {}", m), "panics"),
        Ok(Some(m)) => Res::Bad(m, "lookup"),
        Ok(None) => Res::Ok(Kind::Accept, fnv(b)),
    }
}

fn class_name(prop: u32, b: &[u8]) -> Res {
    let Ok(s) = std::str::from_utf8(b) else { return Res::Ok(Kind::Other, 0) };
    let want = refmodel::binary_name(s);
    for owned in [false, true] {
        let c: Cow<'_, str> = if owned { Cow::Owned(s.to_string()) } else { Cow::Borrowed(s) };
        let r = guarded(|| match ClassName::try_from(c) {
            Err(e) => {
                let _ = e.to_string();
                None
            }
            Ok(n) => {
                let shown = n.to_string();
                let derefd: String = (*n).to_string();
                let back: Cow<'_, str> = n.into();
                Some((shown, derefd, back.to_string()))
            }
        });
        match r {
            Err(m) => return Res::Bad(format!("ClassName::try_from({:?}) panics: {}", s, m), "panics"),
            Ok(_) if prop == 1 => (),
            Ok(got) => {
                if got.is_some() != want {
                    let t = if want { "rejects a legal" } else { "accepts an illegal" };
                    return Res::Bad(format!("ClassName::try_from {} name {:?}", t, s), "classname");
                }
                if let Some((x, y, z)) = got {
                    if x != s || y != s || z != s {
                        return Res::Bad(format!("ClassName::try_from changes {:?}", s), "classname");
                    }
                }
            }
        }
    }
    Res::Ok(if want { Kind::Accept } else { Kind::Reject("illegal class name") }, fnv(b))
}

// ---------------------------------------------------------------- C01

fn total(kind: u8, b: &[u8]) -> Res {
    let o = options(kind == ON);
    let mut step = "parsing";
    let st = &mut step;
    let r = guarded(move || {
        let r = parse_class_with_options(b, &o);
        let mut n = Null(0);
        match &r {
            Err(e) => {
                *st = "formatting the error";
                let _ = write!(n, "{} {:?}", e, e);
                n.0 as u64 ^ fnv(e.to_string().as_bytes())
            }
            Ok(c) => {
                *st = "iterating the constant pool";
                let mut k = 0;
                for i in c.constantpool_iter() {
                    let _ = write!(n, "{:?}", i);
                    k += 1;
                }
                *st = "formatting the class";
                let _ = write!(n, "{:?}", c);
                let _ = write!(n, "{} {:?}", c.this_class, c.super_class);
                for f in &c.fields {
                    let _ = write!(n, "{}", f.descriptor);
                }
                for m in &c.methods {
                    let _ = write!(n, "{} {}", m.descriptor, m.descriptor.return_type);
                }
                *st = "looking up instructions";
                view::each_code(c, &mut |cd| {
                    if let Some(bc) = &cd.bytecode {
                        let all = cd.code.len().min(4096) + 3;
                        for x in (0..all).chain(far()).chain([cd.code.len(), cd.code.len() + 1]) {
                            n.0 ^= bc.get_opcode_index(x).unwrap_or(1);
                        }
                    }
                });
                *st = "dropping";
                (1 << 40) ^ (k << 20) ^ n.0 as u64
            }
        }
    });
    if r.is_ok() {
        if let Err(m) = guarded(|| crate::history::use_ts(b, kind == ON)) {
            return Res::Bad(format!("the thread-safe build panics: {}", m), "panics");
        }
    }
    match r {
        Err(m) => Res::Bad(format!("panics while {}: {}", step, m), "panics"),
        Ok(h) => Res::Ok(if h >> 40 != 0 { Kind::Accept } else { Kind::Reject("rejected") }, h),
    }
}

// ---------------------------------------------------------------- C02, C03

pub const MEM_FIXED: i64 = 32 << 20;
pub const MEM_PER_BYTE: i64 = 4096;

fn memory(kind: u8, b: &[u8], sc: &mut Scratch) -> Res {
    let on = kind == ON;
    // strings that are re-encoded are left aside: skip files whose use could matter
    if has_reencoded(b) {
        return Res::Ok(Kind::Unspec, 1);
    }
    let o = options(on);
    let base = alloc::reset_peak();
    let r = guarded(|| parse_class_with_options(b, &o));
    let mut peak = alloc::peak() - base;
    let held = alloc::live() - base;
    let ok = matches!(r, Ok(Ok(_)));
    drop(r);
    let base = alloc::reset_peak();
    if let Ok(Some(_)) = guarded(|| crate::history::parse_ts(b, on)) {
        peak = peak.max(alloc::peak() - base);
    }
    sc.max_peak = sc.max_peak.max(peak);
    if b.len() >= 4096 {
        sc.max_ratio = sc.max_ratio.max(peak / b.len() as i64);
    }
    let limit = MEM_FIXED + MEM_PER_BYTE * b.len() as i64;
    if peak > limit {
        return Res::Bad(
            format!("{} bytes of heap at once (held afterwards: {}) for a file of {} bytes", peak, held, b.len()),
            "memory",
        );
    }
    let h = fnv(&(peak as u64).to_le_bytes()) ^ ok as u64;
    Res::Ok(if ok { Kind::Accept } else { Kind::Reject("rejected") }, h)
}

/// Whether some long byte string in the file is modified UTF-8 proper (conservative: any byte pair
/// that only occurs in such text, in a file with long text).
fn has_reencoded(b: &[u8]) -> bool {
    let mut i = 10;
    let Some(n) = b.get(8..10) else { return false };
    let count = u16::from_be_bytes([n[0], n[1]]) as usize;
    let mut k = 1;
    while k < count {
        let Some(tag) = b.get(i) else { return false };
        let step = match tag {
            1 => {
                let Some(l) = b.get(i + 1..i + 3) else { return false };
                let n = u16::from_be_bytes([l[0], l[1]]) as usize;
                let Some(s) = b.get(i + 3..i + 3 + n) else { return false };
                if n > 64 && std::str::from_utf8(s).is_err() {
                    return true;
                }
                3 + n
            }
            5 | 6 => {
                k += 1;
                9
            }
            3 | 4 | 9..=12 | 17 | 18 => 5,
            7 | 8 | 16 | 19 | 20 => 3,
            15 => 4,
            _ => return false,
        };
        i += step;
        k += 1;
    }
    false
}

fn leaks(kind: u8, b: &[u8], sc: &mut Scratch) -> Res {
    let o = options(kind == ON);
    let run = |b: &[u8]| -> (i64, Result<bool, String>) {
        let before = alloc::live();
        let r = guarded(|| match parse_class_with_options(b, &o) {
            Err(_) => false,
            Ok(c) => {
                let mut n = Null(0);
                let items: Vec<_> = c.constantpool_iter().collect();
                let _ = write!(n, "{:?}", c.fields);
                drop(items);
                true
            }
        });
        let r = r.map_err(|_| String::new());
        (alloc::live() - before, r)
    };
    if !sc.warm {
        sc.warm = true;
        let _ = run(b);
    }
    let run_ts = |b: &[u8]| {
        let before = alloc::live();
        let r = guarded(|| crate::history::use_ts(b, kind == ON));
        (alloc::live() - before, r)
    };
    // what one run keeps for later runs is not lost yet; what every run keeps is
    if matches!(run_ts(b), (1.., Ok(_))) && matches!(run_ts(b), (1.., Ok(_))) {
        if let (d @ 1.., Ok(Some(t))) = run_ts(b) {
            let how = if t { "accepted" } else { "rejected" };
            return Res::Bad(format!("{} bytes stay allocated after dropping the result of this {} file (thread-safe build)", d, how), "leak");
        }
    }
    let (d, r) = run(b);
    if d != 0 && r.is_ok() {
        let (d2, _) = run(b);
        if d2 != 0 {
            let how = if matches!(r, Ok(true)) { "accepted" } else { "rejected" };
            return Res::Bad(format!("{} bytes stay allocated after dropping the result of this {} file", d2, how), "leak");
        }
    }
    match r {
        Ok(true) => Res::Ok(Kind::Accept, fnv(b)),
        Ok(false) => Res::Ok(Kind::Reject("rejected"), fnv(b)),
        Err(_) => Res::Ok(Kind::Other, 4),
    }
}

/// Parses many files that differ in one text only, each dropped before the next: what stays
/// allocated must stop growing.
fn renamed(b: &[u8]) -> Res {
    let group: fn(usize, &[u8]) -> Vec<u8> = [crate::spaces::desc_role, crate::spaces::name_role, crate::spaces::text_role][b[0] as usize];
    let file = |i: usize| group(b[1] as usize, &crate::spaces::shaped(b[2], i));
    let mut accepted = 0;
    let mut run = |n: usize, salt: usize| {
        for i in 0..n {
            let f = file(i + salt);
            for on in [true, false] {
                let o = options(on);
                let r = guarded(|| match parse_class_with_options(&f, &o) {
                    Err(_) => false,
                    Ok(c) => {
                        let mut n = Null(0);
                        drop(c.constantpool_iter().collect::<Vec<_>>());
                        let _ = write!(n, "{:?}", c.fields);
                        true
                    }
                });
                accepted += matches!(r, Ok(true)) as u64;
            }
        }
        alloc::live()
    };
    run(2, 100_000);
    let start = alloc::live();
    let half = run(40, 200_000);
    let end = run(40, 300_000);
    if end > half && half > start {
        return Res::Bad(
            format!("{} bytes stay allocated after 40 files that differ in one text, {} after 80, though each result was dropped", half - start, end - start),
            "grows",
        );
    }
    Res::Ok(if accepted > 0 { Kind::Accept } else { Kind::Reject("rejected") }, fnv(b) ^ accepted)
}

// ---------------------------------------------------------------- C18

/// Applies the option calls encoded in `code` and returns what they ask for in the end.
fn option_calls(code: u8) -> (ParseOptions, bool) {
    let mut o = ParseOptions::default();
    let mut on = true;
    for k in 0..(code & 3) {
        on = code & (4 << k) != 0;
        o.parse_bytecode(on);
    }
    (o, on)
}
/// Outcome of one parse as text; without options if `o` is None.
fn text_of_parse(b: &[u8], o: Option<&ParseOptions>, mask: u32) -> Result<Vec<u8>, String> {
    let r = match o {
        None => parse_class(b),
        Some(o) => parse_class_with_options(b, o),
    };
    match r {
        Err(e) => Err(e.to_string()),
        Ok(c) => {
            let mut d = D::new(mask, false, b, vec![]);
            view::class_file(&c, &mut d);
            Ok(d.out)
        }
    }
}
fn disabled(kind: u8, b: &[u8], sc: &mut Scratch) -> Res {
    let (calls, b) = if kind == OPTIONS { (b[0], &b[1..]) } else { (1, b) };
    let parse = |o: Option<&ParseOptions>| guarded(|| text_of_parse(b, o, ALL | PRINT));
    let plain = parse(None);
    let (o, on) = option_calls(calls);
    let a = parse(Some(&o));
    let again = parse(Some(&o));
    if let (Ok(a), Ok(g)) = (&a, &again) {
        if a != g {
            return Res::Bad("the same options give another outcome the second time".into(), "options");
        }
    }
    let (Ok(plain), Ok(a)) = (plain, a) else { return Res::Ok(Kind::Other, 5) };
    if on {
        if plain != a {
            return Res::Bad(
                match (&plain, &a) {
                    (Ok(x), Ok(y)) => first_diff(x, y),
                    (x, y) => format!("default: {:?}, enabled: {:?}", x.as_ref().err(), y.as_ref().err()),
                },
                "default",
            );
        }
        return Res::Ok(Kind::Accept, plain.map_or(6, |x| fnv(&x)));
    }
    // a: parsed with bytecode disabled, plain: with bytecode enabled
    let buf = std::mem::take(&mut sc.a);
    let without = refmodel::run(b, false, ALL & !OPS, false, buf);
    let res = match (&plain, &a) {
        (Ok(_), Err(e)) => Res::Bad(format!("accepted with bytecode, rejected without: {}", e), "disabled-rejects"),
        (Err(_), Err(e)) => match &without {
            Verdict::Accept { .. } if matches!(refmodel::run(b, true, 0, false, vec![]), Verdict::Reject(..)) => {
                Res::Bad(format!("only code arrays are faulty, yet rejected with bytecode disabled: {}", e), "disabled-rejects")
            }
            _ => Res::Ok(Kind::Reject("rejected"), fnv(e.as_bytes())),
        },
        (Err(e), Ok(_)) => match &without {
            Verdict::Reject(r, _) => Res::Bad(
                format!("accepted with bytecode disabled although the fault ({}) is not in a code array; enabled: {}", r.what, e),
                "disabled-accepts",
            ),
            _ => compare_disabled(b, &o, &without, sc),
        },
        (Ok(_), Ok(_)) => {
            let m = ALL & !OPS & !HASOPS;
            let en = guarded(|| text_of_parse(b, None, m));
            let di = guarded(|| text_of_parse(b, Some(&o), m));
            match (en, di) {
                (Ok(Ok(x)), Ok(Ok(y))) if x != y => Res::Bad(first_diff(&x, &y), "disabled-differs"),
                _ => compare_disabled(b, &o, &without, sc),
            }
        }
    };
    if let Verdict::Accept { dump, .. } = without {
        sc.a = dump;
    }
    res
}
/// Every Code attribute: bytecode present exactly if enabled (checked on both parses).
fn compare_disabled(b: &[u8], o: &ParseOptions, _without: &Verdict, _sc: &mut Scratch) -> Res {
    let r = guarded(|| {
        let mut bad = None;
        if let Ok(c) = parse_class(b) {
            view::each_code(&c, &mut |cd| {
                if cd.bytecode.is_none() {
                    bad = Some("no decoded bytecode although enabled");
                }
            });
        }
        let mut n = 0u64;
        if let Ok(c) = parse_class_with_options(b, o) {
            view::each_code(&c, &mut |cd| {
                n = n * 31 + cd.code.len() as u64;
                if cd.bytecode.is_some() {
                    bad = Some("decoded bytecode although disabled");
                }
            });
        }
        (bad, n)
    });
    match r {
        Ok((Some(m), _)) => Res::Bad(m.into(), "presence"),
        Ok((None, n)) => Res::Ok(Kind::Accept, fnv(b) ^ n),
        Err(_) => Res::Ok(Kind::Other, 7),
    }
}
