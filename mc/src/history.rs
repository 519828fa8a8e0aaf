//! C20: outcomes as text, from both builds, and histories of operations over fixed files.
use crate::asm::*;
use crate::check::{OFF, SEQUENCE};
use crate::engine::*;
use crate::gen;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::OnceLock;

macro_rules! outcome_fn {
    ($name:ident, $text:ident, $krate:ident) => {
        pub fn $text<'a>(r: &'a Result<$krate::ClassFile<'a>, $krate::ParseError>, out: &mut Vec<u8>) {
            use std::io::Write;
            match r {
                Err(e) => {
                    let _ = write!(out, "error {} / {:?}", e, e);
                }
                Ok(c) => {
                    let _ = write!(
                        out,
                        "ok {} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?} pool",
                        c.major_version,
                        c.minor_version,
                        c.access_flags,
                        c.this_class,
                        c.super_class,
                        c.interfaces,
                        c.fields,
                        c.methods,
                        c.attributes
                    );
                    for i in c.constantpool_iter() {
                        let _ = write!(out, " {:?}", i);
                    }
                }
            }
        }
        pub fn $name(b: &[u8], on: bool, out: &mut Vec<u8>) {
            let mut o = $krate::ParseOptions::default();
            o.parse_bytecode(on);
            let r = $krate::parse_class_with_options(b, &o);
            $text(&r, out);
        }
    };
}
outcome_fn!(outcome, outcome_text, cafebabe);

/// Parses with the thread-safe build; None where there is no such build.
#[cfg(feature = "ts")]
pub fn parse_ts(b: &[u8], on: bool) -> Option<bool> {
    let mut o = cafebabe_ts::ParseOptions::default();
    o.parse_bytecode(on);
    Some(cafebabe_ts::parse_class_with_options(b, &o).is_ok())
}
#[cfg(not(feature = "ts"))]
pub fn parse_ts(_: &[u8], _: bool) -> Option<bool> {
    None
}
/// As `parse_ts`, and the result is inspected.
#[cfg(feature = "ts")]
pub fn use_ts(b: &[u8], on: bool) -> Option<bool> {
    use std::fmt::Write;
    let mut o = cafebabe_ts::ParseOptions::default();
    o.parse_bytecode(on);
    let mut n = crate::check::Null(0);
    Some(match cafebabe_ts::parse_class_with_options(b, &o) {
        Err(e) => {
            let _ = write!(n, "{} {:?}", e, e);
            false
        }
        Ok(c) => {
            let items: Vec<_> = c.constantpool_iter().collect();
            let _ = write!(n, "{:?} {:?}", items, c);
            true
        }
    })
}
#[cfg(not(feature = "ts"))]
pub fn use_ts(_: &[u8], _: bool) -> Option<bool> {
    None
}
#[cfg(feature = "ts")]
outcome_fn!(outcome_ts, outcome_text_ts, cafebabe_ts);

fn diff(what: &str, a: &[u8], b: &[u8]) -> Res {
    Res::Bad(format!("{}: {}", what, crate::dump::first_diff(a, b)), "differs")
}

/// The other build sees the cases in `again`, not in `same`.
pub static BATCHED: AtomicBool = AtomicBool::new(false);

#[cfg(feature = "ts")]
use outcome_ts as other_outcome;
#[cfg(not(feature = "ts"))]
use outcome as other_outcome;

/// A case that violates the property, and how.
pub type Found = (u8, Vec<u8>, String);

const PANICKED: u64 = 1;

/// The cases a thread judged one after another, once more by the build for threads, in the reverse
/// order and on a new thread: whatever earlier parses leave behind - in the process or in the
/// thread - differs, so an outcome that depends on it differs too.
pub fn again(past: &[Past], mark: &dyn Fn(u8, &[u8])) -> Vec<Found> {
    let mut t = vec![];
    for p in past.iter().rev() {
        if p.kind > OFF || p.hash == PANICKED {
            continue;
        }
        mark(p.kind, &p.input);
        t.clear();
        let h = guarded(|| other_outcome(&p.input, p.kind != OFF, &mut t)).map_or(PANICKED, |_| fnv(&t));
        mark(u8::MAX, &[]);
        if h == p.hash {
            continue;
        }
        let text = String::from_utf8_lossy(&t[..t.len().min(300)]).into_owned();
        let mut found = vec![];
        if let Res::Bad(m, _) = judge(p.kind, &p.input, &mut Scratch::default(), true) {
            found.push((p.kind, p.input.clone(), m));
        }
        let all = join(past.iter().map(|p| (p.kind, &p.input[..])));
        found.push((SEQUENCE, all, format!("in another order, by the thread-safe build: {}", text)));
        return found;
    }
    vec![]
}

/// A sequence `again` rejected, from the start.
pub fn sequence(all: &[u8]) -> Res {
    let files: Vec<(bool, &[u8])> = split(all).into_iter().map(|(k, b)| (k != OFF, b)).collect();
    fn run(files: &[(bool, &[u8])], f: fn(&[u8], bool, &mut Vec<u8>), back: bool) -> Vec<Vec<u8>> {
        let mut texts = vec![vec![]; files.len()];
        for i in 0..files.len() {
            let i = if back { files.len() - 1 - i } else { i };
            if guarded(|| f(files[i].1, files[i].0, &mut texts[i])).is_err() {
                texts[i] = b"panics".to_vec();
            }
        }
        texts
    }
    let work = |f: fn(&[u8], bool, &mut Vec<u8>), back: bool| {
        std::thread::scope(|s| {
            let files = &files;
            std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, move || run(files, f, back)).unwrap().join().unwrap()
        })
    };
    let a = work(outcome, false);
    let b = work(other_outcome, true);
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        if x != y && x != b"panics" {
            return Res::Bad(format!("file {} of {}: in order by one build, in reverse by the other: {}", i + 1, files.len(), crate::dump::first_diff(x, y)), "differs");
        }
    }
    Res::Ok(Kind::Other, fnv(all))
}

/// One input: parsed twice, at other addresses, and by the other build.
pub fn same(kind: u8, b: &[u8], sc: &mut Scratch) -> Res {
    judge(kind, b, sc, !BATCHED.load(Relaxed))
}
fn judge(kind: u8, b: &[u8], sc: &mut Scratch, both: bool) -> Res {
    let on = kind != OFF;
    let mut a = std::mem::take(&mut sc.a);
    let mut t = std::mem::take(&mut sc.b);
    let mut copy = std::mem::take(&mut sc.c);
    a.clear();
    #[cfg(not(feature = "ts"))]
    let _ = both;
    #[cfg(feature = "ts")]
    let (mut before, mut ts) = (false, false);
    let r = guarded(|| {
        outcome(b, on, &mut a);
        t.clear();
        outcome(b, on, &mut t);
        if a != t {
            return diff("second parse", &a, &t);
        }
        for shift in [1, 6] {
            copy.clear();
            copy.resize(shift, 0xEE);
            copy.extend_from_slice(b);
            t.clear();
            outcome(&copy[shift..], on, &mut t);
            if a != t {
                return diff("parse at another address", &a, &t);
            }
        }
        #[cfg(feature = "ts")]
        if both {
            t.clear();
            before = true;
            outcome_ts(b, on, &mut t);
            ts = true;
            if a != t {
                return diff("thread-safe build", &a, &t);
            }
        }
        Res::Ok(if a.starts_with(b"ok") { Kind::Accept } else { Kind::Reject("rejected") }, fnv(&a))
    });
    sc.a = a;
    sc.b = t;
    sc.c = copy;
    #[cfg(feature = "ts")]
    if let (Err(m), true, false) = (&r, before, ts) {
        return Res::Bad(format!("only the thread-safe build panics: {}", m), "differs");
    }
    // a panic of the default build is another property's business
    r.unwrap_or(Res::Ok(Kind::Other, 1))
}

/// A buffer is parsed, overwritten with another file of the same length, parsed, and restored.
pub fn rewrite(b: &[u8], sc: &mut Scratch) -> Res {
    let (x, y) = b.split_at(b.len() / 2);
    let mut bufs = [std::mem::take(&mut sc.a), std::mem::take(&mut sc.b), std::mem::take(&mut sc.c)];
    let r = guarded(|| {
        let [buf, first, then] = &mut bufs;
        let mut h = 0;
        for on in [true, false] {
            buf.clear();
            buf.extend_from_slice(x);
            first.clear();
            outcome(buf, on, first);
            buf.copy_from_slice(y);
            then.clear();
            outcome(buf, on, then);
            // the same bytes where nothing was parsed before
            let fresh = y.to_vec();
            let mut want = vec![];
            outcome(&fresh, on, &mut want);
            if *then != want {
                return diff("parse of an overwritten buffer", &want, then);
            }
            h ^= fnv(then);
            #[cfg(feature = "ts")]
            {
                buf.copy_from_slice(x);
                then.clear();
                outcome_ts(buf, on, then);
                buf.copy_from_slice(y);
                then.clear();
                outcome_ts(buf, on, then);
                if *then != want {
                    return diff("parse of an overwritten buffer, thread-safe build", &want, then);
                }
            }
            buf.copy_from_slice(x);
            then.clear();
            outcome(buf, on, then);
            if *then != *first {
                return diff("parse of a restored buffer", first, then);
            }
        }
        Res::Ok(if then.starts_with(b"ok") { Kind::Accept } else { Kind::Reject("rejected") }, h)
    });
    let [a, t, c] = bufs;
    sc.a = a;
    sc.b = t;
    sc.c = c;
    r.unwrap_or(Res::Ok(Kind::Other, 1))
}

pub const FILES: usize = 7;
/// Transient parses (two options), parses whose result is kept, and three operations on kept results.
pub const OPS: usize = 3 * FILES + 3;

/// Files whose outcomes differ in as many ways as possible, some of equal length.
pub fn files() -> &'static [Vec<u8>; FILES] {
    static F: OnceLock<[Vec<u8>; FILES]> = OnceLock::new();
    F.get_or_init(|| {
        let small = gen::tiny(52);
        let mut other = small.clone();
        let at = other.iter().position(|c| *c == b'A').unwrap();
        other[at] = b'Q'; // same length and layout, another name
        let mut late = small.clone();
        late.push(0); // rejected at the very end
        let mut cyc = Class::new(52);
        let n = cyc.pool.next as u16;
        cyc.pool.push(&[7, (n >> 8) as u8, n as u8 + 1]);
        cyc.pool.push(&[7, (n >> 8) as u8, n as u8]);
        let p = gen::Pal::new(61, false, &[]);
        let bad_code = p.with_code(&[0xa7, 0, 9, 0xb1], &[], &[]);
        let module = gen::everything_module(55);
        let mut big = Class::new(52);
        big.add_method(9, "m", "(IJ[Lx/Y;)V", vec![]);
        big.add_field(9, "f", "[[I", vec![]);
        let k = big.pool.string(&[0xC0, 0x80, 0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80]);
        big.add_attr("Foo", k.to_be_bytes().to_vec());
        [small, other, late, cyc.bytes(), bad_code, module, big.bytes()]
    })
}
fn baseline() -> &'static Vec<[Vec<u8>; 2]> {
    static B: OnceLock<Vec<[Vec<u8>; 2]>> = OnceLock::new();
    B.get_or_init(|| {
        files()
            .iter()
            .map(|f| {
                let mut x: [Vec<u8>; 2] = Default::default();
                for on in [false, true] {
                    outcome(f, on, &mut x[on as usize]);
                }
                x
            })
            .collect()
    })
}
pub fn prepare() {
    baseline();
}

/// A history: one byte per operation.
pub fn check(ops: &[u8], sc: &mut Scratch) -> Res {
    let base = baseline();
    let files = files();
    let max = files.iter().map(|f| f.len()).max().unwrap();
    sc.c.clear();
    sc.c.resize(max, 0);
    let mut shared = std::mem::take(&mut sc.c);
    let mut t = std::mem::take(&mut sc.b);
    let on_opts = crate::check::options(true);
    let r = guarded(|| {
        type Held = Result<cafebabe::ClassFile<'static>, cafebabe::ParseError>;
        // constantpool_iter borrows for as long as the class itself may live, so kept results are
        // lent out through a pointer; they are only dropped when no such borrow is in use any more
        fn lend(b: &Held) -> &'static Held {
            unsafe { &*(b as *const Held) }
        }
        let mut held: Vec<(usize, Box<Held>)> = vec![];
        let mut h = 0u64;
        for (step, op) in ops.iter().enumerate() {
            let op = *op as usize % OPS;
            t.clear();
            let want: &[u8];
            if op < 2 * FILES {
                // every transient parse reads the same buffer
                let (f, on) = (op / 2, op % 2 == 1);
                let n = files[f].len();
                shared[..n].copy_from_slice(&files[f]);
                outcome(&shared[..n], on, &mut t);
                want = &base[f][on as usize];
            } else if op < 3 * FILES {
                let f = op - 2 * FILES;
                let r = Box::new(cafebabe::parse_class_with_options(&files[f], &on_opts));
                outcome_text(lend(&r), &mut t);
                held.push((f, r));
                want = &base[f][1];
            } else {
                match op - 3 * FILES {
                    0 => {
                        // inspect the oldest kept result
                        let Some((f, r)) = held.first() else { continue };
                        outcome_text(lend(r), &mut t);
                        want = &base[*f][1];
                    }
                    1 => {
                        // inspect the newest twice, as errors and iterators may be used up
                        let Some((f, r)) = held.last() else { continue };
                        if let Ok(c) = lend(r) {
                            let _ = c.constantpool_iter().count();
                        }
                        outcome_text(lend(r), &mut t);
                        want = &base[*f][1];
                    }
                    _ => {
                        if !held.is_empty() {
                            drop(held.remove(0));
                        }
                        continue;
                    }
                }
            }
            if t != want {
                return Err(format!("operation {} ({}): {}", step, op, crate::dump::first_diff(want, &t)));
            }
            h = h.wrapping_mul(31).wrapping_add(fnv(&t));
        }
        for (f, r) in &held {
            t.clear();
            outcome_text(lend(r), &mut t);
            if t != base[*f][1] {
                return Err(format!("a kept result changed: {}", crate::dump::first_diff(&base[*f][1], &t)));
            }
        }
        Ok(h ^ (held.len() as u64) << 56)
    });
    sc.c = shared;
    sc.b = t;
    match r {
        Err(m) => Res::Bad(format!("panics: {}", m), "panics"),
        Ok(Err(m)) => Res::Bad(m, "history"),
        Ok(Ok(h)) => Res::Ok(Kind::Accept, h),
    }
}
