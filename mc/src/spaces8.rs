//! Keys that are too narrow: pool indices that agree in their low bits, and very many distinct members.
use crate::asm::*;
use crate::engine::*;
use crate::gen::*;
use crate::spaces::*;
use crate::spaces7::contents;

/// Start, slots and length of each entry of the pool; the offset behind the pool.
fn pool_of(b: &[u8]) -> (Vec<(usize, usize, usize)>, usize) {
    let n = u16::from_be_bytes([b[8], b[9]]) as usize;
    let (mut v, mut at, mut k) = (vec![], 10, 1);
    while k < n {
        let (slots, len) = match b[at] {
            1 => (1, 3 + u16::from_be_bytes([b[at + 1], b[at + 2]]) as usize),
            3 | 4 | 9..=12 | 17 | 18 => (1, 5),
            5 | 6 => (2, 9),
            15 => (1, 4),
            _ => (1, 3),
        };
        v.push((at, slots, len));
        at += len;
        k += slots;
    }
    (v, at)
}
/// Another text of the same sort, where an easy one exists.
fn other_text(s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    if s.starts_with(b"<") || FAMILIES.iter().any(|f| f.attr.as_bytes() == s) {
        return v;
    }
    if let Some(c) = v.iter_mut().rev().find(|c| c.is_ascii_lowercase()) {
        *c = if *c == b'y' { b'z' } else { b'y' };
    } else if let Some(c) = v.iter_mut().rev().find(|c| b"VIJFDBCSZ".contains(c)) {
        *c = if *c == b'I' || *c == b'V' { b'S' } else { b'I' };
    }
    v
}
/// The file with its pool followed by other entries up to `step` and then by a similar entry for each
/// of its own, at the index that is `step` higher.
fn doubled(b: &[u8], step: u16) -> Vec<u8> {
    let (entries, end) = pool_of(b);
    let n = u16::from_be_bytes([b[8], b[9]]);
    assert!(n <= step);
    let mut o = b[..end].to_vec();
    for k in n..=step {
        o.extend_from_slice(&[3, 0x7f, 0, (k >> 8) as u8, k as u8]);
    }
    for (at, _, len) in entries {
        let e = &b[at..at + len];
        let up = |i: usize| (u16::from_be_bytes([e[i], e[i + 1]]) + step).to_be_bytes();
        let from = o.len();
        o.extend_from_slice(e);
        let to = &mut o[from..];
        match e[0] {
            1 => {
                let t = other_text(&e[3..]);
                to[3..].copy_from_slice(&t);
            }
            3..=6 => to[len - 1] ^= 1,
            9..=12 => {
                to[1..3].copy_from_slice(&up(1));
                to[3..5].copy_from_slice(&up(3));
            }
            15 => to[2..4].copy_from_slice(&up(2)),
            17 | 18 => to[3..5].copy_from_slice(&up(3)),
            _ => to[1..3].copy_from_slice(&up(1)),
        }
    }
    o[8..10].copy_from_slice(&(n + step).to_be_bytes());
    o.extend_from_slice(&b[end..]);
    o
}

/// Each index anywhere in a file replaced by one that agrees with it in its low bits.
pub fn index_aliases(cx: &Ctx, pick: impl Fn(&Family) -> bool, good: usize, steps: &[u16], kind: u8) {
    struct Job {
        file: Vec<u8>,
        step: u16,
        places: Vec<usize>,
    }
    let mut files: Vec<Vec<u8>> = whole_seeds().into_iter().map(|s| s.1).collect();
    for f in FAMILIES.iter().filter(|f| pick(f)) {
        let p = family_pal(f);
        let (list, _) = contents(f, &p, good, 0);
        for body in list {
            let a = p.attr(f.attr, body);
            files.push(p.put(f.host, &[a.clone(), a]));
        }
    }
    let mut jobs = vec![];
    for b in &files {
        let n = u16::from_be_bytes([b[8], b[9]]);
        let (entries, end) = pool_of(b);
        for step in steps.iter().copied().filter(|s| *s >= n) {
            let file = doubled(b, step);
            let mut places = vec![];
            for (at, _, len) in &entries {
                let at = *at;
                match b[at] {
                    7 | 8 | 16 | 19 | 20 => places.push(at + 1),
                    9..=12 => places.extend([at + 1, at + 3]),
                    15 => places.push(at + 2),
                    17 | 18 => places.push(at + 3),
                    _ => assert!(*len > 0),
                }
            }
            let grown = file.len() - b.len();
            for at in end..b.len() - 1 {
                let v = u16::from_be_bytes([b[at], b[at + 1]]);
                if v > 0 && v < n {
                    places.push(at + grown);
                }
            }
            jobs.push(Job { file, step, places });
        }
    }
    let (st, total) = starts(jobs.iter().map(|j| j.places.len() as u64));
    cx.sweep(
        "indices that agree in their low bits",
        &format!(
            "files in which the pool is repeated with similar contents {:?} indices further on, and each index in the pool, in members \
             and in attributes (each twice, with up to {} contents) in turn refers to the repetition",
            steps, good
        ),
        total,
        || {
            let (jobs, st) = (&jobs, &st);
            move |i, out: &mut Vec<u8>| {
                let (k, o) = locate(st, i);
                let j = &jobs[k];
                out.extend_from_slice(&j.file);
                let at = j.places[o as usize];
                let v = u16::from_be_bytes([out[at], out[at + 1]]) + j.step;
                out[at..at + 2].copy_from_slice(&v.to_be_bytes());
                Some(kind)
            }
        },
    );
}

/// Classes with as many members as fit, all different.
pub fn many_distinct(cx: &Ctx, rounds: u64, per: usize, kind: u8) {
    let letters: Vec<char> = (33u8..127).filter(|c| !b"./;[<>".contains(c)).map(|c| c as char).collect();
    let radix = [rounds, 5];
    cx.sweep(
        "very many distinct members",
        &format!(
            "classes with {} fields, methods, string constants or class constants whose names are all different (runs of names of two to four \
             characters, alone and behind and before others), or with every combination of names and descriptors; {} such sets of each",
            per, rounds
        ),
        product(&radix),
        || {
            let letters = &letters;
            move |i, out: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (round, what) = (d[0], d[1]);
                let l = letters.len();
                let name = |k: usize| {
                    // the numbers of a round are a run of those with four digits, or, at first, three
                    let mut v = k + round * per;
                    let mut s = String::new();
                    match round {
                        0 => (),
                        1 => v = k,
                        _ => s.push_str(["", "a", "get", "access$", "lambda$main$", "\u{e9}"][round % 6]),
                    }
                    for _ in 0..if round < 2 { 3 } else { 4 } {
                        s.push(letters[v % l]);
                        v /= l;
                    }
                    if round == 1 {
                        s.insert_str(0, "\u{4e2d}/".trim_end_matches('/'));
                    }
                    s
                };
                let mut c = Class::new(52);
                let m = |c: &mut Class, f: bool, name: u16, desc: u16| {
                    let list = if f { &mut c.fields } else { &mut c.methods };
                    list.push(Member { flags: 0x401, name, desc, attrs: vec![] });
                };
                let put = |c: &mut Class, s: &str| {
                    let mut e = vec![1];
                    e.extend(u2(s.len() as u32));
                    e.extend(s.as_bytes());
                    c.pool.push(&e)
                };
                match what {
                    0 | 1 => {
                        let desc = put(&mut c, if what == 0 { "I" } else { "()V" });
                        for k in 0..per.min(65000) {
                            let n = put(&mut c, &name(k));
                            m(&mut c, what == 0, n, desc);
                        }
                    }
                    2 | 3 => {
                        for k in 0..per.min(65000) / 2 {
                            let n = put(&mut c, &name(k)).to_be_bytes();
                            c.pool.push(&[if what == 2 { 8 } else { 7 }, n[0], n[1]]);
                        }
                    }
                    _ => {
                        let side = (per.min(65000) as f64).sqrt() as usize;
                        let names: Vec<u16> = (0..side).map(|k| put(&mut c, &name(k))).collect();
                        let descs: Vec<u16> = (0..side).map(|k| put(&mut c, &format!("({})V", format!("L{};", name(k))))).collect();
                        for n in &names {
                            for t in &descs {
                                m(&mut c, false, *n, *t);
                            }
                        }
                    }
                }
                *out = c.bytes();
                (out.len() <= SLOT_DATA).then_some(kind)
            }
        },
    );
}
