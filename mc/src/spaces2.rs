//! More spaces: code arrays, jumps, bootstrap tables, headers and members, scale, nesting, options, histories.
use crate::asm::*;
use crate::check::*;
use crate::engine::*;
use crate::gen::*;
use crate::history;
use crate::spaces::{all_seeds, whole_seeds};

fn code_pal() -> Pal {
    Pal::new(61, false, &["StackMapTable", "LineNumberTable"])
}
/// A small class with one entry of each kind at small indices, for byte-exhaustive bodies.
pub struct Small {
    head: Vec<u8>,
    tail: Vec<u8>,
    pub n: u16,
}
impl Small {
    pub fn new() -> Small {
        let mut q = Pool::new();
        let a = q.utf8("A");
        let cls = q.e2(7, a);
        let i = q.utf8("I");
        let v = q.utf8("()V");
        let nf = q.e4(12, a, i);
        let nm = q.e4(12, a, v);
        q.e4(9, cls, nf);
        let m = q.e4(10, cls, nm);
        q.e4(11, cls, nm);
        q.int(7);
        q.long(9);
        q.e2(8, a);
        let h = q.handle(6, m);
        q.e2(16, v);
        q.e4(18, 0, nm);
        q.e4(17, 0, nf);
        let fl = q.float(0x3f800000);
        let _ = fl;
        q.double(1);
        let ini = q.utf8("<init>");
        let n2 = q.e4(12, ini, v);
        q.e4(10, cls, n2);
        let jd = q.utf8("J");
        let n3 = q.e4(12, a, jd);
        q.e4(17, 0, n3);
        let arr = q.utf8("[[I");
        q.e2(7, arr);
        let code = q.utf8("Code");
        let bs = q.utf8("BootstrapMethods");
        let n = q.next as u16;
        let mut head = W::new().b4(0xCAFEBABE).b2(0).b2(61).i2(n).raw(&q.bytes).b2(0x21).i2(cls).b2(0).b2(0).b2(0);
        head = head.b2(1).b2(1).i2(a).i2(v).b2(1).i2(code);
        let tail = W::new().b2(0).b2(0).b2(1).i2(bs).b4(6).b2(1).i2(h).b2(0);
        Small { head: head.done(), tail: tail.done(), n }
    }
    pub fn put(&self, code: &[u8], b: &mut Vec<u8>) {
        b.clear();
        b.extend_from_slice(&self.head);
        b.extend_from_slice(&(12 + code.len() as u32).to_be_bytes());
        b.extend_from_slice(&[0, 9, 0, 9]);
        b.extend_from_slice(&(code.len() as u32).to_be_bytes());
        b.extend_from_slice(code);
        b.extend_from_slice(&self.tail);
    }
}

/// All code arrays of up to `full` bytes (each alone and followed by a return).
pub fn code_bytes(cx: &Ctx, full: u32, kind: u8) {
    let p = Small::new();
    let n: u64 = (0..=full).map(|k| 256u64.pow(k)).sum();
    cx.sweep(
        &format!("all code arrays up to {} bytes", full),
        "every code array, alone and followed by a return instruction, in a class with every kind of constant",
        n * 2,
        || {
            let p = &p;
            let mut code = vec![];
            move |i, b: &mut Vec<u8>| {
                let mut j = i / 2;
                let (mut block, mut len) = (1u64, 0);
                while j >= block {
                    j -= block;
                    block *= 256;
                    len += 1;
                }
                code.clear();
                for k in 0..len {
                    code.push((j >> (8 * (len - 1 - k))) as u8);
                }
                if i % 2 == 1 {
                    code.push(0xb1);
                }
                p.put(&code, b);
                Some(kind)
            }
        },
    );
}
/// Every opcode, its operand bytes from boundary values and every pool index.
pub fn code_operands(cx: &Ctx, rich: bool, kind: u8) {
    let p = Small::new();
    let mut vals: Vec<u16> = (0..p.n + 2).collect();
    for v in U2.iter().chain(&[0x0301, 0x0400, 0x8001, 0xff00, 0x00fe, 0x0a0b]) {
        vals.push(*v);
    }
    vals.sort();
    vals.dedup();
    let nv = vals.len() as u64;
    let tails: [&[u8]; 14] = [
        &[],
        &[0],
        &[1],
        &[0, 0],
        &[1, 0],
        &[0, 1],
        &[0x7f, 0xff],
        &[0x80, 0],
        &[0, 0, 0],
        &[0xb1],
        &[0, 0xb1],
        &[0, 0, 0xb1],
        &[2, 3, 0xb1],
        &[0, 2, 0, 0xb1],
    ];
    let nt = tails.len() as u64;
    cx.sweep(
        "opcodes, operands and tails",
        "each opcode (plain and after wide) at offset 0 to 1 with each pool index or boundary value as operand and each of 14 tails",
        256 * nv * nt * 4,
        || {
            let (p, vals) = (&p, &vals);
            let mut code = vec![];
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &[nt, nv, 256, 2, 2]);
                code.clear();
                if d[4] == 1 {
                    code.push(0x00);
                }
                if d[3] == 1 {
                    code.push(0xc4);
                }
                code.push(d[2] as u8);
                code.extend(vals[d[1]].to_be_bytes());
                code.extend_from_slice(tails[d[0]]);
                p.put(&code, b);
                Some(kind)
            }
        },
    );
    // every 16-bit operand value
    let ops: Vec<u8> = if rich { (0..=255).collect() } else { vec![0x11, 0x13, 0x14, 0x15, 0x84, 0xb2, 0xb6, 0xbc, 0xbd, 0xc5, 0xa7] };
    let no = ops.len() as u64;
    cx.sweep(
        "all 16-bit operands",
        &format!("each of {} opcodes, plain and after wide, with every 16-bit operand, followed by 00 03 b1 or by b1", no),
        no * 65536 * 4,
        || {
            let (p, ops) = (&p, &ops);
            let mut code = vec![];
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &[2, 2, 65536, no]);
                code.clear();
                if d[1] == 1 {
                    code.push(0xc4);
                }
                code.push(ops[d[3]]);
                code.extend((d[2] as u16).to_be_bytes());
                code.extend_from_slice([&[0xb1u8][..], &[0, 3, 0xb1]][d[0]]);
                p.put(&code, b);
                Some(kind)
            }
        },
    );
    cx.sweep(
        "wide iinc and operands of five bytes",
        "wide iinc, multianewarray, invokeinterface, invokedynamic with all pairs of boundary operands and third operands",
        4 * nv * nv * 6,
        || {
            let (p, vals) = (&p, &vals);
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &[4, nv, nv, 6]);
                let w = W::new();
                let w = match d[0] {
                    0 => w.b1(0xc4).b1(0x84),
                    1 => w.b1(0xc5),
                    2 => w.b1(0xb9),
                    _ => w.b1(0xba),
                };
                let w = w.i2(vals[d[1]]).i2(vals[d[2]]).raw([&[][..], &[0xb1], &[0], &[1, 0], &[0x84, 0, 1], &[0xca]][d[3]]);
                p.put(&w.0, b);
                Some(kind)
            }
        },
    );
}
/// One well-formed encoding of each instruction, and some variants.
pub fn forms(p: &Pal) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for op in 0u32..=0xc9 {
        let w = W::new().b1(op);
        let w = match op {
            0x10 => w.b1(0x85),
            0x11 => w.b2(0x8123),
            0x12 => w.b1(p.string as u32),
            0x13 => w.i2(p.cls),
            0x14 => w.i2(p.long),
            0x15..=0x19 | 0x36..=0x3a | 0xa9 => w.b1(0x9c),
            0x84 => w.b1(0xf0).b1(0xf1),
            0x99..=0xa8 | 0xc6 | 0xc7 => w.b2(0),
            0xaa | 0xab => continue,
            0xb2..=0xb5 => w.i2(p.fref),
            0xb6..=0xb8 => w.i2(p.mref),
            0xb9 => w.i2(p.imref).b1(7).b1(0),
            0xba => w.i2(p.indy).b2(0),
            0xbb | 0xbd | 0xc0 | 0xc1 => w.i2(p.cls2),
            0xbc => w.b1(11),
            0xc4 => w.b1(0x15).b2(0x8002),
            0xc5 => w.i2(p.arr).b1(3),
            0xc8 | 0xc9 => w.b4(0),
            _ => w,
        };
        v.push(w.done());
    }
    for op in [0x16u32, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3a, 0xa9] {
        v.push(W::new().b1(0xc4).b1(op).b2(0x0102).done());
    }
    v.push(W::new().b1(0xc4).b1(0x84).b2(0xff01).b2(0xfe02).done());
    for k in [p.int, p.float, p.cls, p.string, p.handle, p.mtype] {
        v.push(W::new().b1(0x12).b1(k as u32).done());
        v.push(W::new().b1(0x13).i2(k).done());
    }
    v.push(W::new().b1(0x14).i2(p.double).done());
    v.push(W::new().b1(0xb7).i2(p.imref).done());
    v.push(W::new().b1(0xb8).i2(p.imref).done());
    v.push(W::new().b1(0xbd).i2(p.arr).done());
    for t in 4..12 {
        v.push(vec![0xbc, t]);
    }
    v
}
/// All sequences of n instructions.
pub fn code_sequences(cx: &Ctx, n: u32, kind: u8) {
    let p = code_pal();
    let mut f = forms(&p);
    if n >= 3 {
        // one of each length and shape
        let mut keep = vec![];
        for x in &f {
            let k = (x.len(), if x[0] == 0xc4 { 1 } else { 0 }, x[0] >> 4);
            if !keep.iter().any(|(q, _)| *q == k) {
                keep.push((k, x.clone()));
            }
        }
        f = keep.into_iter().map(|x| x.1).collect();
        // switches with their padding are added by position below
    }
    // tables of 1 to 3 entries, lookups of 0 to 3 pairs; (number, key of the first)
    const SWITCHES: [(bool, u32, u32); 8] =
        [(true, 2, 0xfffffffe), (false, 2, 0x80000000), (true, 1, 7), (true, 3, 0), (false, 0, 0), (false, 1, 9), (false, 3, 0xffffffff), (true, 1, 0x7fffffff)];
    let m = (f.len() + SWITCHES.len()) as u64;
    cx.sweep(
        &format!("sequences of {} instructions", n),
        &format!("all sequences of {} of {} well-formed instructions (switches of several sizes included, padded by position)", n, m),
        m.pow(n),
        || {
            let (p, f) = (&p, &f);
            let mut code: Vec<u8> = vec![];
            move |i, b: &mut Vec<u8>| {
                code.clear();
                let mut j = i;
                for _ in 0..n {
                    let k = (j % m) as usize;
                    j /= m;
                    if k >= f.len() {
                        let (table, entries, first) = SWITCHES[k - f.len()];
                        code.push(if table { 0xaa } else { 0xab });
                        while code.len() % 4 != 0 {
                            code.push(0);
                        }
                        let mut w = W::new().b4(0);
                        w = if table { w.b4(first).b4(first.wrapping_add(entries - 1)) } else { w.b4(entries) };
                        for e in 0..entries {
                            w = if table { w.b4(0) } else { w.b4(first.wrapping_add(e * 5)).b4(0) };
                        }
                        code.extend_from_slice(&w.0);
                    } else {
                        code.extend_from_slice(&f[k]);
                    }
                }
                *b = p.with_code(&code, &[], &[]);
                Some(kind)
            }
        },
    );
}
/// Switch instructions: alignment, bounds, counts, contents.
pub fn switches(cx: &Ctx, rich: bool, kind: u8) {
    let p = Small::new();
    let ext: Vec<u32> = {
        let mut v = vec![0u32, 1, 2, 3, 4, 0xffff_ffff, 0xffff_fffe, 0xffff_fffd, 0x7fff_ffff, 0x7fff_fffe, 0x8000_0000, 0x8000_0001, 0x4000_0000, 0xc000_0000, 0xffff, 0x10000];
        if rich {
            v.extend([5, 6, 7, 8, 0x7fff_fffd, 0x8000_0002, 0xffff_fffc, 0x3fff_ffff, 0x1fff_ffff, 0x2000_0000]);
        }
        v
    };
    let ne = ext.len() as u64;
    let radix = [8, 3, ne, ne, 6, 3];
    cx.sweep(
        "tableswitch bounds",
        "tableswitch at offsets 0 to 7, zero or nonzero padding, all pairs of extreme low and high values, 0 to 5 entries present, three endings",
        product(&radix),
        || {
            let (p, ext) = (&p, &ext);
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let mut w = W(vec![0; d[0]]).b1(0xaa);
                let mut pad = 1;
                while w.0.len() % 4 != 0 {
                    w = w.b1([0, pad, 0xff][d[1]]);
                    pad += 1;
                }
                w = w.b4(0).b4(ext[d[2]]).b4(ext[d[3]]);
                for _ in 0..d[4] {
                    w = w.b4(0);
                }
                w = w.raw([&[0xb1][..], &[], &[0, 0, 0]][d[5]]);
                p.put(&w.0, b);
                Some(kind)
            }
        },
    );
    let radix = [8, 3, ne, 6, ne, 2, 3];
    cx.sweep(
        "lookupswitch counts",
        "lookupswitch at offsets 0 to 7, zero or nonzero padding, extreme pair counts, 0 to 5 pairs present with extreme keys in any order, three endings",
        product(&radix),
        || {
            let (p, ext) = (&p, &ext);
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let mut w = W(vec![0; d[0]]).b1(0xab);
                while w.0.len() % 4 != 0 {
                    w = w.b1([0, 1, 0xff][d[1]]);
                }
                w = w.b4(0).b4(ext[d[2]]);
                for k in 0..d[3] as u32 {
                    let k = if d[5] == 0 { k.wrapping_mul(3) } else { k.wrapping_mul(3).wrapping_neg() };
                    w = w.b4(ext[d[4]].wrapping_add(k)).b4(0);
                }
                w = w.raw([&[0xb1][..], &[], &[0, 0, 0]][d[6]]);
                p.put(&w.0, b);
                Some(kind)
            }
        },
    );
    let ns: Vec<u32> = (0..40).chain([100, 255, 256, 257, 1000, 8190]).collect();
    let nn = ns.len() as u64;
    cx.sweep(
        "switch sizes",
        "both switches with 0 to 39 and more entries with varied targets, the declared size exact, one less, one more; at four alignments",
        nn * 2 * 3 * 4 * 3,
        || {
            let (p, ns) = (&p, &ns);
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &[2, 3, 4, 3, nn]);
                let n = ns[d[4]];
                let decl = n.wrapping_add([0u32, 1, 0xffff_ffff][d[1]]);
                let low = [0u32, 0x7fff_0000, 0xffff_fffb][d[3]];
                let mut w = W(vec![0; d[2]]).b1(0xaa + d[0] as u32);
                while w.0.len() % 4 != 0 {
                    w = w.b1(0);
                }
                // targets: the instructions after the switch, and itself
                let size = w.0.len() as u32 - d[2] as u32 + if d[0] == 0 { 12 + 4 * n } else { 8 + 8 * n };
                w = w.b4(size);
                if d[0] == 0 {
                    w = w.b4(low).b4(low.wrapping_add(decl).wrapping_sub(1));
                    for k in 0..n {
                        w = w.b4([size, 0, size + 1, size + 4][k as usize % 4]);
                    }
                } else {
                    w = w.b4(decl);
                    for k in 0..n {
                        w = w.b4(low.wrapping_add(k * 7)).b4([size, 0, size + 1, size + 4][k as usize % 4]);
                    }
                }
                w = w.raw(&[0, 0x11, 0, 0, 0xb1]);
                p.put(&w.0, b);
                Some(kind)
            }
        },
    );
}

/// Every branching form, at several places, with every offset around the body.
pub fn jumps(cx: &Ctx, rich: bool, kind: u8) {
    let p = Small::new();
    let mut forms: Vec<u8> = (0x99..=0xa8).collect();
    forms.extend([0xc6, 0xc7, 0xc8, 0xc9]);
    let n2 = forms.len() as u64;
    // + 4 switch positions
    let mut offs: Vec<i64> = (-40..=60).collect();
    for x in [127i64, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, (1 << 31) - 1, (1 << 31) - 2, 1 << 24, 1 << 16] {
        for y in -2..=2 {
            offs.extend([x + y, -x + y]);
        }
    }
    offs.sort();
    offs.dedup();
    let no = offs.len() as u64;
    let heads: [&[u8]; 9] = [
        &[],
        &[0],
        &[0x11, 1, 2],
        &[0, 0x10, 5, 0],
        &[0x84, 1, 1, 0],
        &[0xc4, 0x15, 0, 1],
        &[0xc4, 0x84, 0, 1, 0, 2, 0],
        &[0xb9, 0, 9, 1, 0],
        &[0, 0, 0, 0, 0, 0, 0, 0x13, 0, 2],
    ];
    let tails: [&[u8]; 7] = [
        &[],
        &[0xb1],
        &[0, 0x11, 1, 2, 0xb1],
        &[0x84, 1, 1, 0, 0xb1],
        &[0xc4, 0x15, 0, 1, 0xc4, 0x84, 0, 1, 0, 2, 0],
        &[0xb9, 0, 9, 1, 0, 0xba, 0, 16, 0, 0, 0xc5, 0, 29, 1, 0],
        &[0xa7, 0, 0, 0xc8, 0, 0, 0, 0, 0x12, 10],
    ];
    let radix = [no, n2 + 6, heads.len() as u64, tails.len() as u64];
    let put = |op: usize, forms: &[u8], w: W, off: i64| -> Option<W> {
        if op < forms.len() {
            let o = forms[op];
            let w = w.b1(o as u32);
            return if o >= 0xc8 {
                Some(w.b4(u32::try_from(off & 0xffff_ffff).unwrap()))
            } else if (-32768..=65535).contains(&off) {
                Some(w.b2((off & 0xffff) as u32))
            } else {
                None
            };
        }
        let off = (off & 0xffff_ffff) as u32;
        let k = op - forms.len();
        let mut w = w.b1(if k < 3 { 0xaa } else { 0xab });
        while w.0.len() % 4 != 0 {
            w = w.b1(0);
        }
        let s = |j: usize| if j == k % 3 { off } else { 0 };
        Some(if k < 3 { w.b4(s(0)).b4(5).b4(6).b4(s(1)).b4(s(2)) } else { w.b4(s(0)).b4(2).b4(1).b4(s(1)).b4(7).b4(s(2)) })
    };
    cx.sweep(
        "jump targets",
        "each branch instruction, and each target position of both switches, after 9 and before 7 instruction sequences, with every offset from -40 to 60 and around powers of two",
        product(&radix),
        || {
            let (p, offs, forms, put) = (&p, &offs, &forms, &put);
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let w = put(d[1], forms, W(heads[d[2]].to_vec()), offs[d[0]])?;
                p.put(&w.raw(tails[d[3]]).0, b);
                Some(kind)
            }
        },
    );
    // two jumps, all pairs of offsets over a short body
    let span = if rich { 40u64 } else { 24 };
    let reps: Vec<usize> = if rich { (0..n2 as usize + 6).collect() } else { vec![0, 14, 15, 17, 18, 20, 23] };
    let nr = reps.len() as u64;
    let radix = [span, span, nr, nr];
    cx.sweep(
        "pairs of jumps",
        "two branches with an instruction of three bytes between, every pair of offsets around the body",
        product(&radix),
        || {
            let (p, forms, put, reps) = (&p, &forms, &put, &reps);
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let half = span as i64 / 2;
                let w = put(reps[d[2]], forms, W::new().b1(0), d[0] as i64 - half)?;
                let w = w.raw(&[0x11, 0, 0, 0x10, 1]);
                let w = put(reps[d[3]], forms, w, d[1] as i64 - half)?;
                p.put(&w.raw(&[0x11, 0, 0, 0xb1]).0, b);
                Some(kind)
            }
        },
    );
    // far jumps in long bodies
    let lens: [usize; 9] = [100, 32760, 32767, 32768, 32769, 40000, 65535, 65536, 70000];
    let radix = [9, 5, 26, 7];
    cx.sweep(
        "far jumps",
        "bodies of up to 70000 bytes with one branch at the start, middle or end to offsets near the body's ends and the 16-bit limits",
        product(&radix),
        || {
            let (p, forms, put) = (&p, &forms, &put);
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let l = lens[d[0]];
                let at = [0usize, l / 2, l - 20, 3, 32768.min(l - 20)][d[1]];
                let targets = [0i64, 1, 2, l as i64, l as i64 - 1, l as i64 + 1, -1, 32767, 32768, 32769, 65535, 65536, 65537];
                let op = [14usize, 15, 18, 19, 20, 21, 25][d[3]];
                let mut code = vec![0u8; at];
                // odd variants: every third instruction has two bytes
                if d[2] >= 13 {
                    for k in (0..at.saturating_sub(2)).step_by(3) {
                        code[k] = 0x10;
                    }
                }
                let w = put(op, forms, W(code), targets[d[2] % 13] - at as i64)?;
                let mut code = w.0;
                code.resize(l.max(code.len()), 0);
                p.put(&code, b);
                Some(kind)
            }
        },
    );
}
/// Code with lookups of every offset: the opcode listings reached by parsing and built by hand.
pub fn lookups(cx: &Ctx, n: u32) {
    for (alpha, n) in [(&[0u8, 1, 2, 5][..], n), (&[0u8, 1][..], 2 * n - 3), (&[0u8, 13, 255][..], n)] {
        let a = alpha.len() as u64;
        let total: u64 = (0..=n).map(|k| a.pow(k)).sum();
        cx.sweep(
            &format!("offset lists up to {}", n),
            &format!("get_opcode_index on all listings of up to {} instructions with gaps from {:?}, for every offset and far ones", n, alpha),
            total,
            || {
                move |i, b: &mut Vec<u8>| {
                    let (mut j, mut block, mut len) = (i, 1u64, 0);
                    while j >= block {
                        j -= block;
                        block *= a;
                        len += 1;
                    }
                    for _ in 0..len {
                        b.push(alpha[(j % a) as usize]);
                        j /= a;
                    }
                    Some(OFFSETS)
                }
            },
        );
    }
    cx.sweep("long offset lists", "listings of up to 400 instructions with periodic gaps", 400 * 12, || {
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &[12, 400]);
            for k in 0..d[1] {
                b.push([0, 1, (k % 2) as u8, (k % 3) as u8, (k % 5) as u8, 7, (k * k % 11) as u8, if k == 0 { 9 } else { 0 }, if k + 1 == d[1] { 200 } else { 0 }, if k == d[1] / 2 { 99 } else { 1 }, 254, (k % 7 == 0) as u8][d[0]]);
            }
            Some(OFFSETS)
        }
    });
}

/// Dynamic entries and bootstrap tables: number, position, size and indices.
pub fn bootstrap(cx: &Ctx, rich: bool, kind: u8) {
    let majors = [51u16, 55, 61];
    let ixs: Vec<u16> = if rich { vec![0, 1, 2, 3, 4, 255, 256, 65535] } else { vec![0, 1, 2, 3, 256, 65535] };
    let ni = ixs.len() as u64;
    let slots = 1 + 2 * ni; // nothing, condy, indy
    let max_t = if rich { 5u64 } else { 4 };
    let t = 1 + max_t; // no table, or one with 0.. entries
    let radix = [slots, slots, t, t, t, 6, 3, 3];
    cx.sweep(
        "bootstrap tables",
        "0 to 2 dynamic constants or call sites with each index, 0 to 3 class-level tables of each size, a table at another level, other attributes between, three versions",
        product(&radix),
        || {
            let ixs = &ixs;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let mut c = Class::new(majors[d[7]]);
                let r = c.pool.member(10, "A", "b", "()V");
                let h = c.pool.handle(6, r);
                for (k, s) in d[..2].iter().enumerate() {
                    if *s > 0 {
                        let tag = if *s as u64 > ni { 18 } else { 17 };
                        let nm = if k == 0 { "x" } else { "y" };
                        c.pool.dynamic(tag, ixs[(*s - 1) % ni as usize], nm, if tag == 18 { "()I" } else { "I" });
                    }
                }
                let body = |n: usize| {
                    let mut w = W::new().b2(n as u32);
                    for _ in 0..n {
                        w = w.i2(h).b2(0);
                    }
                    w.done()
                };
                for (k, s) in d[2..5].iter().enumerate() {
                    if *s > 0 {
                        if k == 1 && d[6] == 1 || k == 0 && d[6] == 2 {
                            c.add_attr("SourceFile", vec![0, 1]);
                        }
                        c.add_attr("BootstrapMethods", body(*s - 1));
                    } else if d[6] == 2 && k == 2 {
                        c.add_attr("Deprecated", vec![]);
                    }
                }
                let other = c.attr("BootstrapMethods", body(4));
                match d[5] {
                    0 => (),
                    1 => c.add_field(0, "f", "I", vec![other]),
                    2 => c.add_method(0, "m", "()V", vec![other]),
                    3 => {
                        let a = c.attr("Code", code_body(1, 1, &[0xb1], &[], &[other]));
                        c.add_method(0, "m", "()V", vec![a])
                    }
                    4 => {
                        let n = c.pool.utf8("f");
                        let dd = c.pool.utf8("I");
                        let w = W::new().b2(1).i2(n).i2(dd).raw(&attrs_bytes(&[other])).done();
                        c.add_attr("Record", w)
                    }
                    _ => {
                        // a table under another name
                        c.add_attr("bootstrapMethods", body(4))
                    }
                }
                *b = c.bytes();
                Some(kind)
            }
        },
    );
    let sizes: [u32; 9] = [1, 2, 254, 255, 256, 257, 32768, 65534, 65535];
    let radix = [9, 2, 12];
    cx.sweep("large bootstrap tables", "tables of up to 65535 entries and indices around their size and 8 and 16 bit limits", product(&radix), || {
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &radix);
            let mut c = Class::new(61);
            let r = c.pool.member(10, "A", "b", "()V");
            let h = c.pool.handle(6, r);
            let n = sizes[d[0]];
            let ix = [0i64, 1, n as i64 - 1, n as i64, n as i64 + 1, 255, 256, 257, 32767, 32768, 65534, 65535][d[2]];
            let ix = u16::try_from(ix).ok()?;
            c.pool.dynamic(17 + d[1] as u8, ix, "x", if d[1] == 1 { "()I" } else { "I" });
            let mut w = W::new().b2(n);
            for _ in 0..n {
                w = w.i2(h).b2(0);
            }
            c.add_attr("BootstrapMethods", w.done());
            *b = c.bytes();
            Some(kind)
        }
    });
}

// ---------------------------------------------------------------- header and members

/// Every access flag value of everything that has flags.
pub fn flags(cx: &Ctx, kind: u8) {
    let vers = [45u16, 52, 53, 61];
    cx.sweep("access flags", "all 65536 flag values of a class, module, field, method, interface method, inner class, method parameter, module, requires, exports and opens; four versions", 65536 * 11 * 4, || {
        let protos: Vec<(Vec<u8>, usize)> = (0..44)
            .map(|i| {
                let (role, v) = (i % 11, vers[i / 11]);
                let mut c = if [1usize, 7, 8, 9, 10].contains(&role) { Class::new_module(v) } else { Class::new(v) };
                let mark = 0xA5F1u16; // a value whose position is looked for
                let m2 = mark as u32;
                match role {
                    0 | 1 => c.flags = mark,
                    2 => c.add_field(mark, "f", "I", vec![]),
                    3 => c.add_method(mark, "m", "()V", vec![]),
                    4 => {
                        c.flags = 0x0600;
                        c.add_method(mark, "m", "()V", vec![])
                    }
                    5 => {
                        let k = c.this;
                        c.add_attr("InnerClasses", W::new().b2(1).i2(k).b2(0).b2(0).i2(mark).done())
                    }
                    6 => {
                        let a = c.attr("MethodParameters", W::new().b1(1).b2(0).i2(mark).done());
                        c.add_method(0, "m", "()V", vec![a])
                    }
                    _ => {
                        let f = |k: usize| if role == k { m2 } else { 0 };
                        let m = c.pool.module("ma");
                        let q = c.pool.package("pa");
                        let w = W::new().i2(m).b2(f(7)).b2(0).b2(1).i2(m).b2(f(8)).b2(0);
                        let w = w.b2(1).i2(q).b2(f(9)).b2(0).b2(1).i2(q).b2(f(10)).b2(0).b2(0).b2(0);
                        c.add_attr("Module", w.done())
                    }
                }
                let b = c.bytes();
                let at = b.windows(2).rposition(|w| w == mark.to_be_bytes()).unwrap();
                (b, at)
            })
            .collect();
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &[65536, 44]);
            let (x, at) = &protos[d[1]];
            b.extend_from_slice(x);
            b[*at..at + 2].copy_from_slice(&(d[0] as u16).to_be_bytes());
            Some(kind)
        }
    });
}
/// Every version number, and the magic number.
pub fn versions(cx: &Ctx, kind: u8) {
    cx.sweep("versions", "all 65536 major versions with five minor versions, and all minor versions with six major versions, for a class and a module", 65536 * 11 * 2, || {
        let files = [tiny(61), everything_module(55)];
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &[2, 11, 65536]);
            b.extend_from_slice(&files[d[0]]);
            let (mi, ma) = if d[1] < 5 { ([0u16, 1, 3, 0x8000, 65535][d[1]], d[2] as u16) } else { (d[2] as u16, [45u16, 46, 52, 53, 61, 70][d[1] - 5]) };
            b[4..6].copy_from_slice(&mi.to_be_bytes());
            b[6..8].copy_from_slice(&ma.to_be_bytes());
            Some(kind)
        }
    });
    cx.sweep("magic", "all values of each half and each byte of the magic number", 65536 * 2 + 1024 + 4, || {
        let f = tiny(52);
        move |i, b: &mut Vec<u8>| {
            b.extend_from_slice(&f);
            if i < 65536 * 2 {
                let at = (i / 65536) as usize * 2;
                b[at..at + 2].copy_from_slice(&((i % 65536) as u16).to_be_bytes());
            } else if i < 65536 * 2 + 1024 {
                let j = (i - 65536 * 2) as usize;
                b[j / 256] = j as u8;
            } else {
                b[..4].reverse();
                let k = (i - 65536 * 2 - 1024) as usize;
                b[..4].rotate_left(k);
            }
            Some(kind)
        }
    });
}
/// this, super and interface indices.
pub fn class_refs(cx: &Ctx, triple: bool, kind: u8) {
    for (m, module) in [(45u16, false), (61, false), (61, true)] {
        let p = Pal::new(m, module, &[]);
        let n = p.every.len() as u64;
        let b0 = p.put(Host::Class, &[]);
        let at = p.head.len();
        cx.sweep(
            &format!("class references, version {}{}", m, if module { " module" } else { "" }),
            "each pair of pool indices as this and super class; as this class and interface; as two interfaces; four flag values",
            n * n * 3 * 4,
            || {
                let (p, b0) = (&p, &b0);
                move |i, b: &mut Vec<u8>| {
                    let d = digits(i, &[n, n, 3, 4]);
                    let (x, y) = (p.every[d[0]].to_be_bytes(), p.every[d[1]].to_be_bytes());
                    b.extend_from_slice(b0);
                    b[at..at + 2].copy_from_slice(&[0x0021u16, 0x0600, 0x8000, 0][d[3]].to_be_bytes());
                    match d[2] {
                        0 => {
                            b[at + 2..at + 4].copy_from_slice(&x);
                            b[at + 4..at + 6].copy_from_slice(&y);
                        }
                        1 => {
                            b[at + 2..at + 4].copy_from_slice(&x);
                            b[at + 7] = 1;
                            b.splice(at + 8..at + 8, y);
                        }
                        _ => {
                            b[at + 7] = 2;
                            b.splice(at + 8..at + 8, [x, y].concat());
                        }
                    }
                    Some(kind)
                }
            },
        );
        if triple {
            cx.sweep(&format!("class reference triples, version {}{}", m, if module { " module" } else { "" }), "all triples of this, super and one interface", n * n * n, || {
                let (p, b0) = (&p, &b0);
                move |i, b: &mut Vec<u8>| {
                    let d = digits(i, &[n, n, n]);
                    b.extend_from_slice(b0);
                    b[at + 2..at + 4].copy_from_slice(&p.every[d[0]].to_be_bytes());
                    b[at + 4..at + 6].copy_from_slice(&p.every[d[1]].to_be_bytes());
                    b[at + 7] = 1;
                    b.splice(at + 8..at + 8, p.every[d[2]].to_be_bytes());
                    Some(kind)
                }
            });
        }
    }
}
/// Special and plain member names under every flag value of the class and of the member, and in every version.
pub fn special_members(cx: &Ctx, kind: u8) {
    let shapes: [(bool, &str, &str); 15] = [
        (false, "<init>", "()V"),
        (false, "<init>", "()I"),
        (false, "<clinit>", "()V"),
        (false, "<clinit>", "(I)V"),
        (false, "<clinit>", "()I"),
        (false, "<clinit>", "()[I"),
        (false, "<init>", "([J)La;"),
        (false, "<inix>", "()V"),
        (false, "a>", "()V"),
        (false, "m", "(I)[J"),
        (true, "<init>", "I"),
        (true, "<x>", "I"),
        (true, "f", "V"),
        (true, "f", "[La;"),
        (true, "a;", "I"),
    ];
    // the value under test: class flags, member flags of a class, member flags of an interface, major, minor
    let bases = [(50u16, 0x21u16), (51, 0x0601), (61, 0x0200)];
    let n = 65536 * shapes.len() as u64 * 4 * bases.len() as u64;
    cx.sweep(
        "special members",
        "15 special, plain and faulty members under all 65536 flag values of the class, all of the member, and all major and minor versions; three bases",
        n,
        || {
            let protos: Vec<(Vec<u8>, usize)> = (0..shapes.len() * 12)
                .map(|i| {
                    let d = digits(i as u64, &[shapes.len() as u64, 4, 3]);
                    let (field, name, desc) = shapes[d[0]];
                    let (v, f) = bases[d[2]];
                    let mut c = Class::new(v);
                    c.flags = f;
                    let mark = 0xA5F1u16;
                    let mf = if d[1] == 1 { mark } else { 0 };
                    if field {
                        c.add_field(mf, name, desc, vec![]);
                    } else {
                        c.add_method(mf, name, desc, vec![]);
                    }
                    match d[1] {
                        0 => c.flags = mark,
                        1 => (),
                        2 => c.major = mark,
                        _ => c.minor = mark,
                    }
                    let b = c.bytes();
                    let at = if d[1] >= 2 { 10 - d[1] * 2 } else { b.windows(2).rposition(|w| w == mark.to_be_bytes()).unwrap() };
                    (b, at)
                })
                .collect();
            move |i, b: &mut Vec<u8>| {
                let (x, at) = &protos[(i / 65536) as usize];
                b.extend_from_slice(x);
                b[*at..at + 2].copy_from_slice(&((i % 65536) as u16).to_be_bytes());
                Some(kind)
            }
        },
    );
}
/// Lists of fields and methods over names, descriptors and flags.
pub fn members(cx: &Ctx, n: u32, kind: u8) {
    let names = ["a", "b", "<init>", "<clinit>", "<a", "", "a.b"];
    let mdescs = ["()V", "(I)V", "()I", "([J)V", "()V;", ""];
    let fdescs = ["I", "La;", "[I", "V", "II"];
    let nf = (names.len() * fdescs.len()) as u64;
    let nm = (names.len() * mdescs.len()) as u64;
    let vers = [45u16, 50, 51, 52, 61];
    let fl = [0x21u16, 0x0600, 0x0021 | 0x0400];
    let each = 5u64; // flags and attributes of members
    for (what, per) in [("fields", nf), ("methods", nm)] {
        let total: u64 = per.pow(n) * vers.len() as u64 * fl.len() as u64 * if n <= 2 { each } else { 1 };
        cx.sweep(
            &format!("lists of {} {}", n, what),
            "all lists of members over legal, special and illegal names and descriptors, five versions, class and interface, members with various flags and attributes",
            total,
            || {
                move |i, b: &mut Vec<u8>| {
                    let mut j = i;
                    let mut take = |k: usize| {
                        let r = (j % k as u64) as usize;
                        j /= k as u64;
                        r
                    };
                    let v = vers[take(vers.len())];
                    let f = fl[take(fl.len())];
                    let e = if n <= 2 { take(each as usize) } else { 0 };
                    let mut c = Class::new(v);
                    c.flags = f;
                    for k in 0..n as usize {
                        let x = take(per as usize);
                        let nm = names[x % names.len()];
                        let attrs = match (e + k) % 4 {
                            1 => vec![c.attr("Deprecated", vec![])],
                            2 => vec![c.attr("Foo", vec![1, 2]), c.attr("Synthetic", vec![])],
                            _ => vec![],
                        };
                        let mf = [0u16, 9, 0x1018, 0xffff, 0x0400][e];
                        if what == "fields" {
                            c.add_field(mf, nm, fdescs[x / names.len()], attrs);
                        } else {
                            c.add_method(mf, nm, mdescs[x / names.len()], attrs);
                        }
                    }
                    *b = c.bytes();
                    Some(kind)
                }
            },
        );
    }
    // duplicates at any distance, by the same or by equal text entries
    let sizes: Vec<usize> = (2..18).chain([31, 32, 33, 64, 65, 100]).collect();
    let pairs: Vec<(usize, usize, usize)> =
        sizes.iter().flat_map(|s| (0..*s).flat_map(move |i| (i + 1..*s).map(move |j| (*s, i, j)))).filter(|(s, i, j)| *s < 18 || *i < 2 || *j + 2 > *s || j - i < 3).collect();
    let np = pairs.len() as u64;
    cx.sweep("duplicate members", "member lists of 2 to 100 with two members equal in name, in descriptor, in both or in neither, at each two positions, by the same or by equal text entries", np * 2 * 4 * 3, || {
        let pairs = &pairs;
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &[2, 4, 3, np]);
            let (s, x, y) = pairs[d[3]];
            let mut c = Class::new(52);
            let (d1, d2) = if d[0] == 0 { ("I", "J") } else { ("()V", "()J") };
            for k in 0..s {
                let dup = k == y;
                let nm = format!("m{}", if dup && d[1] & 1 == 0 { x } else { k });
                let ds = if dup && d[1] & 2 == 0 { d1 } else if dup || k % 3 == 1 && k != x { d2 } else { d1 };
                let (mut nx, mut dx) = (c.pool.utf8(&nm), c.pool.utf8(ds));
                if dup && d[2] >= 1 {
                    nx = c.pool.push(&[&[1, 0, nm.len() as u8], nm.as_bytes()].concat());
                    if d[2] == 2 {
                        dx = c.pool.push(&[&[1, 0, ds.len() as u8], ds.as_bytes()].concat());
                    }
                }
                let m = Member { flags: k as u16 & 0xf, name: nx, desc: dx, attrs: vec![] };
                if d[0] == 0 {
                    c.fields.push(m)
                } else {
                    c.methods.push(m)
                }
            }
            *b = c.bytes();
            Some(kind)
        }
    });
    // a field and a method may share name; re-encoded duplicates; names whose concatenations coincide
    let texts: [&[u8]; 9] = [b"a", b"ab", b"b", b"\xc0\x80", b"\xc0\x80a", b"\xc3\xa9", b"a\xc0\x80", b"\xed\xa0\xbd\xed\xb8\x80", b"\xf0\x9f\x98\x80"];
    let ds: [&[u8]; 8] = [b"I", b"[I", b"La;", b"Lb;", b"L\xc0\x80;", b"La\xc0\x80;", b"L\xed\xa0\xbd\xed\xb8\x80;", b"L\xf0\x9f\x98\x80;"];
    let radix = [9, 9, 8, 8, 4];
    cx.sweep("member texts", "two members whose names and descriptors are plain or re-encoded texts, some equal as text though not as bytes; fields, methods, or one of each", product(&radix), || {
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &radix);
            let mut c = Class::new(61);
            for k in 0..2 {
                let nx = c.pool.utf8b(texts[d[k]]);
                let ft = ds[d[2 + k]];
                let field = d[4] == 0 || d[4] == 2 + k;
                let dx = if field { c.pool.utf8b(ft) } else { c.pool.utf8b(&[b"(", ft, b")V"].concat()) };
                let m = Member { flags: 1 + k as u16, name: nx, desc: dx, attrs: vec![] };
                if field {
                    c.fields.push(m)
                } else {
                    c.methods.push(m)
                }
            }
            *b = c.bytes();
            Some(kind)
        }
    });
}
/// What a module may and may not have.
pub fn modules(cx: &Ctx, kind: u8) {
    let radix = [8, 6, 3, 3, 3, 3, 3, 4];
    cx.sweep("module rules", "versions 51 to 61, flags, this class, superclass, interfaces, fields, methods and attributes of a module", product(&radix), || {
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &radix);
            let v = [45u16, 51, 52, 53, 54, 55, 61, 65][d[0]];
            let mut c = Class::new_module(v);
            c.flags = [0x8000u16, 0x8001, 0x9000, 0x8200, 0x0021, 0x8800][d[1]];
            let other = c.pool.class("A");
            let nm = c.pool.utf8("nm");
            match d[2] {
                1 => c.this = other,
                2 => c.this = nm,
                _ => (),
            }
            c.sup = [0, other, nm][d[3]];
            c.ifs = [vec![], vec![other], vec![other, c.this]][d[4]].clone();
            match d[5] {
                1 => c.add_field(0, "f", "I", vec![]),
                2 => {
                    c.add_field(0x19, "f", "I", vec![]);
                    c.add_field(0, "g", "I", vec![])
                }
                _ => (),
            }
            match d[6] {
                1 => c.add_method(0, "m", "()V", vec![]),
                2 => c.add_method(8, "<clinit>", "()V", vec![]),
                _ => (),
            }
            if d[7] & 1 == 1 && v >= 53 {
                let m = c.pool.module("mo");
                c.add_attr("Module", W::new().i2(m).b2(0).b2(0).b2(0).b2(0).b2(0).b2(0).b2(0).done());
            }
            if d[7] & 2 == 2 {
                c.add_attr("SourceFile", nm.to_be_bytes().to_vec());
            }
            *b = c.bytes();
            Some(kind)
        }
    });
}

// ---------------------------------------------------------------- scale and nesting

pub const SCALED: u64 = 39;
/// A file with n elements of list kind `k`.
pub fn scaled(k: u64, n: usize) -> Option<Vec<u8>> {
    let mut c = if [18, 19, 20, 21, 32, 33].contains(&k) { Class::new_module(61) } else { Class::new(61) };
    let this = c.this;
    let rep = |head: W, item: &[u8]| {
        let mut w = head.b2(n as u32);
        for _ in 0..n {
            w = w.raw(item);
        }
        w.done()
    };
    let method = |c: &mut Class, code: &[u8], table: &[[u16; 4]], attrs: &[Attr]| {
        let a = c.attr("Code", code_body(1, 1, code, table, attrs));
        c.add_method(0, "m", "()V", vec![a]);
    };
    let i = this.to_be_bytes();
    let t = c.pool.utf8("La;");
    let tb = t.to_be_bytes();
    let v = c.pool.int(1);
    match k {
        0 => c.ifs = vec![this; n],
        1 => {
            let d = c.pool.utf8("I");
            for x in 0..n {
                let nm = c.pool.utf8(&format!("f{}", x));
                c.fields.push(Member { flags: 0, name: nm, desc: d, attrs: vec![] });
            }
        }
        2 => {
            // every method has a descriptor with as many parameters as are legal
            let d = c.pool.utf8(&format!("({})V", "I".repeat(255)));
            for x in 0..n {
                let nm = c.pool.utf8(&format!("f{}", x));
                c.methods.push(Member { flags: 0, name: nm, desc: d, attrs: vec![] });
            }
        }
        3 => {
            let a = c.attr("Deprecated", vec![]);
            c.attrs = vec![a; n];
        }
        4 => {
            let a = c.attr("Deprecated", vec![]);
            c.add_field(0, "f", "I", vec![a; n]);
        }
        5 => method(&mut c, &vec![0; n], &[], &[]),
        6 => method(&mut c, &[0xb1], &vec![[0, 1, 0, 0]; n], &[]),
        7 => {
            let a = c.attr("Foo", vec![]);
            method(&mut c, &[0xb1], &[], &vec![a; n]);
        }
        8 => {
            let mut w = W::new().b1(0xaa).raw(&[0; 3]).b4(0).b4(0).b4((n as u32).wrapping_sub(1));
            for _ in 0..n {
                w = w.b4(0);
            }
            method(&mut c, &w.0, &[], &[]);
        }
        9 => {
            let mut w = W::new().b1(0xab).raw(&[0; 3]).b4(0).b4(n as u32);
            for x in 0..n {
                w = w.b4(x as u32).b4(0);
            }
            method(&mut c, &w.0, &[], &[]);
        }
        10 => {
            let a = c.attr("LineNumberTable", rep(W::new(), &[0, 0, 0, 1]));
            method(&mut c, &[0xb1], &[], &[a]);
        }
        11 => {
            let x = c.pool.utf8("x").to_be_bytes();
            let a = c.attr("LocalVariableTable", rep(W::new(), &[&[0, 0, 0, 1][..], &x, &tb, &[0, 0]].concat()));
            method(&mut c, &[0xb1], &[], &[a]);
        }
        12 => {
            let a = c.attr("StackMapTable", rep(W::new(), &[0]));
            method(&mut c, &[0xb1], &[], &[a]);
        }
        13 => {
            // one frame, n locals and n stack entries
            let w = rep(W::new().b2(1).b1(255).b2(0), &[1]);
            let a = c.attr("StackMapTable", rep(W(w), &[2]));
            method(&mut c, &[0xb1], &[], &[a]);
        }
        14 => {
            let b = rep(W::new(), &[tb, [0, 0]].concat());
            c.add_attr("RuntimeVisibleAnnotations", b)
        }
        15 => {
            let b = rep(W::new().b2(1).i2(t), &[&tb[..], b"I", &v.to_be_bytes()].concat());
            c.add_attr("RuntimeVisibleAnnotations", b)
        }
        16 => {
            let b = rep(W::new().b1(b'[' as u32), &[&b"I"[..], &v.to_be_bytes()].concat());
            let a = c.attr("AnnotationDefault", b);
            c.add_method(0, "m", "()V", vec![a])
        }
        17 => {
            let b = rep(W::new(), &[&[0x13u8, 0][..], &tb, &[0, 0]].concat());
            c.add_attr("RuntimeVisibleTypeAnnotations", b)
        }
        18..=21 => {
            let m = c.pool.module("ma").to_be_bytes();
            let q = c.pool.package("pa").to_be_bytes();
            let mut w = W::new().raw(&m).b2(0).b2(0);
            w = if k == 18 { W(rep(w, &[&m[..], &[0, 0, 0, 0]].concat())) } else { w.b2(0) };
            w = if k == 19 { W(rep(w, &[&q[..], &[0, 0, 0, 0]].concat())) } else { w.b2(0) };
            w = w.b2(0);
            w = if k == 20 { W(rep(w, &i)) } else { w.b2(0) };
            w = if k == 21 { W(rep(w.b2(1).raw(&i), &i)) } else { w.b2(0) };
            c.add_attr("Module", w.done())
        }
        22 => {
            let b = rep(W::new(), &[&i[..], &i, &tb, &[0, 0]].concat());
            c.add_attr("InnerClasses", b)
        }
        23 => {
            let nm = c.pool.utf8("x").to_be_bytes();
            let b = rep(W::new(), &[&nm[..], &tb, &[0, 0]].concat());
            c.add_attr("Record", b)
        }
        24 | 25 => {
            let r = c.pool.member(10, "A", "b", "()V");
            let h = c.pool.handle(6, r).to_be_bytes();
            let b = if k == 24 { rep(W::new(), &[h, [0, 0]].concat()) } else { rep(W::new().b2(1).raw(&h), &v.to_be_bytes()) };
            c.add_attr("BootstrapMethods", b)
        }
        26 => {
            let b = rep(W::new(), &i);
            c.add_attr("NestMembers", b)
        }
        27 => {
            // n dynamic call sites with long descriptors
            let r = c.pool.member(10, "A", "b", "()V");
            let h = c.pool.handle(6, r);
            let nt = c.pool.nat("x", &format!("({})V", "La;".repeat(255)));
            for x in 0..n.min(60000) {
                c.pool.e4(18, 0, nt);
                c.pool.push(&[&[18u8, 0, 0][..], &nt.to_be_bytes()].concat());
                let _ = x;
            }
            if c.pool.next > 65535 {
                return None;
            }
            c.add_attr("BootstrapMethods", W::new().b2(1).i2(h).b2(0).done())
        }
        28 => {
            // n instructions, each an invokedynamic
            let r = c.pool.member(10, "A", "b", "()V");
            let h = c.pool.handle(6, r);
            let k = c.pool.dynamic(18, 0, "x", &format!("({})V", "La;".repeat(255)));
            let mut code = vec![];
            for _ in 0..n {
                code.extend(W::new().b1(0xba).i2(k).b2(0).0);
            }
            method(&mut c, &code, &[], &[]);
            c.add_attr("BootstrapMethods", W::new().b2(1).i2(h).b2(0).done())
        }
        29 => {
            // n local variables, each with a long descriptor
            let d = c.pool.utf8(&format!("{}L{};", "[".repeat(255), "a".repeat((32_000_000 / n.max(1)).clamp(10, 60_000))));
            let x = c.pool.utf8("x");
            let a = c.attr("LocalVariableTable", rep(W::new(), &[&[0, 0, 0, 1][..], &x.to_be_bytes(), &d.to_be_bytes(), &[0, 0]].concat()));
            method(&mut c, &[0xb1], &[], &[a]);
        }
        30 => {
            let a = c.attr("RuntimeVisibleParameterAnnotations", {
                let mut w = W::new().b1(n.min(255) as u32);
                for _ in 0..n.min(255) {
                    w = w.b2(1).raw(&tb).b2(0);
                }
                w.done()
            });
            c.add_method(0, "m", "()V", vec![a])
        }
        31 => {
            // n methods, every combination of few names and few descriptors of 255 parameters
            let names: Vec<u16> = (0..256).map(|x| c.pool.utf8(&format!("m{}", x))).collect();
            for x in 0..n {
                let d = x / 256;
                let d = c.pool.utf8(&format!("({}{})V", "J".repeat(d % 100), "[I".repeat(255 - 2 * (d % 100) - d / 100)));
                c.methods.push(Member { flags: 0, name: names[x % 256], desc: d, attrs: vec![] });
            }
        }
        32 | 33 => {
            let m = c.pool.module("ma").to_be_bytes();
            let q = c.pool.package("pa").to_be_bytes();
            let mut w = W::new().raw(&m).b2(0).b2(0).b2(0);
            w = if k == 32 { W(rep(w.b2(1).raw(&q).b2(0), &m)) } else { w.b2(0) };
            w = if k == 33 { W(rep(w.b2(1).raw(&q).b2(0), &m)) } else { w.b2(0) };
            c.add_attr("Module", w.b2(0).b2(0).done())
        }
        34 => {
            let b = rep(W::new().b2(1).b1(0x40), &[0, 1, 0, 2, 0, 3]);
            c.add_attr("RuntimeInvisibleTypeAnnotations", W(b).b1(0).raw(&tb).b2(0).done())
        }
        35 => {
            // the longest target path, n times
            let path = [&[0x13u8, 255][..], &[3, 7].repeat(255), &tb, &[0, 0]].concat();
            let b = rep(W::new(), &path);
            c.add_attr("RuntimeInvisibleTypeAnnotations", b)
        }
        36 => {
            let x = c.pool.utf8("x").to_be_bytes();
            let mut w = W::new().b1(n.min(255) as u32);
            for _ in 0..n.min(255) {
                w = w.raw(&x).b2(0);
            }
            let a = c.attr("MethodParameters", w.done());
            c.add_method(0, "m", "()V", vec![a])
        }
        37 => {
            let b = rep(W::new(), &i);
            let a = c.attr("Exceptions", b);
            c.add_method(0, "m", "()V", vec![a])
        }
        _ => {
            // n classes of one name, n strings, n name-and-types
            let nt = c.pool.nat("x", "I");
            let e = W::new().b1(9).i2(this).i2(nt).done();
            for _ in 0..n {
                c.pool.push(&e);
            }
            if c.pool.next > 65535 {
                return None;
            }
        }
    }
    if c.pool.next > 65535 {
        return None;
    }
    let b = c.bytes();
    if b.len() > SLOT_DATA {
        return None;
    }
    Some(b)
}
/// Every list of the format at sizes up to its limit.
pub fn scale(cx: &Ctx, sizes: &[usize], kind: u8) {
    let n = sizes.len() as u64;
    cx.sweep("list sizes", &format!("each of {} kinds of list with each of {:?} elements really present", SCALED, sizes), SCALED * n, || {
        move |i, b: &mut Vec<u8>| {
            *b = scaled(i % SCALED, sizes[(i / SCALED) as usize])?;
            Some(kind)
        }
    });
}
/// Big lists cut short or with a wrong count: the declared count stays, the elements end.
pub fn scale_cut(cx: &Ctx, kind: u8) {
    let sizes = [3usize, 40, 700];
    cx.sweep("lists cut short", "each kind of list with 3, 40 or 700 elements, the file ending at each of 64 places", SCALED * 3 * 64, || {
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &[SCALED, 3, 64]);
            let f = scaled(d[0] as u64, sizes[d[1]])?;
            b.extend_from_slice(&f[..f.len() * (d[2] + 1) / 64]);
            Some(kind)
        }
    });
}

const NESTED: u64 = 14;
/// Nested structures `n` deep; `count` as the declared number of elements at every level.
fn nested(k: u64, n: usize, count: Option<u32>, close: bool) -> Option<Vec<u8>> {
    let mut c = Class::new(61);
    let t = c.pool.utf8("La;");
    let nm = c.pool.utf8("x");
    let v = c.pool.int(5);
    let cnt = count.unwrap_or(1);
    let attr_shell = |c: &mut Class, name: &str, open: &dyn Fn(usize) -> Vec<u8>, shut: &[u8]| -> Attr {
        // attribute bodies from the inside out
        let ix = c.pool.utf8(name);
        let mut body = vec![];
        for d in 0..n {
            let mut b = open(d);
            if d == 0 {
                b.extend([0, 0]);
            } else {
                b.extend_from_slice(&u2(cnt));
                let last = count.is_none() || close;
                b.extend_from_slice(&ix.to_be_bytes());
                b.extend_from_slice(&(if last { body.len() as u32 } else { u32::MAX }).to_be_bytes());
                b.extend_from_slice(&body);
            }
            b.extend_from_slice(shut);
            body = b;
            if body.len() > 3 << 20 {
                break;
            }
        }
        Attr { name: ix, len: None, body }
    };
    match k {
        0 | 1 | 2 => {
            // arrays, annotations, or both in turn
            let mut w = W::new();
            for d in 0..n {
                let arr = k == 0 || k == 2 && d % 2 == 0;
                w = if arr { w.b1(b'[' as u32).b2(cnt) } else { w.b1(b'@' as u32).i2(t).b2(cnt).i2(nm) };
            }
            if close || count.is_none() {
                w = w.b1(b'I' as u32).i2(v);
            }
            let a = c.attr("AnnotationDefault", w.done());
            c.add_method(0, "m", "()V", vec![a]);
        }
        3 | 4 | 5 => {
            let mut w = W::new();
            w = match k {
                3 => w.b2(1),
                4 => w.b1(1).b2(1),
                _ => w.b2(1).b1(0x13).b1(0),
            };
            w = w.i2(t).b2(1).i2(nm);
            for _ in 0..n {
                w = w.b1(b'[' as u32).b2(cnt);
            }
            if close || count.is_none() {
                w = w.b1(b'I' as u32).i2(v);
            }
            let name = ["RuntimeVisibleAnnotations", "RuntimeInvisibleParameterAnnotations", "RuntimeVisibleTypeAnnotations"][k as usize - 3];
            let a = c.attr(name, w.done());
            c.add_method(0, "m", "()V", vec![a]);
        }
        6 => {
            let a = attr_shell(&mut c, "Code", &|_| vec![0, 0, 0, 0, 0, 0, 0, 1, 0xb1, 0, 0], &[]);
            c.add_method(0, "m", "()V", vec![a]);
        }
        7 => {
            let a = attr_shell(&mut c, "Record", &|_| W::new().b2(1).i2(nm).i2(t).done(), &[]);
            c.attrs.push(a);
        }
        8 => {
            // code with a declared but huge exception table inside code ...
            let a = attr_shell(&mut c, "Code", &|d| W::new().b2(0).b2(0).b4(1).b1(0xb1).b2(if d == 0 { cnt } else { 0 }).done(), &[]);
            c.add_method(0, "m", "()V", vec![a]);
        }
        9 => {
            let a = attr_shell(&mut c, "Record", &|_| W::new().b2(cnt).i2(nm).i2(t).done(), &[]);
            c.attrs.push(a);
        }
        10 => {
            let d = format!("{}I", "[".repeat(n.min(65534)));
            c.add_field(0, "f", &d, vec![]);
        }
        11 => {
            let d = format!("({}I)V", "[".repeat(n.min(65530)));
            c.add_method(0, "m", &d, vec![]);
        }
        12 => {
            let d = format!("L{}a;", "a/".repeat(n.min(32000)));
            c.add_field(0, "f", &d, vec![]);
        }
        _ => {
            let d = format!("{}I", "[".repeat(n.min(65534)));
            c.pool.class(&d);
        }
    }
    let b = c.bytes();
    if b.len() > SLOT_DATA {
        return None;
    }
    Some(b)
}
pub fn nesting(cx: &Ctx, big: &[usize], kind: u8) {
    let depths: Vec<usize> = (1..=130).chain(big.iter().copied()).collect();
    let n = depths.len() as u64;
    let radix = [NESTED, n, 4, 2];
    cx.sweep(
        "nesting depths",
        &format!("{} nested structures of 1 to 130 and {:?} levels, every level declaring 1, 2, 4096 or 65535 elements, complete or broken off", NESTED, big),
        product(&radix),
        || {
            let depths = &depths;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let count = [None, Some(2), Some(4096), Some(65535)][d[2]];
                *b = nested(d[0] as u64, depths[d[1]], count, d[3] == 0)?;
                Some(kind)
            }
        },
    );
}

/// Every list count of whole files set to large values, two at a time.
pub fn count_pairs(cx: &Ctx, seeds: &[(String, Vec<u8>, usize)], kind: u8) {
    for (name, s, from) in seeds {
        let n = (s.len() - from - 1) as u64;
        cx.sweep(
            &format!("pairs of 16-bit fields, {}", name),
            "each two 16-bit fields of a whole file set to 65535, 32768 or 4096",
            n * n * 4,
            || {
                move |i, b: &mut Vec<u8>| {
                    let d = digits(i, &[4, n, n]);
                    if d[1] + 2 > d[2] {
                        return None;
                    }
                    b.extend_from_slice(s);
                    let (x, y) = [(0xffffu16, 0xffffu16), (0x8000, 0xffff), (0xffff, 0x8000), (0x1000, 0x1000)][d[0]];
                    b[from + d[1]..from + d[1] + 2].copy_from_slice(&x.to_be_bytes());
                    b[from + d[2]..from + d[2] + 2].copy_from_slice(&y.to_be_bytes());
                    Some(kind)
                }
            },
        );
    }
}

// ---------------------------------------------------------------- every short byte string

pub fn short_files(cx: &Ctx, n: u32, kind: u8) {
    let vals: [u8; 7] = [0, 1, 2, 7, 0x80, 0xCA, 0xff];
    let total: u64 = (0..=n).map(|k| 7u64.pow(k)).sum();
    cx.sweep(
        &format!("short inputs up to {}", n),
        &format!("all byte strings of up to {} bytes over {:02x?}, alone, after the magic number and a version, and after a one-entry pool", n, vals),
        total * 3,
        || {
            move |i, b: &mut Vec<u8>| {
                b.extend_from_slice([&[][..], &[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 61], &[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 61, 0, 3, 1, 0, 1, 0x41, 7, 0, 1, 0, 0x21, 0, 2, 0, 0]][(i % 3) as usize]);
                let mut j = i / 3;
                let (mut block, mut len) = (1, 0);
                while j >= block {
                    j -= block;
                    block *= 7;
                    len += 1;
                }
                for _ in 0..len {
                    b.push(vals[(j % 7) as usize]);
                    j /= 7;
                }
                Some(kind)
            }
        },
    );
}

// ---------------------------------------------------------------- options, histories

/// All sequences of up to three option calls over files with one changed field.
pub fn option_sequences(cx: &Ctx, seeds: &[(String, Vec<u8>, usize)]) {
    let codes: Vec<u8> = (0u8..4).flat_map(|n| (0..1u8 << n).map(move |v| n | v << 2)).collect();
    let nc = codes.len() as u64;
    let vals = [0u8, 1, 0x7f, 0x80, 0xff, 0xaa, 0xca];
    for (name, s, from) in seeds {
        let l = (s.len() - from) as u64;
        cx.sweep(
            &format!("option calls, {}", name),
            "all sequences of up to three option calls, on a file with each byte set to each of 7 values or left alone",
            nc * (l * 7 + 1),
            || {
                let codes = &codes;
                move |i, b: &mut Vec<u8>| {
                    b.push(codes[(i % nc) as usize]);
                    b.extend_from_slice(s);
                    let j = i / nc;
                    if j > 0 {
                        b[1 + from + ((j - 1) / 7) as usize] = vals[((j - 1) % 7) as usize];
                    }
                    Some(OPTIONS)
                }
            },
        );
    }
}
/// A file in place of another in the same buffer: the two differ in one byte.
pub fn rewrites(cx: &Ctx, rich: bool) {
    let seeds: Vec<Vec<u8>> = if rich { all_seeds() } else { whole_seeds() }.iter().map(|s| s.1.clone()).collect();
    let mut st = vec![];
    let mut n = 0u64;
    for s in &seeds {
        st.push(n);
        n += s.len() as u64 * 8;
    }
    cx.sweep(
        "overwritten buffers",
        "a buffer with a seed file parsed, one byte of it (each in turn, to 8 values) changed in place, parsed again, and restored; both builds, with and without bytecode",
        n,
        || {
            let (st, seeds) = (&st, &seeds);
            move |i, b: &mut Vec<u8>| {
                let k = st.partition_point(|s| *s <= i) - 1;
                let (at, v) = (((i - st[k]) / 8) as usize, (i - st[k]) % 8);
                let s = &seeds[k];
                let x = s[at];
                let y = [0, 1, b'.', 0xff, x.wrapping_add(1), x ^ 0x80, x.wrapping_sub(1), b';'][v as usize];
                if x == y {
                    return None;
                }
                b.extend_from_slice(s);
                b.extend_from_slice(s);
                b[s.len() + at] = y;
                Some(REWRITE)
            }
        },
    );
}
pub fn histories(cx: &Ctx, n: u32) {
    let k = history::OPS as u64;
    let total: u64 = (1..=n).map(|d| k.pow(d)).sum();
    cx.sweep(
        &format!("histories up to {}", n),
        &format!(
            "all sequences of up to {} operations out of {}: parse one of {} files with or without bytecode in a reused buffer, parse and keep, inspect oldest or newest kept result, drop oldest; every outcome compared with the one in a fresh process state",
            n,
            k,
            history::FILES
        ),
        total,
        || {
            move |i, b: &mut Vec<u8>| {
                let (mut j, mut block, mut len) = (i, k, 1);
                while j >= block {
                    j -= block;
                    block *= k;
                    len += 1;
                }
                for _ in 0..len {
                    b.push((j % k) as u8);
                    j /= k;
                }
                Some(HISTORY)
            }
        },
    );
}
/// One operation many times, then another; and two in turn, many times.
pub fn long_histories(cx: &Ctx, times: &[usize]) {
    let k = history::OPS as u64;
    let radix = [k, k, 3, times.len() as u64];
    cx.sweep(
        "long histories",
        &format!("each of {} operations {:?} times and then each other one, or after each other one, or the two in turn", k, times),
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (x, y, n) = (d[0] as u8, d[1] as u8, times[d[3]]);
                // of the first file more results are kept at once than of others
                let kept = |o: u8| (2 * history::FILES..3 * history::FILES).contains(&(o as usize));
                let many = |o: u8| kept(o) && (n > 66_000 || o as usize != 2 * history::FILES);
                if n > 1000 && (many(x) || many(y) && d[2] == 2) {
                    return None;
                }
                match d[2] {
                    0 => {
                        b.resize(n, x);
                        b.push(y);
                    }
                    1 => {
                        b.push(y);
                        b.resize(n + 1, x);
                    }
                    _ => (0..n).for_each(|_| b.extend([x, y])),
                }
                Some(HISTORY)
            }
        },
    );
}
