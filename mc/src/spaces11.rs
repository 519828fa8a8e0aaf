//! Long switches and many jumps of which one is not as the others.
use crate::asm::*;
use crate::engine::*;
use crate::spaces2::Small;

const LONG: [usize; 12] = [1, 2, 31, 64, 255, 256, 257, 1000, 1024, 4097, 8193, 16100];

/// Places in a list of n.
fn places(n: usize) -> [usize; 9] {
    [0, 1, 62, 63, 64, 255, n / 2, n.saturating_sub(2), n - 1].map(|p| p.min(n - 1))
}

pub fn long_switches(cx: &Ctx, kind: u8) {
    let p = Small::new();
    // [lookupswitch, size, place, what the entry there (or the default) is, entries go on to one or to different instructions, alignment]
    let radix = [2, LONG.len() as u64, 10, 9, 2, 4];
    cx.sweep(
        "long switches",
        &format!(
            "both switches with {:?} entries at each alignment, to one or to all different instructions, one entry at nine places \
             or the default going before the method, into the switch, between instructions, to the end or behind it",
            LONG
        ),
        product(&radix),
        || {
            let p = &p;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let n = LONG[d[1]];
                let lookup = d[0] == 1;
                let mut w = W(vec![0; d[5]]).b1(if lookup { 0xab } else { 0xaa });
                while w.0.len() % 4 != 0 {
                    w = w.b1(0);
                }
                let start = w.0.len() + if lookup { 8 + 8 * n } else { 12 + 4 * n };
                let tail = if d[4] == 1 { n } else { 2 };
                // every third instruction behind the switch has two bytes
                let mut at = vec![];
                let mut code = vec![];
                for k in 0..tail {
                    at.push(start + code.len());
                    if k % 3 == 2 {
                        code.extend([0x10, 0]);
                    } else {
                        code.push(0);
                    }
                }
                let end = start + code.len();
                code.push(0xb1);
                let from = d[5] as i64;
                let inside = if tail > 2 { at[2] + 1 } else { start - 1 };
                let odd = [
                    end as i64, -1 - from, 0, from + 1, start as i64 - 1, inside as i64, end as i64 + 1, i32::MIN as i64, i32::MAX as i64,
                ][d[3]] as i64;
                let odd = if d[3] >= 7 { odd } else { odd - from };
                let which = if d[2] == 9 { None } else { Some(places(n)[d[2]]) };
                let to = |k: usize| if which == Some(k) { odd } else { at[if tail == n { k } else { k % tail }] as i64 - from };
                let default = if which.is_none() { odd } else { end as i64 - from };
                w = w.b4(default as u32);
                if lookup {
                    w = w.b4(n as u32);
                    for k in 0..n {
                        w = w.b4((k * 7) as u32).b4(to(k) as u32);
                    }
                } else {
                    w = w.b4(5).b4(n as u32 + 4);
                    for k in 0..n {
                        w = w.b4(to(k) as u32);
                    }
                }
                p.put(&w.raw(&code).0, b);
                Some(kind)
            }
        },
    );
}

/// Methods of many jumps, one of which is not as the others.
pub fn many_jumps(cx: &Ctx, kind: u8) {
    let p = Small::new();
    const SIZES: [usize; 9] = [64, 100, 255, 256, 257, 1025, 4097, 8193, 16300];
    const OPS: [u32; 5] = [0xa7, 0x99, 0xa5, 0xc6, 0xa8];
    let radix = [SIZES.len() as u64, 9, 6, 7, OPS.len() as u64, 2];
    cx.sweep(
        "many jumps",
        &format!(
            "methods of {:?} jumps (goto, ifeq, if_acmpeq, ifnull, jsr) to the next or the first instruction, the one at one of nine \
             places a jump of each sort that goes astray in six ways",
            SIZES
        ),
        product(&radix),
        || {
            let p = &p;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let n = SIZES[d[0]];
                let place = places(n)[d[1]];
                let mut w = W::new();
                for k in 0..n {
                    let at = w.0.len() as i64;
                    let len = 3 * n as i64 + if d[3] >= 5 { 2 } else { 0 };
                    if k == place {
                        let to = [0, 1, at + 1, len, len + 1, -1][d[2]];
                        w = match d[3] {
                            j @ 0..=4 => w.b1(OPS[j]).b2((to - at) as u32 & 0xffff),
                            j => w.b1([0xc8, 0xc9][j - 5]).b4((to - at) as u32),
                        };
                    } else {
                        // far back only as long as it fits
                        let back = d[5] == 1 && at < 32000;
                        w = w.b1(OPS[d[4]]).b2(if back { (-at) as u32 & 0xffff } else { 3 });
                    }
                }
                let to_end = w.b1(0xb1);
                p.put(&to_end.0, b);
                Some(kind)
            }
        },
    );
}

/// Instructions that name a local variable, in code that declares more or fewer of them.
pub fn limits(cx: &Ctx, kind: u8) {
    const LOCALS: [u32; 10] = [0, 1, 2, 4, 255, 256, 257, 260, 512, 65535];
    const STACK: [u32; 4] = [0, 1, 256, 65535];
    const INDEX: [u32; 9] = [0, 1, 3, 4, 255, 256, 259, 513, 65535];
    const BY: [u32; 7] = [0, 1, 0x7f, 0xff80, 0xff7f, 0x0100, 0xffff];
    const DESCS: [&str; 3] = ["()V", "(IJ)V", "(IIIIII)V"];
    // [max_locals, max_stack, index, form: 10 loads and stores and ret, wide or not, iinc with a number, descriptor, static]
    let radix = [LOCALS.len() as u64, STACK.len() as u64, INDEX.len() as u64, 11 + 11 + 2 * BY.len() as u64 + 20, DESCS.len() as u64, 2];
    cx.sweep(
        "locals within and beyond the limits",
        "loads, stores, ret and iinc, wide and narrow and with the number in the opcode, of locals below, at and above the declared \
         number of locals, which is below, at or above the parameters",
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let x = INDEX[d[2]];
                let op = |k: usize| if k < 5 { 0x15 + k as u32 } else if k < 10 { 0x36 + k as u32 - 5 } else { 0xa9 };
                let w = W::new().b1(0);
                let w = match d[3] {
                    k @ 0..=10 => w.b1(op(k)).b1(x & 0xff),
                    k @ 11..=21 => w.b1(0xc4).b1(op(k - 11)).b2(x),
                    k @ 22..=28 => w.b1(0x84).b1(x & 0xff).b1(BY[k - 22] & 0xff),
                    k @ 29..=35 => w.b1(0xc4).b1(0x84).b2(x).b2(BY[k - 29]),
                    // iload_0 ... dload_3, istore_0 ... of locals 2 and 3
                    k => w.b1([0x1a, 0x1d, 0x1e, 0x21, 0x22, 0x25, 0x26, 0x29, 0x2a, 0x2d, 0x3b, 0x3e, 0x3f, 0x42, 0x43, 0x46, 0x47, 0x4a, 0x4b, 0x4e][k - 36]),
                };
                // the plain forms do not depend on the index
                if d[3] >= 36 && d[2] > 0 {
                    return None;
                }
                let code = w.b1(0xb1).done();
                let mut c = Class::new([52, 49][(d[2] + d[4]) % 2]);
                let a = c.attr("Code", code_body(STACK[d[1]] as u16, LOCALS[d[0]] as u16, &code, &[], &[]));
                c.add_method(if d[5] == 1 { 9 } else { 1 }, "m", DESCS[d[4]], vec![a]);
                b.extend_from_slice(&c.bytes());
                Some(kind)
            }
        },
    );
}
