//! Full products over everything a member reference, a handle, a dynamic constant or an instruction
//! operand is made of.
use crate::engine::*;

const OWNERS: [&[u8]; 18] = [
    b"A", b"D", b"p/D", b"[LD;", b"[LA;", b"[I", b"[[J", b"java/lang/Object", b"module-info", b"p/package-info", "\u{e9}/\u{4e2d}".as_bytes(),
    b"D;", b"", b"[V", b"LD;", b"D/", b"\xed\xa0\x80", b"\xc0\x80",
];
const NAMES: [&[u8]; 19] = [
    b"m", b"A", b"<init>", b"<clinit>", b"<a", b"a>", b"a<b>", b"<init", b"init>", b"<init>x", b"", b"a;b", b"a.b", b"a/b", b"a[b",
    "\u{e9}".as_bytes(), b"\xed\xa0\x80", b"\xc0\x80", b"()V",
];
const DESCS: [&[u8]; 24] = [
    b"()V", b"()I", b"(I)V", b"(J[DLD;)LD;", b"()[I", b"()LV;", b"(L)V;)I", b"(LD;)V", b"([[V)V", b"()[V", b"(V)V", b"()VV", b"()", b"(", b"()v",
    b"I", b"J", b"D", b"LD;", b"[I", b"[LD;", b"V", b"L;", b"\xed\xa0\x80",
];

fn header(b: &mut Vec<u8>, major: u16) -> usize {
    b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0]);
    b.extend_from_slice(&major.to_be_bytes());
    b.extend_from_slice(&[0, 0]);
    // 1 "A", 2 class A
    b.extend_from_slice(&[1, 0, 1, b'A', 7, 0, 1]);
    b.len() - 9
}
fn text(b: &mut Vec<u8>, s: &[u8]) {
    b.push(1);
    b.extend_from_slice(&(s.len() as u16).to_be_bytes());
    b.extend_from_slice(s);
}
fn tail(b: &mut Vec<u8>, attrs: &[u8]) {
    b.extend_from_slice(&[0, 0x21, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0]);
    b.extend_from_slice(if attrs.is_empty() { &[0, 0] } else { &[0, 1] });
    b.extend_from_slice(attrs);
}

/// Each owner, name and descriptor in each sort of reference, alone and behind each sort of handle.
pub fn member_products(cx: &Ctx, kind: u8) {
    let versions = [50u16, 51, 52, 55, 61];
    let radix = [3 * 12 + 3, OWNERS.len() as u64, NAMES.len() as u64, DESCS.len() as u64, versions.len() as u64];
    cx.sweep(
        "products of references",
        "18 owners x 19 names x 24 descriptors (legal and illegal ones) in each kind of member reference, alone, behind each kind of \
         method handle 0 to 10, in dynamic constants and call sites and in an EnclosingMethod attribute, in five versions",
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (v, o, m, s) = (versions[d[4]], OWNERS[d[1]], NAMES[d[2]], DESCS[d[3]]);
                let at = header(b, v);
                text(b, o); // 3
                text(b, m); // 4
                text(b, s); // 5
                b.extend_from_slice(&[7, 0, 3]); // 6
                b.extend_from_slice(&[12, 0, 4, 0, 5]); // 7
                let mut next = 8u16;
                let mut attr = vec![];
                if d[0] < 36 {
                    b.extend_from_slice(&[9 + (d[0] / 12) as u8, 0, 6, 0, 7]); // 8
                    next += 1;
                    if d[0] % 12 > 0 {
                        b.extend_from_slice(&[15, (d[0] % 12 - 1) as u8, 0, 8]);
                        next += 1;
                    }
                } else if d[0] < 38 {
                    b.extend_from_slice(&[17 + (d[0] - 36) as u8, 0, 0, 0, 7]); // 8
                    b.extend_from_slice(&[1, 0, 3]); // 9
                    b.extend_from_slice(b"()V");
                    b.extend_from_slice(&[12, 0, 1, 0, 9]); // 10
                    b.extend_from_slice(&[10, 0, 2, 0, 10]); // 11
                    b.extend_from_slice(&[15, 6, 0, 11]); // 12
                    text(b, b"BootstrapMethods"); // 13
                    next = 14;
                    attr = vec![0, 13, 0, 0, 0, 8, 0, 1, 0, 12, 0, 1, 0, 6];
                } else {
                    text(b, b"EnclosingMethod"); // 8
                    next = 9;
                    attr = vec![0, 8, 0, 0, 0, 4, 0, 6, 0, 7];
                }
                b[at..at + 2].copy_from_slice(&next.to_be_bytes());
                tail(b, &attr);
                Some(kind)
            }
        },
    );
}

/// Each instruction with a constant operand, with each make of constant.
pub fn operand_products(cx: &Ctx, kind: u8) {
    const OPS: [u8; 16] = [18, 19, 20, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 189, 192, 193];
    const OWN: [&[u8]; 8] = [b"A", b"p/D", b"[LA;", b"[I", b"[[J", b"java/lang/Object", b"p/package-info", "\u{e9}".as_bytes()];
    const NAM: [&[u8]; 5] = [b"m", b"<init>", b"A", "\u{e9}".as_bytes(), b"\xc0\x80"];
    const DES: [&[u8]; 16] =
        [b"()V", b"()J", b"(I)V", b"(JD[J)LD;", b"(I)[[I", b"()LV;", b"I", b"J", b"D", b"F", b"Z", b"LD;", b"[I", b"[[LD;", b"[J", b"Ljava/lang/String;"];
    const TAGS: [u8; 12] = [9, 10, 11, 17, 18, 7, 15, 16, 8, 12, 5, 1];
    let versions = [46u16, 48, 49, 51, 52, 55, 61];
    let ops = OPS.len() as u64 + 8; // and multianewarray with eight dimension counts
    let radix = [ops, TAGS.len() as u64, OWN.len() as u64, NAM.len() as u64, DES.len() as u64, versions.len() as u64];
    cx.sweep(
        "products of operands",
        "each instruction with a constant operand x each kind of constant x 8 owners x 5 names x 16 descriptors x seven versions; \
         invokeinterface with its matching argument count, multianewarray with 0 to 255 dimensions",
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (tag, v) = (TAGS[d[1]], versions[d[5]]);
                // what a kind of constant does not depend on is not varied
                let (uses_own, uses_nat) = match tag {
                    9..=11 | 15 => (true, true),
                    17 | 18 | 12 => (false, true),
                    16 => (false, true),
                    7 | 8 | 1 => (true, false),
                    _ => (false, false),
                };
                if (!uses_own && d[2] > 0) || (!uses_nat && d[3] + d[4] > 0) || (tag == 16 && d[3] > 0) {
                    return None;
                }
                let field = DES[d[4]][0] != b'(';
                if uses_nat && tag != 12 && field != (tag == 9 || tag == 17) {
                    return None;
                }
                if NAM[d[3]] == b"<init>" && tag != 12 && !DES[d[4]].ends_with(b"V") {
                    return None;
                }
                let at = header(b, v);
                text(b, OWN[d[2]]); // 3
                text(b, NAM[d[3]]); // 4
                text(b, DES[d[4]]); // 5
                b.extend_from_slice(&[7, 0, 3]); // 6
                b.extend_from_slice(&[12, 0, 4, 0, 5]); // 7
                text(b, b"()V"); // 8
                text(b, b"Code"); // 9
                text(b, b"BootstrapMethods"); // 10
                b.extend_from_slice(&[12, 0, 1, 0, 8]); // 11
                b.extend_from_slice(&[10, 0, 2, 0, 11]); // 12
                let old = v < 51;
                if old {
                    b.extend_from_slice(&[3, 0, 0, 0, 1]);
                } else {
                    b.extend_from_slice(&[15, 6, 0, 12]); // 13
                }
                let (last, next) = match tag {
                    15 => (15u16, 16u16),
                    5 => (14, 16),
                    _ => (14, 15),
                };
                match tag {
                    9..=11 => b.extend_from_slice(&[tag, 0, 6, 0, 7]),
                    17 | 18 => b.extend_from_slice(&[tag, 0, 0, 0, 7]),
                    7 | 8 => b.extend_from_slice(&[tag, 0, 3]),
                    15 => b.extend_from_slice(&[10, 0, 6, 0, 7, 15, 5, 0, 14]),
                    16 => b.extend_from_slice(&[16, 0, 5]),
                    12 => b.extend_from_slice(&[12, 0, 4, 0, 5]),
                    5 => b.extend_from_slice(&[5, 0, 0, 0, 0, 0, 0, 0, 9]),
                    _ => text(b, OWN[d[2]]),
                }
                b[at..at + 2].copy_from_slice(&next.to_be_bytes());
                let l = last as u8;
                let ins: Vec<u8> = match d[0] {
                    0 => vec![18, l],
                    k if k >= OPS.len() => vec![197, 0, l, [0u8, 1, 2, 3, 4, 127, 128, 255][k - OPS.len()]],
                    k => match OPS[k] {
                        185 => {
                            let n = match DES[d[4]] {
                                b"(I)V" | b"(I)[[I" => 2,
                                b"(JD[J)LD;" => 6,
                                _ => 1,
                            };
                            vec![185, 0, l, n, 0]
                        }
                        186 => vec![186, 0, l, 0, 0],
                        op => vec![op, 0, l],
                    },
                };
                b.extend_from_slice(&[0, 0x21, 0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 1, 0, 8, 0, 1, 0, 9]);
                b.extend_from_slice(&(13 + ins.len() as u32).to_be_bytes());
                b.extend_from_slice(&[0, 9, 0, 9]);
                b.extend_from_slice(&(1 + ins.len() as u32).to_be_bytes());
                b.extend_from_slice(&ins);
                b.extend_from_slice(&[0xb1, 0, 0, 0, 0]);
                if old {
                    b.extend_from_slice(&[0, 0]);
                } else {
                    b.extend_from_slice(&[0, 1, 0, 10, 0, 0, 0, 6, 0, 1, 0, 13, 0, 0]);
                }
                Some(kind)
            }
        },
    );
}
