//! Relations: things of one class that a careless rule could tie to each other (a count to a
//! descriptor, a range to the length of the code, the name of an inner class to that of its outer
//! class, a constant to the type of its field), as full products of the values of all parties.
use crate::asm::*;
use crate::engine::*;

fn sweep(cx: &Ctx, name: &str, what: &str, radix: &[u64], kind: u8, make: impl Fn(&[usize]) -> Option<Class> + Sync) {
    cx.sweep(name, what, product(radix), || {
        let make = &make;
        move |i, b: &mut Vec<u8>| {
            *b = make(&digits(i, radix))?.bytes();
            Some(kind)
        }
    });
}
fn opt_class(c: &mut Class, s: &str) -> u16 {
    if s.is_empty() {
        0
    } else {
        c.pool.class(s)
    }
}
fn opt_text(c: &mut Class, s: &str) -> u16 {
    if s == "-" {
        0
    } else {
        c.pool.utf8(s)
    }
}

/// Names of nested, outer and enclosing classes.
fn nested_names(cx: &Ctx, kind: u8) {
    let inner = ["A", "A$B", "A$1", "A$1B", "B", "[LA$B;", "p/A$B", "p/package-info"];
    let outer = ["", "A", "p/A", "B", "A$B", "[LA;"];
    let names = ["-", "", "B", "1B", "A", "A$B", "1"];
    let flags = [0u16, 8, 0x0609, 0x4019, 0x2608, 0xffff];
    let this = ["A", "A$B", "p/A$B", "B"];
    sweep(
        cx,
        "names of nested classes",
        "one or two InnerClasses entries: 8 inner x 6 outer classes (or none) x 7 simple names (or none) x six flag sets x the class itself x its superclass; \
         the entry alone, repeated, before and after a plain one",
        &[8, 6, 7, 6, 4, 3, 4, 2],
        kind,
        |d| {
            let mut c = Class::new([52, 61][d[7]]);
            c.this = c.pool.class(this[d[4]]);
            c.sup = opt_class(&mut c, ["B", "A", "java/lang/Object"][d[5]]);
            let i = c.pool.class(inner[d[0]]);
            let o = opt_class(&mut c, outer[d[1]]);
            let n = opt_text(&mut c, names[d[2]]);
            let e = [i, o, n, flags[d[3]]];
            let plain = [c.pool.class("Q$R"), c.pool.class("Q"), c.pool.utf8("R"), 1];
            let list: &[[u16; 4]] = match d[6] {
                0 => &[e],
                1 => &[e, e],
                2 => &[plain, e],
                _ => &[e, plain],
            };
            let mut w = W::new().b2(list.len() as u32);
            for v in list.iter().flatten() {
                w = w.i2(*v);
            }
            c.add_attr("InnerClasses", w.done());
            Some(c)
        },
    );
    sweep(
        cx,
        "enclosing methods",
        "EnclosingMethod: 6 classes x 8 methods (or none) x 6 descriptors x the class itself x what an InnerClasses entry says about it",
        &[6, 8, 6, 4, 4, 2],
        kind,
        |d| {
            let mut c = Class::new([50, 61][d[5]]);
            c.this = c.pool.class(this[d[3]]);
            if d[4] > 0 {
                let t = c.this;
                let o = if d[4] == 1 { 0 } else { c.pool.class("A") };
                let n = if d[4] == 3 { c.pool.utf8("B") } else { 0 };
                c.add_attr("InnerClasses", W::new().b2(1).i2(t).i2(o).i2(n).b2(0).done());
            }
            let k = opt_class(&mut c, ["A", "A$B", "B", "[LA;", "p/package-info", ""][d[0]]);
            let m = if d[1] == 0 {
                if d[2] > 0 {
                    return None;
                }
                0
            } else {
                let n = ["m", "<init>", "<clinit>", "lambda$m$0", "A", "<x>", "a;"][d[1] - 1];
                c.pool.nat(n, ["()V", "(LA$B;)LA;", "()I", "I", "LA;", "("][d[2]])
            };
            c.add_attr("EnclosingMethod", W::new().i2(k).i2(m).done());
            Some(c)
        },
    );
    sweep(
        cx,
        "lists of classes",
        "NestMembers, PermittedSubclasses, Exceptions and NestHost: lists of up to three out of seven classes (itself, super, interface, array, Object, another, \
         one in another package), the class itself with five flag sets, with or without the other class lists",
        &[4, 8, 8, 8, 5, 3, 3],
        kind,
        |d| {
            let mut c = Class::new([52, 55, 61][d[5]]);
            let mut k: Vec<u16> = vec![];
            for x in &d[1..4] {
                if *x > 0 {
                    k.push(c.pool.class(["A", "B", "I", "[LA;", "java/lang/Object", "D", "p/D"][x - 1]));
                }
            }
            if d[3] > 0 && d[2] == 0 || d[2] > 0 && d[1] == 0 || d[0] == 3 && k.len() != 1 {
                return None;
            }
            c.ifs = vec![c.pool.class("I")];
            c.flags = [0x21, 0x31, 0x0600, 0x0421, 0x4030][d[4]];
            let mut w = W::new();
            if d[0] < 3 {
                w = w.b2(k.len() as u32);
            }
            for x in &k {
                w = w.i2(*x);
            }
            let me = c.this;
            if d[6] == 1 {
                c.add_attr("NestHost", W::new().i2(me).done());
            }
            if d[0] == 2 {
                let a = c.attr("Exceptions", w.done());
                c.add_method(1, "m", "()V", vec![a]);
            } else {
                c.add_attr(["NestMembers", "PermittedSubclasses", "", "NestHost"][d[0]], w.done());
            }
            if d[6] == 2 {
                c.add_attr("PermittedSubclasses", W::new().b2(1).i2(me).done());
            }
            Some(c)
        },
    );
}

/// Constants against the types they initialise.
fn typed_constants(cx: &Ctx, kind: u8) {
    const INTS: [i32; 19] = [0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 0x0001_0001, i32::MAX, i32::MIN];
    const FLOATS: [u32; 8] = [0, 0x8000_0000, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 1];
    const LONGS: [i64; 7] = [0, 1, -1, i32::MAX as i64 + 1, u32::MAX as i64, i64::MAX, i64::MIN];
    const DOUBLES: [u64; 7] = [0, 1 << 63, 0x3ff0_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001];
    const TEXTS: [&[u8]; 6] = [b"", b"A", b"\xc0\x80", b"\xed\xa0\x80", b"I", b"\xed\xa0\xbd\xed\xb8\x80"];
    const N: usize = 19 + 8 + 7 + 7 + 6 + 4;
    fn constant(c: &mut Class, k: usize) -> u16 {
        match k {
            0..=18 => c.pool.int(INTS[k]),
            19..=26 => c.pool.float(FLOATS[k - 19]),
            27..=33 => c.pool.long(LONGS[k - 27]),
            34..=40 => c.pool.double(DOUBLES[k - 34]),
            41..=46 => c.pool.string(TEXTS[k - 41]),
            47 => c.pool.utf8("A"),
            48 => c.this,
            49 => c.pool.mtype("()V"),
            _ => 0,
        }
    }
    let types = ["Z", "B", "C", "S", "I", "F", "J", "D", "Ljava/lang/String;", "Ljava/lang/Object;", "[I", "LA;"];
    sweep(
        cx,
        "constants of fields",
        "ConstantValue: 51 constants of every kind x 12 types of the field x seven flag sets of the field x class or interface x two names",
        &[N as u64, 12, 7, 2, 2, 2],
        kind,
        |d| {
            let mut c = Class::new([46, 61][d[5]]);
            if d[3] == 1 {
                c.flags = 0x0600;
            }
            let k = constant(&mut c, d[0]);
            let a = c.attr("ConstantValue", W::new().i2(k).done());
            c.add_field([0u16, 8, 0x10, 0x18, 0x19, 0x1018, 0x4019][d[2]], ["f", "serialVersionUID"][d[4]], types[d[1]], vec![a]);
            Some(c)
        },
    );
    sweep(
        cx,
        "constants of annotation elements",
        "element values: each tag for a constant x 51 constants of every kind, as a plain element, in an array, in a nested annotation, as a default value; \
         the method's return type or the field's type varied",
        &[10, N as u64, 8, 12, 2],
        kind,
        |d| {
            let tag = b"ZBCSIFJDsc"[d[0]];
            let mut c = Class::new(61);
            let k = if d[1] < 41 && b"sc".contains(&tag) && d[1] > 0 {
                return None;
            } else {
                // text constants are named by the text itself
                match d[1] {
                    41..=46 => c.pool.utf8b(TEXTS[d[1] - 41]),
                    k => constant(&mut c, k),
                }
            };
            let t = c.pool.utf8("LT;");
            let e = c.pool.utf8(["value", "x"][d[4]]);
            let v = W::new().b1(tag as u32).i2(k).done();
            let wrap = |v: Vec<u8>, how: usize| match how {
                0 => v,
                1 => W::new().b1(b'[' as u32).b2(1).raw(&v).done(),
                2 => W::new().b1(b'[' as u32).b2(2).raw(&v).raw(&v).done(),
                _ => W::new().b1(b'@' as u32).i2(t).b2(1).i2(e).raw(&v).done(),
            };
            let v = wrap(v, d[2] % 4);
            if d[2] < 4 {
                let a = c.attr("RuntimeVisibleAnnotations", W::new().b2(1).i2(t).b2(1).i2(e).raw(&v).done());
                c.add_field(0x19, "f", types[d[3]], vec![a]);
            } else {
                let a = c.attr("AnnotationDefault", v);
                c.flags = 0x2600;
                c.add_method(0x0401, ["value", "x"][d[4]], &format!("(){}", types[d[3]]), vec![a]);
            }
            Some(c)
        },
    );
}

/// Counts of parameters in a descriptor and in the attributes about parameters.
fn parameter_counts(cx: &Ctx, kind: u8) {
    let descs = ["()V", "(I)V", "(J)V", "(IJ)V", "(JD)I", "(LA;[I)V", "(III)V", "(Ljava/lang/String;I)V", "(Ljava/lang/String;ILA;)V"];
    sweep(
        cx,
        "counts of parameters",
        "nine descriptors x MethodParameters of 0 to 4 (or none) x visible and invisible parameter annotations of 0 to 4 (or none) x three names x four class and four method flag sets",
        &[9, 6, 6, 6, 3, 4, 4, 2],
        kind,
        |d| {
            let mut c = Class::new(61);
            c.flags = [0x21, 0x4031, 0x0600, 0x0020][d[5]];
            let (n, desc) = (["m", "<init>", "valueOf"][d[4]], descs[d[0]]);
            if n == "<init>" && (d[5] == 2 || !desc.ends_with('V')) {
                return None;
            }
            let mut at = vec![];
            if d[1] > 0 {
                let names = [c.pool.utf8("x"), 0, c.pool.utf8("this$0"), c.pool.utf8("x")];
                let mut w = W::new().b1(d[1] as u32 - 1);
                for k in 1..d[1] {
                    w = w.i2(names[k - 1]).b2([0x10u32, 0x8000, 0x1000, 0x9010][(k - 1 + d[7]) % 4]);
                }
                at.push(c.attr("MethodParameters", w.done()));
            }
            let t = c.pool.utf8("LT;");
            for (k, name) in [(2, "RuntimeVisibleParameterAnnotations"), (3, "RuntimeInvisibleParameterAnnotations")] {
                if d[k] > 0 {
                    let mut w = W::new().b1(d[k] as u32 - 1);
                    for j in 1..d[k] {
                        w = if (j + d[7]) % 2 == 0 { w.b2(0) } else { w.b2(1).i2(t).b2(0) };
                    }
                    at.push(c.attr(name, w.done()));
                }
            }
            c.add_method([0u16, 9, 0x0401, 0x1041][d[6]], n, desc, at);
            Some(c)
        },
    );
}

/// Ranges and numbers in a Code attribute against its length and limits.
fn code_ranges(cx: &Ctx, kind: u8) {
    // offsets worth trying for a body of n bytes
    fn at(n: usize, k: usize) -> u16 {
        [0, 1, n.wrapping_sub(1) as u16, n as u16, n as u16 + 1, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff][k]
    }
    fn body(k: usize) -> Vec<u8> {
        match k {
            0 => vec![0xb1],
            1 => vec![0, 0xb1],
            2 => vec![0x11, 1, 2, 0xb1],
            _ => {
                let mut v = vec![0; 299];
                v.push(0xb1);
                v
            }
        }
    }
    let with = |attrs: Vec<(&str, Vec<u8>)>, table: &[[u16; 4]], code: &[u8], limits: [u16; 2], flags: u16, desc: &str, major: u16| {
        let mut c = Class::new(major);
        let at: Vec<Attr> = attrs.into_iter().map(|(n, b)| c.attr(n, b)).collect();
        let a = c.attr("Code", code_body(limits[0], limits[1], code, table, &at));
        c.add_method(flags, "m", desc, vec![a]);
        c
    };
    sweep(
        cx,
        "exception ranges",
        "one exception table entry: start, end and handler out of 11 offsets about bodies of 1, 2, 4 and 300 bytes, five catch types; alone, repeated, and around another",
        &[11, 11, 11, 4, 5, 3],
        kind,
        |d| {
            let code = body(d[3]);
            let n = code.len();
            let mut c = Class::new(61);
            let t = opt_class(&mut c, ["", "A", "java/lang/Throwable", "[I", "E"][d[4]]);
            let e = [at(n, d[0]), at(n, d[1]), at(n, d[2]), t];
            let o = [0, n as u16, 0, 0];
            let list: &[[u16; 4]] = match d[5] {
                0 => &[e],
                1 => &[e, e],
                _ => &[o, e, o],
            };
            let a = c.attr("Code", code_body(1, 1, &code, list, &[]));
            c.add_method(1, "m", "()V", vec![a]);
            Some(c)
        },
    );
    sweep(
        cx,
        "line ranges",
        "two line number entries: start of each out of 11 offsets about bodies of 1, 2, 4 and 300 bytes, line of each out of six numbers; in one table or in two",
        &[11, 11, 6, 6, 4, 2],
        kind,
        |d| {
            let code = body(d[4]);
            let n = code.len();
            let l = [0u16, 1, 255, 256, 0x8000, 0xffff];
            let e = [W::new().i2(at(n, d[0])).i2(l[d[2]]).done(), W::new().i2(at(n, d[1])).i2(l[d[3]]).done()];
            let t = "LineNumberTable";
            let attrs = if d[5] == 0 {
                vec![(t, W::new().b2(2).raw(&e[0]).raw(&e[1]).done())]
            } else {
                vec![(t, W::new().b2(1).raw(&e[0]).done()), (t, W::new().b2(1).raw(&e[1]).done())]
            };
            Some(with(attrs, &[], &code, [1, 1], 1, "()V", 61))
        },
    );
    sweep(
        cx,
        "variable ranges",
        "a local variable (and its generic type): start, length and slot out of 11 offsets, four names, six types, bodies of 1 and 300 bytes, 0, 2 and 65535 local \
         slots; variables alone, types alone, or both",
        &[11, 11, 11, 4, 6, 2, 3, 3],
        kind,
        |d| {
            let code = body(d[5] * 3);
            let n = code.len();
            let max = [0u16, 2, 65535][d[6]];
            let slot = at(max as usize & 0x7fff, d[2]);
            let mut c = Class::new(61);
            let name = c.pool.utf8(["x", "this", "this$0", "\u{e9}"][d[3]]);
            let ty = c.pool.utf8(["I", "J", "LA;", "[D", "Ljava/lang/Object;", "Z"][d[4]]);
            let e = W::new().b2(1).i2(at(n, d[0])).i2(at(n, d[1])).i2(name).i2(ty).i2(slot).done();
            let mut attrs = vec![];
            if d[7] != 1 {
                attrs.push(c.attr("LocalVariableTable", e.clone()));
            }
            if d[7] != 0 {
                attrs.push(c.attr("LocalVariableTypeTable", e));
            }
            let a = c.attr("Code", code_body(1, max, &code, &[], &attrs));
            c.add_method(1, "m", "()V", vec![a]);
            Some(c)
        },
    );
    sweep(
        cx,
        "limits against contents",
        "stack and local limits out of six numbers x five bodies that load, store, wide-load and call x six descriptors x static or not x abstract or native or not x three versions",
        &[6, 6, 6, 6, 5, 3],
        kind,
        |d| {
            let l = [0u16, 1, 2, 255, 256, 65535];
            let code: &[u8] = [&[0xb1][..], &[0x1a, 0x57, 0xb1], &[0x15, 255, 0x57, 0xb1], &[0xc4, 0x15, 1, 0, 0x57, 0xb1], &[0x2a, 0x58, 0xb1], &[]][d[2]];
            let desc = ["()V", "(I)V", "(JJ)V", "(LA;)V", "([D)J", "(IIIIIIII)V"][d[3]];
            Some(with(vec![], &[], code, [l[d[0]], l[d[1]]], [0u16, 8, 0x0400, 0x0100, 0x0508][d[4]], desc, [46, 52, 61][d[5]]))
        },
    );
    sweep(
        cx,
        "frames against code",
        "two frames of a stack map: each out of 12 forms with eight offsets, bodies of 2, 4 and 300 bytes, three local limits, static or not, three versions",
        &[12, 8, 12, 8, 3, 3, 2, 3],
        kind,
        |d| {
            let code = body([1, 2, 3][d[4]]);
            let n = code.len() as u16;
            let mut c = Class::new([49, 50, 61][d[7]]);
            let me = c.this;
            let mut w = W::new().b2(2);
            for (f, o) in [(d[0], d[1]), (d[2], d[3])] {
                let delta = [0, 1, 2, n - 1, n, 63, 300, 65535][o];
                w = match f {
                    0 => w.b1(delta.min(63) as u32),
                    1 => w.b1(64 + delta.min(63) as u32).b1(1),
                    2 => w.b1(247).i2(delta).b1(7).i2(me),
                    3 => w.b1(248).i2(delta),
                    4 => w.b1(250).i2(delta),
                    5 => w.b1(251).i2(delta),
                    6 => w.b1(252).i2(delta).b1(4),
                    7 => w.b1(254).i2(delta).b1(3).b1(0).b1(8).i2(delta),
                    8 => w.b1(255).i2(delta).b2(0).b2(0),
                    9 => w.b1(255).i2(delta).b2(1).b1(6).b2(1).b1(5),
                    10 => w.b1(255).i2(delta).b2(2).b1(7).i2(me).b1(8).i2(delta).b2(0),
                    _ => w.b1(247).i2(delta).b1(8).i2(delta),
                };
            }
            let s = c.attr("StackMapTable", w.done());
            let a = c.attr("Code", code_body(1, [0, 1, 65535][d[5]], &code, &[], &[s]));
            c.add_method([0, 8][d[6]], "m", "()V", vec![a]);
            Some(c)
        },
    );
    sweep(
        cx,
        "type annotation ranges",
        "type annotations in code: each kind of target there with three numbers out of 11 offsets, bodies of 1 and 300 bytes, with and without a debug table and an exception table",
        &[10, 11, 11, 6, 2, 3],
        kind,
        |d| {
            let code = body(d[4] * 3);
            let n = code.len();
            let mut c = Class::new(61);
            let t = c.pool.utf8("LT;");
            let (x, y, z) = (at(n, d[1]), at(n, d[2]), at(n, d[3]));
            let tag = [0x40u32, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x4a, 0x4b][d[0]];
            let w = W::new().b2(1).b1(tag);
            let w = match tag {
                0x40 | 0x41 => w.b2(2).i2(x).i2(y).i2(z).i2(y).i2(x).i2(z),
                0x42..=0x46 => {
                    if d[2] + d[3] > 0 {
                        return None;
                    }
                    w.i2(x)
                }
                _ => {
                    if d[3] > 0 {
                        return None;
                    }
                    w.i2(x).b1(y as u32 & 255)
                }
            };
            let mut attrs = vec![c.attr(["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"][d[3] % 2], w.b1(0).i2(t).b2(0).done())];
            if d[5] == 1 {
                let (v, ty) = (c.pool.utf8("v"), c.pool.utf8("I"));
                attrs.push(c.attr("LocalVariableTable", W::new().b2(1).b2(0).b2(1).i2(v).i2(ty).b2(0).done()));
            }
            let table: &[[u16; 4]] = if d[5] == 2 { &[[0, 1, 0, 0]] } else { &[] };
            let a = c.attr("Code", code_body(1, 1, &code, table, &attrs));
            c.add_method(1, "m", "()V", vec![a]);
            Some(c)
        },
    );
}

/// How many Code attributes a method has, against what it is.
fn code_presence(cx: &Ctx, kind: u8) {
    sweep(
        cx,
        "presence of code",
        "0, 1 or 2 Code attributes (empty, plain, or with an Exceptions attribute before or after) x all of abstract, native, static, private, synthetic, bridge x five class flag \
         sets x four names x versions",
        &[3, 3, 64, 5, 4, 3],
        kind,
        |d| {
            let mut c = Class::new([46, 52, 61][d[5]]);
            c.flags = [0x21, 0x0421, 0x0600, 0x2600, 0x0030][d[3]];
            let name = ["m", "<init>", "<clinit>", "toString"][d[4]];
            if d[4] == 1 && c.flags & 0x200 != 0 {
                return None;
            }
            let mut f = 0u16;
            for (k, b) in [0x0400u16, 0x0100, 8, 2, 0x1000, 0x40].iter().enumerate() {
                if d[2] >> k & 1 == 1 {
                    f |= b;
                }
            }
            let code: &[u8] = if d[1] == 1 { &[] } else { &[0xb1] };
            let a = c.attr("Code", code_body(1, 1, code, &[], &[]));
            let mut at = vec![a; d[0]];
            if d[1] == 2 {
                let e = c.pool.class("E");
                let x = c.attr("Exceptions", W::new().b2(1).i2(e).done());
                at.insert(d[2] % (at.len() + 1), x);
            }
            c.add_method(f, name, "()V", at);
            Some(c)
        },
    );
}

/// Records against the fields and methods of the class, signatures against descriptors.
fn described_members(cx: &Ctx, kind: u8) {
    sweep(
        cx,
        "records and their members",
        "a record of 0 to 2 components x fields x accessors x superclass x flags x versions, components named alike or unlike their fields, with generic types",
        &[6, 5, 4, 3, 4, 3, 3],
        kind,
        |d| {
            let mut c = Class::new([52, 60, 61][d[5]]);
            c.sup = opt_class(&mut c, ["java/lang/Record", "java/lang/Object", "B"][d[3]]);
            c.flags = [0x31, 0x21, 0x0600, 0x4031][d[4]];
            let (x, y, i, l, z) = (c.pool.utf8("x"), c.pool.utf8("y"), c.pool.utf8("I"), c.pool.utf8("LA;"), c.pool.utf8("<init>"));
            let sig = c.pool.utf8("TT;");
            let s = c.attr("Signature", W::new().i2(sig).done());
            let s = attrs_bytes(&[s]);
            let list = [vec![], vec![(x, i)], vec![(x, i), (y, l)], vec![(x, i), (x, i)], vec![(x, i), (x, l)], vec![(z, i)]][d[0]].clone();
            let mut w = W::new().b2(list.len() as u32);
            for (n, t) in list {
                w = w.i2(n).i2(t).raw(if d[6] == 1 { &s } else { &[0, 0] });
            }
            match d[1] {
                1 => c.add_field(0x12, "x", "I", vec![]),
                2 => {
                    c.add_field(0x12, "x", "I", vec![]);
                    c.add_field(0x12, "y", "LA;", vec![]);
                }
                3 => c.add_field(0x0a, "x", "J", vec![]),
                4 => {
                    c.add_field(0x12, "x", "I", vec![]);
                    c.add_field(0x12, "x", "LA;", vec![]);
                }
                _ => (),
            }
            match d[2] {
                1 => c.add_method(1, "x", "()I", vec![]),
                2 => c.add_method(1, "x", "()LA;", vec![]),
                3 if c.flags & 0x200 != 0 => return None,
                3 => c.add_method(1, "<init>", "(I)V", vec![]),
                _ => (),
            }
            c.add_attr("Record", w.done());
            if d[6] == 2 {
                c.add_attr("Record", vec![0, 0]);
            }
            Some(c)
        },
    );
    let sigs = [
        "TT;", "I", "J", "[I", "LA;", "LA<TT;>;", "LA<*>;", "LA<LB;>.C;", "()V", "<T:LB;>()TT;", "(TT;I)V^TX;", "(I)V", "<T:Ljava/lang/Object;>LB;LI;", "LB;", "V", "", "L", "<>",
        "A", "()", "LA;LA;", "\u{e9}", "L\u{e9}/A<+[TT;>;", "-", "LA",
    ];
    let descs = ["I", "J", "[I", "LA;", "()V", "(LB;)LB;", "(LB;I)V", "(I)V", "()I"];
    sweep(
        cx,
        "signatures against descriptors",
        "Signature: 25 texts, right and wrong, for a class, a field, a method, a record component, next to nine descriptors; once or twice; for variables too",
        &[25, 9, 5, 2, 3],
        kind,
        |d| {
            let mut c = Class::new([48, 49, 61][d[4]]);
            let sig = c.pool.utf8(sigs[d[0]]);
            let s = c.attr("Signature", W::new().i2(sig).done());
            let s = vec![s; d[3] + 1];
            let field = d[1] < 4;
            match d[2] {
                0 if d[1] > 0 => return None,
                0 => c.attrs = s,
                1 if !field => return None,
                1 => c.add_field(1, "f", descs[d[1]], s),
                2 if field => return None,
                2 => c.add_method(1, "m", descs[d[1]], s),
                3 if !field => return None,
                3 => {
                    let (x, t) = (c.pool.utf8("x"), c.pool.utf8(descs[d[1]]));
                    c.add_attr("Record", W::new().b2(1).i2(x).i2(t).raw(&attrs_bytes(&s)).done())
                }
                _ => {
                    if field {
                        return None;
                    }
                    let x = c.pool.utf8("x");
                    let v = c.attr("LocalVariableTypeTable", W::new().b2(1).b2(0).b2(1).i2(x).i2(sig).b2(0).done());
                    let a = c.attr("Code", code_body(1, 1, &[0xb1], &[], &[v]));
                    c.add_method(1, "m", descs[d[1]], vec![a]);
                }
            }
            Some(c)
        },
    );
}

/// All of the above, by the property that owns the contents (0: all).
pub fn relations(cx: &Ctx, prop: u32, kind: u8) {
    let all = prop == 0;
    if all || prop == 13 {
        nested_names(cx, kind);
        described_members(cx, kind);
    }
    if all || prop == 13 || prop == 12 {
        typed_constants(cx, kind);
        parameter_counts(cx, kind);
    }
    if all || prop == 11 || prop == 12 {
        code_ranges(cx, kind);
    }
    if all || prop == 11 || prop == 13 {
        code_presence(cx, kind);
    }
}
