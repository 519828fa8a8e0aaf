//! Spaces around what is well known: names with a meaning of their own, and code under every version.
use crate::asm::*;
use crate::engine::*;
use crate::gen::*;
use crate::spaces::*;
use crate::spaces2::*;

/// Texts that the platform gives a meaning to, in every role.
pub const WORDS: [&str; 110] = [
    "java/lang/Object", "java/lang/Throwable", "java/lang/Exception", "java/lang/Error", "java/lang/String", "java/lang/Class",
    "java/lang/Enum", "java/lang/Record", "java/lang/Module", "java/lang/annotation/Annotation", "java/lang/Deprecated", "java/lang/Iterable",
    "java/lang/Override", "java/lang/FunctionalInterface", "java/lang/Cloneable", "java/io/Serializable", "java/lang/invoke/MethodHandle",
    "java/lang/invoke/MethodHandles", "java/lang/invoke/MethodHandles$Lookup", "java/lang/invoke/VarHandle", "java/lang/invoke/LambdaMetafactory",
    "java/lang/invoke/StringConcatFactory", "java/lang/runtime/ObjectMethods", "java/lang/invoke/ConstantBootstraps", "module-info",
    "package-info", "p/module-info", "p/package-info", "java.base", "java.lang", "java/lang", "java", "kotlin/Metadata", "scala/Array",
    "Object", "Ljava/lang/Object;", "[Ljava/lang/Object;", "[[Ljava/lang/Object;", "[B", "[C", "[I", "[[I", "Ljava/lang/String;",
    "[Ljava/lang/String;", "Ljava/lang/Class;", "Ljava/lang/Throwable;", "Ljava/lang/Deprecated;", "Ljava/lang/FunctionalInterface;",
    "Ljava/lang/annotation/Retention;", "Ljava/lang/annotation/RetentionPolicy;", "Ljava/lang/annotation/Repeatable;",
    "Ljava/lang/SafeVarargs;", "Lkotlin/Metadata;", "Lkotlin/Deprecated;", "Lscala/reflect/ScalaSignature;", "()V", "()Ljava/lang/String;",
    "()Ljava/lang/Object;", "(Ljava/lang/Object;)Z", "([Ljava/lang/String;)V", "([Ljava/lang/Object;)Ljava/lang/Object;", "()I", "(Ljava/lang/String;I)V",
    "(Ljava/lang/invoke/MethodHandles$Lookup;Ljava/lang/String;Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/CallSite;", "<init>", "<clinit>",
    "main", "clone", "finalize", "toString", "hashCode", "equals", "getClass", "invoke", "invokeExact", "metafactory", "values", "valueOf",
    "$VALUES", "serialVersionUID", "$assertionsDisabled", "this", "this$0", "super", "value", "null", "true", "false", "void", "int", "V", "I",
    "Synthetic", "Deprecated", "Code", "StackMap", "ModuleTarget", "ModuleHashes", "ModuleResolution", "Scala", "ScalaSig", "Unknown", "UTF8", "UTF-8", "unknown", "none", "0", "9.0.1",
    "RuntimeVisibleAnnotation", "MethodParameter",
];

/// Start and length of each text of the constant pool.
pub fn texts_of(b: &[u8]) -> Vec<(usize, usize)> {
    let u2 = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]) as usize;
    let n = u2(8);
    let (mut ix, mut k, mut v) = (10, 1, vec![]);
    while k < n {
        let t = b[ix];
        ix += 1;
        k += 1;
        ix += match t {
            1 => {
                v.push((ix + 2, u2(ix)));
                2 + u2(ix)
            }
            5 | 6 => {
                k += 1;
                8
            }
            7 | 8 | 16 | 19 | 20 => 2,
            15 => 3,
            _ => 4,
        };
    }
    v
}
/// Each text of a file replaced by each well-known one.
pub fn known_words(cx: &Ctx, pick: impl Fn(&Family) -> bool, kind: u8) {
    let mut files: Vec<Vec<u8>> = vec![everything(61), everything(52), everything_module(55)];
    for f in FAMILIES.iter().filter(|f| pick(f)) {
        let p = Pal::new(if f.module { 55 } else { 61 }, f.module, &family_names(f));
        let mut ch = Ch::fixed(&[]);
        let body = (f.f)(&mut ch, &p);
        files.push(p.put(f.host, &[p.attr(f.attr, body)]));
    }
    let spans: Vec<_> = files.iter().map(|f| texts_of(f)).collect();
    let words: Vec<Vec<u8>> = WORDS.iter().map(|w| encode(w)).collect();
    let (st, n) = starts(spans.iter().map(|s| (s.len() * words.len()) as u64));
    cx.sweep(
        "well-known texts",
        "each text of each file (all attribute kinds at once and one by one) replaced by each of 110 class, member, package, module and \
         attribute names, descriptors and keywords with a meaning of their own",
        n,
        || {
            let (files, spans, words, st) = (&files, &spans, &words, &st);
            move |i, b: &mut Vec<u8>| {
                let (k, j) = locate(st, i);
                let j = j as usize;
                let (at, len) = spans[k][j / words.len()];
                let w = &words[j % words.len()];
                b.extend_from_slice(&files[k][..at - 2]);
                b.extend_from_slice(&(w.len() as u16).to_be_bytes());
                b.extend_from_slice(w);
                b.extend_from_slice(&files[k][at + len..]);
                Some(kind)
            }
        },
    );
}
/// Small classes made of well-known names only.
pub fn known_classes(cx: &Ctx, kind: u8) {
    let classes = [
        "", "p/C", "java/lang/Object", "java/lang/Enum", "java/lang/Record", "java/lang/Throwable", "java/lang/String", "java/lang/annotation/Annotation",
        "module-info", "package-info", "p/package-info", "[Ljava/lang/Object;", "java/lang/Cloneable", "java/lang/Error",
    ];
    let members: [(u8, &str, &str); 18] = [
        (0, "", ""),
        (1, "serialVersionUID", "J"),
        (1, "$VALUES", "[Lp/C;"),
        (1, "value", "[C"),
        (1, "this$0", "Lp/C;"),
        (1, "$assertionsDisabled", "Z"),
        (1, "length", "I"),
        (2, "main", "([Ljava/lang/String;)V"),
        (2, "<init>", "()V"),
        (2, "<init>", "(Ljava/lang/String;I)V"),
        (2, "<clinit>", "()V"),
        (2, "values", "()[Lp/C;"),
        (2, "valueOf", "(Ljava/lang/String;)Lp/C;"),
        (2, "finalize", "()V"),
        (2, "clone", "()Ljava/lang/Object;"),
        (2, "toString", "()Ljava/lang/String;"),
        (2, "access$000", "()I"),
        (2, "lambda$main$0", "()V"),
    ];
    let flags = [0x21u16, 0x0600, 0x2600, 0x4031, 0x1600, 0x1000, 0x8000];
    let versions = [45u16, 51, 53, 61, 70];
    let radix = [classes.len() as u64, classes.len() as u64, 4, members.len() as u64, flags.len() as u64, versions.len() as u64, 3];
    cx.sweep(
        "well-known classes",
        "this class, superclass (or none), an interface, a member, flags and version, all combinations of 14 class names and 18 members",
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                if d[0] == 0 {
                    return None;
                }
                let mut c = Class::new(versions[d[5]]);
                c.flags = flags[d[4]];
                c.this = c.pool.class(classes[d[0]]);
                c.sup = if d[1] == 0 { 0 } else { c.pool.class(classes[d[1]]) };
                if d[2] > 0 {
                    c.ifs = vec![c.pool.class(["", "java/lang/annotation/Annotation", "java/io/Serializable", "java/lang/Object"][d[2]])];
                }
                let (m, name, desc) = members[d[3]];
                let f = [0u16, 9, 0x1018][d[6]];
                match m {
                    1 => c.add_field(f, name, desc, vec![]),
                    2 => c.add_method(f, name, desc, vec![]),
                    _ if d[6] > 0 => return None,
                    _ => (),
                }
                *b = c.bytes();
                Some(kind)
            }
        },
    );
}
/// Every instruction under every version, in every sort of method and class.
pub fn code_versions(cx: &Ctx, kind: u8) {
    const LO: u16 = 45;
    const N: usize = 26;
    let pals: Vec<(Pal, Vec<Vec<u8>>, Vec<u16>)> = (0..N)
        .map(|k| {
            let mut p = Pal::new(LO + k as u16, false, &[]);
            let names = ["m", "<init>", "<clinit>"].iter().map(|n| p.c.pool.utf8(n)).collect();
            let f = forms(&p);
            (p, f, names)
        })
        .collect();
    let most = pals.iter().map(|p| p.1.len()).max().unwrap() as u64;
    let mflags = [0u16, 8, 0x0401, 0x0100, 0x0800, 0x1040];
    let cflags = [0x21u16, 0x0600, 0x4031];
    let radix = [most, N as u64, 3, mflags.len() as u64, cflags.len() as u64, 2];
    cx.sweep(
        "instructions in every context",
        "each form of each instruction in versions 45 to 70 with minor versions 0 and 65535, in a method, constructor or class \
         initializer, with six method and three class flag sets",
        product(&radix),
        || {
            let pals = &pals;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (p, f, names) = &pals[d[1]];
                let ins = f.get(d[0])?;
                let mut c = p.c.clone();
                c.flags = cflags[d[4]];
                c.minor = [0, 65535][d[5]];
                let desc = c.pool.utf8("()V");
                let body = code_body(2, 2, &[ins, &[0xb1][..]].concat(), &[], &[]);
                c.methods.push(Member { flags: mflags[d[3]], name: names[d[2]], desc, attrs: vec![p.attr("Code", body)] });
                if let Some(x) = &p.bsm {
                    c.attrs.push(Attr { name: u16::from_be_bytes([x[0], x[1]]), len: None, body: x[6..].to_vec() });
                }
                *b = c.bytes();
                Some(kind)
            }
        },
    );
}
