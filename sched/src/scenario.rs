//! What the threads do.
use crate::files;
use cafebabe_ts::attributes::{AttributeData, AttributeInfo};
use cafebabe_ts::{parse_class, parse_class_with_options, ClassFile, ParseError, ParseOptions};
use std::fmt::Write;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// parse the file and look at everything
    Parse(usize),
    /// the same without decoding bytecode
    ParseOff(usize),
    /// iterate the constant pool of the shared class
    Iter(usize),
    /// format the header, fields, methods and attributes of the shared class
    Fmt(usize),
    /// format the shared class itself (the text may show which locks are taken: it is not compared)
    FmtAll(usize),
    /// look up every offset of all code of the shared class
    Lookup(usize),
    /// format the shared result of parsing the file, class or error
    Err(usize),
    /// as Fmt and Lookup, on a class owned by all threads together
    FmtOwned(usize),
    LookupOwned(usize),
    /// give up this thread's part of the ownership
    Drop(usize),
}
use Op::*;

impl Op {
    fn text(&self) -> String {
        let n = |f: &usize| files::all()[*f].name;
        match self {
            Parse(f) => format!("parse '{}'", n(f)),
            ParseOff(f) => format!("parse '{}' without bytecode", n(f)),
            Iter(f) => format!("iterate pool of '{}'", n(f)),
            Fmt(f) => format!("format members of '{}'", n(f)),
            FmtAll(f) => format!("format '{}'", n(f)),
            Lookup(f) => format!("look up offsets of '{}'", n(f)),
            Err(f) => format!("format result of '{}'", n(f)),
            FmtOwned(f) => format!("format members of owned '{}'", n(f)),
            LookupOwned(f) => format!("look up offsets of owned '{}'", n(f)),
            Drop(f) => format!("drop '{}'", n(f)),
        }
    }
}

#[derive(Clone, PartialEq)]
pub struct Scenario {
    pub threads: Vec<Vec<Op>>,
    pub bound: u32,
}
impl Scenario {
    pub fn name(&self) -> String {
        let t: Vec<String> = self.threads.iter().map(|p| p.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ")).collect();
        t.join(" || ")
    }
}

type Res = Result<ClassFile<'static>, ParseError>;

/// What exists before the threads start.
#[derive(Clone, Default)]
pub struct World {
    leaked: Vec<Option<&'static Res>>,
    owned: Vec<Option<Arc<Res>>>,
}
pub fn world(s: &Scenario) -> World {
    let n = files::all().len();
    let mut w = World { leaked: vec![None; n], owned: vec![None; n] };
    for o in s.threads.iter().flatten() {
        match o {
            Iter(f) | Fmt(f) | FmtAll(f) | Lookup(f) | Err(f) => {
                if w.leaked[*f].is_none() {
                    w.leaked[*f] = Some(Box::leak(Box::new(parse_class(&files::all()[*f].bytes))));
                }
            }
            FmtOwned(f) | LookupOwned(f) | Drop(f) => {
                if w.owned[*f].is_none() {
                    w.owned[*f] = Some(Arc::new(parse_class(&files::all()[*f].bytes)));
                }
            }
            _ => (),
        }
    }
    w
}

fn members(c: &ClassFile, o: &mut String) {
    let _ = write!(
        o,
        "{} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
        c.major_version, c.minor_version, c.access_flags, c.this_class, c.super_class, c.interfaces, c.fields, c.methods, c.attributes
    );
    for f in &c.fields {
        let _ = write!(o, " {}", f.descriptor);
    }
    for m in &c.methods {
        let _ = write!(o, " {}", m.descriptor);
    }
}
fn offsets(a: &[AttributeInfo], o: &mut String) {
    for a in a {
        if let AttributeData::Code(c) = &a.data {
            if let Some(b) = &c.bytecode {
                for i in 0..c.code.len() + 2 {
                    let _ = write!(o, " {:?}", b.get_opcode_index(i));
                }
            }
        }
    }
}
fn result(r: &Res, o: &mut String, f: impl Fn(&ClassFile, &mut String)) {
    match r {
        Ok(c) => f(c, o),
        Result::Err(e) => {
            let _ = write!(o, "error {} / {:?}", e, e);
        }
    }
}
fn pool(c: &'static ClassFile<'static>, o: &mut String) {
    for i in c.constantpool_iter() {
        let _ = write!(o, " {:?}", i);
    }
}
fn lookup(c: &ClassFile, o: &mut String) {
    for m in &c.methods {
        offsets(&m.attributes, o);
    }
}
fn parse(f: usize, on: bool, o: &mut String) {
    let mut opts = ParseOptions::default();
    opts.parse_bytecode(on);
    // leaked so that its pool can be iterated, which borrows it for good; half of the parses instead
    // drop their result, so that dropping is explored too
    if on {
        let r: &'static Res = Box::leak(Box::new(parse_class_with_options(&files::all()[f].bytes, &opts)));
        result(r, o, members);
        if let Ok(c) = r {
            pool(c, o);
        }
    } else {
        let r: Res = parse_class_with_options(&files::all()[f].bytes, &opts);
        result(&r, o, members);
    }
}

/// Runs one operation; the text is what the thread observed.
pub fn perform(op: Op, w: &mut World) -> String {
    let mut o = String::new();
    match op {
        Parse(f) => parse(f, true, &mut o),
        ParseOff(f) => parse(f, false, &mut o),
        Iter(f) => match w.leaked[f].unwrap() {
            Ok(c) => pool(c, &mut o),
            r => result(r, &mut o, members),
        },
        Fmt(f) => result(w.leaked[f].unwrap(), &mut o, members),
        FmtAll(f) => {
            let _ = write!(o, "{:?}", w.leaked[f].unwrap());
            o.clear();
        }
        Lookup(f) => result(w.leaked[f].unwrap(), &mut o, lookup),
        Err(f) => match w.leaked[f].unwrap() {
            Ok(_) => o.push_str("accepted"),
            r => result(r, &mut o, members),
        },
        FmtOwned(f) => result(w.owned[f].as_ref().unwrap(), &mut o, members),
        LookupOwned(f) => result(w.owned[f].as_ref().unwrap(), &mut o, lookup),
        Drop(f) => w.owned[f] = None,
    }
    o
}

const KINDS: [&str; 13] = [
    "class",
    "string",
    "field reference",
    "method reference",
    "interface method reference",
    "method handle",
    "method type",
    "dynamic",
    "call site",
    "numbers",
    "module",
    "shared entries",
    "a constant loaded by code",
];

/// All scenarios of a tier.
pub fn all(thorough: bool) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = vec![];
    let mut add = |threads: &[&[Op]], bound: u32| {
        let s = Scenario { threads: threads.iter().map(|t| t.to_vec()).collect(), bound };
        if !v.contains(&s) {
            v.push(s);
        }
    };
    let t = |q: u32, th: u32| if thorough { th } else { q };
    let n = files::all().len();
    // parsing the same and different files
    for a in 0..n {
        for b in a..n {
            add(&[&[Parse(a)], &[Parse(b)]], t(3, 4));
        }
        add(&[&[Parse(a), Parse(a)], &[Parse(a)]], 2);
        add(&[&[ParseOff(a)], &[Parse(a)]], 2);
        add(&[&[ParseOff(a)], &[ParseOff(a)]], 2);
        // these cost next to nothing as long as parsers share nothing
        add(&[&[Parse(a)], &[Parse(a)], &[Parse(a)]], t(3, 4));
        add(&[&[Parse(a)], &[Parse(a)], &[Parse(a)], &[Parse(a)]], 3);
        let (b, c) = ((a + 1) % n, (a + n / 2) % n);
        add(&[&[Parse(a)], &[Parse(b)], &[Parse(c)]], t(2, 3));
        add(&[&[Err(a)], &[Err(a)]], 2);
        add(&[&[Parse(a)], &[Err(a)]], 2);
    }
    for a in 0..n {
        for b in 0..n {
            if a != b {
                add(&[&[Parse(a)], &[Parse(a)], &[Parse(b)]], t(2, 3));
            }
            if a != b && (thorough || (a + b) % 5 == 0) {
                add(&[&[Parse(a), Parse(b)], &[Parse(b), Parse(a)]], 2);
            }
        }
    }
    // one shared class, small
    for k in KINDS {
        let f = files::find(k);
        let ops = [Iter(f), Fmt(f), FmtAll(f), Lookup(f)];
        for a in 0..4 {
            for b in a..4 {
                add(&[&[ops[a]], &[ops[b]]], t(3, 4));
            }
        }
        add(&[&[Iter(f)], &[Parse(f)]], t(2, 3));
        add(&[&[Iter(f)], &[Parse(files::find("mixed"))]], t(2, 3));
        add(&[&[Iter(f), Iter(f)], &[Iter(f)]], t(2, 3));
        add(&[&[Iter(f)], &[Iter(f)], &[Iter(f)]], t(2, 3));
        add(&[&[Iter(f)], &[FmtAll(f)], &[Parse(f)]], t(1, 2));
        add(&[&[FmtOwned(f), Drop(f)], &[LookupOwned(f), Drop(f)]], t(3, 4));
        add(&[&[Drop(f)], &[Drop(f)], &[FmtOwned(f), Drop(f)]], t(2, 3));
        add(&[&[Drop(f)], &[Parse(f)]], t(2, 3));
    }
    // larger classes
    for (k, q, th) in [("mixed", 2, 3), ("everything", 1, 2), ("everything of modules", 1, 2)] {
        let f = files::find(k);
        let ops = [Iter(f), Fmt(f), FmtAll(f), Lookup(f), Parse(f)];
        for a in 0..4 {
            for b in a..5 {
                add(&[&[ops[a]], &[ops[b]]], t(q, th));
            }
        }
        add(&[&[FmtOwned(f), Drop(f)], &[LookupOwned(f), Drop(f)]], t(q, th));
        add(&[&[Iter(f)], &[Iter(f)], &[Iter(f)]], 1);
        add(&[&[Lookup(f)], &[Lookup(f)], &[Lookup(f)]], t(q, th));
        add(&[&[Lookup(f)], &[Fmt(f)], &[Iter(f)]], 1);
    }
    // two shared classes, used in opposite orders
    let (f, g) = (files::find("mixed"), files::find("shared entries"));
    add(&[&[Iter(f), Iter(g)], &[Iter(g), Iter(f)]], t(1, 2));
    add(&[&[Lookup(f), Iter(g)], &[Iter(g), Lookup(f)]], t(2, 3));
    // a shared class while other files are refused
    for b in files::find("class cycle")..n {
        add(&[&[Iter(g)], &[Parse(b)]], t(2, 3));
        add(&[&[Iter(g)], &[Parse(b)], &[Parse(b)]], 1);
    }
    v
}
