//! Spaces made from the words and numbers that stand in the source of the crate: what it compares with
//! must occur in the input. They choose inputs only; the verdict on each is the model's.
use crate::engine::*;
use crate::gen::*;
use crate::spaces::*;
use std::sync::OnceLock;

const SOURCE: &str = "/repo/src";

pub struct Dict {
    pub words: Vec<Vec<u8>>,
    pub numbers: Vec<u64>,
}

fn lex(t: &[u8], words: &mut Vec<Vec<u8>>, numbers: &mut Vec<u64>) {
    let at = |i: usize| t.get(i).copied().unwrap_or(0);
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c == b'/' && at(i + 1) == b'/' {
            while i < t.len() && t[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && at(i + 1) == b'*' {
            while i < t.len() && !(at(i) == b'*' && at(i + 1) == b'/') {
                i += 1;
            }
            i += 2;
        } else if (c == b'r' && at(i + 1) == b'"' || c == b'r' && at(i + 1) == b'#' && (at(i + 2) == b'"' || at(i + 2) == b'#')) && (i == 0 || !ident(t[i - 1]) || t[i - 1] == b'b') {
            let hashes = t[i + 1..].iter().take_while(|c| **c == b'#').count();
            let start = i + 2 + hashes;
            let end = [&b"\""[..], &vec![b'#'; hashes]].concat();
            let len = t[start.min(t.len())..].windows(end.len()).position(|w| w == end).unwrap_or(0);
            words.push(t[start.min(t.len())..(start + len).min(t.len())].to_vec());
            i = start + len + end.len();
        } else if c == b'"' || c == b'\'' {
            let mut s = vec![];
            let mut j = i + 1;
            while j < t.len() && t[j] != c {
                if t[j] == b'\\' {
                    j += 1;
                    match at(j) {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'r' => s.push(b'\r'),
                        b'0' => s.push(0),
                        b'x' => {
                            let h = std::str::from_utf8(&t[(j + 1).min(t.len())..(j + 3).min(t.len())]).unwrap_or("");
                            s.push(u8::from_str_radix(h, 16).unwrap_or(b'?'));
                            j += 2;
                        }
                        b'u' => {
                            let len = t[j..].iter().position(|c| *c == b'}').unwrap_or(0);
                            let h: String = t[j..j + len].iter().filter(|c| c.is_ascii_hexdigit()).map(|c| *c as char).collect();
                            let ch = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?');
                            s.extend(ch.to_string().bytes());
                            j += len;
                        }
                        o => s.push(o),
                    }
                } else {
                    s.push(t[j]);
                }
                j += 1;
                if c == b'\'' && s.len() > 8 {
                    break;
                }
            }
            if c == b'\'' && (at(j) != b'\'' || String::from_utf8_lossy(&s).chars().count() != 1) {
                // a lifetime
                i += 1;
            } else {
                words.push(s);
                i = j + 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !ident(t[i - 1])) {
            let mut j = i;
            while ident(at(j)) {
                j += 1;
            }
            let s: String = t[i..j].iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
            let (r, d) = match s.get(..2) {
                Some("0x") => (16, &s[2..]),
                Some("0b") => (2, &s[2..]),
                Some("0o") => (8, &s[2..]),
                _ => (10, &s[..]),
            };
            let d = d.split(['u', 'i']).next().unwrap();
            if let Ok(v) = u64::from_str_radix(d, r) {
                numbers.push(v);
                // 1 << k
                if (2..32).contains(&v) && i >= 3 && t[..i].ends_with(b"<< ") {
                    numbers.push(1 << v);
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

fn sources(dir: &std::path::Path, out: &mut Vec<Vec<u8>>) {
    let mut list: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    list.sort();
    for p in list {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.extend(std::fs::read(&p).ok());
        }
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (mut words, mut numbers, mut files) = (vec![], vec![], vec![]);
        sources(std::path::Path::new(SOURCE), &mut files);
        for f in &files {
            // not the unit tests at the end
            let end = f.windows(12).position(|w| w == b"#[cfg(test)]").unwrap_or(f.len());
            lex(&f[..end], &mut words, &mut numbers);
        }
        words.retain(|w| !w.is_empty() && w.len() <= 64 && !w.contains(&b'{') && w.iter().filter(|c| **c == b' ').count() <= (w.len() == 1) as usize);
        let mut words: Vec<Vec<u8>> = words.iter().filter_map(|w| std::str::from_utf8(w).ok().map(encode)).collect();
        words.sort();
        words.dedup();
        words.truncate(600);
        numbers.sort();
        numbers.dedup();
        numbers.truncate(1500);
        Dict { words, numbers }
    })
}
/// The numbers, and those next to them, from `lo` to `hi`.
pub fn near(lo: u64, hi: u64) -> Vec<u64> {
    let mut v: Vec<u64> = dict().numbers.iter().flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1)]).filter(|n| (lo..=hi).contains(n)).collect();
    v.sort();
    v.dedup();
    v
}

/// Each text of a file replaced by a word, or with a word before or behind it.
pub fn dict_words(cx: &Ctx, kind: u8) {
    let files: Vec<Vec<u8>> = vec![everything(61), everything_module(55)];
    let spans: Vec<_> = files.iter().map(|f| crate::spaces4::texts_of(f)).collect();
    let words = &dict().words;
    let (st, n) = starts(spans.iter().map(|s| (s.len() * words.len() * 3) as u64));
    cx.sweep(
        "words of the source in texts",
        &format!("each text of the richest files replaced by each of the {} words that occur in the source of the crate, or with the word before or behind it", words.len()),
        n,
        || {
            let (files, spans, st) = (&files, &spans, &st);
            move |i, b: &mut Vec<u8>| {
                let (k, j) = locate(st, i);
                let j = j as usize;
                let (at, len) = spans[k][j / 3 / words.len()];
                let w = &words[j / 3 % words.len()];
                let old = &files[k][at..at + len];
                let new = match j % 3 {
                    0 => w.clone(),
                    1 => [w, old].concat(),
                    _ => [old, w].concat(),
                };
                b.extend_from_slice(&files[k][..at - 2]);
                b.extend_from_slice(&(new.len() as u16).to_be_bytes());
                b.extend_from_slice(&new);
                b.extend_from_slice(&files[k][at + len..]);
                Some(kind)
            }
        },
    );
    let around: [(&str, &str); 7] = [("", ""), ("a", ""), ("", "a"), ("a/", ""), ("", "/a"), ("a", "a"), ("[L", ";")];
    let radix = [words.len() as u64, around.len() as u64, (NAME_ROLES + DESC_ROLES + TEXT_ROLES) as u64];
    cx.sweep(
        "words of the source in roles",
        &format!("each of {} words of the source, alone and with a letter, a segment or a descriptor around it, in every role of a name, descriptor or text", words.len()),
        product(&radix),
        || {
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (x, y) = around[d[1]];
                let s = [x.as_bytes(), &words[d[0]], y.as_bytes()].concat();
                *b = match d[2] {
                    r if r < NAME_ROLES => name_role(r, &s),
                    r if r < NAME_ROLES + DESC_ROLES => desc_role(r - NAME_ROLES, &s),
                    r => text_role(r - NAME_ROLES - DESC_ROLES, &s),
                };
                Some(kind)
            }
        },
    );
}

/// Each 16-bit and 32-bit field of the richest files set to a number of the source, or one beside it.
pub fn dict_numbers(cx: &Ctx, kind: u8) {
    let files: Vec<Vec<u8>> = vec![everything(61), everything_module(55)];
    let two = near(256, 65535);
    let four = near(65536, u32::MAX as u64);
    let each = two.len() + four.len();
    let (st, n) = starts(files.iter().map(|f| ((f.len() - 3) * each) as u64));
    cx.sweep(
        "numbers of the source in fields",
        &format!("each 16-bit field of the richest files set to each of {} numbers beyond a byte, and each 32-bit field to each of {} larger ones, that occur in the source or are next to one that does", two.len(), four.len()),
        n,
        || {
            let (files, st, two, four) = (&files, &st, &two, &four);
            move |i, b: &mut Vec<u8>| {
                let (k, j) = locate(st, i);
                let (at, v) = (j as usize / each, j as usize % each);
                b.extend_from_slice(&files[k]);
                match two.get(v) {
                    Some(x) => b[at..at + 2].copy_from_slice(&(*x as u16).to_be_bytes()),
                    None => b[at..at + 4].copy_from_slice(&(four[v - two.len()] as u32).to_be_bytes()),
                }
                Some(kind)
            }
        },
    );
}

/// Lists, texts and codes as long as a number of the source, or one more or less.
pub fn dict_sizes(cx: &Ctx, max: u64, kind: u8) {
    let sizes = near(1, max);
    let radix = [crate::spaces2::SCALED, sizes.len() as u64];
    cx.sweep("sizes of the source", &format!("each of {} kinds of list with as many elements as each of {} numbers of up to {} that occur in the source, or are next to one that does", radix[0], sizes.len(), max), product(&radix), || {
        let sizes = &sizes;
        move |i, b: &mut Vec<u8>| {
            let d = digits(i, &radix);
            *b = crate::spaces2::scaled(d[0] as u64, sizes[d[1]] as usize)?;
            (b.len() <= SLOT_DATA).then_some(kind)
        }
    });
    let units: [&[u8]; 4] = [b"a", b"\xc0\x80", b"\xe4\xb8\xad", b"/"];
    let radix = [units.len() as u64, 2, (NAME_ROLES + DESC_ROLES + TEXT_ROLES) as u64, sizes.len() as u64];
    cx.sweep(
        "text lengths of the source",
        "texts as long as each of those numbers, of one letter but for the last character (a letter, NUL, another one of three bytes, or a slash), or all of it, in every role",
        product(&radix),
        || {
            let sizes = &sizes;
            move |i, b: &mut Vec<u8>| {
                let d = digits(i, &radix);
                let (u, l) = (units[d[0]], sizes[d[3]] as usize);
                if l < u.len() || l > 65535 {
                    return None;
                }
                let s = if d[1] == 0 { [&vec![b'a'; l - u.len()][..], u].concat() } else { u.repeat(l / u.len()) };
                *b = match d[2] {
                    r if r < NAME_ROLES => name_role(r, &s),
                    r if r < NAME_ROLES + DESC_ROLES => {
                        let inner = &s[..s.len().saturating_sub(3)];
                        desc_role(r - NAME_ROLES, &[b"[L", inner, b";"].concat())
                    }
                    r => text_role(r - NAME_ROLES - DESC_ROLES, &s),
                };
                Some(kind)
            }
        },
    );
}
/// Every list in the contents of every attribute, as long as a number of the source.
pub fn dict_lists(cx: &Ctx, pick: impl Fn(&Family) -> bool, max: u64, kind: u8) {
    let sizes: Vec<usize> = near(1, max).iter().map(|n| *n as usize).collect();
    let fams: Vec<(&Family, Pal)> = FAMILIES.iter().filter(|f| pick(f)).map(|f| (f, family_pal(f))).collect();
    let lists: Vec<usize> = fams
        .iter()
        .map(|(f, p)| {
            let mut ch = Ch::fixed(&[]);
            (f.f)(&mut ch, p);
            ch.lists
        })
        .collect();
    let (st, n) = starts(lists.iter().map(|l| (*l * sizes.len()) as u64));
    cx.sweep("list lengths of the source", &format!("every list in the contents of every attribute with as many elements as each of {} numbers of up to {}", sizes.len(), max), n, || {
        let (fams, st, sizes) = (&fams, &st, &sizes);
        move |i, out: &mut Vec<u8>| {
            let (k, j) = locate(st, i);
            let (f, p) = &fams[k];
            let mut ch = Ch::fixed(&[]);
            ch.stretch = Some((j as usize / sizes.len(), sizes[j as usize % sizes.len()]));
            let body = (f.f)(&mut ch, p);
            *out = p.put(f.host, &[p.attr(f.attr, body)]);
            (out.len() <= SLOT_DATA).then_some(kind)
        }
    });
}
