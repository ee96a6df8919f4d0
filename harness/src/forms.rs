//! Dense enumerations of the scanner's lexical forms: escapes, numbers, dollar quotes, comments, operators.
use std::sync::OnceLock;
use vcore::rng::Rng;

fn words(alpha: &[&str], max: usize, host: (&str, &str), out: &mut Vec<String>) {
    let mut idx = vec![0usize; 0];
    for len in 0..=max {
        idx.clear();
        idx.resize(len, 0);
        loop {
            let mut s = String::from(host.0);
            for i in &idx {
                s.push_str(alpha[*i]);
            }
            s.push_str(host.1);
            out.push(s);
            let mut k = 0;
            while k < len {
                idx[k] += 1;
                if idx[k] < alpha.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == len {
                break;
            }
        }
    }
}

fn escapes() -> Vec<String> {
    let mut v = Vec::new();
    let mut rng = Rng::new(1, "escapes", 0);
    let mut e = |body: String| v.push(format!("select E'{body}', 1"));
    // every code unit; those that are not surrogates in groups
    for base in (0..0x10000u32).step_by(64) {
        if (0xD800..0xE000).contains(&base) {
            for c in base..base + 64 {
                e(format!("\\u{c:04x}"));
                e(format!("\\U{c:08X}"));
            }
        } else {
            let from = base.max(1);
            e((from..base + 64).map(|c| format!("\\u{c:04X}")).collect());
            e((from..base + 64).map(|c| format!("\\U{c:08x}")).collect());
        }
    }
    // every high half with the ends of the low range and one in the middle, in both notations
    for h in 0xD800..0xDC00u32 {
        for l in [0xDC00, 0xDFFF, 0xDC00 + rng.below(1024) as u32] {
            e(format!("\\u{h:04X}\\u{l:04x}"));
        }
        let l = 0xDC00 + rng.below(1024) as u32;
        e(format!("\\U{h:08X}\\u{l:04x}"));
        e(format!("\\u{h:04x}\\U{l:08X}"));
    }
    for l in 0xDC00..0xE000u32 {
        e(format!("\\uD800\\u{l:04x}"));
        e(format!("\\uDBFF\\u{l:04x}"));
    }
    // what may follow a high half
    let after = ["", "a", "\\n", "\\x41", "\\101", "'\n'", "'\n'\\uDC00", "\\uD800", "\\uE000", "\\uDBFF\\uDC00", "\\u0041", "\\U0001F600", "\\\\", "\\u", "\\uDC0", "\\UDC00", "\n", "é", "''", "\\'"];
    for h in [0xD800, 0xD83D, 0xDBFF] {
        for a in after {
            e(format!("\\u{h:04X}{a}"));
            e(format!("x\\U{h:08X}{a}y"));
        }
    }
    for a in after {
        e(a.to_string());
        e(format!("\\uD83D\\uDE00{a}"));
    }
    // code points around every power of two and every plane
    let mut points: Vec<u32> = vec![0x10FFFF, 0x110000, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE];
    for k in 0..32 {
        points.extend([1u32 << k, (1u32 << k) - 1, (1u32 << k) + 1]);
    }
    for p in 1..=0x12u32 {
        points.extend([p << 16, (p << 16) - 1, (p << 16) | 0xD800, (p << 16) | 0xDC00]);
    }
    for _ in 0..400 {
        points.push(rng.below(0x120000) as u32);
    }
    for c in &points {
        e(format!("\\U{c:08x}"));
        e(format!("a\\U{c:08X}\\u0041"));
    }
    // octal and hexadecimal, every value and length; what follows is not part of them
    for n in 0..512u32 {
        e(format!("\\{n:o}"));
        e(format!("\\{n:03o}"));
        e(format!("\\{n:03o}1"));
        e(format!("\\{n:o}89"));
    }
    for n in 0..256u32 {
        e(format!("\\x{n:x}"));
        e(format!("\\x{n:02X}"));
        e(format!("\\x{n:02x}f"));
        e(format!("\\x{n:02x}\\x{:02x}", 0x80 | n >> 2));
        e(format!("a\\{n:o}'\n'\\{n:o}"));
    }
    // any single character after the backslash
    for c in (1..128u32).chain([0xE9, 0x3B1, 0x2028, 0xFEFF, 0x1F600]) {
        let c = char::from_u32(c).unwrap();
        e(format!("\\{c}"));
        e(format!("\\{c}0"));
        e(format!("a\\\\\\{c}'"));
    }
    // too few digits
    for (k, n) in [('u', 4), ('U', 8), ('x', 2)] {
        for have in 0..n {
            for end in ["", "g", " ", "é", "\\n", "''", "'\n'0", "+"] {
                e(format!("\\{k}{}{end}", &"0041004100"[..have]));
            }
        }
    }
    // the same for U& strings and identifiers
    for (o, c) in [("U&'", "'"), ("u&\"", "\"")] {
        let mut u = |body: String| v.push(format!("select {o}{body}{c}, 1"));
        for base in (0..0x10000u32).step_by(64) {
            let from = base.max(1);
            if (0xD800..0xE000).contains(&base) {
                for k in base..base + 64 {
                    u(format!("\\{k:04x}"));
                }
            } else {
                u((from..base + 64).map(|k| format!("\\{k:04X}")).collect());
            }
        }
        for h in 0xD800..0xDC00u32 {
            let l = 0xDC00 + rng.below(1024) as u32;
            u(format!("\\{h:04X}\\{l:04x}"));
            u(format!("\\+{h:06X}\\{l:04x}"));
        }
        for k in &points {
            if *k < 0x1000000 {
                u(format!("\\+{k:06x}"));
                u(format!("a\\+{k:06X}\\0041"));
            }
        }
        for k in 1..128u32 {
            u(format!("\\{}", char::from_u32(k).unwrap()));
            u(format!("\\\\{}", char::from_u32(k).unwrap()));
        }
        for a in after {
            u(a.to_string());
            u(format!("\\D83D{a}"));
        }
        for have in 0..4 {
            for end in ["", "g", " ", "é", "\\", "''", "+"] {
                u(format!("\\{}{end}", &"0041"[..have]));
                u(format!("\\+{}{end}", &"000041"[..have + 2]));
            }
        }
    }
    v
}

fn numbers() -> Vec<String> {
    let mut v = Vec::new();
    words(&["0", "1", "9", "_", "x", "b", "o", "e", ".", "-", "a"], 4, ("select ", " c"), &mut v);
    words(&["0", "7", "_", "x", "$", "é"], 5, ("select a", " c"), &mut v);
    words(&["0", "1", "_", ".", "e", "+"], 6, ("select ", ""), &mut v);
    let mut values: Vec<u128> = vec![0, 1, 9, 10, 99];
    for k in 1..=126u32 {
        values.extend([(1u128 << k) - 1, 1u128 << k, (1u128 << k) + 1]);
    }
    for k in 1..=38u32 {
        values.extend([10u128.pow(k) - 1, 10u128.pow(k), 10u128.pow(k) + 1]);
    }
    for n in values {
        for (p, t) in [("", format!("{n}")), ("$", format!("{n}")), ("0x", format!("{n:X}")), ("0o", format!("{n:o}")), ("0B", format!("{n:b}")), ("00", format!("{n}")), ("$000", format!("{n}")), ("0X_", format!("{n:x}")), ("1e", format!("{n}")), (".", format!("{n}"))] {
            v.push(format!("select {p}{t} , a"));
            if n % 3 == 1 {
                let u: String = t.chars().enumerate().map(|(i, c)| if i > 0 && i % 3 == 0 { format!("_{c}") } else { c.to_string() }).collect();
                v.push(format!("select {p}{u}"));
                v.push(format!("select {p}{t}_"));
                v.push(format!("select {p}{t}a"));
                v.push(format!("select {p}{t}..{t}"));
                v.push(format!("select -{p}{t}.e+1 , {p}{t}é"));
            }
        }
    }
    v
}

fn quotes() -> Vec<String> {
    let mut v = Vec::new();
    words(&["$", "a", "b", "0", "é", "'", "\n"], 6, ("select ", ""), &mut v);
    words(&["$$", "$a$", "$b$", "$a", "a$", "'", "$é$", "\\"], 4, ("select $a$", "$a$ , 1"), &mut v);
    words(&["\"", "\"\"", "a", "\n", "U&", "\\", "'"], 5, ("select \"", "\" , 1"), &mut v);
    words(&["'", "''", "\\", "\n", "e", "\\'", "-- c\n", "é"], 5, ("select '", "' , 1"), &mut v);
    words(&["'", "\\", "\n", " ", "n", "1"], 5, ("select e'", "' , 1"), &mut v);
    words(&["b'", "x'", "0", "1", "2", "f", "g", "'", "\n", "n'"], 4, ("select ", "' , 1"), &mut v);
    v
}

fn comments() -> Vec<String> {
    let mut v = Vec::new();
    words(&["/*", "*/", "-", "--", "\n", "'", "a", "+", "*", "/"], 4, ("select ", " 1"), &mut v);
    words(&["/*", "*/", "/", "*", "\n"], 6, ("/*", "*/ select 1"), &mut v);
    words(&["-", "\n", "\r", "é", "/*", " "], 5, ("select 1 --", "\n, 2"), &mut v);
    v
}

fn operators() -> Vec<String> {
    let mut v = Vec::new();
    let o = ["+", "-", "*", "/", "<", ">", "=", "~", "!", "@", "#", "%", "^", "&", "|", "`", "?"];
    words(&o, 3, ("select a ", " b"), &mut v);
    words(&o, 2, ("select a ", "-1"), &mut v);
    words(&o, 2, ("select a ", "--b\n 1"), &mut v);
    words(&o, 2, ("select a ", "/*b*/ 1"), &mut v);
    words(&o, 2, ("select a ", ":=1"), &mut v);
    words(&["+", "-", "*", "/", "<", ">", "=", "!", "@"], 5, ("select ", " b"), &mut v);
    words(&[":", "=", ">", "<", ".", "(", "[", "1", ";"], 4, ("select a", "b"), &mut v);
    let mut r = Rng::new(1, "operators", 0);
    for n in [10, 62, 63, 64, 65, 100, 1000, 5000] {
        for _ in 0..20 {
            let s: String = (0..n).map(|_| *r.pick(&o)).collect();
            v.push(format!("select a {s} b"));
            v.push(format!("select a {}- b", s.replace(['/', '-'], "+")));
            v.push(format!("select a {}-", s.replace(['~', '!', '@', '#', '%', '^', '&', '|', '`', '?', '/', '-'], "<")));
        }
    }
    v
}

pub const WORKLOADS: &[&str] = &["escapes", "numbers", "quotes", "comments", "operators"];

static LISTS: [OnceLock<Vec<String>>; 5] = [const { OnceLock::new() }; 5];

fn list(wl: &str) -> Option<&'static Vec<String>> {
    let k = WORKLOADS.iter().position(|w| *w == wl)?;
    Some(LISTS[k].get_or_init(|| {
        let mut v = match k {
            0 => escapes(),
            1 => numbers(),
            2 => quotes(),
            3 => comments(),
            _ => operators(),
        };
        // in random order, so that the front of the list is a sample of it
        let mut r = Rng::new(1, wl, 0);
        for i in (1..v.len()).rev() {
            v.swap(i, r.below(i + 1));
        }
        v
    }))
}

pub fn count(wl: &str) -> u64 {
    list(wl).map_or(0, |v| v.len() as u64)
}

pub fn case(wl: &str, idx: u64) -> Option<String> {
    list(wl)?.get(idx as usize).cloned()
}

/// A sample of all of them, one case in `every`.
pub fn jobs(every: u64) -> Vec<crate::run::Job> {
    WORKLOADS.iter().map(|w| crate::run::job(w, count(w) / every)).collect()
}
