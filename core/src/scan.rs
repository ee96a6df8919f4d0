//! Reference scanner: the rules of PostgreSQL 17's scan.l written directly as code.
use crate::flat::{CC, SC};
use crate::tables::Tables;

pub const BAD: u16 = 0xFFF4;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub kind: u16,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ScanErr {
    /// message only
    Msg(&'static str),
    /// message, detail, byte position
    Report(&'static str, &'static str, usize),
    /// a NUL character at this byte position; PostgreSQL's scanner never sees one
    Nul(usize),
}

pub struct Ids {
    pub ident: u16,
    pub uident: u16,
    pub fconst: u16,
    pub sconst: u16,
    pub usconst: u16,
    pub bconst: u16,
    pub xconst: u16,
    pub op: u16,
    pub iconst: u16,
    pub param: u16,
    pub typecast: u16,
    pub dot_dot: u16,
    pub colon_equals: u16,
    pub equals_greater: u16,
    pub less_equals: u16,
    pub greater_equals: u16,
    pub not_equals: u16,
    pub nchar: u16,
    pub chars: [u16; 128],
    pub not: u16,
    pub not_la: u16,
    pub between: u16,
    pub in_p: u16,
    pub like: u16,
    pub ilike: u16,
    pub similar: u16,
    pub nulls_p: u16,
    pub nulls_la: u16,
    pub first_p: u16,
    pub last_p: u16,
    pub with: u16,
    pub with_la: u16,
    pub time: u16,
    pub ordinality: u16,
    pub without: u16,
    pub without_la: u16,
    pub format: u16,
    pub format_la: u16,
    pub json: u16,
    pub uescape: u16,
}

impl Ids {
    pub fn new(t: &Tables) -> Ids {
        let mut chars = [BAD; 128];
        for c in 0u8..128 {
            if let Some(&i) = t.by_name.get(&format!("'{}'", c as char)) {
                chars[c as usize] = i;
            }
        }
        let g = |n: &str| t.id(n);
        Ids {
            ident: g("IDENT"),
            uident: g("UIDENT"),
            fconst: g("FCONST"),
            sconst: g("SCONST"),
            usconst: g("USCONST"),
            bconst: g("BCONST"),
            xconst: g("XCONST"),
            op: g("Op"),
            iconst: g("ICONST"),
            param: g("PARAM"),
            typecast: g("TYPECAST"),
            dot_dot: g("DOT_DOT"),
            colon_equals: g("COLON_EQUALS"),
            equals_greater: g("EQUALS_GREATER"),
            less_equals: g("LESS_EQUALS"),
            greater_equals: g("GREATER_EQUALS"),
            not_equals: g("NOT_EQUALS"),
            nchar: g("NCHAR"),
            chars,
            not: g("NOT"),
            not_la: g("NOT_LA"),
            between: g("BETWEEN"),
            in_p: g("IN_P"),
            like: g("LIKE"),
            ilike: g("ILIKE"),
            similar: g("SIMILAR"),
            nulls_p: g("NULLS_P"),
            nulls_la: g("NULLS_LA"),
            first_p: g("FIRST_P"),
            last_p: g("LAST_P"),
            with: g("WITH"),
            with_la: g("WITH_LA"),
            time: g("TIME"),
            ordinality: g("ORDINALITY"),
            without: g("WITHOUT"),
            without_la: g("WITHOUT_LA"),
            format: g("FORMAT"),
            format_la: g("FORMAT_LA"),
            json: g("JSON"),
            uescape: g("UESCAPE"),
        }
    }
}

pub fn is_space(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0c | 0x0b)
}
pub fn is_ident_start(b: u8) -> bool {
    b.is_ascii_alphabetic() || b >= 0x80 || b == b'_'
}
pub fn is_ident_cont(b: u8) -> bool {
    is_ident_start(b) || b.is_ascii_digit() || b == b'$'
}
fn is_dolq_cont(b: u8) -> bool {
    is_ident_start(b) || b.is_ascii_digit()
}
pub fn is_op(b: u8) -> bool {
    b"~!@#^&|`?+-*/%<>=".contains(&b)
}
fn is_self(b: u8) -> bool {
    b",()[].;:+-*/%^<>=".contains(&b)
}

/// End of the longest `digit (_? digit)*` at i, or i if there is none.
fn digits_us(s: &[u8], i: usize, ok: fn(u8) -> bool) -> usize {
    let mut e = i;
    if e >= s.len() || !ok(s[e]) {
        return i;
    }
    e += 1;
    loop {
        if e < s.len() && ok(s[e]) {
            e += 1;
        } else if e + 1 < s.len() && s[e] == b'_' && ok(s[e + 1]) {
            e += 2;
        } else {
            return e;
        }
    }
}

fn is_dec(b: u8) -> bool {
    b.is_ascii_digit()
}
fn is_hex(b: u8) -> bool {
    b.is_ascii_hexdigit()
}
fn is_oct(b: u8) -> bool {
    (b'0'..=b'7').contains(&b)
}
fn is_bin(b: u8) -> bool {
    b == b'0' || b == b'1'
}

fn ident_end(s: &[u8], i: usize) -> usize {
    let mut e = i;
    while e < s.len() && is_ident_cont(s[e]) {
        e += 1;
    }
    e
}

/// `0x(_?h)+`: end or None
fn radix_int(s: &[u8], i: usize, letter: u8, ok: fn(u8) -> bool) -> Option<usize> {
    if s[i] != b'0' || i + 1 >= s.len() || s[i + 1].to_ascii_lowercase() != letter {
        return None;
    }
    let mut e = i + 2;
    let mut any = false;
    loop {
        if e < s.len() && ok(s[e]) {
            e += 1;
            any = true;
        } else if e + 1 < s.len() && s[e] == b'_' && ok(s[e + 1]) {
            e += 2;
            any = true;
        } else {
            break;
        }
    }
    any.then_some(e)
}

/// Where an identifier directly attached to the digit run [a,e) could start: at its end, or at an underscore in it.
fn junk_start(s: &[u8], a: usize, e: usize) -> Option<usize> {
    if e < s.len() && is_ident_start(s[e]) {
        return Some(e);
    }
    (a + 1..e).find(|&k| s[k] == b'_')
}

#[derive(Clone, Copy, PartialEq)]
enum Num {
    Int(u32),
    Float,
    IntThenDots,
    Fail(&'static str),
}

/// Longest match among the numeric rules, first rule wins ties. `i` is at a digit or at a '.' followed by a digit.
fn number(s: &[u8], i: usize) -> (usize, Num) {
    const JUNK: &str = "trailing junk after numeric literal";
    let mut best = (i, Num::Fail(""));
    let mut cand = |e: usize, n: Num| {
        if e > best.0 {
            best = (e, n);
        }
    };
    let d = digits_us(s, i, is_dec);
    let at = |k: usize| s.get(k).copied().unwrap_or(0);
    if d > i {
        cand(d, Num::Int(10));
        for (l, ok, r) in [(b'x', is_hex as fn(u8) -> bool, 16), (b'o', is_oct, 8), (b'b', is_bin, 2)] {
            if let Some(e) = radix_int(s, i, l, ok) {
                cand(e, Num::Int(r));
            }
        }
        for (l, m) in [
            (b'x', "invalid hexadecimal integer"),
            (b'o', "invalid octal integer"),
            (b'b', "invalid binary integer"),
        ] {
            if s[i] == b'0' && at(i + 1).to_ascii_lowercase() == l {
                cand(i + 2 + (at(i + 2) == b'_') as usize, Num::Fail(m));
            }
        }
    }
    // numeric: D . D?  |  . D
    let mut numeric = None; // (end, start of the fractional digits)
    if at(d) == b'.' {
        let f = digits_us(s, d + 1, is_dec);
        if d > i || f > d + 1 {
            numeric = Some((f, d + 1));
            cand(f, Num::Float);
        }
        if d > i && at(d + 1) == b'.' {
            cand(d + 2, Num::IntThenDots);
        }
    }
    // real
    let mut bases = vec![];
    if d > i {
        bases.push(d);
    }
    if let Some((f, _)) = numeric {
        bases.push(f);
    }
    let mut exps = vec![];
    for &b in &bases {
        if at(b).to_ascii_lowercase() == b'e' {
            let mut k = b + 1;
            if at(k) == b'+' || at(k) == b'-' {
                k += 1;
            }
            let e = digits_us(s, k, is_dec);
            if e > k {
                exps.push((k, e));
                cand(e, Num::Float);
            }
        }
    }
    for &b in &bases {
        if at(b).to_ascii_lowercase() == b'e' && (at(b + 1) == b'+' || at(b + 1) == b'-') {
            cand(b + 2, Num::Fail(JUNK));
        }
    }
    if d > i {
        if let Some(k) = junk_start(s, i, d) {
            cand(ident_end(s, k), Num::Fail(JUNK));
        }
    }
    if let Some((f, fs)) = numeric {
        if let Some(k) = junk_start(s, fs, f) {
            cand(ident_end(s, k), Num::Fail(JUNK));
        }
    }
    for &(k, e) in &exps {
        if let Some(k) = junk_start(s, k, e) {
            cand(ident_end(s, k), Num::Fail(JUNK));
        }
    }
    best
}

fn fits_i32(text: &str, radix: u32) -> bool {
    let t: String = if radix == 10 { text.to_string() } else { text[2..].to_string() };
    let mut v: u64 = 0;
    for c in t.chars().filter(|c| *c != '_') {
        v = v * radix as u64 + c.to_digit(radix).unwrap() as u64;
        if v > i32::MAX as u64 {
            return false;
        }
    }
    true
}

/// If a quoted string can continue at `i` (just after a closing quote), the position after the reopening quote.
fn continuation(s: &[u8], i: usize) -> Option<usize> {
    let mut k = i;
    let mut nl = false;
    while k < s.len() && is_space(s[k]) {
        nl |= s[k] == b'\n' || s[k] == b'\r';
        k += 1;
    }
    (nl && k < s.len() && s[k] == b'\'').then_some(k + 1)
}

fn hexval(s: &[u8]) -> u32 {
    s.iter().fold(0u32, |a, b| (a << 4) | (*b as char).to_digit(16).unwrap())
}

const BADESC: ScanErr = ScanErr::Report("invalid Unicode escape", "Unicode escapes must be \\uXXXX or \\UXXXXXXXX.", 0);
const PAIR: &str = "invalid Unicode surrogate pair";

/// `\uXXXX` / `\UXXXXXXXX` at k (on the backslash). Ok(None): not a Unicode escape at all.
fn unicode_escape(s: &[u8], k: usize) -> Result<Option<(usize, u32)>, ScanErr> {
    let n = match s.get(k + 1) {
        Some(b'u') => 4,
        Some(b'U') => 8,
        _ => return Ok(None),
    };
    let h = s[k + 2..].iter().take(n).take_while(|b| is_hex(**b)).count();
    if h == n {
        return Ok(Some((k + 2 + n, hexval(&s[k + 2..k + 2 + n]))));
    }
    if let ScanErr::Report(m, d, _) = BADESC {
        return Err(ScanErr::Report(m, d, k));
    }
    unreachable!()
}

/// Body of an escape string; returns the position after the final quote.
fn escape_string(s: &[u8], mut k: usize) -> Result<usize, ScanErr> {
    let mut high = false; // a high surrogate awaits its partner
    loop {
        if high {
            if k >= s.len() || s[k] != b'\\' {
                return Err(ScanErr::Msg(PAIR));
            }
            match unicode_escape(s, k)? {
                Some((e, v)) if (0xDC00..=0xDFFF).contains(&v) => {
                    high = false;
                    k = e;
                    continue;
                }
                _ => return Err(ScanErr::Msg(PAIR)),
            }
        }
        if k >= s.len() {
            return Err(ScanErr::Msg("unterminated quoted string"));
        }
        match s[k] {
            b'\'' => {
                if s.get(k + 1) == Some(&b'\'') {
                    k += 2;
                } else if let Some(e) = continuation(s, k + 1) {
                    k = e;
                } else {
                    return Ok(k + 1);
                }
            }
            b'\\' => {
                if let Some((e, v)) = unicode_escape(s, k)? {
                    if (0xD800..=0xDBFF).contains(&v) {
                        high = true;
                    } else if (0xDC00..=0xDFFF).contains(&v) {
                        return Err(ScanErr::Msg(PAIR));
                    } else if v == 0 || v > 0x10FFFF {
                        return Err(ScanErr::Msg("invalid Unicode escape value"));
                    }
                    k = e;
                } else if k + 1 >= s.len() {
                    k += 1;
                } else if is_oct(s[k + 1]) {
                    let n = s[k + 1..].iter().take(3).take_while(|b| is_oct(**b)).count();
                    k += 1 + n;
                } else if s[k + 1] == b'x' {
                    let n = s[k + 2..].iter().take(2).take_while(|b| is_hex(**b)).count();
                    k += 2 + n;
                } else {
                    k += 2; // any other byte; the rest of a multi-byte character is ordinary content
                }
            }
            _ => k += 1,
        }
    }
}

/// Body of a string without escapes. `dbl`: '' is an embedded quote.
fn plain_string(s: &[u8], mut k: usize, dbl: bool, msg: &'static str) -> Result<usize, ScanErr> {
    loop {
        match s.get(k) {
            None => return Err(ScanErr::Msg(msg)),
            Some(b'\'') => {
                if dbl && s.get(k + 1) == Some(&b'\'') {
                    k += 2;
                } else if let Some(e) = continuation(s, k + 1) {
                    k = e;
                } else {
                    return Ok(k + 1);
                }
            }
            _ => k += 1,
        }
    }
}

fn quoted_ident(s: &[u8], start: usize) -> Result<usize, ScanErr> {
    let mut k = start;
    loop {
        match s.get(k) {
            None => return Err(ScanErr::Msg("unterminated quoted identifier")),
            Some(b'"') => {
                if s.get(k + 1) == Some(&b'"') {
                    k += 2;
                } else if k == start {
                    return Err(ScanErr::Msg("zero-length delimited identifier"));
                } else {
                    return Ok(k + 1);
                }
            }
            _ => k += 1,
        }
    }
}

/// `$tag$` at k: its end.
fn dollar_delim(s: &[u8], k: usize) -> Option<usize> {
    let mut e = k + 1;
    if e < s.len() && is_ident_start(s[e]) {
        e += 1;
        while e < s.len() && is_dolq_cont(s[e]) {
            e += 1;
        }
    }
    (e < s.len() && s[e] == b'$').then_some(e + 1)
}

fn dollar_body(s: &[u8], delim: &[u8], mut k: usize) -> Result<usize, ScanErr> {
    loop {
        if k >= s.len() {
            return Err(ScanErr::Msg("unterminated dollar-quoted string"));
        }
        if s[k] != b'$' {
            k += 1;
            continue;
        }
        match dollar_delim(s, k) {
            Some(e) if &s[k..e] == delim => return Ok(e),
            Some(e) => k = e - 1,
            None => {
                k += 1;
                if k < s.len() && is_ident_start(s[k]) {
                    while k < s.len() && is_dolq_cont(s[k]) {
                        k += 1;
                    }
                }
            }
        }
    }
}

fn block_comment(s: &[u8], i: usize) -> Result<usize, ScanErr> {
    let mut k = i + 2;
    let mut depth = 1;
    while k < s.len() {
        if s[k] == b'*' {
            // a run of stars ended by a slash closes
            let mut e = k;
            while e < s.len() && s[e] == b'*' {
                e += 1;
            }
            if e < s.len() && s[e] == b'/' {
                depth -= 1;
                if depth == 0 {
                    return Ok(e + 1);
                }
                k = e + 1;
            } else {
                k = e;
            }
        } else if s[k] == b'/' && s.get(k + 1) == Some(&b'*') {
            depth += 1;
            k += 2;
        } else {
            k += 1;
        }
    }
    Err(ScanErr::Msg("unterminated /* comment"))
}

/// An operator run at i: (length, kind) after PostgreSQL's trimming rules.
fn operator(ids: &Ids, s: &[u8], i: usize) -> Result<(usize, u16), ScanErr> {
    let mut n = 0;
    while i + n < s.len() && is_op(s[i + n]) {
        n += 1;
    }
    let run = &s[i..i + n];
    for k in 1..n.saturating_sub(1) {
        if &run[k..k + 2] == b"/*" || &run[k..k + 2] == b"--" {
            n = k;
            break;
        }
    }
    if n > 1 && (run[n - 1] == b'+' || run[n - 1] == b'-') {
        let special = run[..n - 1].iter().any(|b| b"~!@#^&|`?%".contains(b));
        if !special {
            while n > 1 && (run[n - 1] == b'+' || run[n - 1] == b'-') {
                n -= 1;
            }
        }
    }
    let t = &run[..n];
    if n == 1 && is_self(t[0]) {
        return Ok((1, ids.chars[t[0] as usize]));
    }
    match t {
        b"=>" => return Ok((2, ids.equals_greater)),
        b"<=" => return Ok((2, ids.less_equals)),
        b">=" => return Ok((2, ids.greater_equals)),
        b"<>" | b"!=" => return Ok((2, ids.not_equals)),
        _ => {}
    }
    if n >= 64 {
        return Err(ScanErr::Msg("operator too long"));
    }
    Ok((n, ids.op))
}

/// Tokens as scan.l returns them (comments included; UIDENT and USCONST not yet converted).
pub fn scan(t: &Tables, ids: &Ids, input: &str) -> Result<Vec<Tok>, ScanErr> {
    let s = input.as_bytes();
    if let Some(p) = s.iter().position(|b| *b == 0) {
        return Err(ScanErr::Nul(p));
    }
    let mut v = Vec::new();
    let mut i = 0;
    let at = |k: usize| s.get(k).copied().unwrap_or(0);
    const UQS: &str = "unterminated quoted string";
    while i < s.len() {
        let c = s[i];
        if is_space(c) {
            i += 1;
            continue;
        }
        let start = i;
        let kind;
        match c {
            b'-' if at(i + 1) == b'-' => {
                while i < s.len() && s[i] != b'\n' && s[i] != b'\r' {
                    i += 1;
                }
                kind = SC;
            }
            b'/' if at(i + 1) == b'*' => {
                i = block_comment(s, i)?;
                kind = CC;
            }
            b'b' | b'B' if at(i + 1) == b'\'' => {
                i = plain_string(s, i + 2, false, "unterminated bit string literal")?;
                kind = ids.bconst;
            }
            b'x' | b'X' if at(i + 1) == b'\'' => {
                i = plain_string(s, i + 2, false, "unterminated hexadecimal string literal")?;
                kind = ids.xconst;
            }
            b'n' | b'N' if at(i + 1) == b'\'' => {
                i += 1;
                kind = ids.nchar;
            }
            b'e' | b'E' if at(i + 1) == b'\'' => {
                i = escape_string(s, i + 2)?;
                kind = ids.sconst;
            }
            b'u' | b'U' if at(i + 1) == b'&' && at(i + 2) == b'\'' => {
                i = plain_string(s, i + 3, true, UQS)?;
                kind = ids.usconst;
            }
            b'u' | b'U' if at(i + 1) == b'&' && at(i + 2) == b'"' => {
                i = quoted_ident(s, i + 3)?;
                kind = ids.uident;
            }
            b'u' | b'U' if at(i + 1) == b'&' => {
                i += 1;
                kind = ids.ident;
            }
            b'\'' => {
                i = plain_string(s, i + 1, true, UQS)?;
                kind = ids.sconst;
            }
            b'"' => {
                i = quoted_ident(s, i + 1)?;
                kind = ids.ident;
            }
            b'$' => {
                if at(i + 1).is_ascii_digit() {
                    i += 1;
                    while at(i).is_ascii_digit() {
                        i += 1;
                    }
                    kind = ids.param;
                } else if let Some(e) = dollar_delim(s, i) {
                    i = dollar_body(s, &s[i..e], e)?;
                    kind = ids.sconst;
                } else {
                    i += 1;
                    kind = BAD;
                }
            }
            _ if c.is_ascii_digit() || (c == b'.' && at(i + 1).is_ascii_digit()) => {
                let (e, n) = number(s, i);
                match n {
                    Num::Int(r) => {
                        kind = if fits_i32(&input[i..e], r) { ids.iconst } else { ids.fconst };
                        i = e;
                    }
                    Num::IntThenDots => {
                        kind = if fits_i32(&input[i..e - 2], 10) { ids.iconst } else { ids.fconst };
                        i = e - 2;
                    }
                    Num::Float => {
                        kind = ids.fconst;
                        i = e;
                    }
                    Num::Fail(m) => return Err(ScanErr::Msg(m)),
                }
            }
            _ if is_ident_start(c) => {
                i = ident_end(s, i);
                let w = &input[start..i];
                kind = if w.len() <= 40 {
                    t.kwmap.get(&w.to_ascii_lowercase()).copied().unwrap_or(ids.ident)
                } else {
                    ids.ident
                };
            }
            b':' if at(i + 1) == b':' => {
                i += 2;
                kind = ids.typecast;
            }
            b':' if at(i + 1) == b'=' => {
                i += 2;
                kind = ids.colon_equals;
            }
            b'.' if at(i + 1) == b'.' => {
                i += 2;
                kind = ids.dot_dot;
            }
            _ if is_op(c) => {
                let (n, k) = operator(ids, s, i)?;
                i += n;
                kind = k;
            }
            _ => {
                i += 1;
                kind = ids.chars[c as usize];
            }
        }
        v.push(Tok { kind, start, end: i });
    }
    Ok(v)
}

/// What the grammar sees: comments dropped, look-ahead words and Unicode forms resolved (parser.c's base_yylex).
/// `Err(k)`: token k starts a UESCAPE clause that is malformed.
pub fn filter(ids: &Ids, toks: &[Tok]) -> Vec<Tok> {
    let v: Vec<Tok> = toks.iter().filter(|t| t.kind != CC && t.kind != SC).copied().collect();
    let mut o: Vec<Tok> = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        let mut t = v[i];
        let n = v.get(i + 1).map(|x| x.kind);
        let is = |l: &[u16]| n.is_some_and(|k| l.contains(&k));
        if t.kind == ids.not && is(&[ids.between, ids.in_p, ids.like, ids.ilike, ids.similar]) {
            t.kind = ids.not_la;
        } else if t.kind == ids.nulls_p && is(&[ids.first_p, ids.last_p]) {
            t.kind = ids.nulls_la;
        } else if t.kind == ids.with && is(&[ids.time, ids.ordinality]) {
            t.kind = ids.with_la;
        } else if t.kind == ids.without && is(&[ids.time]) {
            t.kind = ids.without_la;
        } else if t.kind == ids.format && is(&[ids.json]) {
            t.kind = ids.format_la;
        } else if t.kind == ids.uident || t.kind == ids.usconst {
            t.kind = if t.kind == ids.uident { ids.ident } else { ids.sconst };
        }
        o.push(t);
        i += 1;
    }
    o
}
