//! Metamorphic monitors: C10 (purity), C19 (composition), C20 (letter case), C21 (opaque bodies), C23 (keyword categories).
use crate::judge::*;
use crate::obs::*;
use crate::run::*;
use postgresql_cst_parser::{parse, ResolvedNode};
use std::sync::{Arc, Barrier};
use vcore::flat::*;
use vcore::gen::{Gen, Style};
use vcore::rng::Rng;
use vcore::scan::Tok;

fn q(env: &Env, quick: u64, thorough: u64) -> u64 {
    if env.thorough {
        thorough
    } else {
        quick
    }
}

fn shift(o: &Obs, d: usize) -> Obs {
    match o {
        Obs::Parse { msg, start, end } => {
            // the position also occurs in the message
            let m = msg.replace(&start.to_string(), &(start + d).to_string());
            Obs::Parse { msg: m, start: start + d, end: end + d }
        }
        o => o.clone(),
    }
}

/// An accepted statement of random origin (by the model).
fn accepted(env: &Env, rng: &mut Rng) -> Option<String> {
    for _ in 0..6 {
        let s = match rng.below(8) {
            0 => rng.pick(&env.g.corpus).clone(),
            1 => env.g.case("gram.wild", env.seed, rng.next() % 1_000_000)?,
            2 => env.g.case("soup", env.seed, rng.next() % 1_000_000)?,
            3 => format!("select {}", ["a not", "1 as with", "'x'", "$$;$$", "\"a;b\"", "1 --c", "1 /*;*/", "a nulls", "b format", "e'\\''", "1."][rng.below(11)]),
            _ => {
                let k = env.g.rule_sentence(rng.below(env.m.t.rules.len()), rng, rng.clone().pct(60))?;
                let st = if rng.pct(50) { Style::Wild } else { Style::Plain };
                env.g.render(&k, rng, st)
            }
        };
        if s.len() < 4000 && matches!(expect(env.m, &s, None).exp, Exp::Accept(_)) {
            return Some(s);
        }
    }
    None
}

// ------------------------------------------------------------------ C19

pub struct Compose;

/// Preorder slices of all toplevel statements, positions relative to `base`.
fn statements(env: &Env, v: &[El], base: usize) -> Vec<Vec<El>> {
    let top = env.m.t.id("toplevel_stmt");
    let multi = [env.m.t.id("stmtmulti"), env.m.t.id("parse_toplevel"), ROOT];
    let mut out: Vec<Vec<El>> = Vec::new();
    let mut inside: Option<u32> = None;
    for e in v.iter().filter(|e| !is_trivia(e.kind)) {
        if let Some(d) = inside {
            if e.depth > d {
                let z = if e.token { El { depth: e.depth - d, start: e.start.wrapping_sub(base as u32), end: e.end.wrapping_sub(base as u32), ..*e } } else { El { depth: e.depth - d, start: 0, end: 0, ..*e } };
                out.last_mut().unwrap().push(z);
                continue;
            }
            inside = None;
        }
        if !e.token && e.kind == top {
            inside = Some(e.depth);
            out.push(Vec::new());
        } else if !(multi.contains(&e.kind) || e.token) {
            // something else between the root and the statements: keep it visible
            out.push(vec![*e]);
        }
    }
    out
}

impl Check for Compose {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        vec![job("join", q(env, 50_000, 1_500_000)), job("many", q(env, 300, 4_000)), job("reject", q(env, 60_000, 2_000_000)), job("sames", q(env, 8_000, 60_000))]
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        let mut rng = Rng::new(env.seed, wl, idx);
        let mut v = vec![String::new()];
        match wl {
            "join" => {
                for _ in 0..rng.range(2, 6) {
                    v.push(accepted(env, &mut rng)?);
                }
            }
            "many" => {
                let pool: Vec<String> = (0..12).filter_map(|_| accepted(env, &mut rng)).filter(|s| s.len() < 300).collect();
                if pool.is_empty() {
                    return None;
                }
                for _ in 0..rng.range(20, 600) {
                    v.push(rng.pick(&pool).clone());
                }
            }
            "sames" => {
                let s = accepted(env, &mut rng)?;
                if s.len() > 400 {
                    return None;
                }
                for _ in 0..rng.range(2, 40) {
                    v.push(s.clone());
                }
            }
            _ => {
                for _ in 0..rng.below(5) {
                    v.push(accepted(env, &mut rng)?);
                }
                let bad = match rng.below(3) {
                    0 => env.g.case("mutate.wild", env.seed, rng.next() % 10_000_000)?,
                    1 => env.g.case("soup", env.seed, rng.next() % 10_000_000)?,
                    _ => env.g.case("pairs", env.seed, rng.next() % env.g.size("pairs"))?,
                };
                let e = expect(env.m, &bad, None);
                match e.exp {
                    Exp::Syntax { start, .. } if start < bad.len() => {}
                    _ => return None,
                }
                v[0] = "reject".into();
                v.push(bad);
                // what follows must scan
                let tail = match rng.below(3) {
                    0 => accepted(env, &mut rng)?,
                    1 => "in between first last time json ( ] select".to_string(),
                    _ => env.g.case("mutate.wild", env.seed, rng.next() % 10_000_000)?,
                };
                if env.m.scan(&tail).is_err() {
                    return None;
                }
                v.push(tail);
            }
        }
        if v[0].is_empty() {
            v[0] = "join".into();
        }
        Some(v)
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let t = &env.m.t;
        let mut w = Vec::new();
        let mut rng = Rng::new(1, "sep", inputs.iter().map(|s| s.len() as u64).sum());
        let parts = &inputs[1..];
        let alone: Vec<Obs> = parts.iter().map(|s| observe(t, s)).collect();
        let mut s = String::new();
        let mut base = Vec::new();
        for (i, p) in parts.iter().enumerate() {
            if i > 0 {
                // a statement may end inside a line comment
                s.push_str(if parts[i - 1].contains("--") {
                    *rng.pick(&["\n;", "\n;\n", "\n ; "])
                } else {
                    *rng.pick(&[";", " ;", "\n;\n", " ; ", ";\n\n"])
                });
            }
            base.push(s.len());
            s.push_str(p);
        }
        if alone.iter().any(|o| matches!(o, Obs::Panic(_))) {
            return w;
        }
        let o = observe(t, &s);
        if inputs[0] == "reject" {
            let k = parts.len() - 2;
            if alone[..k].iter().any(|o| !o.is_ok()) || !matches!(&alone[k], Obs::Parse { start, .. } if *start < parts[k].len()) {
                st.bump("skipped.parts_not_as_planned");
                return w;
            }
            st.nontrivial(inputs);
            st.bump("observed.rejected_scripts");
            let want = shift(&alone[k], base[k]);
            let same = match (&want, &o) {
                (Obs::Parse { start: a, end: b, .. }, Obs::Parse { start: c, end: d, .. }) => a == c && b == d,
                _ => false,
            };
            if !same {
                w.push(format!("Error: the statement alone gives {}, at offset {} the script gives {}", alone[k].brief(), base[k], o.brief()));
            }
            return w;
        }
        if alone.iter().any(|o| !o.is_ok()) {
            st.bump("skipped.parts_not_as_planned");
            return w;
        }
        st.nontrivial(inputs);
        st.add("observed.joined_statements", parts.len() as u64);
        match o.tree() {
            None => w.push(format!("Verdict: every part is accepted, the script gives {}", o.brief())),
            Some(v) => {
                let got = statements(env, v, 0);
                let mut want = Vec::new();
                for (a, b) in alone.iter().zip(&base) {
                    want.extend(statements(env, a.tree().unwrap(), 0usize.wrapping_sub(*b)));
                }
                if got != want {
                    let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
                    let f = match (want.get(i), got.get(i)) {
                        (Some(a), Some(b)) => first_diff(env.m, a, b).unwrap_or_default(),
                        (a, b) => format!("{} expected, {} found", a.is_some(), b.is_some()),
                    };
                    w.push(format!("Tree: statement {i} of {} differs in the script: {f}", want.len()));
                }
            }
        }
        w
    }
    fn rule(&self) -> &'static str {
        "random accepted statements joined by semicolons (2 to 600), and accepted statements followed by a rejected one and arbitrary text; non-trivial: the parts behave as planned alone, so that the script has a prescribed outcome"
    }
}

// ------------------------------------------------------------------ C20

pub struct Case;

fn recase(env: &Env, s: &str, raw: &[Tok], rng: &mut Rng, mode: usize) -> String {
    let mut b: Vec<u8> = s.as_bytes().to_vec();
    for t in raw {
        if is_trivia(t.kind) {
            continue;
        }
        let x = &s[t.start..t.end];
        // inside quotes only the introducing letters may change
        let lim = match x.find(['\'', '"', '$']) {
            Some(i) if x.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_' || !c.is_ascii()) => {
                let id = env.m.t.names[t.kind as usize % env.m.t.nt].as_str();
                let quoted = x.contains('\'') || x.contains('"');
                if id == "IDENT" && !quoted {
                    x.len() // an identifier with a dollar sign inside
                } else {
                    i
                }
            }
            Some(i) => i,
            None => x.len(),
        };
        for k in t.start..t.start + lim {
            if b[k].is_ascii_alphabetic() {
                let up = match mode {
                    0 => true,
                    1 => false,
                    2 => (k - t.start) % 2 == 0,
                    3 => k == t.start,
                    4 => k + 1 == t.start + lim,
                    _ => rng.pct(50),
                };
                b[k] = if up { b[k].to_ascii_uppercase() } else { b[k].to_ascii_lowercase() };
            }
        }
    }
    String::from_utf8(b).unwrap()
}

impl Check for Case {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        vec![
            job("corpus", env.g.size("corpus") * 6),
            job("rules.plain", q(env, 60_000, 1_500_000)),
            job("rules.spelled", q(env, 40_000, 1_500_000)),
            job("kwfold", env.m.t.keywords.len() as u64 * 40),
            job("gram.wild", q(env, 40_000, 1_000_000)),
            job("complete.plain", q(env, env.g.size("complete") / 6, env.g.size("complete"))),
            job("mutate.wild", q(env, 40_000, 1_500_000)),
            job("soup", q(env, 200_000, 6_000_000)),
            job("sizes.random", q(env, 2_000, 20_000)),
        ]
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        let mut rng = Rng::new(env.seed, "c20", idx);
        if wl == "kwfold" {
            // ASCII respellings fold; respellings with other letters are no keywords
            let w = &env.m.t.keywords[idx as usize / 40].word;
            let v = idx % 40;
            let tpl = [("select 1 as ", ""), ("", " 1"), ("create table t (", " int)"), ("select ", " from t"), ("select a ", " b")][v as usize % 5];
            let x: String = match v / 5 {
                0..=3 => w.chars().map(|c| if rng.pct(50) { c.to_ascii_uppercase() } else { c }).collect(),
                4 => w.to_ascii_uppercase(),
                _ => {
                    // replace one letter by a look-alike that some foldings map to ASCII
                    let c: Vec<char> = w.chars().collect();
                    let i = rng.below(c.len());
                    let mut d = c.clone();
                    d[i] = match c[i] {
                        's' => 'ſ',
                        'k' => '\u{212A}',
                        'i' => *rng.pick(&['İ', 'ı']),
                        'a' => *rng.pick(&['à', 'А', 'ａ']),
                        'e' => *rng.pick(&['é', 'е', 'ｅ']),
                        'o' => *rng.pick(&['ö', 'о']),
                        _ => char::from_u32(0xFEE0 + c[i] as u32).unwrap_or('é'),
                    };
                    let x: String = d.into_iter().collect();
                    return Some(vec!["nofold".into(), format!("{}{x}{}", tpl.0, tpl.1), format!("{}zz{}", tpl.0, tpl.1)]);
                }
            };
            return Some(vec!["fold".into(), format!("{}{w}{}", tpl.0, tpl.1), format!("{}{x}{}", tpl.0, tpl.1)]);
        }
        let a = if wl == "corpus" { env.g.corpus.get(idx as usize / 6)?.clone() } else { shared(env, wl, idx)?[0].clone() };
        let raw = env.m.scan(&a).ok()?;
        let mode = if wl == "corpus" { (idx % 6) as usize } else { rng.below(6) };
        let b = recase(env, &a, &raw, &mut rng, mode);
        Some(vec!["fold".into(), a, b])
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let mut w = Vec::new();
        let t = &env.m.t;
        let (a, b) = (&inputs[1], &inputs[2]);
        let (oa, ob) = (observe(t, a), observe(t, b));
        if a != b {
            st.nontrivial(inputs);
        }
        for (s, o) in [(a, &oa), (b, &ob)] {
            if let Obs::Broken(x, _) = o {
                w.push(format!("Text: {s:?}: {x}"));
            }
        }
        if inputs[0] == "nofold" {
            st.bump("pairs.non_ascii_words");
            // the word behaves like any identifier
            match (oa.tree(), ob.tree()) {
                (Some(x), Some(y)) => {
                    if shape(x) != shape(y) {
                        w.push(format!("Fold: {a:?} is not parsed like {b:?}"));
                    }
                }
                (None, None) => {
                    if std::mem::discriminant(&oa) != std::mem::discriminant(&ob) {
                        w.push(format!("Fold: {a:?} gives {}, {b:?} gives {}", oa.brief(), ob.brief()));
                    }
                }
                _ => w.push(format!("Fold: {a:?} gives {}, {b:?} gives {}", oa.brief(), ob.brief())),
            }
            return w;
        }
        st.bump(if oa.is_ok() { "pairs.accepted" } else { "pairs.rejected" });
        match (oa.tree(), ob.tree()) {
            (Some(x), Some(y)) => {
                if x != y {
                    w.push(format!("Tree: {}", first_diff(env.m, x, y).unwrap_or_default()));
                }
            }
            (None, None) => {
                let same = match (&oa, &ob) {
                    (Obs::Parse { start: s1, end: e1, .. }, Obs::Parse { start: s2, end: e2, .. }) => s1 == s2 && e1 == e2,
                    (x, y) => std::mem::discriminant(x) == std::mem::discriminant(y),
                };
                if !same {
                    w.push(format!("Error: {} became {}", oa.brief(), ob.brief()));
                }
            }
            _ => w.push(format!("Verdict: {} became {}", oa.brief(), ob.brief())),
        }
        w
    }
    fn rule(&self) -> &'static str {
        "an input and the same input with other letter case in words, numbers and literal prefixes; keywords with one letter replaced by a non-ASCII look-alike against a plain identifier; non-trivial: the two texts differ"
    }
}

// ------------------------------------------------------------------ C21

pub struct Opaque;

const BODIES: &[&str] = &[
    "", ";", "--", "/*", "*/", "-- x\n", "select 1; drop table t", "$$", "$a$", "$b$", ";\n", "$1", "\n", "\r\n", "\t", " ", "é", "日本語", "\u{1F600}", "not in", "between", "--\n;", "/**/", "a", "A", "0", "1", "{", "}", "(", ")", "[", "@", "+-", "E", "U&",
    "\u{a0}", "\u{feff}", "\u{7f}", "\u{1}", "\u{b}", "\u{c}", ":=", "::", ".", ",", "UESCAPE", "`", "?", "#", "%", "--x", "*", "/", "_", "&", "|", "<>", "=>", "end", "begin atomic", "0x", "1e", "1a",
];
const QUOTES: &[&str] = &["'", "\"", "''", "\"\"", "\\", "\\'", "\\\\", "$", "*/", "/*"];

/// A random body for the token form, or None if this form has none.
fn rebody(env: &Env, t: &Tok, s: &str, rng: &mut Rng) -> Option<String> {
    let mut body = String::new();
    let pieces = if rng.pct(5) { rng.range(50, 400) } else { rng.below(6) };
    for _ in 0..pieces {
        if rng.pct(70) {
            body.push_str(*rng.pick(BODIES));
        } else {
            body.push_str(*rng.pick(QUOTES));
        }
    }
    recode(env, t, s, body, rng)
}

/// The token at `t` with another body, written in the token's own form.
fn recode(env: &Env, t: &Tok, s: &str, body: String, rng: &mut Rng) -> Option<String> {
    if t.kind == SC {
        let b = body.replace(['\n', '\r'], " ");
        return Some(format!("--{b}"));
    }
    if t.kind == CC {
        // balanced nesting by construction
        let b = body.replace("*/", "").replace("/*", "").replace(['/', '*'], " ");
        let n = rng.below(3);
        return Some(format!("/*{}{b}{}*/", "/* ".repeat(n), " */".repeat(n)));
    }
    let x = &s[t.start..t.end];
    let name = env.m.t.names[t.kind as usize].as_str();
    let two = x.get(..3).or(x.get(..2)).unwrap_or(x).to_ascii_lowercase();
    match name {
        "SCONST" if x.starts_with('$') => {
            let tag = *rng.pick(&["", "a", "é", "_1", "select", "A"]);
            let mut b = body.replace(&format!("${tag}$"), "");
            while b.contains(&format!("${tag}$")) {
                b = b.replace(&format!("${tag}$"), "");
            }
            // neither the end of the body nor its joint with the delimiter may close it early
            let full = format!("{b}${tag}$");
            if full.find(&format!("${tag}$")) != Some(b.len()) {
                b = b.replace('$', "");
            }
            Some(format!("${tag}${b}${tag}$"))
        }
        "SCONST" | "NCHAR" => {
            if two.starts_with("e'") {
                // escapes: only well-formed ones
                let b = body.replace('\\', "").replace('\'', "''") + *rng.pick(&["", "\\n", "\\\\", "\\'", "\\x41", "\\u0041", "\\101", "\\é", "\\\n", "\\;"]);
                Some(format!("{}'{b}'", &x[..1]))
            } else if two.starts_with("u&'") {
                Some(format!("{}'{}'", &x[..2], body.replace('\\', "\\\\").replace('\'', "''")))
            } else if x.starts_with('\'') {
                Some(format!("'{}'", body.replace('\'', "''")))
            } else {
                None
            }
        }
        "BCONST" => Some(format!("{}'{}'", &x[..1], body.replace('\'', "''"))),
        "XCONST" => Some(format!("{}'{}'", &x[..1], body.replace('\'', "''"))),
        "IDENT" if x.starts_with('"') => Some(format!("\"x{}\"", body.replace('"', "\"\""))),
        "IDENT" if two.starts_with("u&\"") => Some(format!("{}\"x{}\"", &x[..2], body.replace('\\', "\\\\").replace('"', "\"\""))),
        _ => None,
    }
}

/// The forms with a body, and the atoms whose sequences are enumerated as bodies.
const FORMS: &[&str] = &[
    "'a'", "e'a'", "U&'a'", "b'1'", "x'f'", "n'a'", "$$a$$", "$t$a$t$", "\"a\"", "U&\"a\"", "1 /* c */", "2 -- c\n",
];
const CRIT: &[&str] = &["\n", ";", "$b$", "$", "'", "\"", "\\", "--", "/*", "*/", " ", "a", "é", "("];

fn bodies(idx: u64) -> Option<(usize, String)> {
    let f = idx as usize % FORMS.len();
    let mut i = idx as usize / FORMS.len();
    // all pairs of the large set
    let big: Vec<&str> = BODIES.iter().chain(QUOTES).copied().collect();
    if i < big.len() * big.len() {
        return Some((f, format!("{}{}", big[i % big.len()], big[i / big.len()])));
    }
    i -= big.len() * big.len();
    // all sequences of three and four critical atoms
    for n in 3..=5u32 {
        let k = CRIT.len().pow(n);
        if i < k {
            let mut b = String::new();
            for _ in 0..n {
                b.push_str(CRIT[i % CRIT.len()]);
                i /= CRIT.len();
            }
            return Some((f, b));
        }
        i -= k;
    }
    None
}

fn bodies_len(upto: u32) -> u64 {
    let big = BODIES.len() + QUOTES.len();
    ((big * big + (3..=upto).map(|n| CRIT.len().pow(n)).sum::<usize>()) * FORMS.len()) as u64
}

impl Check for Opaque {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        vec![
            job("corpus", env.g.size("corpus") * 6),
            job("rules.spelled", q(env, 120_000, 3_000_000)),
            job("spaced", q(env, 120_000, 3_000_000)),
            job("forms", q(env, 150_000, 4_000_000)),
            job("bodies", q(env, bodies_len(4), bodies_len(5))),
            job("complete.wild", q(env, env.g.size("complete") / 8, env.g.size("complete"))),
            job("gram.wild", q(env, 60_000, 2_000_000)),
        ]
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        let mut rng = Rng::new(env.seed, "c21", idx);
        if wl == "bodies" {
            let (f, body) = bodies(idx)?;
            let a = format!("select {} , b from t", FORMS[f]);
            let raw = env.m.scan(&a).ok()?;
            let (t, new) = raw.iter().find_map(|t| Some((t, recode(env, t, &a, body.clone(), &mut rng)?)))?;
            let b = format!("{}{}{}", &a[..t.start], new, &a[t.end..]);
            return Some(vec![a, b]);
        }
        let a = match wl {
            "corpus" => env.g.corpus.get(idx as usize / 6)?.clone(),
            "forms" => {
                let mut s = String::from("select ");
                for i in 0..rng.range(1, 8) {
                    if i > 0 {
                        s.push_str(" , ");
                    }
                    s.push_str(*rng.pick(&[
                        "'a'", "e'a'", "E'\\n'", "U&'a'", "b'1'", "X'f'", "$$a$$", "$t$a$t$", "\"a\"", "U&\"a\"", "1 /* c */", "2 -- c\n", "a.\"b\"", "f('x')", "'a' || $q$b$q$", "1 /*a*/ /*b*/", "--x\n--y\n1", "'a'::\"T\"",
                    ]));
                }
                s
            }
            _ => shared(env, wl, idx)?[0].clone(),
        };
        let raw = env.m.scan(&a).ok()?;
        let mut b = String::new();
        let mut at = 0;
        let mut n = 0;
        let all = rng.pct(30);
        for (i, t) in raw.iter().enumerate() {
            b.push_str(&a[at..t.start]);
            at = t.end;
            // a continued literal is one token with gaps inside: leave it alone
            let x = &a[t.start..t.end];
            let plain = t.kind == CC || t.kind == SC || x.matches(['\n', '\r']).count() == 0;
            let new = if plain && (all || rng.pct(40)) { rebody(env, t, &a, &mut rng) } else { None };
            match new {
                Some(y) => {
                    // a literal glued to its neighbour would change it
                    let next = a[t.end..].chars().next();
                    let glued = matches!(next, Some(c) if !vcore::scan::is_space(c as u32 as u8) && (c.is_alphanumeric() || c == '\'' || c == '"' || c == '$' || c == '_'));
                    if t.kind != CC && t.kind != SC && glued {
                        b.push_str(x);
                        continue;
                    }
                    b.push_str(&y);
                    n += 1;
                }
                None => b.push_str(x),
            }
            let _ = i;
        }
        b.push_str(&a[at..]);
        if n == 0 {
            return None;
        }
        Some(vec![a, b])
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let mut w = Vec::new();
        let (a, b) = (&inputs[0], &inputs[1]);
        // the replacement is meant to keep the token kinds; if the scanner rules disagree the case is void
        let k = |s: &str| env.m.scan(s).ok().map(|v| v.iter().map(|t| t.kind).collect::<Vec<_>>());
        let (Some(ka), Some(kb)) = (k(a), k(b)) else {
            st.bump("skipped.void");
            return w;
        };
        if ka != kb {
            st.bump("skipped.void");
            return w;
        }
        st.nontrivial(inputs);
        let (oa, ob) = (observe(&env.m.t, a), observe(&env.m.t, b));
        st.bump(if oa.is_ok() { "pairs.accepted" } else { "pairs.rejected" });
        match (oa.tree(), ob.tree()) {
            (Some(x), Some(y)) => {
                if let Obs::Broken(m, _) = &ob {
                    w.push(format!("Text: {m}"));
                }
                let (sx, sy) = (shape(x), shape(y));
                if sx != sy {
                    let i = (0..sx.len().max(sy.len())).find(|i| sx.get(*i) != sy.get(*i)).unwrap();
                    let f = |z: Option<&(u32, u16)>| z.map(|z| format!("{} at depth {}", name(env.m, z.1), z.0)).unwrap_or("nothing".into());
                    w.push(format!("Shape: element {i} was {}, became {}", f(sx.get(i)), f(sy.get(i))));
                }
                let com = |v: &[El]| v.iter().filter(|e| e.kind == CC || e.kind == SC).map(|e| e.kind).collect::<Vec<_>>();
                if com(x) != com(y) {
                    w.push("Comments: the number or kinds of comment tokens changed".into());
                }
            }
            (None, None) => {
                if std::mem::discriminant(&oa) != std::mem::discriminant(&ob) {
                    w.push(format!("Error: {} became {}", oa.brief(), ob.brief()));
                }
            }
            _ => w.push(format!("Verdict: {} became {}", oa.brief(), ob.brief())),
        }
        w
    }
    fn rule(&self) -> &'static str {
        "an input and the same input with the bodies of literals, quoted names and comments replaced by hostile text; non-trivial: at least one body was replaced and both texts scan to the same kinds"
    }
}

// ------------------------------------------------------------------ C23

pub struct Keywords;

/// (before, after, role nonterminal, index into [column, function/type, label, bare label])
const ROLES: &[(&str, &str, &str, usize)] = &[
    ("create table t (", " int)", "ColId", 0),
    ("insert into t (", ") values (1)", "ColId", 0),
    ("alter table t drop column ", "", "ColId", 0),
    ("create table t (a int, foreign key (", ") references u)", "ColId", 0),
    ("select 1 from t as ", "", "ColId", 0),
    ("create index on t (", " desc)", "ColId", 0),
    ("drop function ", "()", "type_function_name", 1),
    ("create table t (a ", ")", "type_function_name", 1),
    ("create function ", "(int) returns int as 'x'", "type_function_name", 1),
    ("select null::", "", "type_function_name", 1),
    ("select 1 as ", "", "ColLabel", 2),
    ("select a.", " from t", "ColLabel", 2),
    ("select x as ", ", y from t", "ColLabel", 2),
    ("create type t as (a int); select (a).", "", "ColLabel", 2),
    ("select 1 ", "", "BareColLabel", 3),
    ("select a ", " from t", "BareColLabel", 3),
    ("select f(x) ", ", b from t", "BareColLabel", 3),
    ("select 'x' ", " ; select 1", "BareColLabel", 3),
];

fn allowed(env: &Env, word: &str, role: usize) -> bool {
    let lw = word.to_ascii_lowercase();
    let k = env.m.t.keywords.iter().find(|k| k.word == lw);
    match k {
        None => true,
        Some(k) => match role {
            0 => k.category == "UNRESERVED_KEYWORD" || k.category == "COL_NAME_KEYWORD",
            1 => k.category == "UNRESERVED_KEYWORD" || k.category == "TYPE_FUNC_NAME_KEYWORD",
            2 => true,
            _ => k.bare,
        },
    }
}

impl Check for Keywords {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        vec![job("all", (env.m.t.keywords.len() * ROLES.len() * 3) as u64), job("others", q(env, 150_000, 3_000_000))]
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        let mut rng = Rng::new(env.seed, wl, idx);
        let i = idx as usize;
        if wl == "all" {
            let k = &env.m.t.keywords[i / 3 / ROLES.len()];
            let r = i / 3 % ROLES.len();
            let x = match i % 3 {
                0 => k.word.clone(),
                1 => k.word.to_ascii_uppercase(),
                _ => k.word.chars().map(|c| if rng.pct(50) { c.to_ascii_uppercase() } else { c }).collect(),
            };
            return Some(vec![x, r.to_string()]);
        }
        // words that are not keywords: near misses and random words
        let k = &rng.pick(&env.m.t.keywords).word;
        let mut c: Vec<char> = k.chars().collect();
        match rng.below(7) {
            0 => c.push((b'a' + rng.below(26) as u8) as char),
            1 => {
                let i = rng.below(c.len());
                c.remove(i);
            }
            2 => {
                let i = rng.below(c.len());
                c[i] = (b'a' + rng.below(26) as u8) as char;
            }
            3 => c = c.iter().chain(&['_', 'p']).copied().collect(),
            4 => c = c.iter().chain(&['_', 'l', 'a']).copied().collect(),
            5 => c.extend(rng.pick(&env.m.t.keywords).word.chars()),
            _ => c = (0..rng.range(1, 12)).map(|_| (b'a' + rng.below(26) as u8) as char).collect(),
        }
        if rng.pct(30) {
            c = c.into_iter().map(|c| if rng.pct(50) { c.to_ascii_uppercase() } else { c }).collect();
        }
        let x: String = c.into_iter().collect();
        if x.is_empty() || !(x.as_bytes()[0].is_ascii_alphabetic() || x.starts_with('_')) {
            return None;
        }
        let lw = x.to_ascii_lowercase();
        if env.m.t.keywords.iter().any(|k| k.word == lw) {
            return None;
        }
        Some(vec![x, rng.below(ROLES.len()).to_string()])
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let r = &ROLES[inputs[1].parse::<usize>().unwrap()];
        let word = &inputs[0];
        let s = format!("{}{word}{}", r.0, r.1);
        let want = allowed(env, word, r.3);
        let o = observe(&env.m.t, &s);
        st.nontrivial(&[s.clone()]);
        st.bump(&format!("{}.{}", r.2, if want { "allowed" } else { "forbidden" }));
        if let Obs::Panic(p) = &o {
            return vec![format!("Panic: {s:?}: {p}")];
        }
        // in that role: the word's token lies below the role's node, which spans exactly the word
        let (b, e) = (r.0.len() as u32, (r.0.len() + word.len()) as u32);
        let role = env.m.t.id(r.2);
        let got = match o.tree() {
            None => false,
            Some(v) => {
                let tok = v.iter().position(|x| x.token && x.start == b && x.end == e);
                let listed = env.m.t.keywords.iter().any(|k| k.word == word.to_ascii_lowercase());
                match tok {
                    None => false,
                    Some(i) => {
                        if !listed && v[i].kind != env.m.t.id("IDENT") {
                            return vec![format!("Word: {word:?} is in no keyword list but is a {} in {s:?}", name(env.m, v[i].kind))];
                        }
                        let mut d = v[i].depth;
                        let mut found = false;
                        for x in v[..i].iter().rev() {
                            if x.depth < d {
                                d = x.depth;
                                if !x.token && x.kind == role {
                                    found = true;
                                }
                                // leave the chain of nodes that consist of the word alone
                            }
                        }
                        found && {
                            let p = v[..i].iter().rposition(|x| !x.token && x.kind == role).unwrap();
                            v[p + 1..].iter().take_while(|x| x.depth > v[p].depth).filter(|x| x.token && !is_trivia(x.kind)).count() == 1
                        }
                    }
                }
            }
        };
        if got != want {
            return vec![format!("Role: {s:?}: {word:?} as {} should be {}, observed {}", r.2, if want { "allowed" } else { "impossible" }, o.brief())];
        }
        vec![]
    }
    fn rule(&self) -> &'static str {
        "every keyword in every role context in three spellings, and words that are no keywords; non-trivial: all (each has a prescribed role verdict)"
    }
}

// ------------------------------------------------------------------ C10

pub struct Pure;

/// A small cluster of similar inputs: same length, same prefix, same tokens, other case, other end.
fn cluster(env: &Env, rng: &mut Rng) -> Option<Vec<String>> {
    let base = match rng.below(6) {
        0 => rng.pick(&env.g.corpus).clone(),
        1 => env.g.case("soup", env.seed, rng.next() % 5_000_000)?,
        2 => env.g.case("mutate.wild", env.seed, rng.next() % 5_000_000)?,
        3 => crate::sizes::random(rng, 400),
        _ => env.g.case("rules.wild", env.seed, 10_000 + rng.next() % 5_000_000)?,
    };
    let mut v = vec![base.clone()];
    let chars: Vec<char> = base.chars().collect();
    for _ in 0..rng.range(2, 7) {
        let mut c = chars.clone();
        if c.is_empty() {
            break;
        }
        let i = match rng.below(3) {
            0 => c.len() - 1,
            1 => c.len() / 2,
            _ => rng.below(c.len()),
        };
        match rng.below(6) {
            0 => c[i] = *rng.pick(&['x', '1', ')', '\'', ' ', 'é', '\0', ';', '*']),
            1 => {
                c.remove(i);
            }
            2 => c.insert(i, *rng.pick(&['x', ' ', '\'', '\n'])),
            3 => c = c.into_iter().map(|c| if rng.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            4 => c.truncate(i),
            _ => {
                let j = rng.below(c.len());
                c.swap(i, j);
            }
        }
        v.push(c.into_iter().collect());
    }
    Some(v)
}

impl Check for Pure {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        vec![job("history", q(env, 40_000, 1_200_000)), job("threads", q(env, 600, 12_000)), job("share", q(env, 600, 12_000)), job("long", q(env, 60, 600))]
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        let mut rng = Rng::new(env.seed, wl, idx);
        let mut v = vec![wl.to_string()];
        match wl {
            "history" | "share" => v.extend(cluster(env, &mut rng)?),
            "threads" => {
                for _ in 0..4 {
                    v.extend(cluster(env, &mut rng)?);
                }
            }
            _ => {
                for _ in 0..60 {
                    v.extend(cluster(env, &mut rng)?);
                }
            }
        }
        Some(v)
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let t = &env.m.t;
        let ins = &inputs[1..];
        let mut w = Vec::new();
        let h: u64 = ins.iter().map(|s| vcore::rng::hash_bytes(s.as_bytes())).fold(0, |a, b| a.wrapping_mul(31) ^ b);
        let mut rng = Rng::new(env.seed, "c10", h);
        st.nontrivial(inputs);
        // first observation, judged by the model as well: what a fresh process would say
        let first: Vec<Obs> = ins.iter().map(|s| observe(t, s)).collect();
        for (s, o) in ins.iter().zip(&first) {
            let e = expect(env.m, s, None);
            if let Some((c, x)) = diff(env.m, &e, o).into_iter().next() {
                w.push(format!("Outcome {c:?}: {s:?}: {x}"));
            }
        }
        let rounds = if inputs[0] == "long" { 3 } else { 2 };
        for _ in 0..rounds {
            let mut order: Vec<usize> = (0..ins.len()).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, rng.below(i + 1));
            }
            for i in order {
                let o = observe(t, &ins[i]);
                st.bump("observed.repeats");
                if o != first[i] {
                    w.push(format!("History: {:?} first gave {}, later {}", ins[i], first[i].brief(), o.brief()));
                }
            }
        }
        if inputs[0] == "threads" {
            let n = 8;
            let bar = Arc::new(Barrier::new(n));
            let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
            let res: Vec<Vec<(usize, Obs)>> = std::thread::scope(|sc| {
                let hs: Vec<_> = seeds
                    .iter()
                    .map(|sd| {
                        let bar = bar.clone();
                        sc.spawn(move || {
                            let mut r = Rng(*sd);
                            bar.wait();
                            (0..ins.len() * 2)
                                .map(|_| {
                                    let i = r.below(ins.len());
                                    (i, observe(t, &ins[i]))
                                })
                                .collect()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for v in res {
                for (i, o) in v {
                    st.bump("observed.concurrent_parses");
                    if o != first[i] {
                        w.push(format!("Concurrent: {:?} gave {} alone, {} concurrently", ins[i], first[i].brief(), o.brief()));
                    }
                }
            }
        }
        if inputs[0] == "share" {
            for (s, o) in ins.iter().zip(&first) {
                let Some(v) = o.tree() else { continue };
                let Ok(root) = parse(s) else { continue };
                let root: ResolvedNode = root;
                let n = 6;
                let bar = Barrier::new(n);
                let bad: Vec<String> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..n)
                        .map(|k| {
                            let (root, bar) = (&root, &bar);
                            let mine = root.clone();
                            sc.spawn(move || {
                                bar.wait();
                                let r = if k % 2 == 0 { read_tree(t, root, s) } else { read_tree(t, &mine, s) };
                                // other readers, and clones dropped at any time
                                let kids: Vec<ResolvedNode> = root.descendants().step_by(k + 1).cloned().collect();
                                let txt = format!("{root:#?}").len();
                                drop(kids);
                                drop(mine);
                                match r {
                                    Ok(x) if x == v => (None, txt),
                                    Ok(_) => (Some(format!("reader {k} saw another tree of {s:?}")), txt),
                                    Err((e, _)) => (Some(format!("reader {k} of {s:?}: {e}")), txt),
                                }
                            })
                        })
                        .collect();
                    let r: Vec<(Option<String>, usize)> = hs.into_iter().map(|h| h.join().unwrap_or((Some("reader panicked".into()), 0))).collect();
                    let mut b: Vec<String> = r.iter().filter_map(|x| x.0.clone()).collect();
                    if r.iter().any(|x| x.1 != r[0].1) {
                        b.push(format!("readers of {s:?} saw different renderings"));
                    }
                    b
                });
                st.add("observed.shared_readers", n as u64);
                for b in bad {
                    w.push(format!("Shared: {b}"));
                }
                // the tree outlives the thread that made it
                let h = std::thread::scope(|sc| sc.spawn(|| parse(s)).join());
                if let Ok(Ok(r)) = h {
                    match read_tree(t, &r, s) {
                        Ok(x) if x == v => {}
                        _ => w.push(format!("Shared: tree of {s:?} differs when made on another thread")),
                    }
                }
            }
        }
        w
    }
    fn rule(&self) -> &'static str {
        "clusters of inputs that differ little (last byte, case, length), parsed repeatedly in random orders, from 8 threads at once, and trees read, cloned and dropped by 6 threads at once; non-trivial: all"
    }
}

#[allow(dead_code)]
fn _unused(_: &Gen) {}
