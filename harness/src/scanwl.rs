//! Workloads aimed at the scanner and at the lookahead rewriting.
use crate::run::Env;
use vcore::gen::{Gen, Style};
use vcore::rng::Rng;
use vcore::tables::ERR;

/// Critical alphabet: one representative per role in scan.l.
const ALPHA: &[&str] = &[
    "'", "\"", "$", "\\", "/", "*", "-", "+", ".", "0", "1", "7", "9", "_", "e", "x", "o", "b", "u", "n", "U", "&", "a", "F", ":", "=", "<", ">", "!", "@", "~", "?", "%",
    "\n", " ", "é", "\r", ";", "(", "[",
];

const HOSTS: &[(&str, &str)] = &[("select ", ""), ("select a ", " b"), ("", ""), ("select e'", "' , 1"), ("select 1 ", "")];

pub fn glyphs_count(thorough: bool) -> u64 {
    let n = ALPHA.len() as u64;
    let short = (1 + n + n * n + n * n * n) * HOSTS.len() as u64;
    if thorough {
        short + n * n * n * n * 2
    } else {
        short
    }
}

/// Every string of up to three (thorough: four) symbols of the critical alphabet, in several surroundings.
fn glyphs(idx: u64) -> String {
    let n = ALPHA.len() as u64;
    let short = 1 + n + n * n + n * n * n;
    let (mut k, len, host) = if idx < short * HOSTS.len() as u64 {
        let k = idx / HOSTS.len() as u64;
        let h = (idx % HOSTS.len() as u64) as usize;
        if k == 0 {
            (0, 0, h)
        } else if k <= n {
            (k - 1, 1, h)
        } else if k <= n + n * n {
            (k - 1 - n, 2, h)
        } else {
            (k - 1 - n - n * n, 3, h)
        }
    } else {
        let k = idx - short * HOSTS.len() as u64;
        (k / 2, 4, (k % 2) as usize)
    };
    let mut s = String::from(HOSTS[host].0);
    for _ in 0..len {
        s.push_str(ALPHA[(k % n) as usize]);
        k /= n;
    }
    s.push_str(HOSTS[host].1);
    s
}

pub fn keywords_count(env: &Env) -> u64 {
    env.m.t.keywords.len() as u64 * 24
}

/// Each keyword in several case patterns, and near misses of it.
fn keyword(env: &Env, idx: u64) -> String {
    let w = &env.m.t.keywords[(idx / 24) as usize].word;
    let cs: Vec<char> = w.chars().collect();
    let v = idx % 24;
    let mut rng = Rng::new(1, "kw", idx);
    let x: String = match v {
        0 => w.clone(),
        1 => w.to_ascii_uppercase(),
        2 => cs.iter().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { *c }).collect(),
        3 => cs.iter().enumerate().map(|(i, c)| if i + 1 == cs.len() { c.to_ascii_uppercase() } else { *c }).collect(),
        4 => cs.iter().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { *c }).collect(),
        5 => format!("{w}x"),
        6 => format!("{w}_"),
        7 => format!("x{w}"),
        8 => format!("_{w}"),
        9 => cs[..cs.len() - 1].iter().collect(),
        10 => cs[1..].iter().collect(),
        11 => format!("{w}1"),
        12 => format!("{w}$"),
        13 => format!("{w}é"),
        14 => w.replace('s', "ſ").replace('k', "K").replace('i', "ı"),
        15 => w.replace('i', "İ").replace('a', "à"),
        16 => format!("\"{w}\""),
        17 => format!("{w}{w}"),
        18 => {
            let i = rng.below(cs.len());
            let mut c = cs.clone();
            c[i] = (b'a' + rng.below(26) as u8) as char;
            c.into_iter().collect()
        }
        19 => {
            let i = rng.below(cs.len());
            let mut c = cs.clone();
            c.swap(i, (i + 1) % cs.len());
            c.into_iter().collect()
        }
        20 => {
            let i = rng.below(cs.len() + 1);
            let mut c = cs.clone();
            c.insert(i, '_');
            c.into_iter().collect()
        }
        21 => w.replace('_', ""),
        22 => format!("{w}_p"),
        _ => format!("{}_la", w.to_ascii_uppercase()),
    };
    match v % 3 {
        0 => format!("select 1 as {x}"),
        1 => format!("select {x} from t"),
        _ => format!("{x} 1 {x}"),
    }
}

const FORMS: &[(&str, &str)] = &[("'", "'"), ("e'", "'"), ("E'", "'"), ("b'", "'"), ("x'", "'"), ("n'", "'"), ("U&'", "'"), ("\"", "\""), ("U&\"", "\""), ("$$", "$$")];
const GAPS: &[&str] = &[
    "", " ", "\n", "\r", "\r\n", "\t\n", "\n\t", " \n ", "\n\n", "\x0b", "\x0c\n", "\x0b\n", " --c\n", "--c\n'", "--c\n", "\n--c\n", "--c\n\n", "\n--c\n--d\n", " /*c*/ ", "\n/*c*/", "/*c*/\n", "\n--c",
    "--\r", "\n--\r ", "\\", "\n\\", "-\n", "\n-", ";\n", "\n+", "\u{a0}\n", "\u{85}",
];

/// What may stand between two literals: the list above and all sequences of up to three of these.
const GAP_ATOMS: &[&str] = &[" ", "\t", "\n", "\r", "\x0b", "\x0c", "--c", "/*c*/", "\u{a0}"];

fn gap(mut i: usize) -> Option<String> {
    if let Some(g) = GAPS.get(i) {
        return Some(g.to_string());
    }
    i -= GAPS.len();
    let k = GAP_ATOMS.len();
    for n in 1..=3u32 {
        let all = k.pow(n);
        if i < all {
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(GAP_ATOMS[i % k]);
                i /= k;
            }
            return Some(s);
        }
        i -= all;
    }
    None
}

pub fn contin_count() -> u64 {
    let k = GAP_ATOMS.len();
    (FORMS.len() * FORMS.len() * (GAPS.len() * 4 + k + k * k + k * k * k)) as u64
}

/// Two literals with every kind of gap in between.
fn contin(idx: u64) -> Option<String> {
    let i = idx as usize;
    let a = FORMS[i % FORMS.len()];
    let b = FORMS[i / FORMS.len() % FORMS.len()];
    let j = i / FORMS.len() / FORMS.len();
    let (g, k) = if j < GAPS.len() * 4 { (gap(j % GAPS.len())?, j / GAPS.len()) } else { (gap(j - GAPS.len() * 3)?, j % 4) };
    let body = ["1", "é", "", "\\n"][k];
    Some(format!("select {}{body}{}{g}{}{body}{} , 2", a.0, a.1, b.0, b.1))
}

/// A fragment from each of its tokens on: every token gets to be the first, where its extent is visible.
fn tails(env: &Env, idx: u64) -> Option<String> {
    let mut rng = Rng::new(env.seed, "tails", idx);
    let n = 1 + rng.below(6);
    let s = Gen::fragments(&mut rng, n);
    let raw = env.m.scan(&s).ok()?;
    if raw.is_empty() {
        return None;
    }
    let t = rng.pick(&raw);
    let tail = &s[t.start..];
    Some(match rng.below(4) {
        0 => tail.to_string(),
        1 => format!(") {tail}"),
        2 => format!("select {tail}"),
        _ => format!("select 1 {tail}"),
    })
}

const LAW: &[(&str, &str)] = &[("NOT", "NOT_LA"), ("NULLS_P", "NULLS_LA"), ("WITH", "WITH_LA"), ("WITHOUT", "WITHOUT_LA"), ("FORMAT", "FORMAT_LA")];

fn la_states(env: &Env) -> Vec<(u32, u16)> {
    let t = &env.m.t;
    let mut v = Vec::new();
    for s in 0..t.nstates {
        for (a, b) in LAW {
            if t.act(s, t.id(a)) != ERR || t.act(s, t.id(b)) != ERR {
                v.push((s as u32, t.id(a)));
            }
        }
    }
    v
}

thread_local! {
    static LA: std::cell::RefCell<Vec<(u32, u16)>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn with_la<R>(env: &Env, f: impl FnOnce(&[(u32, u16)]) -> R) -> R {
    LA.with(|l| {
        if l.borrow().is_empty() {
            *l.borrow_mut() = la_states(env);
        }
        f(&l.borrow())
    })
}

/// Followers tried in every state: all partners of all words, the words themselves, and a few others.
fn followers(env: &Env, thorough: bool) -> Vec<u16> {
    let t = &env.m.t;
    if thorough {
        return env.g.terms.clone();
    }
    let mut v: Vec<u16> = ["BETWEEN", "IN_P", "LIKE", "ILIKE", "SIMILAR", "FIRST_P", "LAST_P", "TIME", "ORDINALITY", "JSON", "NOT", "NULLS_P", "WITH", "WITHOUT", "FORMAT"].iter().map(|n| t.id(n)).collect();
    v.extend(
        ["IDENT", "SCONST", "ICONST", "NULL_P", "EXISTS", "TIMESTAMP", "TIES", "JSON_ARRAY", "JSON_TABLE", "INTO", "IS", "INOUT", "LEFT", "DISTINCT", "ZONE", "UNIQUE", "DATA_P", "GRANT", "SCHEMA", "'('", "')'", "','", "';'", "Op"]
            .iter()
            .map(|n| t.id(n)),
    );
    v
}

pub fn la_count(env: &Env) -> u64 {
    let n = with_la(env, |v| v.len()) as u64;
    n * followers(env, env.thorough).len() as u64
}

fn sep(rng: &mut Rng, env: &Env) -> String {
    match rng.below(6) {
        0 | 1 => " ".into(),
        2 => format!(" {} ", env.g.trivia(rng)),
        3 => "/*x*/".repeat(rng.range(1, 6)),
        4 => "\n-- in between first time json\n".repeat(rng.range(1, 3)),
        _ => "\r\n\t".into(),
    }
}

/// word + follower in one state, then completed if possible
fn la(env: &Env, idx: u64, random: bool) -> Option<String> {
    let t = &env.m.t;
    let fs = followers(env, env.thorough || random);
    let mut rng = Rng::new(env.seed, if random { "la.rand" } else { "la" }, idx);
    let (state, word) = with_la(env, |v| if random { v[rng.below(v.len())] } else { v[idx as usize / fs.len()] });
    let f = if random { *rng.pick(&fs) } else { fs[idx as usize % fs.len()] };
    let mut k = if random { env.g.prefix(state as usize, Some(&mut rng))? } else { env.g.prefix(state as usize, None)? };
    let mut s = env.g.render(&k, &mut rng, Style::Plain);
    s.push(' ');
    s.push_str(&env.g.spell(word, &mut rng, true));
    s.push_str(&sep(&mut rng, env));
    let w = rng.pct(30);
    s.push_str(&env.g.spell(f, &mut rng, w));
    // tokens as the rewriting sees them, to complete the sentence
    let raw = env.m.scan(&s).ok()?;
    k = env.m.filter(&raw).iter().map(|x| x.kind).collect();
    if k.iter().all(|x| env.g.spellable.get(*x as usize) == Some(&true)) {
        if let Some(st) = env.g.stack_after(&k) {
            if let Some(rest) = env.g.complete(st, &mut rng) {
                s.push(' ');
                s.push_str(&env.g.render(&rest, &mut rng, Style::Plain));
            }
        }
    }
    let _ = t;
    match idx % 3 {
        0 => Some(s),
        1 => Some(format!("{s}{}", env.g.trivia(&mut rng))),
        _ => Some(format!("select a not in (1) , b not between 1 and 2 ; {s}")),
    }
}

/// Many context words in one script, with and without their partners.
fn la_many(env: &Env, idx: u64) -> String {
    const P: &[&str] = &[
        "a not in (1)", "not a", "a not like b", "a is not null", "not not a", "a not between 1 and 2", "a not ilike b", "a not similar to b", "null::time with time zone",
        "null::timestamp without time zone", "null::timestamp with time zone", "with_", "nulls", "format", "json(format format json)", "not exists (select 1 order by 1 nulls first)", "(select 1 order by 1 nulls last)",
        "nulls first", "json_serialize(a format json)", "time", "first", "not(a)", "a not/*in*/in (2)", "a not--like\nlike b", "ordinality", "(with t as (select 1) select 1)", "not true", "json(a)",
        "json_object(a : b format/**/json)", "(select 1 from f() with ordinality)", "(select 1 from f() with/*x*/ordinality as x)", "without", "format json", "nulls nulls",
    ];
    let mut rng = Rng::new(env.seed, "la.many", idx);
    let mut s = String::from("select ");
    for i in 0..rng.range(1, 40) {
        if i > 0 {
            s.push_str(if rng.pct(85) { ", " } else { "; select " });
        }
        let p = *rng.pick(P);
        if rng.pct(20) {
            s.push_str(&p.to_ascii_uppercase());
        } else {
            s.push_str(p);
        }
        if rng.pct(10) {
            s.push_str(&env.g.trivia(&mut rng));
            s.push(' ');
        }
    }
    if rng.pct(20) {
        s.push_str(*rng.pick(&[" not", " with", " nulls", " format", " without", " not --", " with/**/", " order by 1 nulls", "\n"]));
    }
    s
}

/// Errors far into long inputs.
fn errlong(env: &Env, idx: u64) -> String {
    let mut rng = Rng::new(env.seed, "errlong", idx);
    let mut s = String::new();
    for _ in 0..rng.below(400) {
        let c = rng.pick(&env.g.corpus);
        if c.len() < 400 && c.ends_with(';') {
            s.push_str(c);
        } else {
            s.push_str("select 'é', 日本 /* ü */;\n");
        }
    }
    let e = ["select )", "select from from", "x", "select '", "select $a$", "select e'\\uD800'", "select /* ", "select 1a", "select \"", "select 0x", "é é", "select (1", "select U&'", "\u{1F600}", "select e'\\'", "select 1 from t where"];
    s.push_str(*rng.pick(&e));
    if rng.pct(50) {
        s.push_str(&env.g.trivia(&mut rng));
    }
    s
}

/// Small inputs behind a prefix that passes a power of two in bytes or tokens, at every alignment.
const LONG_UNITS: &[&str] = &[";", "/**/ ", "/**/--\n", "select 1;", "\u{e9}/**/", "--\u{e9}\n", "a, "];
const LONG_SIZES: &[usize] = &[4096, 32768, 65536, 131072];

pub fn long_count() -> u64 {
    (LONG_UNITS.len() * LONG_SIZES.len() * 2 * 4) as u64
}

fn long(env: &Env, idx: u64) -> Option<String> {
    let (i, u) = (idx as usize / LONG_UNITS.len(), LONG_UNITS[idx as usize % LONG_UNITS.len()]);
    let (i, size) = (i / LONG_SIZES.len(), LONG_SIZES[i % LONG_SIZES.len()]);
    let (by_tokens, pad) = (i % 2 == 1, i / 2);
    let n = if by_tokens { size + 10 } else { size / u.len() + 10 };
    if n * u.len() > 700_000 {
        return None;
    }
    let mut s = String::with_capacity(n * u.len() + 2000);
    s.push_str(&" ".repeat(pad));
    if u.starts_with(['a', '\u{e9}']) {
        s.push_str("select ");
    }
    s.push_str(&u.repeat(n));
    if u.starts_with('a') {
        s.push_str("b not in (c);");
    } else if u.starts_with('\u{e9}') {
        s.push_str("-1;");
    }
    let mut rng = Rng::new(env.seed, "long", idx);
    match rng.below(6) {
        0..=2 => s.push_str(&la_many(env, rng.next())),
        3 => s.push_str(&env.g.case("gram.wild", env.seed, rng.next() % 1_000_000)?),
        4 => s.push_str(&env.g.case("mutate.wild", env.seed, rng.next() % 1_000_000)?),
        _ => s.push_str("select '\u{e9}' )"),
    }
    Some(s)
}

pub const WORKLOADS: &[&str] = &["long", "probe", "glyphs", "keywords", "contin", "tails", "la", "la.rand", "la.many", "errlong"];

pub fn case(env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
    let s = match wl {
        // constructs of PostgreSQL's base_yylex beyond the five context words
        "probe" => "select U&'d!0061t' UESCAPE '!'".to_string(),
        "long" => long(env, idx)?,
        "glyphs" => glyphs(idx),
        "keywords" => keyword(env, idx),
        "contin" => contin(idx)?,
        "tails" => tails(env, idx)?,
        "la" => la(env, idx, false)?,
        "la.rand" => la(env, idx, true)?,
        "la.many" => la_many(env, idx),
        "errlong" => errlong(env, idx),
        "spaced" => crate::checks::spaced(env, idx)?,
        "twice" => crate::checks::twice(env, idx)?,
        _ => return None,
    };
    Some(vec![s])
}
