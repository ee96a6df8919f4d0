//! Monitors that compare one execution with the reference model (C01-C04, C06-C09).
use crate::judge::*;
use crate::obs::*;
use crate::run::*;
use crate::sizes;
use vcore::flat::*;
use vcore::gen::Style;
use vcore::rng::Rng;

fn q(env: &Env, quick: u64, thorough: u64) -> u64 {
    if env.thorough {
        thorough
    } else {
        quick
    }
}

fn sizes_job(env: &Env) -> Job {
    job("sizes", sizes::count(env.thorough))
}

fn all_pairs(env: &Env) -> u64 {
    env.g.size("pairs")
}

// ------------------------------------------------------------------ C01

pub struct Total;
impl Check for Total {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        let mut v = vec![
            job("corpus", env.g.size("corpus")),
            sizes_job(env),
            job("sizes.random", q(env, 4_000, 60_000)),
            job("bytes", q(env, 400_000, 12_000_000)),
            job("soup", q(env, 500_000, 20_000_000)),
            job("soup.wild", q(env, 100_000, 4_000_000)),
            job("cmut", q(env, 120_000, 4_000_000)),
            job("trunc", q(env, 80_000, 2_000_000)),
            job("gram.wild", q(env, 60_000, 2_000_000)),
            job("mutate.wild", q(env, 100_000, 3_000_000)),
            job("pairs.plain", q(env, 400_000, all_pairs(env))),
            job("tails", q(env, 150_000, 1_000_000)),
            job("glyphs", crate::scanwl::glyphs_count(env.thorough)),
            job("keywords", crate::scanwl::keywords_count(env)),
            job("contin", crate::scanwl::contin_count()),
            job("la.rand", q(env, 50_000, 1_000_000)),
        ];
        v.extend(crate::forms::jobs(1));
        v
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        shared(env, wl, idx)
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let s = &inputs[0];
        let o = observe(&env.m.t, s);
        st.bump(match &o {
            Obs::Tree(_) | Obs::Broken(..) => "observed.tree",
            Obs::Parse { .. } => "observed.syntax_error",
            Obs::Report { .. } => "observed.lexical_report",
            Obs::Scan { .. } => "observed.lexical_error",
            Obs::Panic(_) => "observed.panic",
        });
        if let Some(v) = o.tree() {
            st.max("max.depth", v.iter().map(|e| e.depth).max().unwrap_or(0) as u64);
        }
        st.max("max.input_bytes", s.len() as u64);
        if !s.trim().is_empty() {
            st.nontrivial(inputs);
        }
        match o {
            Obs::Panic(p) => vec![format!("Panic: {p}")],
            _ => vec![],
        }
    }
    fn shrinkable(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "inputs from every workload (random Unicode, scanner fragments, mutated and truncated SQL, size sweeps, grammar derivations, state x token pairs); non-trivial: not blank"
    }
}

// ------------------------------------------------------------------ C02

pub struct Lossless;
impl Check for Lossless {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        let mut v = vec![
            job("corpus", env.g.size("corpus")),
            sizes_job(env),
            job("sizes.random", q(env, 4_000, 40_000)),
            job("rules.wild", q(env, 30_000, 1_000_000)),
            job("gram.wild", q(env, 120_000, 5_000_000)),
            job("soup", q(env, 300_000, 8_000_000)),
            job("cmut", q(env, 150_000, 4_000_000)),
            job("trunc", q(env, 80_000, 2_000_000)),
            job("bytes", q(env, 150_000, 4_000_000)),
            job("spaced", q(env, 150_000, 4_000_000)),
            job("complete.trivia", q(env, all_pairs(env) / 8, all_pairs(env))),
        ];
        v.extend(crate::forms::jobs(if env.thorough { 1 } else { 3 }));
        v
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        shared(env, wl, idx)
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let s = &inputs[0];
        let mut extra: Option<String> = None;
        let o = observe_with(&env.m.t, s, |root| {
            // other ways to read the same text
            let mut cat = String::with_capacity(s.len());
            for e in root.descendants_with_tokens() {
                if let Some(t) = e.as_token() {
                    cat.push_str(if s.len() < 4_000 { t.text() } else { t.resolve_text(&**root.resolver()) });
                }
            }
            if cat != *s {
                extra = Some("concatenated token texts differ from the input".into());
            } else if root.text().to_string() != *s {
                extra = Some("root.text() differs from the input".into());
            } else if usize::from(root.text_range().end()) != s.len() || usize::from(root.text_range().start()) != 0 {
                extra = Some(format!("root range {:?} for {} bytes", root.text_range(), s.len()));
            }
        });
        st.bump(if o.is_ok() { "observed.tree" } else { "observed.error" });
        if let Some(v) = o.tree() {
            st.add("observed.tokens", v.iter().filter(|e| e.token).count() as u64);
            st.max("max.input_bytes", s.len() as u64);
            st.nontrivial(inputs);
        }
        let mut w = vec![];
        if let Obs::Broken(b, _) = &o {
            w.push(format!("Lossy: {b}"));
        }
        if let Some(x) = extra {
            w.push(format!("Lossy: {x}"));
        }
        w
    }
    fn shrinkable(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "inputs from every workload; non-trivial: accepted, so that a tree was walked token by token against the input"
    }
}

// ------------------------------------------------------------------ model comparison

/// Inputs whose verdict in PostgreSQL depends on rewriting that the reference model leaves out.
pub const PROBES: &[(&str, bool)] = &[("select U&'d!0061t' UESCAPE '!'", true)];

pub struct Diff {
    pub id: &'static str,
}

/// Style by index: mostly one space and simple spellings, so that generated token sequences survive scanning.
impl Diff {
    fn classes(&self) -> &'static [Class] {
        match self.id {
            "C03" => &[Class::Tree, Class::Tokens],
            "C04" => &[Class::Accept, Class::Panic],
            "C06" => &[Class::Tokens, Class::ScanErr, Class::ErrPos, Class::Panic, Class::Accept, Class::Tree],
            "C08" => &[Class::ErrPos, Class::ScanErr, Class::Panic],
            "C09" => &[Class::Tree, Class::Tokens, Class::Accept, Class::ErrPos, Class::Panic, Class::ScanErr],
            _ => unreachable!(),
        }
    }
}

impl Check for Diff {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        let all = all_pairs(env);
        let mut v = match self.id {
            "C03" => vec![
                job("corpus", env.g.size("corpus")),
                job("complete.plain", all),
                job("rules.plain", q(env, 100_000, 3_000_000)),
                job("rules.wild", q(env, 30_000, 1_000_000)),
                job("gram.wild", q(env, 100_000, 4_000_000)),
                job("complete.wild", q(env, all / 16, all)),
                job("twice", q(env, 60_000, 2_000_000)),
                sizes_job(env),
            ],
            "C04" => vec![
                job("probe", 1),
                job("corpus", env.g.size("corpus")),
                job("complete.plain", all),
                job("pairs.plain", all),
                job("rules.plain", q(env, 60_000, 3_000_000)),
                job("rules.wild", q(env, 20_000, 1_000_000)),
                job("gram.plain", q(env, 60_000, 4_000_000)),
                job("mutate.plain", q(env, 150_000, 6_000_000)),
                job("mutate.wild", q(env, 50_000, 3_000_000)),
                job("twice", q(env, 60_000, 2_000_000)),
                sizes_job(env),
            ],
            "C06" => vec![
                job("corpus", env.g.size("corpus")),
                job("glyphs", crate::scanwl::glyphs_count(env.thorough)),
                job("keywords", crate::scanwl::keywords_count(env)),
                job("contin", crate::scanwl::contin_count()),
                job("soup", q(env, 900_000, 40_000_000)),
                job("soup.wild", q(env, 100_000, 3_000_000)),
                job("tails", q(env, 300_000, 6_000_000)),
                job("bytes", q(env, 200_000, 8_000_000)),
                job("cmut", q(env, 120_000, 4_000_000)),
                job("trunc", q(env, 60_000, 2_000_000)),
                job("gram.wild", q(env, 40_000, 1_000_000)),
                sizes_job(env),
                job("sizes.random", q(env, 3_000, 40_000)),
            ],
            "C08" => vec![
                job("pairs.plain", all),
                job("pairs.trivia", q(env, all / 10, all)),
                job("corpus", env.g.size("corpus")),
                job("mutate.wild", q(env, 120_000, 5_000_000)),
                job("trunc", q(env, 120_000, 4_000_000)),
                job("cmut", q(env, 120_000, 4_000_000)),
                job("soup", q(env, 400_000, 20_000_000)),
                job("tails", q(env, 150_000, 4_000_000)),
                job("glyphs", crate::scanwl::glyphs_count(env.thorough)),
                job("errlong", q(env, 6_000, 60_000)),
                sizes_job(env),
            ],
            "C09" => vec![
                job("la", crate::scanwl::la_count(env)),
                job("la.rand", q(env, 300_000, 8_000_000)),
                job("la.many", q(env, 60_000, 2_000_000)),
            ],
            _ => unreachable!(),
        };
        v.push(job("long", crate::scanwl::long_count()));
        match self.id {
            "C06" => v.extend(crate::forms::jobs(1)),
            "C04" | "C08" => v.extend(crate::forms::jobs(if env.thorough { 1 } else { 6 })),
            _ => {}
        }
        v
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        shared(env, wl, idx)
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let s = &inputs[0];
        let (e, o) = both(env, s, st);
        let mut w = Vec::new();
        for (c, x) in diff(env.m, &e, &o) {
            if self.classes().contains(&c) {
                w.push(format!("{c:?}: {x}"));
            }
        }
        match self.id {
            "C03" => {
                if let Some(v) = o.tree() {
                    if let Some(x) = productions(env.m, &env.nullable, v, false) {
                        w.push(format!("Production: {x}"));
                    }
                    if e.toks.len() > 1 {
                        st.nontrivial(inputs);
                    }
                }
            }
            "C04" => {
                if let Some((_, want)) = PROBES.iter().find(|p| p.0 == s) {
                    w.clear();
                    if o.is_ok() != *want {
                        w.push(format!("Probe: PostgreSQL {} this, the library gives {}", if *want { "accepts" } else { "rejects" }, o.brief()));
                    }
                }
                if matches!(e.exp, Exp::Accept(_) | Exp::Syntax { .. }) && e.toks.len() > 1 {
                    st.nontrivial(inputs);
                }
            }
            "C08" => {
                if !o.is_ok() {
                    st.nontrivial(inputs);
                }
                if let Obs::Parse { start, end, .. } = &o {
                    if start > end || *end > s.len() || !s.is_char_boundary(*start) || !s.is_char_boundary(*end) {
                        w.push(format!("Range: error range {start}..{end} is not a range of the input"));
                    }
                }
                if let Obs::Report { pos, .. } = &o {
                    if *pos > s.len() || !s.is_char_boundary(*pos) {
                        w.push(format!("Range: error position {pos} is not a position of the input"));
                    }
                }
            }
            "C06" => {
                if !e.raw.is_empty() || matches!(e.exp, Exp::Scan(_)) {
                    st.nontrivial(inputs);
                }
            }
            "C09" => {
                st.nontrivial(inputs);
                for t in &e.toks {
                    let n = &env.m.t.names[t.kind as usize % env.m.t.nt];
                    if n.ends_with("_LA") {
                        st.bump(&format!("seen.{n}"));
                    } else if matches!(n.as_str(), "NOT" | "NULLS_P" | "WITH" | "WITHOUT" | "FORMAT") {
                        st.bump(&format!("seen.plain_{n}"));
                    }
                }
            }
            _ => {}
        }
        w
    }
    fn shrinkable(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        match self.id {
            "C03" => "derivations of every rule, a completed sentence for every (LR state, valid lookahead), random derivations, corpus, size sweeps; non-trivial: a tree of two or more tokens was compared with the reference derivation",
            "C04" => "every (LR state, lookahead) pair, valid ones completed to a sentence, plus derivations, mutants, corpus; non-trivial: two or more tokens, and a verdict of the grammar",
            "C06" => "scanner fragments in many contexts, every short character string over the critical alphabet, every keyword respelled, long tokens, mutants; non-trivial: at least one token or a lexical error",
            "C08" => "every (LR state, lookahead) pair, mutants, truncations, scanner fragments, long inputs; non-trivial: the library reported an error",
            _ => "every context word before every terminal in every LR state that admits the word, with trivia in between; scripts with many of them; non-trivial: all",
        }
    }
}

// ------------------------------------------------------------------ C07

pub struct Trivia;

impl Trivia {
    /// Renders the scanned tokens of `s` with fresh trivia; the tokens themselves stay.
    fn respace(env: &Env, s: &str, rng: &mut Rng, mode: usize) -> Option<String> {
        let raw = env.m.scan(s).ok()?;
        let toks: Vec<_> = raw.iter().filter(|t| !is_trivia(t.kind)).collect();
        let mut out = String::new();
        for (i, t) in toks.iter().enumerate() {
            let gap = match mode {
                0 => " ".to_string(),
                1 => "\n".to_string(),
                2 => " /* x */ ".to_string(),
                3 => " -- y\n".to_string(),
                4 => "/**/ ".repeat(rng.range(1, 30)),
                5 => "--\n".repeat(rng.range(1, 30)) + "\t",
                6 => [" ", "\t", "\r\n", "\x0b", "\x0c", "\r"][rng.below(6)].repeat(rng.range(1, 20)),
                _ => " ".to_string() + &env.g.trivia(rng) + " ",
            };
            if i > 0 || mode > 3 || rng.pct(20) {
                out.push_str(&gap);
            }
            out.push_str(&s[t.start..t.end]);
        }
        if rng.pct(40) {
            out.push_str(&env.g.trivia(rng));
        }
        Some(out)
    }
}

impl Check for Trivia {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        vec![
            job("corpus", env.g.size("corpus") * 8),
            sizes_job(env),
            job("long", crate::scanwl::long_count()),
            job("rules.wild", q(env, 60_000, 2_000_000)),
            job("complete.trivia", q(env, all_pairs(env) / 6, all_pairs(env))),
            job("gram.wild", q(env, 80_000, 3_000_000)),
            job("mutate.wild", q(env, 50_000, 1_500_000)),
            job("spaced", q(env, 150_000, 4_000_000)),
            job("soup", q(env, 200_000, 6_000_000)),
            job("cmut", q(env, 60_000, 1_500_000)),
        ]
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        let mut rng = Rng::new(env.seed, "c07", idx);
        let a = match wl {
            "corpus" => env.g.corpus.get(idx as usize / 8)?.clone(),
            _ => shared(env, wl, idx)?[0].clone(),
        };
        if wl == "long" || (a.len() > 20_000 && wl == "sizes" && !env.thorough) {
            return Some(vec![a.clone(), a]);
        }
        let mode = if wl == "corpus" { (idx % 8) as usize } else { rng.below(9) };
        let b = Trivia::respace(env, &a, &mut rng, mode).unwrap_or_else(|| a.clone());
        Some(vec![a, b])
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let mut w = Vec::new();
        let mut res = Vec::new();
        for s in inputs {
            let (e, o) = both(env, s, st);
            if let Some(v) = o.tree() {
                st.add("observed.trivia_tokens", v.iter().filter(|e| is_trivia(e.kind)).count() as u64);
                if let Some(x) = trivia_account(env.m, s, &e.raw, v) {
                    w.push(format!("Account: {x}"));
                }
            }
            res.push((e, o));
        }
        let (ea, oa) = &res[0];
        let (eb, ob) = &res[1];
        let key = |s: &str, e: &Expected| -> Option<Vec<(u16, String)>> {
            if matches!(e.exp, Exp::Scan(_)) {
                return None;
            }
            Some(e.raw.iter().filter(|t| !is_trivia(t.kind)).map(|t| (t.kind, s[t.start..t.end].to_string())).collect())
        };
        let (ka, kb) = (key(&inputs[0], ea), key(&inputs[1], eb));
        if ka.is_some() && ka == kb {
            // same tokens, different trivia
            if inputs[0] != inputs[1] {
                st.bump("pairs.same_tokens_respaced");
                st.nontrivial(inputs);
            }
            match (oa.tree(), ob.tree()) {
                (Some(a), Some(b)) => {
                    let x = |s: &str, v: &[El]| -> Vec<(u32, u16, Option<String>)> {
                        v.iter()
                            .filter(|e| !is_trivia(e.kind))
                            .map(|e| (e.depth, e.kind, e.token.then(|| s[e.start as usize..e.end as usize].to_string())))
                            .collect()
                    };
                    let (x, y) = (x(&inputs[0], a), x(&inputs[1], b));
                    if x != y {
                        let i = (0..x.len().max(y.len())).find(|i| x.get(*i) != y.get(*i)).unwrap();
                        w.push(format!("Structure: respacing changed element {i}: {:?} became {:?}", x.get(i), y.get(i)));
                    }
                }
                (None, None) => match (oa, ob) {
                    (Obs::Parse { start: s1, .. }, Obs::Parse { start: s2, .. }) => {
                        let ord = |e: &Expected, p: usize| e.toks.iter().position(|t| t.start == p).unwrap_or(e.toks.len());
                        if ord(ea, *s1) != ord(eb, *s2) {
                            w.push(format!("Verdict: error at token {} before and {} after respacing", ord(ea, *s1), ord(eb, *s2)));
                        }
                    }
                    (Obs::Panic(_), Obs::Panic(_)) => {}
                    (a, b) => {
                        if std::mem::discriminant(a) != std::mem::discriminant(b) {
                            w.push(format!("Verdict: {} before, {} after respacing", a.brief(), b.brief()));
                        }
                    }
                },
                _ => w.push(format!("Verdict: {} before, {} after respacing", oa.brief(), ob.brief())),
            }
        }
        w
    }
    fn rule(&self) -> &'static str {
        "an input and the same tokens with other whitespace and comments in between (single, long runs, nested, every whitespace character); non-trivial: both scan to the same token sequence and differ in trivia"
    }
}

// ------------------------------------------------------------------ helpers for other workloads

/// Sentences joined so that every token boundary carries dense trivia.
pub fn spaced(env: &Env, idx: u64) -> Option<String> {
    let mut rng = Rng::new(env.seed, "spaced", idx);
    let k = match rng.below(3) {
        0 => env.g.rule_sentence(rng.below(env.m.t.rules.len()), &mut rng, true)?,
        1 => env.g.kinds("gram", env.seed, idx, &mut rng)?,
        _ => {
            let c = rng.pick(&env.g.corpus);
            env.m.filter(&env.m.scan(c).ok()?).iter().map(|t| t.kind).collect()
        }
    };
    if k.iter().any(|x| env.g.spellable.get(*x as usize) != Some(&true)) {
        return None;
    }
    let dense = rng.below(4);
    let mut s = String::new();
    for x in k {
        match dense {
            0 => s.push_str(&env.g.trivia(&mut rng)),
            1 => {
                for _ in 0..rng.below(5) {
                    s.push_str(&env.g.trivia(&mut rng));
                }
                s.push(' ');
            }
            2 => {
                if rng.pct(50) {
                    s.push_str("/*é*/")
                } else {
                    s.push_str(" \r\n\u{c}")
                }
            }
            _ => s.push_str(if rng.pct(10) { "\n\n-- 日本 '\" $$ ;\n" } else { " " }),
        }
        let w = rng.pct(50);
        s.push_str(&env.g.spell(x, &mut rng, w));
    }
    if rng.pct(60) {
        s.push_str(&env.g.trivia(&mut rng));
    }
    Some(s)
}

/// Several random sentences in one script, so that the same construct occurs repeatedly.
pub fn twice(env: &Env, idx: u64) -> Option<String> {
    let mut rng = Rng::new(env.seed, "twice", idx);
    let mut s = String::new();
    for _ in 0..rng.range(2, 6) {
        let (r, w) = (rng.below(env.m.t.rules.len()), rng.pct(50));
        let k = env.g.rule_sentence(r, &mut rng, w)?;
        s.push_str(&env.g.render(&k, &mut rng, Style::Plain));
        s.push_str(*rng.pick(&[";", " ; ", ";;\n", "\n;"]));
    }
    Some(s)
}
