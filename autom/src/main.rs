//! C16: automata built from random pattern sets against a direct matcher on the pattern trees.
use autom::*;
use automata::dfa::{DFA, INVALID_STATE};
#[cfg(feature = "nfa")]
use automata::nfa::{Transition, NFA};
use automata::{to_flex_pattern_dfa, FlexPatternDef, NameDefinition};
use std::collections::HashMap;
use std::fmt::Write as _;
use vcore::rng::Rng;

#[derive(Default)]
struct Stat {
    sets: u64,
    patterns: u64,
    strings: u64,
    positions: u64,
    matched: u64,
    ends: u64,
    states: u64,
    edges: u64,
    nfa: u64,
    too_large: u64,
    many: u64,
}

fn options(r: &mut Rng) -> Opt {
    let n = r.range(2, 6);
    let pool: &[u8] = if r.pct(70) { b"abcdxyz01_-+*/'\"\\$.<>()[]{}|?^=:;~!@#%&," } else { b"ab" };
    Opt { alphabet: (0..n).map(|_| *r.pick(pool)).collect(), depth: r.range(1, 3), odd: r.pct(60) }
}

fn build(p: &Patterns) -> Vec<DFA> {
    let pd: Vec<FlexPatternDef> = p.pats.iter().zip(&p.pat_text).map(|((s, _), t)| FlexPatternDef { state_set: s.clone(), pattern: t.clone() }).collect();
    let nd: Vec<NameDefinition> = p.defs.iter().zip(&p.def_text).map(|((n, _), t)| NameDefinition { name: n.clone(), definition: t.clone() }).collect();
    to_flex_pattern_dfa(&pd, &nd)
}

/// Longest match by walking the automaton as the generated scanner does.
fn walk(d: &DFA, s: &[u8]) -> Option<(usize, usize)> {
    let mut st = 0usize;
    let mut best = d.states[0].accept_lexer_rule_id.map(|r| (0usize, r as usize));
    for (i, b) in s.iter().enumerate() {
        st = d.states[st].transitions[*b as usize];
        if st == INVALID_STATE {
            return best;
        }
        if let Some(r) = d.states[st].accept_lexer_rule_id {
            best = Some((i + 1, r as usize));
        }
    }
    let e = d.states[st].transitions[0];
    if e != INVALID_STATE {
        if let Some(r) = d.states[e].accept_lexer_rule_id {
            best = Some((s.len(), r as usize));
        }
    }
    best
}

fn show(s: &[u8]) -> String {
    s.iter().map(|&b| if (32..127).contains(&b) && b != b'\\' { (b as char).to_string() } else { format!("\\x{b:02x}") }).collect()
}

fn describe(p: &Patterns) -> String {
    let mut t = String::new();
    for ((n, _), d) in p.defs.iter().zip(&p.def_text) {
        write!(t, "{n}={d}  ").unwrap();
    }
    for (i, ((s, _), x)) in p.pats.iter().zip(&p.pat_text).enumerate() {
        write!(t, "{i}:{s:?} {x}  ").unwrap();
    }
    t
}

fn strings(p: &Patterns, o: &Opt, r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let live: Vec<&N> = p.pats.iter().map(|x| &x.1).collect();
    for _ in 0..n {
        let mut s = Vec::new();
        for _ in 0..r.range(1, 3) {
            sample(live[r.below(live.len())], &p.defs, r, &mut s);
        }
        match r.below(6) {
            0 if !s.is_empty() => {
                let i = r.below(s.len());
                s[i] = if r.pct(60) { *r.pick(&o.alphabet) } else { 1 + r.below(255) as u8 };
            }
            1 if !s.is_empty() => {
                let i = r.below(s.len());
                s.remove(i);
            }
            2 => {
                let i = r.below(s.len() + 1);
                s.insert(i, if r.pct(60) { *r.pick(&o.alphabet) } else { 1 + r.below(255) as u8 });
            }
            3 => s = (0..r.range(1, 12)).map(|_| if r.pct(85) { *r.pick(&o.alphabet) } else { 1 + r.below(255) as u8 }).collect(),
            _ => {}
        }
        s.truncate(40);
        v.push(s);
    }
    v
}

/// Strings that visit the states of the automaton: an access path to each and one byte more.
fn visit(d: &DFA, r: &mut Rng, cap: usize) -> Vec<Vec<u8>> {
    let mut path: HashMap<usize, Vec<u8>> = HashMap::from([(0, vec![])]);
    let mut q = std::collections::VecDeque::from([0usize]);
    let mut out = Vec::new();
    while let Some(s) = q.pop_front() {
        let p = path[&s].clone();
        if out.len() > cap || p.len() > 36 {
            break;
        }
        let mut by: HashMap<usize, Vec<u8>> = HashMap::new();
        for b in 1..=255u8 {
            by.entry(d.states[s].transitions[b as usize]).or_default().push(b);
        }
        let mut keys: Vec<_> = by.into_iter().collect();
        keys.sort();
        for (t, bs) in keys {
            // both ends of the class of bytes and one between
            for &b in [bs[0], bs[bs.len() - 1], bs[r.below(bs.len())]].iter() {
                let mut x = p.clone();
                x.push(b);
                if t != INVALID_STATE && !path.contains_key(&t) {
                    path.insert(t, x.clone());
                    q.push_back(t);
                }
                out.push(x);
            }
        }
    }
    out
}

/// The k-th pattern set; now and then one with more patterns than fit a byte.
fn set(r: &mut Rng, k: u64) -> (Patterns, bool, Opt) {
    let mut o = options(r);
    let many = k % 60 == 11;
    if many {
        o.depth = 1;
        o.alphabet = (0..r.range(6, 30)).map(|_| 1 + r.below(127) as u8).collect();
    }
    let max = if many { *r.pick(&[100, 260, 300, 540, 800]) } else { 8 };
    (patterns(r, &o, max), many, o)
}

fn case(seed: u64, k: u64, st: &mut Stat) -> Result<(), String> {
    let mut r = Rng::new(seed, "automata", k);
    let (p, many, o) = set(&mut r, k);
    if !small(&p, if many { 2500 } else { 220 }) {
        st.too_large += 1;
        return Ok(());
    }
    if many {
        st.many += 1;
    }
    let dfas = std::panic::catch_unwind(|| build(&p)).map_err(|_| format!("panic while building the automaton | {}", describe(&p)))?;
    if dfas.len() != p.states {
        return Err(format!("{} automata for {} start conditions | {}", dfas.len(), p.states, describe(&p)));
    }
    st.sets += 1;
    st.patterns += p.pats.len() as u64;
    let big: usize = dfas.iter().map(|d| d.states.len()).sum();
    st.states += big as u64;
    let mut ss = strings(&p, &o, &mut r, 60);
    for d in &dfas {
        let v = visit(d, &mut r, 150);
        st.edges += v.len() as u64;
        ss.extend(v);
    }
    for s in &ss {
        for (state, d) in dfas.iter().enumerate() {
            // from the start at every length, and from some other positions
            for at in 0..=s.len() {
                if at > 0 && !r.pct(25) {
                    continue;
                }
                let t = &s[at..];
                let want = select(&p.pats, &p.defs, state, t);
                let got = walk(d, t);
                st.positions += 1;
                if want.is_some_and(|w| w.0 > 0) {
                    st.matched += 1;
                }
                if t.is_empty() {
                    st.ends += 1;
                }
                if want != got {
                    return Err(format!("condition {state}, input '{}': (length, pattern) {got:?} instead of {want:?} | {}", show(t), describe(&p)));
                }
                let mb = d.match_bytes(t).map(|x| x as usize);
                if mb != want.map(|w| w.1) {
                    return Err(format!("match_bytes in condition {state} on '{}': {mb:?} instead of {want:?} | {}", show(t), describe(&p)));
                }
            }
        }
        st.strings += 1;
    }
    graph(&mut r, st)
}

#[cfg(not(feature = "nfa"))]
fn graph(_: &mut Rng, _: &mut Stat) -> Result<(), String> {
    Ok(())
}

/// A random nondeterministic automaton made by hand: its determinised form and its own matcher against a plain simulation.
#[cfg(feature = "nfa")]
fn graph(r: &mut Rng, st: &mut Stat) -> Result<(), String> {
    let n = r.range(1, 9);
    let alpha: Vec<u8> = (0..r.range(1, 3)).map(|_| 1 + r.below(255) as u8).collect();
    let mut edges: Vec<(usize, Option<u8>, usize)> = Vec::new();
    for _ in 0..r.range(0, 3 * n) {
        edges.push((r.below(n), if r.pct(45) { None } else { Some(*r.pick(&alpha)) }, r.below(n)));
    }
    let accept: Vec<Option<u32>> = (0..n).map(|_| if r.pct(25) { Some(r.below(5) as u32) } else { None }).collect();
    let strings: Vec<Vec<u8>> = (0..12).map(|_| (0..r.below(9)).map(|_| *r.pick(&alpha)).collect()).collect();
    let (e2, a2, s2) = (edges.clone(), accept.clone(), strings.clone());
    let got: Vec<(Option<(usize, usize)>, bool)> = std::panic::catch_unwind(move || {
        let nfa = NFA::new();
        let v: Vec<_> = (0..n).map(|_| nfa.new_state()).collect();
        for (a, c, b) in &e2 {
            v[*a].add_transition(v[*b], c.map(Transition::Char).unwrap_or(Transition::Epsilon));
        }
        for (i, a) in a2.iter().enumerate() {
            if let Some(x) = a {
                v[i].set_accept(*x);
            }
        }
        let d = DFA::from(v[0]);
        s2.iter().map(|s| (walk(&d, s), nfa.matches_bytes(v[0], s))).collect()
    })
    .map_err(|_| format!("panic on the automaton {edges:?} accepting {accept:?}"))?;
    let close = |mut m: u32| loop {
        let mut x = m;
        for (a, c, b) in &edges {
            if c.is_none() && m >> a & 1 == 1 {
                x |= 1 << b;
            }
        }
        if x == m {
            return m;
        }
        m = x;
    };
    for (s, g) in strings.iter().zip(got) {
        let mut m = close(1);
        let mut best = None;
        for i in 0..=s.len() {
            if let Some(x) = (0..n).filter(|k| m >> k & 1 == 1).filter_map(|k| accept[k]).min() {
                best = Some((i, x as usize));
            }
            if i < s.len() {
                let mut y = 0;
                for (a, c, b) in &edges {
                    if *c == Some(s[i]) && m >> a & 1 == 1 {
                        y |= 1 << b;
                    }
                }
                m = close(y);
            }
        }
        st.nfa += 1;
        if g.0 != best {
            return Err(format!("determinised automaton on '{}': {:?} instead of {best:?} | edges {edges:?} accepting {accept:?}", show(s), g.0));
        }
        if g.1 != best.is_some() {
            return Err(format!("nondeterministic automaton on '{}': {} instead of {} | edges {edges:?} accepting {accept:?}", show(s), g.1, best.is_some()));
        }
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        // run <seed> <from> <step> <seconds> [<file that holds the case being run>]
        "run" => {
            std::panic::set_hook(Box::new(|_| {}));
            let (seed, from, step) = (num(2), num(3), num(4));
            let end = std::time::Instant::now() + std::time::Duration::from_secs(num(5));
            let mut st = Stat::default();
            let mut k = from;
            let mut bad = 0;
            let journal = a.get(6).map(|p| std::fs::File::create(p).unwrap());
            while std::time::Instant::now() < end && bad < 3 {
                if let Some(j) = &journal {
                    std::os::unix::fs::FileExt::write_all_at(j, &k.to_le_bytes(), 0).unwrap();
                }
                if let Err(e) = case(seed, k, &mut st) {
                    println!("bad\t{k}\t{}", e.replace(['\n', '\t'], " "));
                    bad += 1;
                }
                k += step;
            }
            let v = [("pattern_sets", st.sets), ("patterns", st.patterns), ("strings", st.strings), ("positions", st.positions), ("positions_with_a_match", st.matched), ("positions_at_the_end", st.ends), ("automaton_states", st.states), ("state_edge_probes", st.edges), ("hand_made_automata_strings", st.nfa), ("sets_left_out_as_too_large", st.too_large), ("sets_of_100_patterns_and_more", st.many)];
            for (n, x) in v {
                println!("n\t{n}\t{x}");
            }
        }
        "sample" => {
            let mut r = Rng::new(num(2), "automata", num(3));
            let o = options(&mut r);
            println!("{}", describe(&patterns(&mut r, &o, 8)));
        }
        "describe" => println!("{}", describe(&set(&mut Rng::new(num(2), "automata", num(3)), num(3)).0)),
        "one" => match case(num(2), num(3), &mut Stat::default()) {
            Ok(()) => println!("ok"),
            Err(e) => println!("bad\t{}\t{e}", num(3)),
        },
        // flex <seed> <from> <count> <dir>: the same sets as one flex file, with strings and what is expected
        "flex" => {
            let (seed, from, count) = (num(2), num(3), num(4));
            let mut l = String::from("%{\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\nstatic int which;\n#define ECHO which = -2\n%}\n%option noyywrap nounput noinput 8bit\n");
            let mut rules = String::new();
            let mut strs: Vec<u8> = Vec::new();
            let mut cond = String::new();
            for k in from..from + count {
                let mut r = Rng::new(seed, "automata", k);
                let o = options(&mut r);
                let p = patterns(&mut r, &o, 8);
                if !small(&p, 220) {
                    continue;
                }
                for s in 0..p.states {
                    writeln!(l, "%x S{k}_{s}").unwrap();
                    writeln!(cond, "case {}: BEGIN(S{k}_{s}); break;", (k - from) * 8 + s as u64).unwrap();
                }
                // names are local to a set
                let rename = |t: &str| {
                    let mut t = t.to_string();
                    for (i, (n, _)) in p.defs.iter().enumerate() {
                        t = t.replace(&format!("{{{n}}}"), &format!("{{D{k}_{i}}}"));
                    }
                    t
                };
                for (i, t) in p.def_text.iter().enumerate() {
                    writeln!(l, "D{k}_{i}\t{}", rename(t)).unwrap();
                }
                for (i, ((st, n), t)) in p.pats.iter().zip(&p.pat_text).enumerate() {
                    if let N::Eof = n {
                        continue;
                    }
                    let names: Vec<String> = st.iter().map(|s| format!("S{k}_{s}")).collect();
                    // spaces end a pattern in flex unless quoted or in a class
                    writeln!(rules, "<{}>{} {{ which = {i}; return 1; }}", names.join(","), rename(t)).unwrap();
                }
                for s in strings(&p, &o, &mut r, 40) {
                    if s.is_empty() {
                        continue;
                    }
                    for state in 0..p.states {
                        let want = select(&p.pats, &p.defs, state, &s).filter(|w| w.0 > 0);
                        strs.extend(((k - from) * 8 + state as u64).to_le_bytes());
                        strs.extend((s.len() as u32).to_le_bytes());
                        strs.extend(&s);
                        let (len, rule) = want.map(|w| (w.0 as i32, w.1 as i32)).unwrap_or((1, -2));
                        strs.extend(len.to_le_bytes());
                        strs.extend(rule.to_le_bytes());
                    }
                }
            }
            let main = format!(
                "%%\nint main(int c, char **v) {{ FILE *f = fopen(v[1], \"rb\"); long n = 0, bad = 0; unsigned long long st; unsigned len; int wl, wr; unsigned char b[64];\nwhile (fread(&st, 8, 1, f) == 1) {{ if(fread(&len, 4, 1, f)!=1||fread(b, 1, len, f)!=len||fread(&wl, 4, 1, f)!=1||fread(&wr, 4, 1, f)!=1) return 2;\nYY_BUFFER_STATE y = yy_scan_bytes((char*)b, len); switch (st) {{ {cond} }}\nwhich = -9; int first = yylex(); int gl = yyleng; (void)first; n++;\nif (which != wr || (which != -2 && gl != wl)) {{ if (bad++ < 5) {{ printf(\"bad\\t%llu\\t\", st); for (unsigned i = 0; i < len; i++) printf(\"%02x\", b[i]); printf(\"\\tflex %d,%d expected %d,%d\\n\", gl, which, wl, wr); }} }}\nyy_delete_buffer(y); }} printf(\"n\\t%ld\\t%ld\\n\", n, bad); return 0; }}\n"
            );
            // the default action ends the call as well
            let l = l.replace("#define ECHO which = -2", "#define ECHO do { which = -2; return 1; } while (0)");
            std::fs::write(format!("{}/t.l", a[5]), format!("{l}\n%%\n{rules}{main}")).unwrap();
            std::fs::write(format!("{}/t.in", a[5]), strs).unwrap();
        }
        _ => panic!(),
    }
}
