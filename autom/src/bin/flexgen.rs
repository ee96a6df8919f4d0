//! C18: random scan.l files and keyword lists, and what a scanner made from them does.
//! flexgen gen <seed> <k> <dir>   writes scan.l, kwlist.h, c.l (the same file with C actions), inputs, expected
use autom::*;
use std::fmt::Write as _;
use vcore::rng::Rng;

#[derive(Clone)]
enum Op {
    Begin(usize),
    /// keep only the first character of the match
    First,
    /// keep the match but for its last character, unless it has just one
    Less,
    In,
    /// leave (go to a condition) at depth 0, otherwise depth -= 1
    Out(usize),
    Mark(u8),
}

#[derive(Clone)]
enum End {
    Skip,
    Token,
    Word,
    Error,
    Stop,
}

struct Action {
    ops: Vec<Op>,
    end: End,
}

struct Rule {
    states: Vec<usize>,
    pat: N,
    text: String,
    /// None: the action of the next rule
    act: Option<Action>,
}

const CONDS: [&str; 8] = ["INITIAL", "xc", "xd", "xeu", "xdolq", "Str", "X_1", "b"];
const KW_POOL: [&str; 24] = [
    "abort", "a", "between_x", "b_2", "current_date", "do", "dos", "dosx", "else", "end_p", "in", "int", "integer", "inte", "x", "xmlparse", "zone", "set_of", "ab", "abc", "cab", "dcb", "xyz", "yz",
];

fn rust_action(i: usize, a: &Action, r: &mut Rng, out: &mut String) {
    let multi = r.pct(70);
    let nl = if multi { "\n\t\t\t\t\t" } else { " " };
    let mut t = String::from("{");
    let mut put = |s: &str| {
        t.push_str(nl);
        t.push_str(s);
    };
    if multi && r.pct(30) {
        put("/* what follows is { not } C */");
    }
    if multi && r.pct(20) {
        put("// BEGIN(xc);");
        put("// if (x) { yyless(2); }");
    }
    put(&format!("self.literal += &format!(\"R{i}@{{}}+{{}} \", self.index_bytes, self.yyleng);"));
    for o in &a.ops {
        match o {
            Op::Begin(s) => put(&format!("self.begin(State::{});", CONDS[*s])),
            Op::First => put("let keep = yytext.chars().next().map_or(0, |c| c.len_utf8()); self.yyless(keep);"),
            Op::Less => {
                put("let last = yytext.chars().last().map_or(0, |c| c.len_utf8());");
                put("if last < self.yyleng { let keep = self.yyleng - last; self.yyless(keep); }");
            }
            Op::In => put("self.xcdepth += 1;"),
            Op::Out(s) => {
                put(&format!("if self.xcdepth <= 0 {nl}{{"));
                put(&format!("\tself.begin(State::{});", CONDS[*s]));
                put("}");
                put("else {");
                put("\tself.xcdepth -= 1;");
                put("}");
            }
            Op::Mark(c) => put(&format!("self.addlitchar('{}');", *c as char)),
        }
    }
    match a.end {
        End::Skip => {}
        End::Token => {
            put("self.set_yylloc();");
            put(&format!("return Ok(Some(TokenKind::RAW(\"t{i}\".to_string())));"));
        }
        End::Word => {
            put("self.set_yylloc();");
            put("self.set_yyllocend();");
            put("if let Some((kw, kw_token)) = self.get_keyword(&self.yytext()) {");
            put("\tself.yylval = Yylval::Keyword(kw);");
            put("\treturn Ok(Some(TokenKind::KEYWORD(kw_token)));");
            put("}");
            put("return Ok(Some(TokenKind::IDENT));");
        }
        End::Error => put(&format!("yyerror!(\"e{i}\");")),
        End::Stop => {
            put("self.set_yylloc();");
            put("yyterminate!();");
        }
    }
    t.push_str(if multi { "\n\t\t\t\t}" } else { " }" });
    out.push_str(&t);
}

fn c_action(i: usize, a: &Action, eof: bool, out: &mut String) {
    write!(out, "{{ lit(\"R{i}@%d+%d \", pos, {});", if eof { "0" } else { "yyleng" }).unwrap();
    for o in &a.ops {
        match o {
            Op::Begin(s) => write!(out, " BEGIN({});", CONDS[*s]).unwrap(),
            Op::First => out.push_str(" yyless(1);"),
            Op::Less => out.push_str(" if (yyleng > 1) yyless(yyleng - 1);"),
            Op::In => out.push_str(" depth++;"),
            Op::Out(s) => write!(out, " if (depth <= 0) {{ BEGIN({}); }} else {{ depth--; }}", CONDS[*s]).unwrap(),
            Op::Mark(c) => write!(out, " lit(\"%c\", '{}', 0);", *c as char).unwrap(),
        }
    }
    match a.end {
        End::Skip => out.push_str(" pos += yyleng;"),
        End::Token => write!(out, " tok(\"t{i}\", pos, pos + yyleng); pos += yyleng;").unwrap(),
        End::Word => out.push_str(" word(yytext, yyleng); pos += yyleng;"),
        End::Error => write!(out, " fin(\"E:e{i}\"); return 0;").unwrap(),
        End::Stop => out.push_str(" fin(\"end\"); return 0;"),
    }
    out.push_str(" }");
}

struct File {
    defs: Vec<(String, N)>,
    def_text: Vec<String>,
    conds: usize,
    rules: Vec<Rule>,
    kw: Vec<(String, String)>,
    opt: Opt,
}

fn make(r: &mut Rng) -> Option<File> {
    let pool: &[u8] = b"abcdxyz01_-+*/'\"\\$.<>()[]{}|?^=:;~!@#%&,";
    let opt = Opt { alphabet: (0..r.range(3, 8)).map(|_| *r.pick(pool)).collect(), depth: r.range(1, 2), odd: r.pct(60) };
    let conds = r.range(1, 6);
    let mut defs: Vec<(String, N)> = Vec::new();
    let mut def_text = Vec::new();
    for i in 0..r.below(8) {
        let d = node(r, &opt, opt.depth, defs.len());
        let mut t = String::new();
        spell(&d, &defs, r, 0, &mut t);
        defs.push((names()[i].to_string(), d));
        def_text.push(t);
    }
    let mut rules: Vec<Rule> = Vec::new();
    let n = r.range(conds, conds * 6 + 4);
    let action = |r: &mut Rng, states: &[usize]| {
        let mut ops = Vec::new();
        if r.pct(20) {
            ops.push(Op::Mark(b'a' + r.below(26) as u8));
        }
        if r.pct(35) && conds > 1 {
            ops.push(Op::Begin(r.below(conds)));
        }
        match r.below(12) {
            0 => ops.push(Op::First),
            1 => ops.push(Op::Less),
            2 => ops.push(Op::In),
            3 => ops.push(Op::Out(r.below(conds))),
            _ => {}
        }
        let end = match r.below(20) {
            0 => End::Error,
            1 if r.pct(30) => End::Stop,
            2..=6 => End::Skip,
            7..=10 => End::Word,
            _ => End::Token,
        };
        let _ = states;
        Action { ops, end }
    };
    for _ in 0..n {
        let mut states: Vec<usize> = (0..conds).filter(|_| r.pct(30)).collect();
        if states.is_empty() {
            states.push(r.below(conds));
        }
        // the order of the names is free
        for i in (1..states.len()).rev() {
            let j = r.below(i + 1);
            states.swap(i, j);
        }
        let word = r.pct(12);
        let pat = if word {
            // something for the keywords
            N::Rep(Box::new(N::Set({
                let mut s = Set::none();
                (b'a'..=b'z').chain(b'A'..=b'Z').chain(b'0'..=b'9').for_each(|c| s.0[c as usize] = true);
                s.0[b'_' as usize] = true;
                s
            })), 1, usize::MAX)
        } else {
            node(r, &opt, opt.depth, defs.len())
        };
        let act = if r.pct(14) { None } else { Some(action(r, &states)) };
        let act = if word { act.map(|a| Action { ops: a.ops, end: End::Word }) } else { act };
        rules.push(Rule { states, pat, text: String::new(), act });
    }
    // ends of input, and something for every byte
    for c in 0..conds {
        let end = match r.below(3) {
            0 => End::Error,
            _ => End::Stop,
        };
        let states = vec![c];
        rules.insert(r.below(rules.len() + 1), Rule { states, pat: N::Eof, text: String::new(), act: Some(Action { ops: vec![], end }) });
    }
    let mut nl = Set::none();
    nl.0[10] = true;
    for (k, s) in [Set::dot(), nl].into_iter().enumerate() {
        let a = Action { ops: vec![], end: if r.pct(50) { End::Skip } else { End::Token } };
        rules.push(Rule { states: (0..conds).collect(), pat: N::Set(s), text: String::new(), act: if k == 0 && r.pct(40) { None } else { Some(a) } });
    }
    // an action shared by | must not be that of an end-of-input rule, which has no text
    for i in 0..rules.len() {
        if rules[i].act.is_none() {
            let j = (i..rules.len()).find(|&j| rules[j].act.is_some()).unwrap();
            if matches!(rules[j].pat, N::Eof) || matches!(rules[i].pat, N::Eof) {
                rules[i].act = Some(Action { ops: vec![], end: End::Token });
            }
        }
    }
    // moving back to where the scanner was, for ever, is not wanted: rules that give back text must not keep the condition and return nothing new
    for q in rules.iter_mut() {
        let mut t = String::new();
        spell(&q.pat, &defs, r, 0, &mut t);
        q.text = t.replace(' ', "\\x20");
        if q.text.chars().any(|c| c.is_whitespace()) {
            return None;
        }
    }
    let pats = Patterns { defs: defs.clone(), def_text: def_text.clone(), pats: rules.iter().map(|q| (q.states.clone(), q.pat.clone())).collect(), pat_text: vec![], states: conds };
    if rules.len() > 200 || !small(&pats, 150) {
        return None;
    }
    let mut kw: Vec<(String, String)> = Vec::new();
    for k in KW_POOL.iter() {
        if r.pct(50) {
            kw.push((k.to_string(), format!("{}_{}", k.to_uppercase(), r.below(3))));
        }
    }
    Some(File { defs, def_text, conds, rules, kw, opt })
}

fn write_l(f: &File, r0: &Rng, c: bool) -> String {
    let mut r = r0.clone();
    let r = &mut r;
    let mut l = String::new();
    l.push_str(if c { "%top{\n" } else { "%top{\n" });
    l.push_str("/*-----\n *\n * scan.l\n *\t  lexical scanner { }\n *-----\n */\n");
    l.push_str(if c { "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <strings.h>\n" } else { "#include \"postgres.h\"\n" });
    l.push_str("}\n\n%{\n");
    if c {
        l.push_str("static char out[65536]; static int on, pos, depth; static char toks[65536]; static int tn;\n#define lit(...) (on += snprintf(out + on, sizeof out - on, __VA_ARGS__))\n#define tok(k, a, b) (tn += snprintf(toks + tn, sizeof toks - tn, \"%s:%d:%d \", k, a, b))\nstatic void word(const char *t, int n);\nstatic void fin(const char *w);\n");
    } else {
        l.push_str("#define POP_YYLLOC()\t(*(yylloc) = yyextra->save_yylloc)\nstatic int process(const char *token);\n/* not_a_definition\tx */\n");
    }
    l.push_str("%}\n\n%option 8bit\n%option never-interactive\n%option nodefault\n%option noinput\n%option nounput\n%option noyywrap\n\n");
    if r.pct(60) {
        l.push_str("/*\n * OK, here is a short description of lex/flex rules behavior.\n *  <xb> bit string literal\n * %x is not a condition here\n */\n\n");
    }
    for i in 1..f.conds {
        writeln!(l, "%x {}", CONDS[i]).unwrap();
    }
    l.push('\n');
    for (i, (n, _)) in f.defs.iter().enumerate() {
        if r.pct(15) {
            l.push_str("/* \"quotes\" and {braces} in a comment */\n");
        }
        if r.pct(10) {
            l.push_str("/*\n * several\n * lines\n */\n");
        }
        let tabs = ["\t", "\t\t", "\t\t\t", "\t "][r.below(4)];
        writeln!(l, "{n}{tabs}{}{}", f.def_text[i], if !c && r.pct(10) { " " } else { "" }).unwrap();
        if r.pct(15) {
            l.push('\n');
        }
    }
    l.push_str("\n%%\n\n");
    let mut i = 0;
    while i < f.rules.len() {
        // a nested block takes the rules that have the same conditions
        let mut j = i;
        while j < f.rules.len() && f.rules[j].states == f.rules[i].states && j - i < 6 {
            j += 1;
        }
        // | reaches neither into a block nor out of it
        while j > i && f.rules[j - 1].act.is_none() {
            j -= 1;
        }
        let initial = f.rules[i].states == vec![0];
        let cond = f.rules[i].states.iter().map(|&s| CONDS[s]).collect::<Vec<_>>().join(",");
        let block = j > i && !initial && (i == 0 || f.rules[i - 1].act.is_some()) && r.pct(if j > i + 1 { 75 } else { 25 });
        if block {
            writeln!(l, "<{cond}>{{").unwrap();
        }
        let end = if block { j } else { i + 1 };
        for k in i..end {
            let q = &f.rules[k];
            // an end-of-input rule without condition is for all conditions that have none yet
            let bare = initial && (!matches!(q.pat, N::Eof) || f.rules[..k].iter().filter(|x| matches!(x.pat, N::Eof)).count() + 1 == f.conds);
            if !block && !(bare && r.pct(80)) {
                write!(l, "<{cond}>").unwrap();
            }
            l.push_str(&q.text);
            l.push_str(["\t", "\t\t", "\t\t\t", " "][r.below(4)]);
            match &q.act {
                None => l.push('|'),
                Some(a) => {
                    let mut t = String::new();
                    rust_action(k, a, r, &mut t);
                    if c {
                        t.clear();
                        c_action(k, a, matches!(q.pat, N::Eof), &mut t);
                    }
                    l.push_str(&t);
                }
            }
            l.push('\n');
            if r.pct(25) && q.act.is_some() {
                l.push('\n');
            }
        }
        if block {
            l.push_str(if r.pct(50) { "}\n" } else { "} /* <x> */\n" });
        }
        i = end;
    }
    l.push_str("\n%%\n\n");
    if c {
        l.push_str("static const char *kws[] = {");
        for (k, t) in &f.kw {
            write!(l, "\"{k}\",\"{t}\",").unwrap();
        }
        l.push_str("0};\nstatic void word(const char *t, int n) { for (int i = 0; kws[i]; i += 2) if ((int)strlen(kws[i]) == n && !strncasecmp(kws[i], t, n)) { char b[99]; snprintf(b, 99, \"K.%s\", kws[i+1]); tok(b, pos, pos + n); return; } tok(\"IDENT\", pos, pos + n); }\nstatic void fin(const char *w) { printf(\"%s\\t%s\\t%s\\n\", out, toks, w); }\nint main(int c, char **v) { FILE *f = fopen(v[1], \"rb\"); unsigned n; static char b[4096]; while (fread(&n, 4, 1, f) == 1) { if (fread(b, 1, n, f) != n) return 2; out[0] = toks[0] = 0; on = tn = pos = depth = 0; int asc = 1; for (unsigned i = 0; i < n; i++) if (b[i] & 0x80) asc = 0; if (!asc) { puts(\"-\"); continue; } BEGIN(INITIAL); YY_BUFFER_STATE y = yy_scan_bytes(b, n); yylex(); yy_delete_buffer(y); } return 0; }\n");
    } else {
        l.push_str("/* LCOV_EXCL_STOP */\n\nvoid *\ncore_yyalloc(yy_size_t bytes, core_yyscan_t yyscanner)\n{\n\treturn palloc(bytes);\n}\n<xc>{not_a_rule}\t{ ; }\n");
    }
    l
}

/// Runs the file on an input: trace, tokens, how it ends. None: it gives back text for ever.
fn run(f: &File, pats: &[(Vec<usize>, N)], s: &str) -> Option<String> {
    let b = s.as_bytes();
    let (mut cond, mut pos, mut depth) = (0usize, 0usize, 0usize);
    let (mut trace, mut toks) = (String::new(), String::new());
    for _ in 0..400 {
        let (mut len, rule) = select(pats, &f.defs, cond, &b[pos..]).expect("every byte and the end have a rule");
        // lengths are extended to the end of a character
        while !s.is_char_boundary(pos + len) {
            len += 1;
        }
        let k = (rule..f.rules.len()).find(|&j| f.rules[j].act.is_some()).unwrap();
        let a = f.rules[k].act.as_ref().unwrap();
        write!(trace, "R{k}@{pos}+{len} ").unwrap();
        let text = &s[pos..pos + len];
        for o in &a.ops {
            match o {
                Op::Begin(c) => cond = *c,
                Op::First => len = text.chars().next().map_or(0, |c| c.len_utf8()),
                Op::Less => {
                    let l = text.chars().last().map_or(0, |c| c.len_utf8());
                    if l < len {
                        len -= l
                    }
                }
                Op::In => depth += 1,
                Op::Out(c) => {
                    if depth == 0 {
                        cond = *c
                    } else {
                        depth -= 1
                    }
                }
                Op::Mark(c) => trace.push(*c as char),
            }
        }
        match a.end {
            End::Skip => {}
            End::Token => write!(toks, "t{k}:{pos}:{} ", pos + len).unwrap(),
            End::Word => {
                let t = &s[pos..pos + len];
                match f.kw.iter().find(|x| x.0.eq_ignore_ascii_case(t)) {
                    Some(x) => write!(toks, "K.{}:{pos}:{} ", x.1, pos + len).unwrap(),
                    None => write!(toks, "IDENT:{pos}:{} ", pos + len).unwrap(),
                }
            }
            End::Error => return Some(format!("{trace}\t{toks}\tE:e{k}")),
            End::Stop => return Some(format!("{trace}\t{toks}\tend")),
        }
        pos += len;
    }
    None
}

fn inputs(f: &File, r: &mut Rng, n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..n {
        let mut b: Vec<u8> = Vec::new();
        for _ in 0..r.range(1, 6) {
            match r.below(9) {
                0 => b.push(*r.pick(&f.opt.alphabet)),
                1 => b.extend("\u{e9}\u{65e5}\n\u{1F600}".chars().nth(r.below(4)).unwrap().to_string().bytes()),
                2 | 3 if !f.kw.is_empty() => {
                    let k = &r.pick(&f.kw).0;
                    b.extend(k.bytes().map(|c| if r.pct(30) { c.to_ascii_uppercase() } else { c }));
                    match r.below(6) {
                        0 => {
                            b.pop();
                        }
                        1 => b.push(b'x'),
                        2 => b.push(b'\n'),
                        _ => {}
                    }
                }
                4 => b.extend(r.pick(&KW_POOL).bytes()),
                _ => {
                    let q = r.below(f.rules.len());
                    sample(&f.rules[q].pat, &f.defs, r, &mut b);
                }
            }
        }
        b.retain(|&c| c != 0);
        b.truncate(56);
        let s = String::from_utf8(b.clone()).unwrap_or_else(|_| b.iter().map(|&c| (c & 0x7f).max(1) as char).collect());
        v.push(s);
    }
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, k, dir) = (a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), &a[4]);
    let n: usize = a.get(5).map(|x| x.parse().unwrap()).unwrap_or(2000);
    let mut r = Rng::new(seed, "scanfile", k);
    let f = loop {
        if let Some(f) = make(&mut r) {
            break f;
        }
    };
    let layout = Rng::new(seed, "layout", k);
    std::fs::write(format!("{dir}/scan.l"), write_l(&f, &layout, false)).unwrap();
    std::fs::write(format!("{dir}/c.l"), write_l(&f, &layout, true)).unwrap();
    let mut h = String::from("/*-------------------------------------------------------------------------\n *\n * kwlist.h\n *\n * PG_KEYWORD entries (name, value, category, is-bare-label)\n */\n\n/* there is deliberately not an #ifndef KWLIST_H here */\n\n/* name, value, category, is-bare-label */\n");
    for (k, t) in &f.kw {
        writeln!(h, "PG_KEYWORD(\"{k}\",{}{t}, {}, {}){}", [" ", "  ", ""][r.below(3)], r.pick(&["UNRESERVED_KEYWORD", "RESERVED_KEYWORD", "COL_NAME_KEYWORD", "TYPE_FUNC_NAME_KEYWORD"]), r.pick(&["BARE_LABEL", "AS_LABEL"]), if r.pct(80) { "" } else { *r.pick(&[" ", "\t", " /* note */", "  /* (a, b) */", ";"]) }).unwrap();
        if r.pct(6) {
            h.push_str("/* PG_KEYWORD(\"nope\", NOPE, UNRESERVED_KEYWORD, BARE_LABEL) */\n\n");
        }
    }
    std::fs::write(format!("{dir}/kwlist.h"), h).unwrap();
    let pats: Vec<(Vec<usize>, N)> = f.rules.iter().map(|q| (q.states.clone(), q.pat.clone())).collect();
    let (mut bin, mut exp) = (Vec::new(), String::new());
    let mut steps = 0usize;
    for s in inputs(&f, &mut r, n) {
        let Some(e) = run(&f, &pats, &s) else { continue };
        steps += e.matches('@').count();
        bin.extend((s.len() as u32).to_le_bytes());
        bin.extend(s.as_bytes());
        writeln!(exp, "{}", e.replace('\n', "\\n")).unwrap();
    }
    // every keyword and near misses, looked up directly
    let mut kws = String::new();
    for k in KW_POOL.iter().map(|s| s.to_string()).chain(f.kw.iter().flat_map(|x| [x.0.to_uppercase(), format!("{}x", x.0), x.0[..x.0.len() - 1].to_string(), x.1.clone(), format!(" {}", x.0)])).chain(["nope".to_string(), "NOPE".to_string(), String::new(), "name".to_string()]) {
        let w = f.kw.iter().find(|x| x.0.eq_ignore_ascii_case(&k)).map(|x| format!("{} {}", x.0, x.1)).unwrap_or_default();
        writeln!(kws, "{k}\t{w}").unwrap();
    }
    std::fs::write(format!("{dir}/inputs"), bin).unwrap();
    std::fs::write(format!("{dir}/expected"), exp).unwrap();
    std::fs::write(format!("{dir}/words"), kws).unwrap();
    println!("{} {} {} {}", f.rules.len(), f.conds, f.kw.len(), steps);
}
