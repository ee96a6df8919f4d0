//! Expected outcome of an input by the reference model, and its comparison with an observation.
use crate::obs::Obs;
use vcore::flat::*;
use vcore::parse::{comments, Cover, Model};
use vcore::scan::{ScanErr, Tok};

pub enum Exp {
    Scan(ScanErr),
    Syntax { start: usize, end: usize },
    Accept(Vec<El>),
}

pub struct Expected {
    pub exp: Exp,
    /// tokens as scanned, with comments
    pub raw: Vec<Tok>,
    /// tokens as the grammar sees them
    pub toks: Vec<Tok>,
}

pub fn expect(m: &Model, s: &str, cov: Option<&mut Cover>) -> Expected {
    let raw = match m.scan(s) {
        Err(e) => return Expected { exp: Exp::Scan(e), raw: vec![], toks: vec![] },
        Ok(v) => v,
    };
    let toks = m.filter(&raw);
    let kinds: Vec<u16> = toks.iter().map(|t| t.kind).collect();
    let exp = match m.lr(&kinds, cov, true) {
        Err(i) => {
            let (start, end) = toks.get(i).map(|t| (t.start, t.end)).unwrap_or((s.len(), s.len()));
            Exp::Syntax { start, end }
        }
        Ok(t) => Exp::Accept(m.flatten(&t, &toks, false)),
    };
    Expected { exp, raw, toks }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Class {
    Accept,
    Tree,
    Tokens,
    ErrPos,
    ScanErr,
    Panic,
    Broken,
}

pub fn name(m: &Model, k: u16) -> String {
    match k {
        WS => "Whitespace".into(),
        CC => "C_COMMENT".into(),
        SC => "SQL_COMMENT".into(),
        ROOT => "Root".into(),
        k if (k as usize) < m.t.kinds.len() => m.t.kinds[k as usize].clone(),
        k => format!("?{k:x}"),
    }
}

pub fn el(m: &Model, e: &El) -> String {
    format!("{}{}@{}..{} depth {}", name(m, e.kind), if e.token { " token" } else { "" }, e.start, e.end, e.depth)
}

pub fn first_diff(m: &Model, want: &[El], got: &[El]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            let f = |x: Option<&El>| x.map(|e| el(m, e)).unwrap_or("nothing".into());
            return Some(format!("element {i}: expected {}, got {}", f(want.get(i)), f(got.get(i))));
        }
    }
    None
}

pub fn scan_err_matches(e: &ScanErr, o: &Obs) -> bool {
    match (e, o) {
        (ScanErr::Msg(m), Obs::Scan { msg }) => m == msg,
        (ScanErr::Report(m, d, p), Obs::Report { msg, detail, pos }) => m == msg && d == detail && p == pos,
        // how a NUL is worded is the library's choice; it must be an error that does not point behind it
        (ScanErr::Nul(p), Obs::Report { pos, .. }) => pos <= p,
        (ScanErr::Nul(p), Obs::Parse { start, .. }) => start <= p,
        (ScanErr::Nul(_), Obs::Scan { .. }) => true,
        _ => false,
    }
}

/// Every way in which the observation departs from the expectation.
pub fn diff(m: &Model, e: &Expected, o: &Obs) -> Vec<(Class, String)> {
    let mut v = Vec::new();
    if let Obs::Panic(p) = o {
        v.push((Class::Panic, format!("panicked: {p}")));
        return v;
    }
    if let Obs::Broken(w, _) = o {
        v.push((Class::Broken, w.clone()));
    }
    match (&e.exp, o) {
        (Exp::Accept(want), o) if o.is_ok() => {
            let got = structure(o.tree().unwrap());
            let toks = |x: &[El]| -> Vec<El> { x.iter().filter(|e| e.token).map(|e| El { depth: 0, ..*e }).collect() };
            if let Some(d) = first_diff(m, &toks(want), &toks(&got)) {
                v.push((Class::Tokens, format!("tokens differ: {d}")));
            }
            if let Some(d) = first_diff(m, want, &got) {
                v.push((Class::Tree, format!("tree differs: {d}")));
            }
        }
        (Exp::Accept(_), o) => v.push((Class::Accept, format!("grammatical input rejected: {}", o.brief()))),
        (Exp::Syntax { start, end }, Obs::Parse { msg, start: s, end: en }) => {
            if s != start || en != end {
                v.push((Class::ErrPos, format!("syntax error expected at {start}..{end}, reported at {s}..{en}")));
            } else if !numbers(msg).contains(start) {
                v.push((Class::ErrPos, format!("message {msg:?} does not name position {start}")));
            }
        }
        (Exp::Syntax { start, end }, o) if o.is_ok() => {
            v.push((Class::Accept, format!("ungrammatical input accepted (no continuation after the tokens before {start}..{end})")))
        }
        (Exp::Syntax { start, end }, o) => {
            v.push((Class::ScanErr, format!("syntax error expected at {start}..{end}, got {}", o.brief())))
        }
        (Exp::Scan(x), o) => {
            if !scan_err_matches(x, o) {
                v.push((Class::ScanErr, format!("lexical error expected: {x:?}, got {}", o.brief())));
            }
        }
    }
    v
}

fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}

/// Comments and whitespace of an accepted input against the scanner's view.
pub fn trivia_account(m: &Model, input: &str, raw: &[Tok], v: &[El]) -> Option<String> {
    let want: Vec<(u16, usize, usize)> = comments(raw).iter().map(|t| (t.kind, t.start, t.end)).collect();
    let got: Vec<(u16, usize, usize)> =
        v.iter().filter(|e| e.token && (e.kind == CC || e.kind == SC)).map(|e| (e.kind, e.start as usize, e.end as usize)).collect();
    if want != got {
        return Some(format!("comments expected {want:?}, in tree {got:?}"));
    }
    let mut prev: Option<&El> = None;
    for e in v.iter().filter(|e| e.token) {
        if e.kind == WS {
            let t = input.get(e.start as usize..e.end as usize).unwrap_or("?");
            if t.is_empty() || !t.bytes().all(vcore::scan::is_space) {
                return Some(format!("whitespace token {t:?} at {}", e.start));
            }
            if prev.is_some_and(|p| p.kind == WS) {
                return Some(format!("two whitespace tokens in a row at {}", e.start));
            }
        }
        prev = Some(e);
    }
    let _ = m;
    None
}

/// Is every node, trivia aside, an instance of a production (symbols that can derive nothing may be missing)?
pub fn productions(m: &Model, nullable: &[bool], v: &[El], keep_empty: bool) -> Option<String> {
    let s: Vec<&El> = v.iter().filter(|e| !is_trivia(e.kind)).collect();
    if s.is_empty() || s[0].kind != ROOT || s[0].token || s[0].depth != 0 {
        return Some("tree does not start with a root node".into());
    }
    let mut path: Vec<(usize, Vec<u16>)> = Vec::new();
    let close = |i: usize, kids: &[u16]| -> Option<String> {
        let e = s[i];
        if i == 0 {
            let start = m.t.rules[0].rhs[0];
            let ok = kids == [start] || (kids.is_empty() && !keep_empty);
            return (!ok).then(|| format!("root has children {:?}", kids.iter().map(|k| name(m, *k)).collect::<Vec<_>>()));
        }
        if e.token {
            if (e.kind as usize) >= m.t.nt || !kids.is_empty() {
                return Some(format!("{} is not a terminal", el(m, e)));
            }
            return None;
        }
        if (e.kind as usize) < m.t.nt || (e.kind as usize) >= m.t.nt + m.t.nn {
            return Some(format!("{} is not a nonterminal", el(m, e)));
        }
        let ok = m.t.rules.iter().filter(|r| r.lhs == e.kind).any(|r| {
            if keep_empty {
                return r.rhs == kids;
            }
            // greedy does not suffice: an omitted nullable symbol may equal a later one
            let mut at = vec![false; kids.len() + 1];
            at[0] = true;
            for sym in &r.rhs {
                let mut nx = vec![false; kids.len() + 1];
                for k in 0..=kids.len() {
                    if at[k] {
                        if k < kids.len() && kids[k] == *sym {
                            nx[k + 1] = true;
                        }
                        if nullable[*sym as usize] {
                            nx[k] = true;
                        }
                    }
                }
                at = nx;
            }
            at[kids.len()] && (!kids.is_empty() || keep_empty)
        });
        (!ok).then(|| format!("{} with children {:?} is no production", el(m, e), kids.iter().map(|k| name(m, *k)).collect::<Vec<_>>()))
    };
    for (i, e) in s.iter().enumerate() {
        while let Some((j, kids)) = path.last() {
            if s[*j].depth >= e.depth {
                if let Some(x) = close(*j, kids) {
                    return Some(x);
                }
                path.pop();
            } else {
                break;
            }
        }
        if let Some((_, kids)) = path.last_mut() {
            kids.push(e.kind);
        } else if i > 0 {
            return Some("more than one root".into());
        }
        path.push((i, Vec::new()));
    }
    while let Some((j, kids)) = path.pop() {
        if let Some(x) = close(j, &kids) {
            return Some(x);
        }
    }
    None
}

pub fn nullable(m: &Model) -> Vec<bool> {
    let mut n = vec![false; m.t.nt + m.t.nn];
    loop {
        let mut ch = false;
        for r in &m.t.rules {
            if !n[r.lhs as usize] && r.rhs.iter().all(|s| n[*s as usize]) {
                n[r.lhs as usize] = true;
                ch = true;
            }
        }
        if !ch {
            return n;
        }
    }
}
