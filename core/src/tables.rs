//! The pinned grammar: bison's LALR(1) automaton for gram.y, and the keyword list.
use std::collections::HashMap;

pub const ERR: i16 = i16::MIN;
pub const ACC: i16 = 0;

pub struct Rule {
    pub lhs: u16,
    pub rhs: Vec<u16>,
}

#[derive(Clone, Debug)]
pub struct Kw {
    pub word: String,
    pub token: String,
    pub category: String,
    pub bare: bool,
}

/// Symbols: 0..nt are terminals (0 is $end), nt..nt+nn nonterminals.
pub struct Tables {
    pub names: Vec<String>,
    pub kinds: Vec<String>,
    pub nt: usize,
    pub nn: usize,
    pub rules: Vec<Rule>,
    /// state*nt+t: ERR, ACC, s+1 shift, -(r+1) reduce
    pub action: Vec<i16>,
    /// state*nn+n: -1 or state
    pub goto_: Vec<i16>,
    pub nstates: usize,
    pub by_name: HashMap<String, u16>,
    pub by_kind: HashMap<String, u16>,
    pub keywords: Vec<Kw>,
    pub kwmap: HashMap<String, u16>,
}

/// Name that the syntax-kind enum uses for a grammar symbol.
pub fn kind_name(sym: &str) -> String {
    if sym.len() == 3 && sym.starts_with('\'') {
        return match sym.as_bytes()[1] {
            b'%' => "Percent",
            b'(' => "LParen",
            b')' => "RParen",
            b'*' => "Star",
            b'+' => "Plus",
            b',' => "Comma",
            b'-' => "Minus",
            b'.' => "Dot",
            b'/' => "Slash",
            b':' => "Colon",
            b';' => "Semicolon",
            b'<' => "Less",
            b'=' => "Equals",
            b'>' => "Greater",
            b'[' => "LBracket",
            b']' => "RBracket",
            b'^' => "Caret",
            _ => "?",
        }
        .to_string();
    }
    sym.replace('$', "Dollar")
}

impl Tables {
    pub fn load(dir: &str) -> Tables {
        let text = std::fs::read_to_string(format!("{dir}/lalr.txt")).expect("spec/lalr.txt");
        let kw = std::fs::read_to_string(format!("{dir}/kwlist.h")).expect("spec/kwlist.h");
        Tables::parse(&text, &kw)
    }

    pub fn parse(text: &str, kwlist: &str) -> Tables {
        let mut tn = Vec::new();
        let mut nn = Vec::new();
        let mut rules_raw: Vec<&str> = Vec::new();
        let mut lsets: Vec<Vec<u16>> = Vec::new();
        let mut nstates = 0;
        for l in text.lines() {
            let b = l.as_bytes();
            match b.first() {
                Some(b'T') => tn.push(l[2..].to_string()),
                Some(b'N') => nn.push(l[2..].to_string()),
                Some(b'R') => rules_raw.push(&l[2..]),
                Some(b'L') => lsets.push(l[2..].split(' ').map(|x| x.parse().unwrap()).collect()),
                Some(b'S') => nstates += 1,
                _ => {}
            }
        }
        let nt = tn.len();
        let sym = |s: &str| -> u16 {
            let v: u16 = s[1..].parse().unwrap();
            if s.starts_with('t') {
                v
            } else {
                v + nt as u16
            }
        };
        let rules = rules_raw
            .iter()
            .map(|l| {
                let mut it = l.split(' ');
                let lhs = sym(it.next().unwrap());
                Rule { lhs, rhs: it.map(sym).collect() }
            })
            .collect();
        let nnn = nn.len();
        let mut action = vec![ERR; nstates * nt];
        let mut goto_ = vec![-1i16; nstates * nnn];
        let mut st: usize = usize::MAX;
        for l in text.lines() {
            let pair = |x: &str| -> (usize, usize) {
                let (a, b) = x.split_once(':').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            };
            match l.as_bytes().first() {
                Some(b'S') => st = st.wrapping_add(1),
                Some(b's') => {
                    for x in l[2..].split_ascii_whitespace() {
                        let (a, b) = pair(x);
                        action[st * nt + a] = (b + 1) as i16;
                    }
                }
                Some(b'g') => {
                    for x in l[2..].split_ascii_whitespace() {
                        let (a, b) = pair(x);
                        goto_[st * nnn + a] = b as i16;
                    }
                }
                Some(b'r') => {
                    for x in l[2..].split_ascii_whitespace() {
                        let (r, ls) = pair(x);
                        for &t in &lsets[ls] {
                            action[st * nt + t as usize] = -((r + 1) as i16);
                        }
                    }
                }
                Some(b'e') => {
                    for x in l[2..].split_ascii_whitespace() {
                        let a: usize = x.parse().unwrap();
                        action[st * nt + a] = ERR;
                    }
                }
                Some(b'a') => action[st * nt] = ACC,
                _ => {}
            }
        }
        let names: Vec<String> = tn.into_iter().chain(nn).collect();
        let kinds: Vec<String> = names.iter().map(|n| kind_name(n)).collect();
        let by_name: HashMap<String, u16> = names.iter().enumerate().map(|(i, n)| (n.clone(), i as u16)).collect();
        let by_kind = kinds.iter().enumerate().map(|(i, n)| (n.clone(), i as u16)).collect();
        let mut keywords = Vec::new();
        let mut kwmap = HashMap::new();
        for l in kwlist.lines() {
            if let Some(r) = l.strip_prefix("PG_KEYWORD(") {
                let r = &r[..r.find(')').unwrap()];
                let f: Vec<&str> = r.split(',').map(|x| x.trim()).collect();
                let word = f[0].trim_matches('"').to_string();
                kwmap.insert(word.clone(), by_name[f[1]]);
                keywords.push(Kw { word, token: f[1].into(), category: f[2].into(), bare: f[3] == "BARE_LABEL" });
            }
        }
        Tables { names, kinds, nt, nn: nnn, rules, action, goto_, nstates, by_name, by_kind, keywords, kwmap }
    }

    pub fn id(&self, name: &str) -> u16 {
        *self.by_name.get(name).unwrap_or_else(|| panic!("no symbol {name}"))
    }
    pub fn is_t(&self, s: u16) -> bool {
        (s as usize) < self.nt
    }
    pub fn act(&self, s: usize, t: u16) -> i16 {
        self.action[s * self.nt + t as usize]
    }
    pub fn go(&self, s: usize, n: u16) -> i16 {
        self.goto_[s * self.nn + n as usize - self.nt]
    }
}
