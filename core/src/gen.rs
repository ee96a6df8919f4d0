//! Input generators. Every case is a pure function of (workload, seed, index).
use crate::parse::Model;
use crate::rng::Rng;
use crate::tables::{ACC, ERR};

const INF: u32 = 1 << 28;

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// one space between tokens, simple spellings
    Plain,
    /// one space, all spellings
    Spelled,
    /// random trivia, all spellings
    Wild,
    /// random trivia, simple spellings
    Trivia,
}

pub struct Gen<'a> {
    pub m: &'a Model,
    pub spellable: Vec<bool>,
    words: Vec<Option<String>>,
    /// per symbol: length of a shortest yield and the rule that starts it
    pub cost: Vec<u32>,
    best_rule: Vec<usize>,
    pub rules_of: Vec<Vec<usize>>,
    /// per state: (previous state, symbol) on a shortest way from state 0
    pub reach: Vec<Option<(u32, u16)>>,
    /// kernel items per state
    pub kernels: Vec<Vec<(u16, u8)>>,
    /// per nonterminal: (parent rule, position) on a shortest context from the start symbol
    ctx: Vec<Option<(usize, usize)>>,
    pub corpus: Vec<String>,
    pub terms: Vec<u16>,
}

impl<'a> Gen<'a> {
    pub fn new(m: &'a Model, corpus_dir: &str) -> Gen<'a> {
        let t = &m.t;
        let total = t.nt + t.nn;
        let mut words: Vec<Option<String>> = vec![None; t.nt];
        for k in &t.keywords {
            words[t.id(&k.token) as usize] = Some(k.word.clone());
        }
        for (la, w) in [("NOT_LA", "not"), ("NULLS_LA", "nulls"), ("WITH_LA", "with"), ("WITHOUT_LA", "without"), ("FORMAT_LA", "format")] {
            words[t.id(la) as usize] = Some(w.into());
        }
        for (n, w) in [
            ("TYPECAST", "::"),
            ("DOT_DOT", ".."),
            ("COLON_EQUALS", ":="),
            ("EQUALS_GREATER", "=>"),
            ("LESS_EQUALS", "<="),
            ("GREATER_EQUALS", ">="),
            ("NOT_EQUALS", "<>"),
        ] {
            words[t.id(n) as usize] = Some(w.into());
        }
        for i in 0..t.nt {
            let n = &t.names[i];
            if n.len() == 3 && n.starts_with('\'') {
                words[i] = Some(n[1..2].to_string());
            }
        }
        let mut spellable = vec![false; t.nt];
        for i in 0..t.nt {
            spellable[i] = words[i].is_some()
                || matches!(t.names[i].as_str(), "IDENT" | "FCONST" | "SCONST" | "BCONST" | "XCONST" | "Op" | "ICONST" | "PARAM");
        }
        let terms = (0..t.nt as u16).filter(|i| spellable[*i as usize]).collect();
        let mut cost = vec![INF; total];
        for i in 0..t.nt {
            if spellable[i] {
                cost[i] = 1;
            }
        }
        let mut best_rule = vec![usize::MAX; total];
        let mut rules_of = vec![vec![]; total];
        for (i, r) in t.rules.iter().enumerate() {
            rules_of[r.lhs as usize].push(i);
        }
        loop {
            let mut ch = false;
            for (i, r) in t.rules.iter().enumerate().skip(1) {
                let c = r.rhs.iter().fold(0u32, |a, s| (a + cost[*s as usize]).min(INF));
                if c < cost[r.lhs as usize] {
                    cost[r.lhs as usize] = c;
                    best_rule[r.lhs as usize] = i;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // shortest ways to states
        let mut dist = vec![INF; t.nstates];
        let mut reach = vec![None; t.nstates];
        dist[0] = 0;
        let mut heap = std::collections::BinaryHeap::new();
        heap.push(std::cmp::Reverse((0u32, 0usize)));
        let mut trans: Vec<Vec<(u16, u32)>> = vec![vec![]; t.nstates];
        for s in 0..t.nstates {
            for a in 0..t.nt as u16 {
                let x = t.act(s, a);
                if x > 0 {
                    trans[s].push((a, (x - 1) as u32));
                }
            }
            for n in t.nt..total {
                let g = t.go(s, n as u16);
                if g >= 0 {
                    trans[s].push((n as u16, g as u32));
                }
            }
        }
        while let Some(std::cmp::Reverse((d, s))) = heap.pop() {
            if d > dist[s] {
                continue;
            }
            for &(sym, to) in &trans[s] {
                let c = cost[sym as usize];
                if c >= INF {
                    continue;
                }
                // a small charge per step prefers few symbols among equals
                let nd = d + c * 16 + 1;
                if nd < dist[to as usize] {
                    dist[to as usize] = nd;
                    reach[to as usize] = Some((s as u32, sym));
                    heap.push(std::cmp::Reverse((nd, to as usize)));
                }
            }
        }
        // kernels by walking the LR(0) automaton
        let mut kernels: Vec<Vec<(u16, u8)>> = vec![vec![]; t.nstates];
        let mut done = vec![false; t.nstates];
        kernels[0] = vec![(0, 0)];
        let mut queue = std::collections::VecDeque::from([0usize]);
        done[0] = true;
        while let Some(s) = queue.pop_front() {
            let mut items = kernels[s].clone();
            let mut seen = vec![false; total];
            let mut i = 0;
            while i < items.len() {
                let (r, d) = items[i];
                if let Some(&n) = t.rules[r as usize].rhs.get(d as usize) {
                    if !t.is_t(n) && !seen[n as usize] {
                        seen[n as usize] = true;
                        for &q in &rules_of[n as usize] {
                            if !items.contains(&(q as u16, 0)) {
                                items.push((q as u16, 0));
                            }
                        }
                    }
                }
                i += 1;
            }
            for &(sym, to) in &trans[s] {
                let to = to as usize;
                if done[to] {
                    continue;
                }
                done[to] = true;
                kernels[to] = items
                    .iter()
                    .filter(|(r, d)| t.rules[*r as usize].rhs.get(*d as usize) == Some(&sym))
                    .map(|(r, d)| (*r, *d + 1))
                    .collect();
                queue.push_back(to);
            }
        }
        // contexts
        let mut ctx = vec![None; total];
        let start = t.rules[0].rhs[0];
        let mut q = std::collections::VecDeque::from([start]);
        let mut seen = vec![false; total];
        seen[start as usize] = true;
        while let Some(n) = q.pop_front() {
            for &r in &rules_of[n as usize] {
                let rhs = &t.rules[r].rhs;
                if rhs.iter().any(|s| cost[*s as usize] >= INF) {
                    continue;
                }
                for (p, s) in rhs.iter().enumerate() {
                    if !t.is_t(*s) && !seen[*s as usize] {
                        seen[*s as usize] = true;
                        ctx[*s as usize] = Some((r, p));
                        q.push_back(*s);
                    }
                }
            }
        }
        let mut corpus = Vec::new();
        let mut files: Vec<_> = std::fs::read_dir(corpus_dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                for part in s.split_inclusive(';') {
                    if part.trim().len() > 1 {
                        corpus.push(part.to_string());
                    }
                }
                corpus.push(s);
            }
        }
        Gen { m, spellable, words, cost, best_rule, rules_of, reach, kernels, ctx, corpus, terms }
    }

    /// Appends a shortest yield of `sym`.
    pub fn min_yield(&self, sym: u16, out: &mut Vec<u16>) {
        if self.m.t.is_t(sym) {
            out.push(sym);
        } else {
            for &s in &self.m.t.rules[self.best_rule[sym as usize]].rhs {
                self.min_yield(s, out);
            }
        }
    }

    /// Random yield; `budget` is the number of rule expansions that may still be chosen freely.
    pub fn rand_yield(&self, sym: u16, rng: &mut Rng, budget: &mut i32, out: &mut Vec<u16>) {
        if self.m.t.is_t(sym) {
            out.push(sym);
            return;
        }
        *budget -= 1;
        if *budget <= 0 || out.len() > 400 {
            return self.min_yield(sym, out);
        }
        let rs = &self.rules_of[sym as usize];
        let mut r = rs[rng.below(rs.len())];
        for _ in 0..8 {
            if self.m.t.rules[r].rhs.iter().all(|s| self.cost[*s as usize] < INF) {
                break;
            }
            r = rs[rng.below(rs.len())];
        }
        if self.m.t.rules[r].rhs.iter().any(|s| self.cost[*s as usize] >= INF) {
            return self.min_yield(sym, out);
        }
        for &s in &self.m.t.rules[r].rhs {
            // spread the budget so that later siblings get some as well
            let mut b = if rng.pct(30) { *budget } else { (*budget * 2) / 3 };
            let before = b;
            self.rand_yield(s, rng, &mut b, out);
            *budget -= (before - b).max(0);
        }
    }

    /// Sentence containing an application of rule r in a shortest context. Other parts random with probability.
    pub fn rule_sentence(&self, r: usize, rng: &mut Rng, rich: bool) -> Option<Vec<u16>> {
        let t = &self.m.t;
        let rule = &t.rules[r];
        if r == 0 || rule.rhs.iter().any(|s| self.cost[*s as usize] >= INF) {
            return None;
        }
        let mut pre: Vec<u16> = Vec::new();
        let mut post: Vec<u16> = Vec::new();
        let y = |s: u16, rng: &mut Rng| {
            let mut v = Vec::new();
            if rich {
                let mut b = rng.range(0, 25) as i32;
                self.rand_yield(s, rng, &mut b, &mut v);
            } else {
                self.min_yield(s, &mut v);
            }
            v
        };
        for &s in &rule.rhs {
            pre.extend(y(s, rng));
        }
        let mut n = rule.lhs;
        let start = t.rules[0].rhs[0];
        while n != start {
            let (pr, pos) = self.ctx[n as usize]?;
            let rhs = &t.rules[pr].rhs;
            let mut left = Vec::new();
            for &s in &rhs[..pos] {
                if rich && rng.pct(15) {
                    left.extend(y(s, rng));
                } else {
                    self.min_yield(s, &mut left);
                }
            }
            for &s in &rhs[pos + 1..] {
                if rich && rng.pct(15) {
                    post.extend(y(s, rng));
                } else {
                    self.min_yield(s, &mut post);
                }
            }
            left.extend(pre);
            pre = left;
            n = t.rules[pr].lhs;
        }
        pre.extend(post);
        Some(pre)
    }

    /// Terminals leading from the start to `state`.
    pub fn prefix(&self, state: usize, rng: Option<&mut Rng>) -> Option<Vec<u16>> {
        let mut syms = Vec::new();
        let mut s = state;
        while s != 0 {
            let (p, sym) = self.reach[s]?;
            syms.push(sym);
            s = p as usize;
        }
        let mut out = Vec::new();
        match rng {
            None => {
                for s in syms.iter().rev() {
                    self.min_yield(*s, &mut out);
                }
            }
            Some(r) => {
                for s in syms.iter().rev() {
                    if r.pct(35) {
                        let mut b = r.range(1, 8) as i32;
                        self.rand_yield(*s, r, &mut b, &mut out);
                    } else {
                        self.min_yield(*s, &mut out);
                    }
                }
            }
        }
        Some(out)
    }

    /// LR stack after shifting all of `kinds`, if they form a viable prefix.
    pub fn stack_after(&self, kinds: &[u16]) -> Option<Vec<u32>> {
        let t = &self.m.t;
        let mut st = vec![0u32];
        for &k in kinds {
            loop {
                let a = t.act(*st.last().unwrap() as usize, k);
                if a == ERR || a == ACC {
                    return None;
                }
                if a > 0 {
                    st.push((a - 1) as u32);
                    break;
                }
                let r = &t.rules[(-a - 1) as usize];
                st.truncate(st.len() - r.rhs.len());
                let g = t.go(*st.last().unwrap() as usize, r.lhs);
                st.push(g as u32);
            }
        }
        Some(st)
    }

    /// Tokens that probably complete the viable prefix behind `stack` (not guaranteed; the model decides).
    pub fn complete(&self, mut st: Vec<u32>, rng: &mut Rng) -> Option<Vec<u16>> {
        let t = &self.m.t;
        let mut out = Vec::new();
        for step in 0..400 {
            let top = *st.last().unwrap() as usize;
            let items: Vec<(u16, u8, u32)> = self.kernels[top]
                .iter()
                .map(|&(r, d)| {
                    let c = t.rules[r as usize].rhs[d as usize..].iter().fold(0u32, |a, s| (a + self.cost[*s as usize]).min(INF));
                    (r, d, c)
                })
                .filter(|x| x.2 < INF || x.0 == 0)
                .collect();
            if items.is_empty() {
                return None;
            }
            if items.iter().any(|x| x.0 == 0 && x.1 >= 1) {
                return Some(out);
            }
            let (r, d, _) = if rng.pct(75) || step > 200 {
                let mc = items.iter().map(|x| x.2).min().unwrap();
                let c: Vec<_> = items.iter().filter(|x| x.2 == mc).collect();
                **rng.pick(&c)
            } else {
                *rng.pick(&items)
            };
            let rule = &t.rules[r as usize];
            if d == 0 {
                // only the start state
                let s = rule.rhs[0];
                self.min_yield(s, &mut out);
                return Some(out);
            }
            for &s in &rule.rhs[d as usize..] {
                self.min_yield(s, &mut out);
            }
            let l = st.len();
            st.truncate(l - d as usize);
            let g = t.go(*st.last().unwrap() as usize, rule.lhs);
            if g < 0 {
                return None;
            }
            st.push(g as u32);
            if out.len() > 300 {
                return None;
            }
        }
        None
    }

    // ---------------------------------------------------------------- rendering

    pub fn spell(&self, term: u16, rng: &mut Rng, wild: bool) -> String {
        if let Some(w) = &self.words[term as usize] {
            if wild && rng.pct(50) {
                return w.chars().map(|c| if rng.pct(50) { c.to_ascii_uppercase() } else { c }).collect();
            }
            return w.clone();
        }
        let p = |rng: &mut Rng, simple: &[&str], more: &[&str]| -> String {
            if wild && rng.pct(50) {
                rng.pick(more).to_string()
            } else {
                rng.pick(simple).to_string()
            }
        };
        match self.m.t.names[term as usize].as_str() {
            "IDENT" => p(
                rng,
                &["a", "b", "t", "foo", "x1"],
                &[
                    "é", "_a$1", "\"q i\"", "\"select\"", "U&\"d\\0061t\"", "Ünï", "日本", "\"a\"\"b\"", "A_b", "\"é;--\"", "u", "e", "x", "b1", "n",
                    "selectx", "not_", "\"a\nb\"", "\u{1F600}",
                ],
            ),
            "ICONST" => p(rng, &["1", "2", "42"], &["0", "2147483647", "0x1F", "0b101", "0o17", "1_000", "007", "0X_f", "0xffff"]),
            "FCONST" => p(
                rng,
                &["1.5", "1e10"],
                &[".5", "2147483648", "1.", "1_0.0_1", "1E-5", "0xFFFFFFFF", "9999999999999999999999", "1.e+2", ".1e1"],
            ),
            "SCONST" => p(
                rng,
                &["'a'", "''", "'b c'"],
                &[
                    "'it''s'",
                    "e'\\n\\x41\\101'",
                    "$$x$$",
                    "$t$ $$ ' $t$",
                    "U&'d\\0061'",
                    "'a'\n 'b'",
                    "'é;--/*'",
                    "E'\\u00e9\\\\'",
                    "e'\\uD83D\\uDE00'",
                    "$é$ $ $é$",
                    "'\n'",
                    "e'\\'x'",
                    "e'é\\é'",
                ],
            ),
            "BCONST" => p(rng, &["b'101'"], &["B''", "b'1'\n'0'", "b'xyz'"]),
            "XCONST" => p(rng, &["x'1F'"], &["X''", "x'a'\r\n'b'"]),
            "PARAM" => p(rng, &["$1", "$2"], &["$0", "$99999999999999999999", "$007"]),
            "Op" => p(
                rng,
                &["||", "~", "@"],
                &["@>", "&&", "->", "#>>", "?", "!", "|/", "~~*", "<->", "*=", "-|-", "?-", "@-", "!=-", "`", "#-", "<%>+", "^@"],
            ),
            other => panic!("cannot spell {other}"),
        }
    }

    pub fn trivia(&self, rng: &mut Rng) -> String {
        const T: &[&str] = &[
            " ", " ", " ", "\n", "\t", "\r\n", "\x0b", "\x0c", "  ", "\n\n", " /* c */ ", " -- c\n", "/**/", " /* /* n */ */ ", " --\n", "/*é ' \" ; $$ */",
            " --é ' $x$ /*\r", " /***/ ", "/*/**/*/", " -- a\n-- b\n", " /*--*/ ", "\n/* a */ /* b */\n", "/*\n*/", "\t--\t\n\t",
        ];
        let mut s = String::new();
        for _ in 0..rng.range(1, 3) {
            s.push_str(*rng.pick(T));
            if rng.pct(70) {
                break;
            }
        }
        s
    }

    pub fn render(&self, kinds: &[u16], rng: &mut Rng, style: Style) -> String {
        let wild = matches!(style, Style::Wild | Style::Spelled);
        let triv = matches!(style, Style::Wild | Style::Trivia);
        let mut s = String::new();
        if triv && rng.pct(30) {
            s.push_str(&self.trivia(rng));
        }
        for (i, &k) in kinds.iter().enumerate() {
            if i > 0 {
                if triv && rng.pct(35) {
                    s.push_str(&self.trivia(rng));
                } else if triv && rng.pct(8) {
                    // tight
                } else {
                    s.push(' ');
                }
            }
            s.push_str(&self.spell(k, rng, wild));
        }
        if triv && rng.pct(30) {
            s.push_str(&self.trivia(rng));
        }
        s
    }

    // ---------------------------------------------------------------- workloads

    /// Number of cases after which a workload repeats or is exhausted.
    pub fn size(&self, wl: &str) -> u64 {
        match wl {
            "corpus" => self.corpus.len() as u64,
            "rules" => self.m.t.rules.len() as u64,
            "pairs" | "complete" => (self.m.t.nstates * self.terms.len()) as u64,
            _ => u64::MAX,
        }
    }

    pub fn pair(&self, seed: u64, idx: u64) -> (usize, u16) {
        let n = (self.m.t.nstates * self.terms.len()) as u64;
        let off = crate::rng::mix(seed) % n;
        let k = ((idx as u128 * 2_654_435_761u128 + off as u128) % n as u128) as u64;
        ((k / self.terms.len() as u64) as usize, self.terms[(k % self.terms.len() as u64) as usize])
    }

    pub fn kinds(&self, wl: &str, seed: u64, idx: u64, rng: &mut Rng) -> Option<Vec<u16>> {
        match wl {
            "rules" => self.rule_sentence((idx % self.m.t.rules.len() as u64) as usize, rng, idx >= self.m.t.rules.len() as u64),
            "pairs" => {
                let (s, t) = self.pair(seed, idx);
                let mut p = self.prefix(s, None)?;
                p.push(t);
                Some(p)
            }
            "complete" => {
                let (s, t) = self.pair(seed, idx);
                if self.m.t.act(s, t) == ERR {
                    return None;
                }
                let mut p = if rng.pct(70) { self.prefix(s, None)? } else { self.prefix(s, Some(rng))? };
                p.push(t);
                for la in [("NOT_LA", "IN_P"), ("NULLS_LA", "FIRST_P"), ("WITH_LA", "TIME"), ("WITHOUT_LA", "TIME"), ("FORMAT_LA", "JSON")] {
                    if t == self.m.t.id(la.0) {
                        // the word only has this kind in front of its partner
                        let x = self.m.t.id(if la.0 == "WITH_LA" && rng.pct(50) { "ORDINALITY" } else { la.1 });
                        let mut q = p.clone();
                        q.push(x);
                        if self.stack_after(&q).is_some() {
                            p = q;
                        }
                    }
                }
                let st = self.stack_after(&p)?;
                p.extend(self.complete(st, rng)?);
                Some(p)
            }
            "gram" => {
                let mut out = Vec::new();
                let mut b = rng.range(20, 120) as i32;
                self.rand_yield(self.m.t.rules[0].rhs[0], rng, &mut b, &mut out);
                Some(out)
            }
            "mutate" => {
                let mut v = match rng.below(3) {
                    0 => self.rule_sentence(rng.below(self.m.t.rules.len()), rng, true)?,
                    1 => self.kinds("gram", seed, idx, rng)?,
                    _ => {
                        let c = rng.pick(&self.corpus);
                        let f = self.m.filter(&self.m.scan(c).ok()?);
                        f.iter().map(|t| t.kind).collect()
                    }
                };
                for _ in 0..rng.range(1, 3) {
                    if v.is_empty() {
                        break;
                    }
                    let i = rng.below(v.len());
                    match rng.below(5) {
                        0 => {
                            v.remove(i);
                        }
                        1 => v.insert(i, *rng.pick(&self.terms)),
                        2 => v[i] = *rng.pick(&self.terms),
                        3 => {
                            let j = rng.below(v.len());
                            v.swap(i, j);
                        }
                        _ => {
                            let x = v[i];
                            v.insert(i, x);
                        }
                    }
                }
                v.retain(|k| self.spellable.get(*k as usize) == Some(&true));
                Some(v)
            }
            _ => None,
        }
    }

    pub fn case(&self, wl: &str, seed: u64, idx: u64) -> Option<String> {
        let mut rng = Rng::new(seed, wl, idx);
        let (base, style) = match wl.split_once('.') {
            Some((b, "plain")) => (b, Style::Plain),
            Some((b, "spelled")) => (b, Style::Spelled),
            Some((b, "wild")) => (b, Style::Wild),
            Some((b, "trivia")) => (b, Style::Trivia),
            Some((_, x)) => panic!("style {x}"),
            None => (wl, Style::Plain),
        };
        match base {
            "corpus" => self.corpus.get(idx as usize).cloned(),
            "cmut" => Some(self.char_mutant(&mut rng)),
            "trunc" => Some(self.truncated(&mut rng)),
            "soup" => Some(self.soup(&mut rng)),
            "bytes" => Some(self.bytes(&mut rng)),
            _ => {
                let k = self.kinds(base, seed, idx, &mut rng)?;
                Some(self.render(&k, &mut rng, style))
            }
        }
    }

    fn base_text(&self, rng: &mut Rng) -> String {
        loop {
            match rng.below(3) {
                0 => return rng.pick(&self.corpus).clone(),
                1 => {
                    if let Some(k) = self.rule_sentence(rng.below(self.m.t.rules.len()), rng, true) {
                        return self.render(&k, rng, Style::Wild);
                    }
                }
                _ => {
                    if let Some(k) = self.kinds("gram", 0, 0, rng) {
                        return self.render(&k, rng, Style::Wild);
                    }
                }
            }
        }
    }

    pub fn char_mutant(&self, rng: &mut Rng) -> String {
        let mut c: Vec<char> = self.base_text(rng).chars().collect();
        if c.len() > 600 {
            let s = rng.below(c.len() - 500);
            c = c[s..s + 500].to_vec();
        }
        const POOL: &[char] = &[
            '\'', '"', '$', '\\', '/', '*', '-', '+', '.', '0', '1', '9', '_', 'e', 'E', 'x', 'u', 'U', '&', 'n', 'b', ';', '(', ')', ' ', '\n', '\r', '\t',
            '\u{b}', '\u{c}', 'é', '日', '\u{1F600}', '\u{7f}', '\u{1}', '{', '}', '`', '?', ':', '=', '<', '>', '!', '@', '#', '%', '^', '|', '~', '[', ']',
            ',', '\u{a0}', '\u{feff}', '\u{2028}', '\u{85}', 'ſ', 'K', 'İ',
        ];
        for _ in 0..rng.range(1, 4) {
            let i = rng.below(c.len() + 1);
            match rng.below(4) {
                0 if i < c.len() => {
                    c.remove(i);
                }
                1 if i < c.len() => c[i] = *rng.pick(POOL),
                _ => c.insert(i, *rng.pick(POOL)),
            }
        }
        c.into_iter().collect()
    }

    fn truncated(&self, rng: &mut Rng) -> String {
        let s = self.base_text(rng);
        let mut i = rng.below(s.len() + 1);
        while !s.is_char_boundary(i) {
            i += 1;
        }
        if rng.pct(80) {
            s[..i].to_string()
        } else {
            s[i..].to_string()
        }
    }

    /// Character-level fragments chosen to collide with each other in the scanner rules.
    pub fn fragments(rng: &mut Rng, n: usize) -> String {
        const F: &[&str] = &[
            "'", "''", "'a'", "'a''b'", "e'", "E'\\", "\\'", "\\x", "\\x4", "\\x41", "\\u", "\\u12", "\\u0041", "\\U", "\\U0001F600", "\\uD83D", "\\uDE00",
            "\\UFFFFFFFF", "\\U00110000", "\\u0000", "\\0", "\\7", "\\777", "\\8", "\\n", "\\\\", "x'", "b'", "n'", "N'a'", "u&'", "U&'a'", "U&\"a\"", "u&\"", "u&",
            "U&", "\"", "\"\"", "\"a\"", "$", "$$", "$a$", "$é$", "$a", "$1", "$12", "$1a", "$99999999999", "$_$", "$0$", "a$b", "a$$b", "/*", "*/", "/**/", "/*/", "**/",
            "--", "-", "+", "--x", "/", "*", "<", ">", "=", "<>", "!=", "<=", ">=", "=>", "!", "@", "#", "~", "^", "&", "|", "`", "?", "%", "||", "=-", "@-", "?-", "*+",
            "<=-", ">=+", "<>-", "=>-", "!=-", "+-", "-+", "/*+", "@/*", "@--", ":", "::", ":=", ":::", "::=", ".", "..", "...", "1", "0", "12", "007", "2147483647",
            "2147483648", "9223372036854775808", "1.", ".1", "1.5", "1..2", "1...", "1e", "1e5", "1E+", "1e-5", "1.e5", ".5e1", "1_000", "1_", "_1", "1__0", "1_0$", "1.5_0",
            "1e1_0", "1e_1", "0x", "0xF", "0x_F", "0xFFFFFFFF", "0x7FFFFFFF", "0x80000000", "0xg", "0x_", "0o", "0o7", "0o8", "0o_7", "0b", "0b1", "0b2", "0b_1", "0B11", "0O17",
            "0X1f", "0xF_F", "0b101.5", "0x1.5", "0o17777777777", "0o20000000000", "0b1111111111111111111111111111111", "0b10000000000000000000000000000000", "1a", "1é", "1.a",
            "1.5e", "1e5x", "0xFz", "a", "ab", "e", "x", "b", "n", "u", "é", "日本", "\u{1F600}", "_", "A", "select", "SELECT", "not", "in", "from", "and", "as", "null",
            "\n", "\r", "\t", " ", "  ", "\u{b}", "\u{c}", "\r\n", "(", ")", "[", "]", ",", ";", "{", "}", "\\", "\u{1}", "\u{7f}", "\u{a0}", "\u{feff}", "\u{85}", "\u{2028}",
            "'\n'", "'\r'", "'\t'", "' '", "'\n\n'", "'\n -'", "' --\n'", "'/**/'", "b'1'\n'0'", "x'1'\r\n'f'", "e'a'\n'b'", "U&'a'\n'b'", "\u{1}", "ſ", "K",
        ];
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(*rng.pick(F));
            if rng.pct(25) {
                s.push(' ');
            }
        }
        s
    }

    fn run_of(rng: &mut Rng) -> String {
        // long runs around thresholds
        let n = *rng.pick(&[1usize, 2, 31, 62, 63, 64, 65, 66, 127, 128, 255, 256, 257, 300]);
        match rng.below(14) {
            0 => "@".repeat(n),
            1 => "+".repeat(n),
            2 => format!("{}@", "-+".repeat(n / 2)),
            3 => format!("@{}", "+".repeat(n)),
            4 => "<".repeat(n) + "-",
            5 => "a".repeat(n),
            6 => "é".repeat(n),
            7 => "1".repeat(n),
            8 => format!("$a{0}$ x $a{0}$", "b".repeat(n)),
            9 => format!("'{}'", "''".repeat(n)),
            10 => format!("\"{}\"", "x".repeat(n)),
            11 => format!("{}{}", "/*".repeat(n), "*/".repeat(n)),
            12 => format!("0x{}", "0".repeat(n)),
            _ => format!("/*{}/", "*".repeat(n)),
        }
    }

    pub fn soup(&self, rng: &mut Rng) -> String {
        let lim = if rng.pct(70) { 3 } else { 8 };
        let n = 1 + rng.below(lim);
        let mut x = if rng.pct(6) { Self::run_of(rng) } else { Self::fragments(rng, n) };
        if rng.pct(4) {
            let r = Self::run_of(rng);
            x = format!("{x}{r}");
        }
        match rng.below(16) {
            0 => x,
            1 => format!("select a {x} b"),
            2 => format!("select {x} {x}"),
            3 => format!("select 1 from {x}"),
            4 => format!("select f({x})"),
            5 => format!("do {x}"),
            6 => format!("create operator {x} (leftarg = {x})"),
            7 => format!("create aggregate f (a = {x}, b = {x})"),
            8 => format!("select '{x}'"),
            9 => format!("select e'{x}' as c"),
            10 => format!("select /*{x}*/ 1"),
            11 => format!("select $q${x}$q$, \"{x}\""),
            12 => format!("select a{x}b, {x}"),
            13 => format!("set a.b to {x}, {x}"),
            _ => format!("select {x}"),
        }
    }

    pub fn bytes(&self, rng: &mut Rng) -> String {
        let n = rng.range(0, 40);
        let ascii = rng.pct(50);
        (0..n)
            .map(|_| {
                if ascii || rng.pct(50) {
                    char::from_u32(rng.below(127) as u32 + 1).unwrap()
                } else {
                    loop {
                        let b = *rng.pick(&[0x100u32, 0x800, 0x3000, 0x10000, 0x110000]);
                        if let Some(c) = char::from_u32(rng.below(b as usize) as u32) {
                            if c != '\0' {
                                break c;
                            }
                        }
                    }
                }
            })
            .collect()
    }
}
