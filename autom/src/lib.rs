//! Flex patterns as trees: generation, spelling in flex's syntax, and a direct matcher on the tree (no automaton).
use vcore::rng::Rng;

#[derive(Clone)]
pub struct Set(pub [bool; 256]);

#[derive(Clone)]
pub enum N {
    Set(Set),
    Cat(Vec<N>),
    Alt(Vec<N>),
    Rep(Box<N>, usize, usize), // usize::MAX: no limit
    Ref(usize),
    Eof,
}

impl Set {
    pub fn none() -> Set {
        Set([false; 256])
    }
    pub fn of(b: &[u8]) -> Set {
        let mut s = Set::none();
        b.iter().for_each(|&c| s.0[c as usize] = true);
        s
    }
    pub fn list(&self) -> Vec<u8> {
        (0..256usize).filter(|&i| self.0[i]).map(|i| i as u8).collect()
    }
    pub fn dot() -> Set {
        let mut s = Set([true; 256]);
        s.0[0] = false;
        s.0[b'\n' as usize] = false;
        s
    }
}

/// Ends of matches of `n` that start at one of the positions in `starts` (bit p: position p), on at most 63 bytes.
pub fn ends(n: &N, defs: &[(String, N)], s: &[u8], starts: u64) -> u64 {
    if starts == 0 {
        return 0;
    }
    match n {
        N::Set(c) => {
            let mut r = 0;
            for (i, b) in s.iter().enumerate() {
                if starts >> i & 1 == 1 && c.0[*b as usize] {
                    r |= 1 << (i + 1);
                }
            }
            r
        }
        N::Cat(v) => v.iter().fold(starts, |m, x| ends(x, defs, s, m)),
        N::Alt(v) => v.iter().fold(0, |m, x| m | ends(x, defs, s, starts)),
        N::Rep(x, lo, hi) => {
            let mut m = starts;
            for _ in 0..*lo {
                m = ends(x, defs, s, m);
            }
            let mut all = m;
            let mut k = *lo;
            while k < *hi && m != 0 {
                m = ends(x, defs, s, m);
                if m | all == all && *hi == usize::MAX {
                    break;
                }
                all |= m;
                k += 1;
            }
            all
        }
        N::Ref(i) => ends(&defs[*i].1, defs, s, starts),
        N::Eof => starts & 1 << s.len(),
    }
}

/// What flex selects at the start of `s`: the longest match and, of the patterns that match it, the first; end-of-input rules only at the end.
pub fn select(pats: &[(Vec<usize>, N)], defs: &[(String, N)], state: usize, s: &[u8]) -> Option<(usize, usize)> {
    let mut best: Option<(usize, usize)> = None;
    for (i, (st, n)) in pats.iter().enumerate() {
        if !st.contains(&state) {
            continue;
        }
        if let N::Eof = n {
            continue;
        }
        let e = ends(n, defs, s, 1);
        if e != 0 {
            let len = 63 - e.leading_zeros() as usize;
            if best.is_none_or(|b| len > b.0) {
                best = Some((len, i));
            }
        }
    }
    if s.is_empty() {
        if let Some(i) = pats.iter().position(|(st, n)| st.contains(&state) && matches!(n, N::Eof)) {
            return Some((0, i));
        }
    }
    best
}

// ------------------------------------------------------------------ spelling

const BARE: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_~!@#%&=:;,'`-";

fn escape(c: u8, next_hex: bool, r: &mut Rng, out: &mut String) {
    let named = match c {
        8 => Some('b'),
        12 => Some('f'),
        9 => Some('t'),
        13 => Some('r'),
        10 => Some('n'),
        11 => Some('v'),
        7 => Some('a'),
        _ => None,
    };
    let k = r.below(10);
    if let (Some(x), true) = (named, k < 6) {
        out.push('\\');
        out.push(x);
    } else if c.is_ascii_punctuation() && k < 7 {
        out.push('\\');
        out.push(c as char);
    } else if c.is_ascii_alphabetic() && !b"abfnrtvx".contains(&c) && k < 4 {
        out.push('\\');
        out.push(c as char);
    } else if k < 8 {
        // at most two digits belong to the escape; one digit only where no other can follow
        let s = if r.pct(50) { format!("\\x{c:02x}") } else { format!("\\x{c:02X}") };
        if c < 16 && !next_hex && r.pct(30) {
            out.push_str(&format!("\\x{c:x}"));
        } else {
            out.push_str(&s);
        }
    } else {
        out.push_str(&format!("\\{c:03o}"));
    }
}

/// One member of a class.
fn member(c: u8, first: bool, r: &mut Rng, out: &mut String) {
    let plain = (32..127).contains(&c) && !b"\\]-^[".contains(&c) || (c == b'^' && !first) || (c == b'[' && false);
    if plain && c != b' ' && r.pct(80) || c == b' ' && r.pct(60) {
        out.push(c as char);
    } else {
        // a digit that follows could be read as part of a short escape: always full length
        escape(c, true, r, out);
    }
}

fn class(s: &Set, r: &mut Rng, out: &mut String) {
    let neg_list: Vec<u8> = (1..=255u8).filter(|&c| !s.0[c as usize]).collect();
    let pos = s.list();
    let neg = !neg_list.is_empty() && neg_list.len() < 60 && (pos.len() > 100 || r.pct(5)) || pos.len() > 200;
    let v = if neg { neg_list } else { pos };
    out.push('[');
    if neg {
        out.push('^');
    }
    // runs, in random order
    let mut runs: Vec<(u8, u8)> = Vec::new();
    for c in v {
        match runs.last_mut() {
            Some(l) if l.1 as usize + 1 == c as usize && r.pct(97) => l.1 = c,
            _ => runs.push((c, c)),
        }
    }
    for i in (1..runs.len()).rev() {
        let j = r.below(i + 1);
        runs.swap(i, j);
    }
    let mut first = true;
    let dash = runs.iter().position(|x| *x == (b'-', b'-'));
    let mut dash_last = false;
    if let Some(i) = dash {
        match r.below(3) {
            0 => {
                runs.remove(i);
                out.push('-');
                first = false;
            }
            1 if runs.len() > 1 => {
                runs.remove(i);
                dash_last = true;
            }
            _ => {}
        }
    }
    for (a, b) in runs {
        if b - a >= 2 && r.pct(85) || b - a >= 8 {
            member(a, first, r, out);
            out.push('-');
            member(b, false, r, out);
        } else {
            for c in a..=b {
                member(c, first, r, out);
                first = false;
                if r.pct(4) {
                    member(c, false, r, out);
                }
            }
        }
        first = false;
    }
    if dash_last {
        out.push('-');
    }
    out.push(']');
}

fn single(c: u8, r: &mut Rng, out: &mut String) {
    match r.below(10) {
        0 if (33..127).contains(&c) && c != b'"' && c != b'\\' => {
            out.push('"');
            out.push(c as char);
            out.push('"');
        }
        1 => class(&Set::of(&[c]), r, out),
        2 => escape(c, true, r, out),
        _ if BARE.contains(&c) => out.push(c as char),
        _ => escape(c, true, r, out),
    }
}

/// level 0: alternation allowed, 1: concatenation, 2: one piece
pub fn spell(n: &N, defs: &[(String, N)], r: &mut Rng, level: usize, out: &mut String) {
    let paren = match n {
        N::Alt(_) => level > 0,
        N::Cat(v) => level > 1 || v.is_empty() && level > 0,
        _ => false,
    } || (level > 0 && r.pct(4) && !matches!(n, N::Eof));
    // a concatenation of plain characters may be spelled as one quoted string, which is one piece
    if let N::Cat(v) = n {
        let s: Option<Vec<u8>> = v
            .iter()
            .map(|x| match x {
                N::Set(s) if s.list().len() == 1 => Some(s.list()[0]),
                _ => None,
            })
            .collect();
        if let Some(s) = s {
            if !s.is_empty() && s.iter().all(|c| (33..127).contains(c) && *c != b'"' && *c != b'\\') && r.pct(45) {
                out.push('"');
                out.push_str(std::str::from_utf8(&s).unwrap());
                out.push('"');
                return;
            }
        }
    }
    if paren {
        out.push('(');
    }
    let lv = if paren { 0 } else { level };
    match n {
        N::Set(s) => {
            let l = s.list();
            if l.len() == 1 {
                single(l[0], r, out)
            } else if s.0 == Set::dot().0 && r.pct(80) {
                out.push('.')
            } else {
                class(s, r, out)
            }
        }
        N::Cat(v) if v.is_empty() => out.push_str("\"\""),
        N::Cat(v) => v.iter().for_each(|x| spell(x, defs, r, if v.len() == 1 { lv } else { 1.max(if matches!(x, N::Cat(_)) { 2 } else { 1 }) }, out)),
        N::Alt(v) => v.iter().enumerate().for_each(|(i, x)| {
            if i > 0 {
                out.push('|');
            }
            spell(x, defs, r, 1, out)
        }),
        N::Rep(x, lo, hi) => {
            let _ = lv;
            // a piece that is repeated is one piece itself
            let again = matches!(**x, N::Rep(..)) && !(r.pct(30));
            if again {
                out.push('(');
            }
            spell(x, defs, r, if again { 0 } else { 2 }, out);
            if again {
                out.push(')');
            }
            match (*lo, *hi) {
                (0, usize::MAX) => out.push('*'),
                (1, usize::MAX) => out.push('+'),
                (0, 1) if r.pct(80) => out.push('?'),
                (a, b) if a == b => out.push_str(&format!("{{{a}}}")),
                (a, b) => out.push_str(&format!("{{{a},{b}}}")),
            }
        }
        N::Ref(i) => {
            out.push('{');
            out.push_str(&defs[*i].0);
            out.push('}');
        }
        N::Eof => out.push_str("<<EOF>>"),
    }
    if paren {
        out.push(')');
    }
}

// ------------------------------------------------------------------ generation

pub struct Opt {
    /// bytes that patterns prefer
    pub alphabet: Vec<u8>,
    pub depth: usize,
    /// newline, control characters and bytes from 0x80 may be used
    pub odd: bool,
}

fn byte(r: &mut Rng, o: &Opt) -> u8 {
    if r.pct(88) {
        return *r.pick(&o.alphabet);
    }
    if !o.odd {
        return 33 + r.below(94) as u8;
    }
    match r.below(4) {
        0 => *r.pick(&[7u8, 8, 9, 10, 11, 12, 13, 32, 127]),
        1 => 128 + r.below(128) as u8,
        _ => 32 + r.below(95) as u8,
    }
}

fn set(r: &mut Rng, o: &Opt) -> Set {
    match r.below(12) {
        0 => Set::dot(),
        1 | 2 => {
            // everything but a few
            let mut s = Set([true; 256]);
            s.0[0] = false;
            for _ in 0..r.range(1, 4) {
                s.0[byte(r, o) as usize] = false;
            }
            s
        }
        3 | 4 => {
            let mut s = Set::none();
            for _ in 0..r.range(1, 3) {
                let a = byte(r, o) as usize;
                let b = (a + r.below(30)).min(if a < 128 && !o.odd { 126 } else { 255 });
                (a..=b).for_each(|i| s.0[i] = true);
            }
            s
        }
        5..=7 => {
            let n = r.range(2, 5);
            let v: Vec<u8> = (0..n).map(|_| byte(r, o)).collect();
            Set::of(&v)
        }
        _ => Set::of(&[byte(r, o)]),
    }
}

pub fn node(r: &mut Rng, o: &Opt, depth: usize, defs: usize) -> N {
    let k = if depth == 0 { r.below(5) } else { r.below(14) };
    match k {
        0..=2 => N::Set(set(r, o)),
        3 => N::Cat((0..r.range(1, 4)).map(|_| N::Set(Set::of(&[byte(r, o)]))).collect()),
        4 if defs > 0 => N::Ref(r.below(defs)),
        4 => N::Set(set(r, o)),
        5..=7 => N::Cat((0..r.range(2, 4)).map(|_| node(r, o, depth - 1, defs)).collect()),
        8 | 9 => N::Alt((0..r.range(2, 4)).map(|_| node(r, o, depth - 1, defs)).collect()),
        10 if r.pct(6) => N::Cat(vec![]),
        _ => {
            let x = Box::new(node(r, o, depth - 1, defs));
            let (a, b) = match r.below(8) {
                0 | 1 => (0, usize::MAX),
                2 | 3 => (1, usize::MAX),
                4 => (0, 1),
                5 => {
                    let n = r.range(1, 4);
                    (n, n)
                }
                _ => {
                    let n = r.range(0, 3);
                    (n, r.range(n.max(1), 5))
                }
            };
            N::Rep(x, a, b)
        }
    }
}

/// A string that the pattern matches (most of the time), bounded in length.
pub fn sample(n: &N, defs: &[(String, N)], r: &mut Rng, out: &mut Vec<u8>) {
    if out.len() > 50 {
        return;
    }
    match n {
        N::Set(s) => {
            let l = s.list();
            if !l.is_empty() {
                out.push(*r.pick(&l))
            }
        }
        N::Cat(v) => v.iter().for_each(|x| sample(x, defs, r, out)),
        N::Alt(v) => sample(&v[r.below(v.len())], defs, r, out),
        N::Rep(x, lo, hi) => {
            let top = if *hi == usize::MAX { lo + 4 } else { *hi };
            for _ in 0..r.range(*lo, top) {
                sample(x, defs, r, out)
            }
        }
        N::Ref(i) => sample(&defs[*i].1, defs, r, out),
        N::Eof => {}
    }
}

pub struct Patterns {
    pub defs: Vec<(String, N)>,
    pub def_text: Vec<String>,
    pub pats: Vec<(Vec<usize>, N)>,
    pub pat_text: Vec<String>,
    pub states: usize,
}

pub fn names() -> [&'static str; 10] {
    ["digit", "a", "ident_start", "X", "xqinside", "n2", "other", "Ab_9", "op_chars", "self"]
}

pub fn patterns(r: &mut Rng, o: &Opt, max: usize) -> Patterns {
    let states = r.range(1, 4);
    let nd = r.below(6);
    let mut defs: Vec<(String, N)> = Vec::new();
    let mut def_text = Vec::new();
    let nm = names();
    for i in 0..nd {
        let d = node(r, o, o.depth.min(2), defs.len());
        let mut t = String::new();
        spell(&d, &defs, r, 0, &mut t);
        defs.push((nm[i].to_string(), d));
        def_text.push(t);
    }
    let np = r.range(states, states + max);
    let mut pats = Vec::new();
    let mut pat_text = Vec::new();
    for i in 0..np {
        // every state has a pattern
        let mut st: Vec<usize> = if i < states { vec![i] } else { vec![] };
        for s in 0..states {
            if !st.contains(&s) && r.pct(if i < states { 20 } else { 45 }) {
                st.push(s)
            }
        }
        if st.is_empty() {
            st.push(r.below(states));
        }
        let eof = i >= states && r.pct(12);
        let n = if eof { N::Eof } else { node(r, o, o.depth, defs.len()) };
        let mut t = String::new();
        spell(&n, &defs, r, 0, &mut t);
        pats.push((st, n));
        pat_text.push(t);
    }
    Patterns { defs, def_text, pats, pat_text, states }
}

// ------------------------------------------------------------------ size

/// Whether determinising the patterns of every condition stays below `cap` states (a plain subset construction that gives up).
pub fn small(p: &Patterns, cap: usize) -> bool {
    let mut eps: Vec<Vec<u32>> = Vec::new();
    let mut arcs: Vec<Vec<(usize, u32)>> = Vec::new();
    let mut sets: Vec<Set> = Vec::new();
    fn state(e: &mut Vec<Vec<u32>>, a: &mut Vec<Vec<(usize, u32)>>) -> u32 {
        e.push(vec![]);
        a.push(vec![]);
        e.len() as u32 - 1
    }
    fn add(n: &N, d: &[(String, N)], from: u32, e: &mut Vec<Vec<u32>>, a: &mut Vec<Vec<(usize, u32)>>, sets: &mut Vec<Set>) -> Option<u32> {
        if e.len() > 1500 {
            return None;
        }
        match n {
            N::Set(s) => {
                let t = state(e, a);
                sets.push(s.clone());
                a[from as usize].push((sets.len() - 1, t));
                Some(t)
            }
            N::Cat(v) => {
                let mut f = from;
                for x in v {
                    f = add(x, d, f, e, a, sets)?;
                }
                Some(f)
            }
            N::Alt(v) => {
                let t = state(e, a);
                for x in v {
                    let f = state(e, a);
                    e[from as usize].push(f);
                    let y = add(x, d, f, e, a, sets)?;
                    e[y as usize].push(t);
                }
                Some(t)
            }
            N::Rep(x, lo, hi) => {
                let mut f = from;
                for _ in 0..*lo {
                    f = add(x, d, f, e, a, sets)?;
                }
                let t = state(e, a);
                e[f as usize].push(t);
                if *hi == usize::MAX {
                    let g = state(e, a);
                    e[f as usize].push(g);
                    let y = add(x, d, g, e, a, sets)?;
                    e[y as usize].push(g);
                    e[y as usize].push(t);
                } else {
                    for _ in *lo..*hi {
                        f = add(x, d, f, e, a, sets)?;
                        e[f as usize].push(t);
                    }
                }
                Some(t)
            }
            N::Ref(i) => add(&d[*i].1, d, from, e, a, sets),
            N::Eof => Some(from),
        }
    }
    for st in 0..p.states {
        eps.clear();
        arcs.clear();
        sets.clear();
        let root = state(&mut eps, &mut arcs);
        for (s, n) in &p.pats {
            if s.contains(&st) {
                let f = state(&mut eps, &mut arcs);
                eps[root as usize].push(f);
                if add(n, &p.defs, f, &mut eps, &mut arcs, &mut sets).is_none() {
                    return false;
                }
            }
        }
        // one byte of each class that the sets distinguish
        let mut seen: std::collections::HashSet<Vec<bool>> = Default::default();
        let bytes: Vec<u8> = (1..=255u8).filter(|&b| seen.insert(sets.iter().map(|s| s.0[b as usize]).collect())).collect();
        let close = |mut v: Vec<u32>| {
            let mut m = vec![false; eps.len()];
            v.iter().for_each(|&x| m[x as usize] = true);
            let mut i = 0;
            while i < v.len() {
                for &t in &eps[v[i] as usize] {
                    if !m[t as usize] {
                        m[t as usize] = true;
                        v.push(t);
                    }
                }
                i += 1;
            }
            v.retain(|&x| !arcs[x as usize].is_empty() || eps[x as usize].is_empty());
            v.sort_unstable();
            v
        };
        let first = close(vec![root]);
        let mut known: std::collections::HashSet<Vec<u32>> = std::collections::HashSet::from([first.clone()]);
        let mut todo = vec![first];
        while let Some(q) = todo.pop() {
            for &b in &bytes {
                let mut m: Vec<u32> = q.iter().flat_map(|&s| arcs[s as usize].iter().filter(|(k, _)| sets[*k].0[b as usize]).map(|x| x.1)).collect();
                m.sort_unstable();
                m.dedup();
                if m.is_empty() {
                    continue;
                }
                let m = close(m);
                if known.insert(m.clone()) {
                    if known.len() > cap {
                        return false;
                    }
                    todo.push(m);
                }
            }
        }
    }
    true
}
