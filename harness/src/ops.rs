//! C05: grouping of operators, against an independent precedence-climbing parser that knows only PostgreSQL's
//! documented precedence table (no grammar tables).
use crate::obs::*;
use crate::run::*;
use std::collections::BTreeSet;
use vcore::flat::*;
use vcore::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Assoc {
    L,
    R,
    N,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Infix,
    Postfix,
    Prefix,
    /// x BETWEEN low AND high
    Between,
    /// x LIKE y, optionally ESCAPE z
    Like,
}

struct OpDef {
    text: &'static str,
    prec: u8,
    assoc: Assoc,
    form: Form,
    /// allowed between BETWEEN and AND
    in_b: bool,
}

const fn op(text: &'static str, prec: u8, assoc: Assoc, form: Form, in_b: bool) -> OpDef {
    OpDef { text, prec, assoc, form, in_b }
}

use Assoc::*;
use Form::*;
const P_OR: u8 = 1;
const P_AND: u8 = 2;
const P_NOT: u8 = 3;
const P_IS: u8 = 4;
const P_CMP: u8 = 5;
const P_LIKE: u8 = 6;
const P_OP: u8 = 8;
const P_ADD: u8 = 9;
const P_MUL: u8 = 10;
const P_POW: u8 = 11;
const P_AT: u8 = 12;
const P_COLL: u8 = 13;
const P_NEG: u8 = 14;
const P_CAST: u8 = 16;

const OPS: &[OpDef] = &[
    op("or", P_OR, L, Infix, false),
    op("and", P_AND, L, Infix, false),
    op("not", P_NOT, R, Prefix, false),
    op("is null", P_IS, N, Postfix, false),
    op("is not null", P_IS, N, Postfix, false),
    op("isnull", P_IS, N, Postfix, false),
    op("notnull", P_IS, N, Postfix, false),
    op("is true", P_IS, N, Postfix, false),
    op("is not unknown", P_IS, N, Postfix, false),
    op("is distinct from", P_IS, N, Infix, true),
    op("is not distinct from", P_IS, N, Infix, true),
    op("is document", P_IS, N, Postfix, true),
    op("is normalized", P_IS, N, Postfix, false),
    op("is json", P_IS, N, Postfix, false),
    op("<", P_CMP, N, Infix, true),
    op(">", P_CMP, N, Infix, true),
    op("=", P_CMP, N, Infix, true),
    op("<=", P_CMP, N, Infix, true),
    op(">=", P_CMP, N, Infix, true),
    op("<>", P_CMP, N, Infix, true),
    op("!=", P_CMP, N, Infix, true),
    op("= any (select 1)", P_CMP, N, Postfix, false),
    op("between", P_LIKE, N, Between, false),
    op("not between", P_LIKE, N, Between, false),
    op("between symmetric", P_LIKE, N, Between, false),
    op("in (1)", P_LIKE, N, Postfix, false),
    op("not in (1, 2)", P_LIKE, N, Postfix, false),
    op("like", P_LIKE, N, Like, false),
    op("not like", P_LIKE, N, Like, false),
    op("ilike", P_LIKE, N, Like, false),
    op("not ilike", P_LIKE, N, Like, false),
    op("similar to", P_LIKE, N, Like, false),
    op("not similar to", P_LIKE, N, Like, false),
    op("||", P_OP, L, Infix, true),
    op("@", P_OP, L, Prefix, true),
    op("->>", P_OP, L, Infix, true),
    op("operator(pg_catalog.+)", P_OP, L, Infix, true),
    op("operator(a.-)", P_OP, L, Prefix, true),
    op("|| any (select 1)", P_OP, L, Postfix, false),
    op("+", P_ADD, L, Infix, true),
    op("-", P_ADD, L, Infix, true),
    op("*", P_MUL, L, Infix, true),
    op("/", P_MUL, L, Infix, true),
    op("%", P_MUL, L, Infix, true),
    op("^", P_POW, L, Infix, true),
    op("at time zone", P_AT, L, Infix, false),
    op("at local", P_AT, L, Postfix, false),
    op("collate c", P_COLL, L, Postfix, false),
    op("-", P_NEG, R, Prefix, true),
    op("+", P_NEG, R, Prefix, true),
    op("::int", P_CAST, L, Postfix, true),
];

const COLLATE: usize = 47;

const ATOMS: &[&str] = &["a", "1", "b.c", "d[1]", "'s'", "f(x)", "(e).g", "row(1)", "$1", "null"];

/// Elements of an expression as written.
#[derive(Clone, Debug, PartialEq)]
enum E {
    Atom(usize),
    Op(usize),
    Escape,
    Open,
    Close,
}

/// AND, be it the operator or the one inside BETWEEN
const AND: E = E::Op(1);

/// Spans (first element, last element) of operator applications, or None if the sequence must be rejected.
struct Pratt<'a> {
    e: &'a [E],
    i: usize,
    spans: BTreeSet<(usize, usize)>,
}

type R<T> = Result<T, ()>;

impl<'a> Pratt<'a> {
    fn peek(&self) -> Option<&'a E> {
        self.e.get(self.i)
    }
    fn primary(&mut self, b: bool) -> R<usize> {
        let s = self.i;
        match self.peek().ok_or(())? {
            E::Atom(_) => {
                self.i += 1;
            }
            E::Open => {
                self.i += 1;
                self.expr(0, None, false)?;
                if self.peek() != Some(&E::Close) {
                    return Err(());
                }
                self.i += 1;
            }
            E::Op(o) if OPS[*o].form == Prefix => {
                let d = &OPS[*o];
                if b && !d.in_b {
                    return Err(());
                }
                self.i += 1;
                self.expr(d.prec, Some(d.assoc), b)?;
                self.spans.insert((s, self.i - 1));
            }
            _ => return Err(()),
        }
        Ok(s)
    }
    /// Parses an operand of a rule with precedence `min`; operators of the same level end it, continue it or are an error.
    fn expr(&mut self, min: u8, assoc: Option<Assoc>, b: bool) -> R<()> {
        let s = self.primary(b)?;
        loop {
            let Some(E::Op(o)) = self.peek() else { return Ok(()) };
            let d = &OPS[*o];
            if d.form == Prefix || (b && !d.in_b) {
                return if d.form == Prefix { Err(()) } else { Ok(()) };
            }
            if d.prec < min {
                return Ok(());
            }
            if d.prec == min {
                match assoc {
                    None => {}
                    Some(L) => return Ok(()),
                    Some(R) => {}
                    Some(N) => return Err(()),
                }
            }
            self.i += 1;
            match d.form {
                Postfix => {}
                Infix => self.expr(d.prec, Some(d.assoc), b)?,
                Between => {
                    // the lower bound is a restricted expression, up to AND
                    self.expr(0, None, true)?;
                    if self.peek() != Some(&AND) {
                        return Err(());
                    }
                    self.i += 1;
                    self.expr(d.prec, Some(N), false)?;
                }
                Like => {
                    self.expr(d.prec, Some(N), false)?;
                    if self.peek() == Some(&E::Escape) {
                        self.i += 1;
                        self.expr(d.prec, Some(N), false)?;
                    }
                }
                Prefix => unreachable!(),
            }
            self.spans.insert((s, self.i - 1));
        }
    }
}

fn encode(e: &[E]) -> String {
    e.iter()
        .map(|x| match x {
            E::Atom(i) => format!("a{i}"),
            E::Op(i) => format!("o{i}"),
            E::Escape => "!".into(),
            E::Open => "(".into(),
            E::Close => ")".into(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn decode(s: &str) -> Vec<E> {
    s.split(' ')
        .filter(|x| !x.is_empty())
        .map(|x| match x {
            "!" => E::Escape,
            "(" => E::Open,
            ")" => E::Close,
            x if x.starts_with('a') => E::Atom(x[1..].parse().unwrap()),
            x => E::Op(x[1..].parse().unwrap()),
        })
        .collect()
}

const CONTEXTS: &[(&str, &str, bool)] = &[
    ("select ", "", false),
    ("select 1 where ", " group by a", false),
    ("select f(", ")", false),
    ("select array[", "]", false),
    ("update t set x = ", " where true", false),
    ("create table t (a int check (", "))", false),
    ("select case when ", " then 1 end", false),
    ("select 1 order by ", " desc", false),
    ("create table t (a int default ", ")", true),
    ("select 1 from t join u on ", " limit 1", false),
    ("values (", ", 2)", false),
    ("select x from f(a => ", ")", false),
    ("delete from t where ", " returning *", false),
    ("select xmlelement(name x, ", ")", false),
    ("select (", ")[1]", false),
];

fn nth_triple(mut k: usize) -> Vec<E> {
    // every sequence of three operators around operands
    let n = OPS.len();
    let mut v = Vec::new();
    let mut ops = Vec::new();
    for _ in 0..3 {
        ops.push(k % n);
        k /= n;
    }
    fill(&ops, &mut v);
    v
}

/// Places operands around operators the way their forms need.
fn fill(ops: &[usize], v: &mut Vec<E>) {
    let mut need = true; // an operand is due
    let mut a = 0;
    for &o in ops {
        let d = &OPS[o];
        if d.form == Prefix {
            if !need {
                // after a complete operand: a prefix operator needs an infix before it
                v.push(E::Op(42));
            }
            v.push(E::Op(o));
            need = true;
        } else {
            if need {
                v.push(E::Atom(a % 2));
                a += 1;
            }
            v.push(E::Op(o));
            need = d.form != Postfix;
            if d.form == Between {
                v.push(E::Atom(0));
                v.push(AND);
            }
        }
    }
    if need {
        v.push(E::Atom(a % 2));
    }
}

fn random_seq(rng: &mut Rng, len: usize, depth: usize) -> Vec<E> {
    let mut v = Vec::new();
    // bound of the open BETWEENs and LIKEs
    let mut need = true;
    let mut open: Vec<E> = Vec::new();
    for _ in 0..len {
        if need {
            if rng.pct(22) {
                let p: Vec<usize> = (0..OPS.len()).filter(|i| OPS[*i].form == Prefix).collect();
                v.push(E::Op(*rng.pick(&p)));
            } else if depth > 0 && rng.pct(12) {
                v.push(E::Open);
                let n = rng.range(1, 6);
                v.extend(random_seq(rng, n, depth - 1));
                v.push(E::Close);
                need = false;
            } else {
                v.push(E::Atom(rng.below(ATOMS.len())));
                need = false;
            }
        } else {
            if !open.is_empty() && rng.pct(50) {
                let x = open.pop().unwrap();
                v.push(x);
                need = true;
                continue;
            }
            let p: Vec<usize> = (0..OPS.len()).filter(|i| OPS[*i].form != Prefix).collect();
            let o = *rng.pick(&p);
            v.push(E::Op(o));
            need = OPS[o].form != Postfix;
            match OPS[o].form {
                Between => open.push(AND),
                Like if rng.pct(40) => open.push(E::Escape),
                _ => {}
            }
        }
    }
    if need {
        v.push(E::Atom(rng.below(ATOMS.len())));
    }
    while let Some(x) = open.pop() {
        v.push(x.clone());
        v.push(E::Atom(rng.below(ATOMS.len())));
    }
    v
}

// ---------------------------------------------------------------- set operations and joins

const SETOPS: &[(&str, u8)] = &[("union", 1), ("union all", 1), ("except", 1), ("except all", 1), ("intersect", 2), ("intersect all", 2), ("union distinct", 1), ("intersect distinct", 2)];

/// Tree of set operations as text plus spans counted in select units.
fn setops(rng: &mut Rng, depth: usize) -> (String, BTreeSet<(usize, usize)>) {
    let mut toks: Vec<S> = Vec::new();
    gen_set(rng, depth, &mut toks);
    let mut p = SetP { t: &toks, i: 0, u: 0, spans: BTreeSet::new() };
    p.expr(0);
    let mut n = 0;
    let s = toks
        .iter()
        .map(|t| match t {
            S::Unit => {
                n += 1;
                if n % 5 == 3 {
                    format!("values ({n})")
                } else if n % 5 == 4 {
                    format!("table t{n}")
                } else {
                    format!("select {n}")
                }
            }
            S::Op(o) => SETOPS[*o].0.to_string(),
            S::Open => "(".into(),
            S::Close => ")".into(),
        })
        .collect::<Vec<_>>()
        .join(" ");
    let spans = p.spans;
    (s, spans)
}

enum S {
    Unit,
    Op(usize),
    Open,
    Close,
}

fn gen_set(rng: &mut Rng, depth: usize, v: &mut Vec<S>) {
    let n = rng.range(1, 6);
    for i in 0..n {
        if i > 0 {
            v.push(S::Op(rng.below(SETOPS.len())));
        }
        if depth > 0 && n > 1 && rng.pct(25) {
            v.push(S::Open);
            gen_set(rng, depth - 1, v);
            v.push(S::Close);
        } else {
            v.push(S::Unit);
        }
    }
}

struct SetP<'a> {
    t: &'a [S],
    i: usize,
    u: usize,
    spans: BTreeSet<(usize, usize)>,
}
impl SetP<'_> {
    fn expr(&mut self, min: u8) -> usize {
        let s = match self.t[self.i] {
            S::Open => {
                self.i += 1;
                let s = self.expr(0);
                self.i += 1;
                s
            }
            _ => {
                self.i += 1;
                self.u += 1;
                self.u - 1
            }
        };
        while let Some(S::Op(o)) = self.t.get(self.i) {
            if SETOPS[*o].1 <= min {
                break;
            }
            self.i += 1;
            self.expr(SETOPS[*o].1);
            self.spans.insert((s, self.u - 1));
        }
        s
    }
}

/// Joins: text and spans counted in tables.
fn joins(rng: &mut Rng) -> (String, BTreeSet<(usize, usize)>) {
    struct J<'b> {
        rng: &'b mut Rng,
        s: String,
        n: usize,
        spans: BTreeSet<(usize, usize)>,
        budget: i32,
    }
    impl J<'_> {
        fn prim(&mut self) -> usize {
            if self.budget > 2 && self.rng.pct(12) {
                self.s.push_str("( ");
                let s0 = self.n;
                self.budget -= 1;
                let before = self.spans.len();
                let at = self.spans.clone();
                self.full(true);
                if self.spans.len() == before && self.spans == at {
                    unreachable!();
                }
                self.s.push_str(") ");
                return s0;
            }
            self.s.push_str(&format!("t{} ", self.n));
            if self.rng.pct(20) {
                self.s.push_str(&format!("as z{} ", self.n));
            }
            self.n += 1;
            self.n - 1
        }
        /// table with any number of join tails; `must`: at least one
        fn full(&mut self, must: bool) {
            let s = self.prim();
            let mut first = must;
            while first || (self.budget > 0 && self.rng.pct(55)) {
                first = false;
                self.budget -= 1;
                match self.rng.below(4) {
                    0 => {
                        self.s.push_str("cross join ");
                        self.prim();
                    }
                    1 => {
                        let k = *self.rng.pick(&["natural join ", "natural left join ", "natural inner join ", "natural full outer join "]);
                        self.s.push_str(k);
                        self.prim();
                    }
                    _ => {
                        let k = *self.rng.pick(&["join ", "inner join ", "left join ", "right outer join ", "full join "]);
                        self.s.push_str(k);
                        self.full(false);
                        let k = *self.rng.pick(&["on true ", "using (a) ", "on a = b ", "using (a, b) as u "]);
                        self.s.push_str(k);
                    }
                }
                self.spans.insert((s, self.n - 1));
            }
        }
    }
    let mut j = J { budget: 0, rng, s: String::from("select * from "), n: 0, spans: BTreeSet::new() };
    j.budget = j.rng.range(1, 8) as i32;
    j.full(true);
    (j.s, j.spans)
}

// ---------------------------------------------------------------- the check

pub struct Ops;

fn spans_from_tree(env: &Env, v: &[El], kinds: &[&str], min_kids: usize, unit_of: &dyn Fn(&El) -> Option<usize>, skip_paren: bool) -> BTreeSet<(usize, usize)> {
    let t = &env.m.t;
    let ids: Vec<u16> = kinds.iter().map(|k| t.id(k)).collect();
    let open = t.id("'('");
    let el: Vec<&El> = v.iter().filter(|e| !is_trivia(e.kind)).collect();
    let mut out = BTreeSet::new();
    for (i, e) in el.iter().enumerate() {
        if e.token || !ids.contains(&e.kind) {
            continue;
        }
        let mut kids = 0;
        let mut firstkid = None;
        let mut us = Vec::new();
        for f in &el[i + 1..] {
            if f.depth <= e.depth {
                break;
            }
            if f.depth == e.depth + 1 {
                kids += 1;
                if firstkid.is_none() {
                    firstkid = Some(f.kind);
                }
            }
            if f.token {
                if let Some(u) = unit_of(f) {
                    us.push(u);
                }
            }
        }
        if kids >= min_kids && !(skip_paren && firstkid == Some(open)) && !us.is_empty() {
            out.insert((*us.iter().min().unwrap(), *us.iter().max().unwrap()));
        }
    }
    out
}

impl Check for Ops {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        let n = OPS.len() as u64;
        vec![
            job("triples", n * n * n),
            job("pairs_ctx", n * n * CONTEXTS.len() as u64),
            job("quads", if env.thorough { n * n * n * n } else { 300_000 }),
            job("random", if env.thorough { 6_000_000 } else { 250_000 }),
            job("setops", if env.thorough { 1_000_000 } else { 60_000 }),
            job("joins", if env.thorough { 1_000_000 } else { 60_000 }),
        ]
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        let mut rng = Rng::new(env.seed, wl, idx);
        let n = OPS.len();
        Some(match wl {
            "triples" => vec!["expr".into(), "0".into(), encode(&nth_triple(idx as usize))],
            "pairs_ctx" => {
                let mut v = Vec::new();
                let k = idx as usize / CONTEXTS.len();
                fill(&[k % n, k / n], &mut v);
                vec!["expr".into(), (idx as usize % CONTEXTS.len()).to_string(), encode(&v)]
            }
            "quads" => {
                let k = if env.thorough { idx } else { rng.next() % (n as u64).pow(4) };
                let mut v = Vec::new();
                let k = k as usize;
                fill(&[k % n, k / n % n, k / n / n % n, k / n / n / n], &mut v);
                vec!["expr".into(), "0".into(), encode(&v)]
            }
            "random" => {
                let top = if rng.pct(5) { 60 } else { 14 };
                let len = rng.range(2, top);
                let v = random_seq(&mut rng, len, 3);
                vec!["expr".into(), rng.below(CONTEXTS.len()).to_string(), encode(&v)]
            }
            "setops" => {
                let (s, sp) = setops(&mut rng, 3);
                vec!["set".into(), format!("{sp:?}"), s]
            }
            _ => {
                let (s, sp) = joins(&mut rng);
                vec!["join".into(), format!("{sp:?}"), s]
            }
        })
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let mut w = Vec::new();
        match inputs[0].as_str() {
            "expr" => {
                let ctx = CONTEXTS[inputs[1].parse::<usize>().unwrap()];
                let e = decode(&inputs[2]);
                if ctx.2 && e.contains(&E::Op(COLLATE)) {
                    // COLLATE may start a column constraint there
                    return w;
                }
                let mut s = String::from(ctx.0);
                let mut at: Vec<(usize, usize)> = Vec::new();
                for (i, x) in e.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    let b = s.len();
                    s.push_str(match x {
                        E::Atom(i) => ATOMS[*i],
                        E::Op(o) => OPS[*o].text,
                        E::Escape => "escape",
                        E::Open => "(",
                        E::Close => ")",
                    });
                    at.push((b, s.len()));
                }
                s.push_str(ctx.1);
                let mut p = Pratt { e: &e, i: 0, spans: BTreeSet::new() };
                let ok = p.expr(0, None, ctx.2).is_ok() && p.i == e.len();
                let spans = p.spans;
                let o = observe(&env.m.t, &s);
                st.bump(if ok { "oracle.accept" } else { "oracle.reject" });
                st.nontrivial(&[s.clone()]);
                if let Obs::Panic(x) = &o {
                    w.push(format!("Panic: {s:?}: {x}"));
                } else if ok != o.is_ok() {
                    w.push(format!("Verdict: {s:?} should be {}, observed {}", if ok { "accepted" } else { "rejected" }, o.brief()));
                } else if let Some(v) = o.tree() {
                    let unit = |f: &El| at.iter().position(|a| a.0 <= f.start as usize && f.end as usize <= a.1);
                    // spans inside one atom (its own arguments) are not ours
                    let got: BTreeSet<(usize, usize)> =
                        spans_from_tree(env, v, &["a_expr", "b_expr"], 2, &unit, false).into_iter().filter(|x| x.0 < x.1).collect();
                    st.add("observed.applications", got.len() as u64);
                    if got != spans {
                        let t = |x: &(usize, usize)| s[at[x.0].0..at[x.1].1].to_string();
                        let miss: Vec<String> = spans.difference(&got).map(t).collect();
                        let extra: Vec<String> = got.difference(&spans).map(t).collect();
                        w.push(format!("Grouping: {s:?}: should group {miss:?}, groups {extra:?}"));
                    }
                }
            }
            kind => {
                let s = &inputs[2];
                let o = observe(&env.m.t, s);
                st.nontrivial(&inputs[2..]);
                match o.tree() {
                    None => w.push(format!("Verdict: {s:?} should be accepted, observed {}", o.brief())),
                    Some(v) => {
                        let mut units: Vec<usize> = Vec::new();
                        let got = if kind == "set" {
                            for (i, _) in s.match_indices(|c: char| c.is_ascii_digit()) {
                                if !s[..i].ends_with(|c: char| c.is_ascii_digit()) {
                                    units.push(i);
                                }
                            }
                            let unit = |f: &El| units.iter().position(|u| (f.start as usize) <= *u && *u < f.end as usize);
                            spans_from_tree(env, v, &["simple_select"], 3, &unit, false).into_iter().filter(|x| x.0 < x.1).collect()
                        } else {
                            for (i, _) in s.match_indices(" t") {
                                if s[i + 2..].starts_with(|c: char| c.is_ascii_digit()) {
                                    units.push(i + 1);
                                }
                            }
                            let unit = |f: &El| units.iter().position(|u| f.start as usize == *u);
                            spans_from_tree(env, v, &["joined_table"], 3, &unit, true)
                        };
                        st.add("observed.applications", got.len() as u64);
                        if format!("{got:?}") != inputs[1] {
                            w.push(format!("Grouping: {s:?}: operand spans should be {}, are {got:?}", inputs[1]));
                        }
                    }
                }
            }
        }
        w
    }
    fn rule(&self) -> &'static str {
        "all sequences of three operators, all pairs in every context, sampled or all quadruples, random long expressions with parentheses, set operations and joins; non-trivial: all (each has a verdict and a grouping by the precedence table)"
    }
}
