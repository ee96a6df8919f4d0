//! Reference LR driver over the pinned tables.
use crate::flat::{El, CC, ROOT, SC};
use crate::scan::{filter, scan, Ids, ScanErr, Tok, BAD};
use crate::tables::{Tables, ACC, ERR};

pub struct Model {
    pub t: Tables,
    pub ids: Ids,
}

#[derive(Clone, Debug)]
pub struct RNode {
    pub sym: u16,
    /// token index for leaves, else usize::MAX
    pub tok: usize,
    pub rule: u16,
    pub kids: Vec<u32>,
}

#[derive(Debug)]
pub struct RTree {
    pub nodes: Vec<RNode>,
    pub root: u32,
}

#[derive(Debug)]
pub enum Verdict {
    Scan(ScanErr),
    /// index of the first offending token in the filtered stream (== len for end of input)
    Syntax(usize),
    Accept(RTree),
}

/// Coverage of the pinned automaton: one bit per (state, lookahead) consulted.
pub struct Cover {
    pub bits: Vec<u64>,
    pub rules: Vec<bool>,
}

impl Cover {
    pub fn new(t: &Tables) -> Cover {
        Cover { bits: vec![0; (t.nstates * t.nt + 63) / 64], rules: vec![false; t.rules.len()] }
    }
    pub fn count(&self) -> usize {
        self.bits.iter().map(|b| b.count_ones() as usize).sum()
    }
    pub fn nrules(&self) -> usize {
        self.rules.iter().filter(|b| **b).count()
    }
}

impl Model {
    pub fn load(dir: &str) -> Model {
        let t = Tables::load(dir);
        let ids = Ids::new(&t);
        Model { t, ids }
    }

    pub fn scan(&self, s: &str) -> Result<Vec<Tok>, ScanErr> {
        scan(&self.t, &self.ids, s)
    }

    pub fn filter(&self, v: &[Tok]) -> Vec<Tok> {
        filter(&self.ids, v)
    }

    /// LR parse of terminal kinds. Err(i): first offending position.
    pub fn lr(&self, kinds: &[u16], mut cov: Option<&mut Cover>, build: bool) -> Result<RTree, usize> {
        let t = &self.t;
        let mut states: Vec<u32> = vec![0];
        let mut syms: Vec<u32> = Vec::new();
        let mut nodes: Vec<RNode> = Vec::new();
        let mut i = 0;
        loop {
            let la = if i < kinds.len() { kinds[i] } else { 0 };
            if la == BAD {
                return Err(i);
            }
            let st = *states.last().unwrap() as usize;
            if let Some(c) = cov.as_deref_mut() {
                let k = st * t.nt + la as usize;
                c.bits[k / 64] |= 1 << (k % 64);
            }
            let a = t.act(st, la);
            if a == ERR {
                return Err(i);
            } else if a == ACC {
                let root = syms.last().copied().unwrap_or(0);
                return Ok(RTree { nodes, root });
            } else if a > 0 {
                states.push((a - 1) as u32);
                if build {
                    syms.push(nodes.len() as u32);
                    nodes.push(RNode { sym: la, tok: i, rule: 0, kids: Vec::new() });
                }
                i += 1;
            } else {
                let r = (-a - 1) as usize;
                if let Some(c) = cov.as_deref_mut() {
                    c.rules[r] = true;
                }
                let rule = &t.rules[r];
                let n = rule.rhs.len();
                states.truncate(states.len() - n);
                if build {
                    let kids = syms.split_off(syms.len() - n);
                    syms.push(nodes.len() as u32);
                    nodes.push(RNode { sym: rule.lhs, tok: usize::MAX, rule: r as u16, kids });
                }
                let g = t.go(*states.last().unwrap() as usize, rule.lhs);
                debug_assert!(g >= 0);
                states.push(g as u32);
            }
        }
    }

    /// Length of the longest viable prefix decided by LR (no tree).
    pub fn accepts(&self, kinds: &[u16]) -> Result<(), usize> {
        self.lr(kinds, None, false).map(|_| ())
    }

    pub fn parse(&self, s: &str, cov: Option<&mut Cover>) -> (Verdict, Vec<Tok>) {
        match self.scan(s) {
            Err(e) => (Verdict::Scan(e), vec![]),
            Ok(v) => {
                let f = self.filter(&v);
                let kinds: Vec<u16> = f.iter().map(|t| t.kind).collect();
                match self.lr(&kinds, cov, true) {
                    Err(i) => (Verdict::Syntax(i), f),
                    Ok(t) => (Verdict::Accept(t), f),
                }
            }
        }
    }

    /// Flat form of a reference tree: Root, then nodes in preorder; nodes without tokens omitted unless `keep_empty`.
    /// Node ranges are 0..0 (trivia placement is not prescribed), token ranges are exact.
    pub fn flatten(&self, tree: &RTree, toks: &[Tok], keep_empty: bool) -> Vec<El> {
        let mut has = vec![false; tree.nodes.len()];
        for (i, n) in tree.nodes.iter().enumerate() {
            has[i] = n.tok != usize::MAX || n.kids.iter().any(|k| has[*k as usize]);
        }
        let mut out = vec![El { depth: 0, kind: ROOT, token: false, start: 0, end: 0 }];
        if tree.nodes.is_empty() {
            return out;
        }
        let mut stack = vec![(tree.root, 1u32)];
        while let Some((n, d)) = stack.pop() {
            if !has[n as usize] && !keep_empty {
                continue;
            }
            let node = &tree.nodes[n as usize];
            if node.tok != usize::MAX {
                let t = &toks[node.tok];
                out.push(El { depth: d, kind: node.sym, token: true, start: t.start as u32, end: t.end as u32 });
            } else {
                out.push(El { depth: d, kind: node.sym, token: false, start: 0, end: 0 });
                for k in node.kids.iter().rev() {
                    stack.push((*k, d + 1));
                }
            }
        }
        out
    }
}

/// Comments of a scanned input, in order.
pub fn comments(v: &[Tok]) -> Vec<Tok> {
    v.iter().filter(|t| t.kind == CC || t.kind == SC).copied().collect()
}
