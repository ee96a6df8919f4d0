//! Observes one execution of the public API and turns the result into neutral data.
use postgresql_cst_parser::syntax_kind::SyntaxKind;
use postgresql_cst_parser::{parse, NodeOrToken, ParserError, ResolvedNode};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::flat::{El, CC, ROOT, SC, UNKNOWN, WS};
use vcore::tables::Tables;

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Tree(Vec<El>),
    Parse { msg: String, start: usize, end: usize },
    Report { msg: String, detail: String, pos: usize },
    Scan { msg: String },
    Panic(String),
    /// The tree contradicts itself or the input (losslessness, ranges); carries the elements read all the same.
    Broken(String, Vec<El>),
}

impl Obs {
    pub fn brief(&self) -> String {
        match self {
            Obs::Tree(v) => format!("tree of {} elements", v.len()),
            Obs::Broken(w, v) => format!("inconsistent tree ({w}), {} elements", v.len()),
            o => format!("{o:?}"),
        }
    }
    pub fn tree(&self) -> Option<&[El]> {
        match self {
            Obs::Tree(v) => Some(v),
            Obs::Broken(_, v) => Some(v),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        self.tree().is_some()
    }
    pub fn fingerprint(&self) -> u64 {
        match self {
            Obs::Tree(v) => vcore::flat::hash(v),
            o => vcore::rng::hash_bytes(format!("{o:?}").as_bytes()),
        }
    }
}

thread_local! {
    static KINDS: RefCell<Vec<u16>> = const { RefCell::new(Vec::new()) };
    pub static PANIC_LOC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn kind_of(t: &Tables, k: SyntaxKind) -> u16 {
    KINDS.with(|m| {
        let mut m = m.borrow_mut();
        let i = k as u32 as usize;
        if i >= m.len() {
            m.resize(i + 1, 0xFFFE);
        }
        if m[i] == 0xFFFE {
            let n = format!("{k:?}");
            m[i] = match n.as_str() {
                "Whitespace" => WS,
                "C_COMMENT" => CC,
                "SQL_COMMENT" => SC,
                "Root" => ROOT,
                _ => t.by_kind.get(&n).copied().unwrap_or(UNKNOWN),
            };
        }
        m[i]
    })
}

/// Reads the tree with an explicit stack, checking ranges and text on the way.
pub fn read_tree(t: &Tables, root: &ResolvedNode, input: &str) -> Result<Vec<El>, (String, Vec<El>)> {
    let mut out: Vec<El> = Vec::new();
    let mut bad: Option<String> = None;
    let mut pos = 0usize;
    let resolver = root.resolver();
    let mut stack: Vec<(NodeOrToken, u32, usize)> = vec![(NodeOrToken::Node(root), 0, 0)];
    let mut fail = |w: String| {
        if bad.is_none() {
            bad = Some(w)
        }
    };
    while let Some((e, d, end_check)) = stack.pop() {
        match e {
            NodeOrToken::Node(n) => {
                let r = n.text_range();
                let (s, en) = (usize::from(r.start()), usize::from(r.end()));
                if end_check != 0 {
                    if pos != en {
                        fail(format!("node {:?} ends at {en} but its tokens end at {pos}", n.kind()));
                    }
                    continue;
                }
                if s != pos {
                    fail(format!("node {:?} starts at {s}, previous token ended at {pos}", n.kind()));
                }
                out.push(El { depth: d, kind: kind_of(t, n.kind()), token: false, start: s as u32, end: en as u32 });
                stack.push((e, d, 1));
                let kids: Vec<NodeOrToken> = n.children_with_tokens().collect();
                for k in kids.into_iter().rev() {
                    stack.push((k, d + 1, 0));
                }
            }
            NodeOrToken::Token(tok) => {
                let r = tok.text_range();
                let (s, en) = (usize::from(r.start()), usize::from(r.end()));
                if s != pos {
                    fail(format!("token {:?} starts at {s}, previous token ended at {pos}", tok.kind()));
                }
                match input.get(s..en) {
                    Some(x) if x == tok.resolve_text(&**resolver) => {}
                    x => fail(format!("token {:?}@{s}..{en} has text {:?}, input there is {x:?}", tok.kind(), tok.text())),
                }
                if s == en {
                    fail(format!("empty token {:?}@{s}", tok.kind()));
                }
                pos = en;
                out.push(El { depth: d, kind: kind_of(t, tok.kind()), token: true, start: s as u32, end: en as u32 });
            }
        }
    }
    if pos != input.len() {
        fail(format!("tokens end at {pos}, input has {} bytes", input.len()));
    }
    if root.text() != input {
        fail("root text differs from input".to_string());
    }
    match bad {
        None => Ok(out),
        Some(w) => Err((w, out)),
    }
}


pub fn error_obs(e: ParserError) -> Obs {
    match e {
        ParserError::ParseError { message, start_byte_pos, end_byte_pos } => {
            Obs::Parse { msg: message, start: start_byte_pos, end: end_byte_pos }
        }
        ParserError::ScanReport(r) => Obs::Report { msg: r.message, detail: r.detail, pos: r.position_in_bytes },
        ParserError::ScanError { message } => Obs::Scan { msg: message },
    }
}

pub fn observe(t: &Tables, input: &str) -> Obs {
    observe_with(t, input, |_| {})
}

/// Parses and reads the tree; `f` sees the live tree.
pub fn observe_with(t: &Tables, input: &str, f: impl FnOnce(&ResolvedNode)) -> Obs {
    let r = catch_unwind(AssertUnwindSafe(|| match parse(input) {
        Err(e) => error_obs(e),
        Ok(root) => {
            let o = match read_tree(t, &root, input) {
                Ok(v) => Obs::Tree(v),
                Err((w, v)) => Obs::Broken(w, v),
            };
            f(&root);
            o
        }
    }));
    match r {
        Ok(o) => o,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Obs::Panic(format!("{m} at {}", PANIC_LOC.with(|l| l.borrow().clone())))
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !l.contains("/repo/") && !l.contains("cstree") {
            eprintln!("harness panic: {i}");
        }
        PANIC_LOC.with(|p| *p.borrow_mut() = l);
    }));
}
