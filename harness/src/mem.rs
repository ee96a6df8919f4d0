//! Drives the library for the sanitizers and the allocation ledger (C11): parse, read, share, clone, drop.
use postgresql_cst_parser::syntax_kind::SyntaxKind;
use postgresql_cst_parser::{parse, ParserError, ResolvedNode};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::{mpsc, Arc, Barrier};

struct Ledger;
static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
            CALLS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
}
#[cfg(not(miri))]
#[global_allocator]
static A: Ledger = Ledger;

fn kind_no(k: SyntaxKind) -> u64 {
    k as u32 as u64
}

/// Reads everything there is to read; a digest.
fn read(root: &ResolvedNode, deep: bool) -> u64 {
    let mut h = 0u64;
    let mut n = 0u64;
    let mut add = |x: u64| h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    for e in root.descendants_with_tokens() {
        n += 1;
        add(kind_no(e.kind()));
        add(u64::from(u32::from(e.text_range().start())) << 32 | u64::from(u32::from(e.text_range().end())));
        if let Some(t) = e.as_token() {
            if deep {
                for b in t.text().bytes() {
                    add(b as u64);
                }
            }
        }
    }
    if deep {
        // other directions of travel
        if let Some(t) = root.first_token() {
            let mut t = Some(t);
            while let Some(x) = t {
                add(u64::from(u32::from(x.text_range().start())));
                t = x.next_token();
            }
        }
        if let Some(t) = root.last_token() {
            let mut p = Some(t.parent());
            while let Some(x) = p {
                add(kind_no(x.kind()));
                p = x.parent();
            }
        }
        for c in root.children() {
            add(c.children_with_tokens().count() as u64);
            add(c.next_sibling().map(|s| kind_no(s.kind())).unwrap_or(0));
        }
        add(usize::from(root.text().len()) as u64);
    }
    h ^ n
}

fn error_digest(e: &ParserError) -> u64 {
    format!("{e:?}").bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

fn one(s: &str, deep: bool) -> (bool, u64) {
    match parse(s) {
        Ok(r) => {
            let d = read(&r, deep);
            // a node kept after its root handle is gone
            let kept: Option<ResolvedNode> = r.descendants().last().cloned();
            let c = r.clone();
            drop(r);
            let d2 = if deep { read(&c, deep) } else { d };
            assert_eq!(d, d2, "clone reads differently");
            drop(c);
            if let Some(k) = kept {
                std::hint::black_box(k.text_range());
                std::hint::black_box(k.ancestors().count());
            }
            (true, d)
        }
        Err(e) => (false, error_digest(&e)),
    }
}

fn inputs(path: &str) -> Vec<String> {
    let b = std::fs::read(path).unwrap();
    let mut v = Vec::new();
    let mut i = 0;
    while i + 4 <= b.len() {
        let n = u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        v.push(String::from_utf8(b[i + 4..i + 4 + n].to_vec()).unwrap());
        i += 4 + n;
    }
    v
}

/// Parses and reads in many threads at once, sharing trees; every reader must see the same.
fn threads(v: &[String], t: usize, rounds: usize) -> (u64, u64) {
    let mut trees = 0u64;
    let mut reads = 0u64;
    for r in 0..rounds {
        for chunk in v.chunks(t.max(2)) {
            let roots: Vec<Option<ResolvedNode>> = chunk.iter().map(|s| parse(s).ok()).collect();
            let roots = Arc::new(roots);
            let text: Arc<Vec<String>> = Arc::new(chunk.to_vec());
            let gate = Arc::new(Barrier::new(t));
            let (tx, rx) = mpsc::channel::<(usize, u64)>();
            let mut hs = Vec::new();
            for k in 0..t {
                let (roots, text, gate, tx) = (roots.clone(), text.clone(), gate.clone(), tx.clone());
                hs.push(std::thread::spawn(move || {
                    gate.wait();
                    // everybody reads the same fresh trees first (children are created lazily), in rotated order
                    let n = roots.len();
                    let mut mine: Vec<ResolvedNode> = Vec::new();
                    for j in 0..n {
                        let j = (j + if r % 2 == 0 { 0 } else { k }) % n;
                        if let Some(t) = &roots[j] {
                            tx.send((j, read(t, true))).unwrap();
                            mine.extend(t.descendants().nth(k % 5).cloned());
                            mine.push(t.clone());
                        } else {
                            tx.send((j, one(&text[j], true).1)).unwrap();
                        }
                    }
                    drop(roots);
                    // the last owner is whoever comes last
                    for m in mine {
                        std::hint::black_box(m.ancestors().count());
                        drop(m);
                    }
                    // and parse concurrently
                    for j in 0..n {
                        let j = (j * 7 + k) % n;
                        tx.send((j, one(&text[j], true).1)).unwrap();
                    }
                }));
            }
            drop(tx);
            drop(roots);
            let mut seen: Vec<Option<u64>> = vec![None; chunk.len()];
            for (j, d) in rx {
                reads += 1;
                match seen[j] {
                    None => seen[j] = Some(d),
                    Some(x) => assert_eq!(x, d, "two readers saw different content of {:?}", chunk[j]),
                }
            }
            for h in hs {
                h.join().unwrap();
            }
            trees += chunk.len() as u64;
        }
    }
    (trees, reads)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (file, mode, n) = (&a[1], a[2].clone(), a[3].parse::<usize>().unwrap());
    let v = inputs(file);
    let work = move || {
        match mode.as_str() {
            "plain" => {
                let pos = a.get(4).map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(p).unwrap());
                let (mut ok, mut err) = (0u64, 0u64);
                for (i, s) in v.iter().enumerate() {
                    if let Some(p) = &pos {
                        #[cfg(not(miri))]
                        std::os::unix::fs::FileExt::write_at(p, &(i as u64).to_le_bytes(), 0).unwrap();
                        let _ = (p, i);
                    }
                    for _ in 0..n {
                        if one(s, s.len() < 3000).0 {
                            ok += 1
                        } else {
                            err += 1
                        }
                    }
                    if a.get(5).is_some_and(|x| x == "each") {
                        println!("case {i}");
                    }
                }
                println!("{{\"ok\":{ok},\"errors\":{err}}}");
            }
            // memory held after each case
            "ledger" => {
                let mut grow = 0u64;
                let mut cases = 0u64;
                let mut calls = 0u64;
                let (mut ok, mut err) = (0u64, 0u64);
                for s in v.iter().take(200) {
                    one(s, true);
                }
                let start = (LIVE.load(Relaxed), BLOCKS.load(Relaxed));
                let mut bad: Vec<(usize, i64, i64)> = Vec::new();
                for (i, s) in v.iter().enumerate() {
                    let mut d = (0, 0);
                    for k in 0..3 {
                        let l = (LIVE.load(Relaxed), BLOCKS.load(Relaxed), CALLS.load(Relaxed));
                        if one(s, false).0 {
                            ok += 1
                        } else {
                            err += 1
                        }
                        d = (LIVE.load(Relaxed) - l.0, BLOCKS.load(Relaxed) - l.1);
                        calls += CALLS.load(Relaxed) - l.2;
                        if k == 0 && d != (0, 0) {
                            grow += 1;
                        }
                        if d == (0, 0) {
                            break;
                        }
                    }
                    cases += 1;
                    if d != (0, 0) && bad.len() < 5 {
                        bad.push((i, d.0, d.1));
                    }
                }
                let end = (LIVE.load(Relaxed) - start.0, BLOCKS.load(Relaxed) - start.1);
                println!(
                    "{{\"cases\":{cases},\"ok\":{ok},\"errors\":{err},\"allocations\":{calls},\"first_time_growth\":{grow},\"held_at_end\":{},\"blocks_at_end\":{},\"leaks\":[{}]}}",
                    end.0,
                    end.1,
                    bad.iter().map(|(i, b, k)| format!("[{i},{b},{k}]")).collect::<Vec<_>>().join(",")
                );
            }
            // each thread parses for itself from the start (nothing is warmed up) and hands its trees on
            "private" => {
                let (tx, rx) = mpsc::channel::<(usize, u64, Option<ResolvedNode>)>();
                let v = Arc::new(v);
                let gate = Arc::new(Barrier::new(n));
                let hs: Vec<_> = (0..n)
                    .map(|k| {
                        let (v, gate, tx) = (v.clone(), gate.clone(), tx.clone());
                        std::thread::spawn(move || {
                            gate.wait();
                            for j in 0..v.len() {
                                let j = (j + k) % v.len();
                                let d = one(&v[j], true).1;
                                tx.send((j, d, parse(&v[j]).ok())).unwrap();
                            }
                        })
                    })
                    .collect();
                drop(tx);
                let mut seen: Vec<Option<u64>> = vec![None; v.len()];
                let mut trees = 0u64;
                for (j, d, t) in rx {
                    assert_eq!(*seen[j].get_or_insert(d), d, "two readers saw different content of {:?}", v[j]);
                    if let Some(t) = t {
                        trees += 1;
                        assert_eq!(read(&t, true), d, "two readers saw different content of {:?}", v[j]);
                    }
                }
                for h in hs {
                    h.join().unwrap();
                }
                println!("{{\"trees\":{trees},\"reads\":{},\"threads\":{n}}}", trees * 2);
            }
            _ => {
                let rounds = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(1);
                let (t, r) = threads(&v, n, rounds);
                println!("{{\"trees\":{t},\"reads\":{r},\"threads\":{n}}}");
            }
        }
    };
    if cfg!(miri) {
        work();
    } else {
        std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap_or_else(|_| std::process::exit(101));
    }
}
