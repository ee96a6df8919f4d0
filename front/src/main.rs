//! C14: runs the command-line program as a process and the WebAssembly entry point in this process on the same inputs,
//! and compares what they say with a rendering written here and with the input itself.
use postgresql_cst_parser::{parse, NodeOrToken, ResolvedNode};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

fn esc(s: &str) -> String {
    format!("{s:?}")
}

/// The rendering: one line per node and token, two spaces per level, kind@start..end, and the text of tokens, cut when long.
fn render(root: &ResolvedNode) -> String {
    let mut out = String::new();
    let r = root.resolver().clone();
    let mut stack: Vec<(NodeOrToken, usize)> = vec![(NodeOrToken::Node(root), 0)];
    while let Some((e, lv)) = stack.pop() {
        for _ in 0..lv {
            out.push_str("  ");
        }
        let (a, b) = (u32::from(e.text_range().start()), u32::from(e.text_range().end()));
        write!(out, "{:?}@{a}..{b}", e.kind()).unwrap();
        match e {
            NodeOrToken::Node(n) => {
                let k: Vec<_> = n.children_with_tokens().collect();
                stack.extend(k.into_iter().rev().map(|c| (c, lv + 1)));
            }
            NodeOrToken::Token(t) => {
                let s = t.resolve_text(&*r);
                if s.len() < 25 {
                    write!(out, " {}", esc(s)).unwrap();
                } else {
                    let i = (21..25).find(|&i| s.is_char_boundary(i)).unwrap();
                    write!(out, " {}", esc(&format!("{} ...", &s[..i]))).unwrap();
                }
            }
        }
        out.push('\n');
    }
    out
}

/// Reads a rendering as text alone and checks it against the input: tokens tile the input and show its text.
fn against_input(out: &str, src: &str) -> Result<usize, String> {
    let mut at = 0usize;
    let mut tokens = 0;
    // open nodes: (level, start, end)
    let mut open: Vec<(usize, usize, usize)> = Vec::new();
    for (i, l) in out.lines().enumerate() {
        let body = l.trim_start_matches(' ');
        let ind = l.len() - body.len();
        let lv = ind / 2;
        let bad = |why: &str| Err(format!("line {} of the rendering {why}: {}", i + 1, &l[..l.char_indices().nth(160).map(|x| x.0).unwrap_or(l.len())]));
        let Some((kind, rest)) = body.split_once('@') else { return bad("is not an element") };
        if kind.is_empty() || !kind.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') || ind % 2 != 0 {
            return bad("is not an element");
        }
        let (range, text) = match rest.split_once(' ') {
            Some((r, t)) => (r, Some(t)),
            None => (rest, None),
        };
        let Some((a, b)) = range.split_once("..").and_then(|(a, b)| Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?))) else { return bad("has no range") };
        while open.last().is_some_and(|o| o.0 >= lv) {
            let o = open.pop().unwrap();
            if o.2 != at {
                return bad("starts after a node that ends elsewhere");
            }
        }
        if (i == 0) != open.is_empty() || (i == 0 && (lv, a, b) != (0, 0, src.len())) {
            return bad("is not below the root");
        }
        if let Some(o) = open.last() {
            if o.0 + 1 != lv || a < o.1 || b > o.2 {
                return bad("does not lie in its parent");
            }
        }
        if a != at {
            return bad("does not start where the text before it ends");
        }
        match text {
            None => open.push((lv, a, b)),
            Some(t) => {
                let Some(s) = src.get(a..b) else { return bad("has a range that is not in the input") };
                let full = esc(s);
                let cut = (0..=s.len().min(64)).filter(|&i| s.is_char_boundary(i)).any(|i| t == esc(&format!("{} ...", &s[..i])));
                if t != full && !(cut && s.len() >= 8) {
                    return bad("shows other text than the input has there");
                }
                at = b;
                tokens += 1;
            }
        }
    }
    if at != src.len() || open.iter().any(|o| o.2 != at) {
        return Err(format!("the rendering covers {at} of {} bytes", src.len()));
    }
    Ok(tokens)
}

struct Said {
    out: Vec<u8>,
    err: Vec<u8>,
    status: std::process::ExitStatus,
}

/// chunk: the size of the pieces in which the input arrives (0: at once)
fn cli(exe: &str, src: &str, chunk: usize) -> std::io::Result<Said> {
    let mut p = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_remove("RUST_BACKTRACE").spawn()?;
    let mut i = p.stdin.take().unwrap();
    let (mut o, mut e) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let (mut out, mut err) = (Vec::new(), Vec::new());
    std::thread::scope(|s| {
        s.spawn(move || {
            if chunk == 0 {
                let _ = i.write_all(src.as_bytes());
            } else {
                for c in src.as_bytes().chunks(chunk) {
                    if i.write_all(c).is_err() || i.flush().is_err() {
                        break;
                    }
                    std::thread::sleep(std::time::Duration::from_micros(300));
                }
            }
        });
        s.spawn(|| e.read_to_end(&mut err));
        let _ = o.read_to_end(&mut out);
    });
    Ok(Said { out, err, status: p.wait()? })
}

fn short(s: &str) -> String {
    let mut t: String = s.chars().take(200).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    t
}

fn differ(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let f = |s: &str| {
        let mut i = n.min(s.len());
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        short(&s[i..])
    };
    format!("at byte {n}: {:?} instead of {:?} (lengths {} and {})", f(a), f(b), a.len(), b.len())
}

/// None: cannot be judged (the library itself panics)
fn judge(exe: &str, src: &str, chunk: usize) -> Option<Result<(bool, usize), String>> {
    let lib = std::panic::catch_unwind(|| match parse(src) {
        Ok(r) => Ok(render(&r)),
        Err(e) => Err((format!("{e:?}"), format!("{e:#?}"))),
    })
    .ok()?;
    Some(judge2(exe, src, chunk, lib))
}

fn judge2(exe: &str, src: &str, chunk: usize, lib: Result<String, (String, String)>) -> Result<(bool, usize), String> {
    let want = match &lib {
        Ok(t) => t.clone(),
        Err(e) => format!("Error: {}", e.0),
    };
    let wasm = std::panic::catch_unwind(|| postgresql_cst_parser_wasm::parse_sql(src)).map_err(|_| "wasm: panics where the library does not".to_string())?;
    if wasm != want {
        return Err(format!("wasm: other result {}", differ(&wasm, &want)));
    }
    let c = cli(exe, src, chunk).expect("cannot run the program");
    let out = String::from_utf8(c.out).map_err(|_| "cli: output is not UTF-8".to_string())?;
    let err = String::from_utf8_lossy(&c.err).to_string();
    use std::os::unix::process::ExitStatusExt;
    if c.status.signal().is_some() || c.status.code() == Some(101) || err.contains("panicked at") && lib.is_ok() {
        return Err(format!("cli: panics or dies ({}) {}", c.status, short(&err)));
    }
    match &lib {
        Ok(t) => {
            // println! adds one line end
            if out != format!("{t}\n") && out != *t {
                return Err(format!("cli: other output {}", differ(&out, &format!("{t}\n"))));
            }
            if !err.is_empty() {
                return Err(format!("cli: writes to standard error although the input is accepted: {}", short(&err)));
            }
            if c.status.code() != Some(0) {
                return Err(format!("cli: exit {} although the input is accepted", c.status));
            }
            against_input(t, src).map(|n| (true, n)).map_err(|e| format!("rendering: {e}"))
        }
        Err((a, b)) => {
            if !out.is_empty() {
                return Err(format!("cli: prints to standard output although the input is rejected: {}", short(&out)));
            }
            if err.trim_end() != a && err.trim_end() != b {
                return Err(format!("cli: the error is not reported: {:?} instead of {b:?}", short(&err)));
            }
            Ok((false, 0))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // front <cli> <inputs> <seconds> <threads>
    let (exe, file, secs, nt) = (a[1].clone(), a[2].clone(), a[3].parse::<f64>().unwrap(), a[4].parse::<usize>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let b = std::fs::read(&file).unwrap();
    let mut v: Vec<String> = Vec::new();
    let mut i = 0;
    while i + 4 <= b.len() {
        let n = u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        v.push(String::from_utf8(b[i + 4..i + 4 + n].to_vec()).unwrap());
        i += 4 + n;
    }
    let end = std::time::Instant::now() + std::time::Duration::from_secs_f64(secs);
    let next = AtomicUsize::new(0);
    let (ok, er, un, tk, ch) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let bad: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..nt {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Relaxed);
                    if k >= v.len() || std::time::Instant::now() > end || bad.lock().unwrap().len() > 6 {
                        return;
                    }
                    // some inputs arrive in pieces, which may end inside a character
                    let chunk = if k % 11 == 3 && v[k].len() < 400 { 1 + k % 5 } else if k % 11 == 5 && v[k].len() > 20000 { 4096 - 1 } else { 0 };
                    if chunk > 0 {
                        ch.fetch_add(1, Relaxed);
                    }
                    match judge(&exe, &v[k], chunk) {
                        None => drop(un.fetch_add(1, Relaxed)),
                        Some(Ok((true, n))) => {
                            ok.fetch_add(1, Relaxed);
                            tk.fetch_add(n as u64, Relaxed);
                        }
                        Some(Ok(_)) => drop(er.fetch_add(1, Relaxed)),
                        Some(Err(e)) => bad.lock().unwrap().push((k, e)),
                    }
                })
                .unwrap();
        }
    });
    println!("accepted\t{}", ok.load(Relaxed));
    println!("rejected\t{}", er.load(Relaxed));
    println!("unjudged\t{}", un.load(Relaxed));
    println!("tokens_rendered\t{}", tk.load(Relaxed));
    println!("arrived_in_pieces\t{}", ch.load(Relaxed));
    for (k, e) in bad.into_inner().unwrap() {
        println!("bad\t{k}\t{}", e.replace(['\n', '\t'], " "));
    }
}
