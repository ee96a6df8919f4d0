//! One deep input on a small stack, in a process of its own (C01).
use postgresql_cst_parser::parse;

pub fn run(family: &str, n: usize, stack: usize, mode: &str) -> String {
    let f = crate::sizes::FAMILIES.iter().find(|f| f.0 == family).expect("unknown family");
    let s = (f.1)(n);
    let mode = mode.to_string();
    std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || match parse(&s) {
            Ok(root) => {
                let mut nodes = 0u64;
                for e in root.descendants_with_tokens() {
                    nodes += 1;
                    std::hint::black_box(e.text_range());
                }
                let len = usize::from(root.text_range().len());
                let same = len == s.len() && root.text() == s.as_str();
                if mode == "forget" {
                    std::mem::forget(root);
                } else {
                    drop(root);
                }
                format!("tree nodes={nodes} same={same}")
            }
            Err(e) => {
                let d = format!("{e:?}");
                drop(e);
                format!("error {}", d.chars().take(80).collect::<String>())
            }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| "panic".to_string())
}

pub fn names() -> String {
    crate::sizes::FAMILIES.iter().map(|f| format!("{}:{}", f.0, f.2 as u8)).collect::<Vec<_>>().join("\n")
}
