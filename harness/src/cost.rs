//! What parsing one input costs: instructions are counted from outside (cachegrind), allocations here (C22).
#[allow(dead_code)]
mod sizes;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct Ledger;
static TOTAL: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        up(n);
        System.realloc(p, l, n)
    }
}
fn up(n: usize) {
    TOTAL.fetch_add(n as u64, Relaxed);
    CALLS.fetch_add(1, Relaxed);
    let l = LIVE.fetch_add(n as u64, Relaxed) + n as u64;
    PEAK.fetch_max(l, Relaxed);
}
#[global_allocator]
static A: Ledger = Ledger;

fn cpu_ns() -> u64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) }; // CLOCK_THREAD_CPUTIME_ID
    t.s as u64 * 1_000_000_000 + t.n as u64
}
#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(c: i32, t: *mut Ts) -> i32;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // cost FILE N TAILFILE: the file's text N times, then the tail; or cost @family N
    let n: usize = a[2].parse().unwrap();
    let s = match a[1].strip_prefix('@') {
        Some(f) => (sizes::FAMILIES.iter().find(|x| x.0 == f).expect("family").1)(n),
        None => std::fs::read_to_string(&a[1]).unwrap().repeat(n) + &a.get(3).map(|f| std::fs::read_to_string(f).unwrap()).unwrap_or_default(),
    };
    if a.get(4).is_some_and(|x| x == "none") {
        println!("{{\"bytes\":{}}}", s.len());
        return;
    }
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let (t0, c0, l0) = (TOTAL.load(Relaxed), CALLS.load(Relaxed), LIVE.load(Relaxed));
            PEAK.store(l0, Relaxed);
            let w = cpu_ns();
            let r = postgresql_cst_parser::parse(&s);
            let ok = r.is_ok();
            let held = LIVE.load(Relaxed) - l0;
            drop(r);
            let w = cpu_ns() - w;
            println!(
                "{{\"bytes\":{},\"ok\":{ok},\"allocated\":{},\"calls\":{},\"peak\":{},\"held\":{held},\"left\":{},\"cpu_ns\":{w}}}",
                s.len(),
                TOTAL.load(Relaxed) - t0,
                CALLS.load(Relaxed) - c0,
                PEAK.load(Relaxed) - l0,
                LIVE.load(Relaxed) as i64 - l0 as i64
            );
        })
        .unwrap()
        .join()
        .unwrap();
}
