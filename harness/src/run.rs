//! One shard of a check: generates cases, runs the library, lets the check's monitor judge, keeps account.
use crate::judge::*;
use crate::obs::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use vcore::gen::Gen;
use vcore::json;
use vcore::parse::{Cover, Model};

pub struct Job {
    pub wl: &'static str,
    pub n: u64,
}

pub fn job(wl: &'static str, n: u64) -> Job {
    Job { wl, n }
}

pub struct Env<'a> {
    pub m: &'a Model,
    pub g: &'a Gen<'a>,
    pub seed: u64,
    pub thorough: bool,
    pub nullable: Vec<bool>,
}

/// What a shard saw.
pub struct Stats {
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub cover: Cover,
}

impl Stats {
    pub fn bump(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let x = self.counts.entry(k.to_string()).or_insert(0);
        *x = (*x).max(n);
    }
    pub fn nontrivial(&mut self, inputs: &[String]) {
        let mut h = 0u64;
        for i in inputs {
            h = vcore::rng::mix(h ^ vcore::rng::hash_bytes(i.as_bytes()));
        }
        if self.distinct.insert(h) && self.samples.len() < 6 && self.distinct.len() % 37 == 1 {
            self.samples.push(inputs.iter().map(|s| s.chars().take(200).collect::<String>()).collect::<Vec<_>>().join(" | "));
        }
    }
}

pub trait Check {
    fn jobs(&self, env: &Env) -> Vec<Job>;
    /// None: the index yields no case.
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>>;
    /// Runs the library on the case; every violation seen.
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String>;
    /// May the shrinker drop characters from inputs[0]?
    fn shrinkable(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str;
    /// For comparisons between builds: a digest of everything observed, never 0.
    fn fp(&self, _env: &Env, _inputs: &[String]) -> u64 {
        1
    }
    fn show(&self, env: &Env, inputs: &[String]) -> String {
        observe(&env.m.t, &inputs[0]).brief()
    }
}

pub fn new_stats(m: &Model) -> Stats {
    Stats { evals: 0, counts: BTreeMap::new(), distinct: HashSet::new(), samples: Vec::new(), cover: Cover::new(&m.t) }
}

fn first_word(s: &str) -> String {
    s.split(':').next().unwrap_or("").to_string()
}

pub fn shrink(env: &Env, c: &dyn Check, inputs: &[String], what: &str) -> Vec<String> {
    if !c.shrinkable() || inputs.len() != 1 {
        return inputs.to_vec();
    }
    let mut scratch = new_stats(env.m);
    let class = first_word(what);
    let mut cur: Vec<char> = inputs[0].chars().collect();
    let mut budget = 3000u32;
    let t0 = std::time::Instant::now();
    let mut bad = |s: &[char]| {
        let s: String = s.iter().collect();
        c.judge(env, &[s], &mut scratch).iter().any(|w| first_word(w) == class)
    };
    let mut size = (cur.len() / 2).max(1);
    while size >= 1 && budget > 0 && t0.elapsed().as_secs() < 20 {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && budget > 0 {
            let mut t = cur.clone();
            t.drain(i..(i + size).min(cur.len()));
            budget -= 1;
            if bad(&t) {
                cur = t;
                any = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !any {
            break;
        }
        if !any || size > cur.len() {
            size = (size / 2).min(cur.len().max(2) / 2).max(if size == 1 { 0 } else { 1 });
        }
    }
    vec![cur.into_iter().collect()]
}

pub struct Shard {
    pub shard: u64,
    pub nshards: u64,
    pub from: (u64, u64),
    pub dir: String,
    /// seconds for the whole run
    pub deadline: f64,
    /// write fingerprints
    pub fp: bool,
    /// walk the cases backwards
    pub reverse: bool,
}

fn flush_fp(f: &std::fs::File, pos: u64, v: &mut Vec<u64>) {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    f.write_at(&b, pos * 8).unwrap();
    v.clear();
}

pub fn run_shard(env: &Env, c: &dyn Check, sh: &Shard) {
    let jobs = c.jobs(env);
    let pos = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(format!("{}/pos{}", sh.dir, sh.shard)).unwrap();
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/viol{}.jsonl", sh.dir, sh.shard)).unwrap();
    let mut st = new_stats(env.m);
    let mut found: BTreeMap<String, u32> = BTreeMap::new();
    let t0 = std::time::Instant::now();
    'all: for (j, job) in jobs.iter().enumerate() {
        let left = (jobs.len() - j) as f64;
        let j = j as u64;
        if j < sh.from.0 {
            continue;
        }
        // a slow machine, or a thorough run, gets every job a share of the time that is left
        let now = t0.elapsed().as_secs_f64();
        let share = if env.thorough { 1.0 / left } else { f64::max(1.0 / left, 0.35) };
        let until = now + (sh.deadline - now).max(0.0) * share;
        let fpf = sh.fp.then(|| std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(format!("{}/fp{}.{}", sh.dir, sh.shard, j)).unwrap());
        let mut fps: Vec<u64> = Vec::new();
        let mut fpos = 0u64;
        let mut tick = 0u32;
        let mut idx = sh.shard;
        if j == sh.from.0 {
            while idx < sh.from.1 {
                idx += sh.nshards;
            }
        }
        while idx < job.n {
            tick += 1;
            if tick % 16 == 0 && t0.elapsed().as_secs_f64() > until {
                st.bump(&format!("cut_short_by_time.{}", job.wl));
                break;
            }
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&j.to_le_bytes());
            b[8..].copy_from_slice(&idx.to_le_bytes());
            pos.write_at(&b, 0).unwrap();
            let case = if sh.reverse { sh.shard + (job.n - 1 - sh.shard) / sh.nshards * sh.nshards - (idx - sh.shard) } else { idx };
            let got = c.gen(env, job.wl, case);
            if let Some(f) = &fpf {
                let x = got.as_ref().map(|i| c.fp(env, i)).unwrap_or(2);
                let k = (case - sh.shard) / sh.nshards;
                if sh.reverse {
                    f.write_at(&x.to_le_bytes(), k * 8).unwrap();
                } else {
                    if fps.is_empty() {
                        fpos = k;
                    }
                    fps.push(x);
                    if fps.len() >= 512 {
                        flush_fp(f, fpos, &mut fps);
                    }
                }
            }
            if let Some(inputs) = got {
                st.evals += 1;
                st.bump(&format!("cases.{}", job.wl));
                for w in c.judge(env, &inputs, &mut st) {
                    let class = first_word(&w);
                    let k = found.entry(class).or_insert(0);
                    *k += 1;
                    if *k <= 3 {
                        let small = shrink(env, c, &inputs, &w);
                        let mut s2 = new_stats(env.m);
                        let w2 = c.judge(env, &small, &mut s2);
                        let what = w2.iter().find(|x| first_word(x) == first_word(&w)).unwrap_or(&w).clone();
                        let arr = |v: &[String]| v.iter().map(|s| json::esc(s)).collect::<Vec<_>>().join(",");
                        writeln!(
                            out,
                            "{{\"workload\":{},\"index\":{},\"what\":{},\"inputs\":[{}],\"original\":[{}]}}",
                            json::esc(job.wl),
                            idx,
                            json::esc(&what),
                            arr(&small),
                            arr(&inputs)
                        )
                        .unwrap();
                    }
                    if *k > 200 {
                        break 'all;
                    }
                }
            }
            idx += sh.nshards;
        }
        if let Some(f) = &fpf {
            flush_fp(f, fpos, &mut fps);
        }
    }
    // account
    let mut s = String::from("{");
    s += &format!("\"evals\":{},\"rule\":{},\"counts\":{{", st.evals, json::esc(c.rule()));
    s += &st.counts.iter().map(|(k, v)| format!("{}:{}", json::esc(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"samples\":[";
    s += &st.samples.iter().map(|x| json::esc(x)).collect::<Vec<_>>().join(",");
    s += "]}";
    let w64 = |name: &str, v: &mut dyn Iterator<Item = u64>| {
        let mut b = Vec::new();
        for x in v {
            b.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(format!("{}/{}{}.{}", sh.dir, name, sh.shard, sh.from.0 * 1_000_000_007 + sh.from.1), b).unwrap();
    };
    w64("distinct", &mut st.distinct.iter().copied());
    w64("cover", &mut st.cover.bits.iter().copied());
    w64("rules", &mut st.cover.rules.iter().map(|b| *b as u64));
    std::fs::write(format!("{}/stats{}.{}.json", sh.dir, sh.shard, sh.from.0 * 1_000_000_007 + sh.from.1), s).unwrap();
    pos.write_at(&[0xFF; 16], 0).unwrap();
}

/// Generates from the shared workloads.
pub fn shared(env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
    let s = match wl {
        "sizes" => crate::sizes::case(env.thorough, idx),
        "sizes.random" => {
            let mut r = vcore::rng::Rng::new(env.seed, wl, idx);
            Some(crate::sizes::random(&mut r, 3000))
        }
        w if crate::forms::WORKLOADS.contains(&w) => crate::forms::case(w, idx),
        "spaced" | "twice" => return crate::scanwl::case(env, wl, idx),
        w if crate::scanwl::WORKLOADS.contains(&w) => return crate::scanwl::case(env, wl, idx),
        _ => env.g.case(wl, env.seed, idx),
    };
    s.map(|s| vec![s])
}

/// Runs the model and the library on one input, with the usual counters.
pub fn both(env: &Env, s: &str, st: &mut Stats) -> (Expected, Obs) {
    let e = expect(env.m, s, Some(&mut st.cover));
    let o = observe(&env.m.t, s);
    st.bump(match &e.exp {
        Exp::Accept(_) => "model.accept",
        Exp::Syntax { start, .. } if *start == s.len() => "model.syntax_error_at_end",
        Exp::Syntax { .. } => "model.syntax_error",
        Exp::Scan(_) => "model.lexical_error",
    });
    st.bump(match &o {
        Obs::Tree(_) => "observed.tree",
        Obs::Broken(..) => "observed.broken_tree",
        Obs::Parse { .. } => "observed.syntax_error",
        Obs::Report { .. } => "observed.lexical_report",
        Obs::Scan { .. } => "observed.lexical_error",
        Obs::Panic(_) => "observed.panic",
    });
    st.add("observed.tokens", e.raw.len() as u64);
    if let Some(v) = o.tree() {
        st.add("observed.tree_elements", v.len() as u64);
        st.max("max.depth", v.iter().map(|e| e.depth).max().unwrap_or(0) as u64);
    }
    st.max("max.input_bytes", s.len() as u64);
    (e, o)
}
