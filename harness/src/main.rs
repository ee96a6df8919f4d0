mod checks;
mod deep;
mod forms;
mod diffs;
mod judge;
mod meta;
mod obs;
mod ops;
mod run;
mod scanwl;
mod sizes;
use run::*;
use vcore::gen::Gen;
use vcore::json;
use vcore::parse::Model;

fn check(id: &str) -> Option<Box<dyn Check>> {
    Some(match id {
        "C01" => Box::new(checks::Total),
        "C02" => Box::new(checks::Lossless),
        "C03" => Box::new(checks::Diff { id: "C03" }),
        "C04" => Box::new(checks::Diff { id: "C04" }),
        "C05" => Box::new(ops::Ops),
        "C06" => Box::new(checks::Diff { id: "C06" }),
        "C07" => Box::new(checks::Trivia),
        "C08" => Box::new(checks::Diff { id: "C08" }),
        "C09" => Box::new(checks::Diff { id: "C09" }),
        "C10" => Box::new(meta::Pure),
        "C19" => Box::new(meta::Compose),
        "C20" => Box::new(meta::Case),
        "C21" => Box::new(meta::Opaque),
        "C23" => Box::new(meta::Keywords),
        "C12" => Box::new(diffs::Twin { id: "C12" }),
        "C13" => Box::new(diffs::Twin { id: "C13" }),
        "C15" => Box::new(diffs::Twin { id: "C15" }),
        "C10X" => Box::new(diffs::Twin { id: "C10X" }),
        _ => return None,
    })
}

struct Args(std::collections::HashMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or_else(|| panic!("--{k} missing"))
    }
    fn opt(&self, k: &str) -> bool {
        self.0.get(k).is_some_and(|s| s == "1")
    }
    fn num(&self, k: &str) -> u64 {
        self.get(k).parse().unwrap()
    }
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a[1].clone();
    let mut m = std::collections::HashMap::new();
    let mut i = 2;
    while i + 1 < a.len() {
        m.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone());
        i += 2;
    }
    let args = Args(m);
    obs::install_panic_hook();
    match cmd.as_str() {
        "deep" => {
            println!("{}", deep::run(args.get("family"), args.num("n") as usize, args.num("stack") as usize, args.get("mode")));
            return;
        }
        "families" => {
            println!("{}", deep::names());
            return;
        }
        _ => {}
    }
    let spec = args.get("spec").to_string();
    let model = Model::load(&spec);
    let gen = Gen::new(&model, &format!("{spec}/corpus"));
    let env = Env { m: &model, g: &gen, seed: args.num("seed"), thorough: args.get("tier") == "thorough", nullable: judge::nullable(&model) };
    match cmd.as_str() {
        "shard" => {
            let c = check(args.get("check")).expect("unknown check");
            let sh = Shard { shard: args.num("shard"), nshards: args.num("of"), from: (args.num("from-job"), args.num("from-idx")), dir: args.get("dir").to_string(), deadline: args.num("deadline") as f64, fp: args.opt("fp"), reverse: args.opt("reverse") };
            run_shard(&env, &*c, &sh);
        }
        // prints the inputs of one case as JSON
        "case" => {
            let c = check(args.get("check")).expect("unknown check");
            let jobs = c.jobs(&env);
            let v = c.gen(&env, jobs[args.num("job") as usize].wl, args.num("idx")).unwrap_or_default();
            println!(
                "{{\"workload\":{},\"inputs\":[{}]}}",
                json::esc(jobs[args.num("job") as usize].wl),
                v.iter().map(|s| json::esc(s)).collect::<Vec<_>>().join(",")
            );
        }
        // the result in full, for comparing builds
        "show" => {
            let c = check(args.get("check")).expect("unknown check");
            let list = std::fs::read_to_string(args.get("files")).unwrap();
            for f in list.lines() {
                let i = vec![std::fs::read_to_string(f).unwrap()];
                println!("{} {}", c.fp(&env, &i), json::esc(&c.show(&env, &i)));
            }
        }
        // writes a mix of inputs from several workloads to a file (u32 length, bytes)
        "emit" => {
            let wls: Vec<&str> = args.get("wl").split(',').collect();
            let (n, max, min) = (args.num("n") as usize, args.num("max") as usize, args.num("min") as usize);
            let mut out: Vec<u8> = Vec::new();
            let mut k = 0;
            let mut rng = vcore::rng::Rng::new(args.num("seed"), "emit", args.num("stream"));
            let mut tries = 0u64;
            while k < n && tries < n as u64 * 400 {
                tries += 1;
                let wl = wls[tries as usize % wls.len()];
                let size = match wl {
                    "corpus" => env.g.size("corpus"),
                    "glyphs" => scanwl::glyphs_count(false),
                    "keywords" => scanwl::keywords_count(&env),
                    "contin" => scanwl::contin_count(),
                    "sizes" => sizes::count(false),
                    _ => env.g.size("pairs"),
                };
                let idx = rng.below(size as usize) as u64;
                let case = run::shared(&env, wl, idx);
                if let Some(v) = case {
                    if v[0].len() <= max && v[0].len() >= min {
                        out.extend((v[0].len() as u32).to_le_bytes());
                        out.extend(v[0].as_bytes());
                        k += 1;
                    }
                }
            }
            std::fs::write(args.get("out"), out).unwrap();
            println!("{k}");
        }
        // judges inputs given one per file
        "judge" => {
            let c = check(args.get("check")).expect("unknown check");
            let list = std::fs::read_to_string(args.get("files")).unwrap();
            let inputs: Vec<String> = list.lines().map(|f| std::fs::read_to_string(f).unwrap()).collect();
            let mut st = new_stats(&model);
            let w = c.judge(&env, &inputs, &mut st);
            println!("[{}]", w.iter().map(|s| json::esc(s)).collect::<Vec<_>>().join(","));
        }
        // how many cells of the pinned automaton can be consulted at all
        "universe" => {
            let t = &model.t;
            let mut live = 0u64;
            for s in 0..t.nstates {
                for k in 0..t.nt as u16 {
                    if t.act(s, k) != vcore::tables::ERR {
                        live += 1;
                    }
                }
            }
            println!("{{\"states\":{},\"terminals\":{},\"live_cells\":{live},\"rules\":{}}}", t.nstates, t.nt, t.rules.len());
        }
        x => panic!("unknown command {x}"),
    }
}

fn main() {
    // A large stack: the depth of the stack the library needs is C01's business (see deep.rs), not every check's.
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap_or_else(|_| std::process::exit(101));
}
