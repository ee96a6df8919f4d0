//! Workloads and monitors of the checks that compare two builds of the library (C12, C13, C15, and C10's
//! comparison across processes). Every case gets a fingerprint; run.py compares the builds' fingerprints.
use crate::judge::*;
use crate::obs::*;
use crate::run::*;
use crate::sizes;
use vcore::flat::*;

fn q(env: &Env, quick: u64, thorough: u64) -> u64 {
    if env.thorough {
        thorough
    } else {
        quick
    }
}

pub struct Twin {
    pub id: &'static str,
}

/// Is this the build that keeps empty nodes?
pub const KEEP: bool = cfg!(feature = "keep-build");

fn fp_obs(o: &Obs) -> u64 {
    o.fingerprint()
}

impl Check for Twin {
    fn jobs(&self, env: &Env) -> Vec<Job> {
        let all = env.g.size("pairs");
        let mut v = vec![
            job("corpus", env.g.size("corpus")),
            job("glyphs", crate::scanwl::glyphs_count(env.thorough)),
            job("contin", crate::scanwl::contin_count()),
        ];
        match self.id {
            "C12" => v.extend([
                job("keywords", crate::scanwl::keywords_count(env)),
                job("soup", q(env, 150_000, 12_000_000)),
                job("soup.wild", q(env, 30_000, 1_500_000)),
                job("tails", q(env, 50_000, 3_000_000)),
                job("bytes", q(env, 60_000, 6_000_000)),
                job("cmut", q(env, 30_000, 1_500_000)),
                job("trunc", q(env, 20_000, 800_000)),
                job("sizes", sizes::count(env.thorough) / 2),
                job("gram.wild", q(env, 20_000, 800_000)),
                job("mutate.wild", q(env, 20_000, 800_000)),
            ]),
            "C13" => v.extend([
                job("complete.plain", all),
                job("rules.plain", q(env, 60_000, 2_000_000)),
                job("rules.trivia", q(env, 60_000, 2_000_000)),
                job("gram.wild", q(env, 60_000, 2_000_000)),
                job("complete.trivia", q(env, all / 8, all)),
                job("mutate.wild", q(env, 60_000, 2_000_000)),
                job("spaced", q(env, 60_000, 2_000_000)),
                job("soup", q(env, 60_000, 2_000_000)),
                job("bytes", q(env, 40_000, 1_000_000)),
                job("sizes", sizes::count(env.thorough)),
            ]),
            _ => v.extend([
                job("keywords", crate::scanwl::keywords_count(env)),
                job("complete.plain", all),
                job("pairs.plain", q(env, all / 2, all)),
                job("soup", q(env, 250_000, 6_000_000)),
                job("tails", q(env, 60_000, 1_000_000)),
                job("bytes", q(env, 100_000, 4_000_000)),
                job("gram.wild", q(env, 40_000, 1_000_000)),
                job("mutate.wild", q(env, 60_000, 1_000_000)),
                job("la.rand", q(env, 60_000, 1_000_000)),
                job("errlong", q(env, 3_000, 20_000)),
                job("sizes", sizes::count(env.thorough) / 2),
            ]),
        }
        v.extend(crate::forms::jobs(if env.thorough || self.id == "C12" { 1 } else { 4 }));
        v
    }
    fn gen(&self, env: &Env, wl: &str, idx: u64) -> Option<Vec<String>> {
        shared(env, wl, idx)
    }
    fn judge(&self, env: &Env, inputs: &[String], st: &mut Stats) -> Vec<String> {
        let s = &inputs[0];
        let o = observe(&env.m.t, s);
        st.bump(match &o {
            Obs::Tree(_) | Obs::Broken(..) => "observed.tree",
            Obs::Parse { .. } => "observed.syntax_error",
            Obs::Report { .. } => "observed.lexical_report",
            Obs::Scan { .. } => "observed.lexical_error",
            Obs::Panic(_) => "observed.panic",
        });
        if !s.trim().is_empty() {
            st.nontrivial(inputs);
        }
        let mut w = Vec::new();
        if self.id == "C13" {
            if let Some(v) = o.tree() {
                st.add("observed.elements", v.len() as u64);
                let empty = v.iter().skip(1).filter(|e| e.start == e.end).count();
                st.add("observed.empty_nodes", empty as u64);
                if KEEP {
                    if let Obs::Broken(x, _) = &o {
                        w.push(format!("Lossless: keep-empty build: {x}"));
                    }
                    if let Some(x) = productions(env.m, &env.nullable, v, true) {
                        w.push(format!("Production: keep-empty build: {x}"));
                    }
                } else if empty > 0 {
                    let e = v.iter().skip(1).find(|e| e.start == e.end).unwrap();
                    w.push(format!("Empty: default build contains {}", el(env.m, e)));
                }
            }
        }
        w
    }
    fn fp(&self, env: &Env, inputs: &[String]) -> u64 {
        let o = observe(&env.m.t, &inputs[0]);
        if self.id == "C13" {
            if let Some(v) = o.tree() {
                let p = if KEEP { structure(&prune(v)) } else { structure(v) };
                return hash(&p) | 1;
            }
        }
        fp_obs(&o) | 1
    }
    fn show(&self, env: &Env, inputs: &[String]) -> String {
        let o = observe(&env.m.t, &inputs[0]);
        match o.tree() {
            None => format!("{o:?}"),
            Some(v) => {
                let v = if self.id == "C13" { structure(&if KEEP { prune(v) } else { v.to_vec() }) } else { v.to_vec() };
                let mut x: String = v.iter().map(|e| el(env.m, e) + "\n").collect();
                if let Obs::Broken(b, _) = &o {
                    x.push_str(&format!("inconsistent: {b}"));
                }
                x
            }
        }
    }
    fn shrinkable(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        match self.id {
            "C12" => "the table-driven and the regex-driven scanner builds run on the same inputs and their results (whole tree with ranges, or error with positions) are compared; non-trivial: not only whitespace",
            "C13" => "the default and the keep-empty-nodes builds run on the same inputs; each build's tree is checked by itself and the pruned trees and errors are compared; non-trivial: not only whitespace",
            "C15" => "the checked-in library and the library built from freshly generated sources run on the same inputs and their results are compared; non-trivial: not only whitespace",
            _ => "the same inputs run in several processes (in opposite orders) and the results are compared; non-trivial: not only whitespace",
        }
    }
}
