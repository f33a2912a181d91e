use crate::explore::*;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One run of one property's check.
pub struct Run {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    started: Instant,
    verif: PathBuf,
    replay: Option<(String, Vec<u32>)>,
    only: Option<String>,
    threads: usize,
    reports: Vec<SectionReport>,
    violations: Vec<Violation>,
    pub assumptions: Vec<String>,
    budget: Duration,
    pub extra: serde_json::Map<String, Value>,
}

impl Run {
    pub fn new(property: &str) -> Self {
        let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let budget = std::env::var("MC_BUDGET_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(match tier {
                Tier::Quick => 200,
                Tier::Thorough => 780,
            });
        Run {
            property: property.into(),
            tier,
            seed,
            started: Instant::now(),
            verif,
            replay: None,
            only: std::env::var("MC_ONLY").ok(),
            threads: std::env::var("MC_THREADS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
            reports: vec![],
            violations: vec![],
            assumptions: vec![],
            budget: Duration::from_secs(budget),
            extra: Default::default(),
        }
    }

    pub fn with_replay(mut self, section: &str, choices: Vec<u32>) -> Self {
        self.replay = Some((section.into(), choices));
        self
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// `a` in the quick tier, `b` in the thorough one.
    pub fn deep<T>(&self, a: T, b: T) -> T {
        if self.thorough() {
            b
        } else {
            a
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }

    /// Explore all executions of `body`.
    pub fn section<F: Fn(&mut Ch) -> Res + Sync>(&mut self, name: &str, bound: &str, body: F) {
        self.section_n(name, bound, self.threads, body)
    }

    /// As `section`, on one thread (bodies that own process-wide resources).
    pub fn section_n<F: Fn(&mut Ch) -> Res + Sync>(
        &mut self,
        name: &str,
        bound: &str,
        threads: usize,
        body: F,
    ) {
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }
        if self.failed() {
            return;
        }
        let left = self.budget.saturating_sub(self.started.elapsed());
        let ex = Explorer {
            threads,
            cap: left.max(Duration::from_secs(1)),
            seed: self.seed,
        };
        if let Some((section, choices)) = &self.replay {
            if section == name {
                match ex.replay(name, choices, body) {
                    Some(v) => self.violations.push(v),
                    None => println!("replay: section {name} does not fail"),
                }
            }
            return;
        }
        let (report, violation) = ex.run(name, bound, body);
        println!(
            "{} {}: {} executions ({} pruned), {} states, {} transitions, {} compared, <= {} choices, {:.1}s{}",
            self.property,
            name,
            report.executions,
            report.pruned,
            report.states,
            report.transitions,
            report.validated,
            report.max_choices,
            report.wall_s,
            if report.exhaustive { "" } else { " (stopped early)" }
        );
        for (k, n) in &report.hits {
            println!("    {k}: {n}");
        }
        self.reports.push(report);
        if let Some(v) = violation {
            self.violations.push(v);
        }
    }

    /// Something that fails in the way the named entry of the known-findings file describes. Without
    /// such an entry it is a violation.
    pub fn finding(&mut self, section: &str, key: &str, what: &str) {
        if self.replay.is_some() {
            return;
        }
        let listed = std::fs::read_to_string(self.verif.join("known_findings.txt")).unwrap_or_default();
        let entry = format!("finding: property={} {key}:", self.property);
        if listed.lines().any(|l| l.starts_with(&entry)) {
            println!("KNOWN-FINDING: property={} {key}: {what}", self.property);
        } else {
            self.violation(section, format!("{key}: {what}"));
        }
    }

    /// A result found outside of the explorer.
    pub fn violation(&mut self, section: &str, message: String) {
        self.violations.push(Violation {
            section: section.into(),
            path: vec![],
            message,
            log: vec![],
        });
    }

    pub fn finish(self) -> i32 {
        let wall = self.started.elapsed().as_secs_f64();
        if self.replay.is_some() {
            for v in &self.violations {
                println!("section {}\n{}\n{}", v.section, v.log.join("\n"), v.message);
            }
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        if self.reports.is_empty() && self.violations.is_empty() {
            eprintln!("ENGINE ERROR: nothing was explored");
            return 3;
        }
        let sum = |f: fn(&SectionReport) -> u64| self.reports.iter().map(f).sum::<u64>();
        let sections: Vec<Value> = self
            .reports
            .iter()
            .map(|r| {
                json!({
                    "name": r.name, "bound": r.bound, "executions": r.executions,
                    "pruned": r.pruned, "states": r.states, "states_capped": r.states_capped,
                    "transitions": r.transitions, "traces_validated": r.validated,
                    "max_choices": r.max_choices, "exhaustive": r.exhaustive,
                    "outcomes": r.hits, "wall_s": r.wall_s,
                })
            })
            .collect();
        let mut samples: Vec<String> = self.reports.iter().flat_map(|r| r.samples.clone()).collect();
        for v in &self.violations {
            samples.push(format!("VIOLATION {}: {}", v.section, v.message));
        }
        let mut coverage = json!({
            "states": sum(|r| r.states),
            "transitions": sum(|r| r.transitions),
            "traces_validated_against_impl": sum(|r| r.validated),
            "evaluations": sum(|r| r.executions),
            "exhaustive": self.reports.iter().all(|r| r.exhaustive),
            "sections": sections,
            "samples": samples,
        });
        for (k, v) in self.extra {
            coverage[k] = v;
        }
        let evidence = json!({
            "property": self.property,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.violations.len(),
        });
        let dir = self.verif.join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&evidence).unwrap() + "\n",
        )
        .unwrap();

        if let Some(v) = self.violations.first() {
            let dir = self.verif.join("replays");
            std::fs::create_dir_all(&dir).unwrap();
            let path = dir.join(format!("{}.json", self.property));
            let replay = json!({
                "property": self.property,
                "section": v.section,
                "choices": v.path.iter().map(|x| x.0).collect::<Vec<_>>(),
                "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
                "message": v.message,
                "log": v.log,
                "how": "bash replay.sh <this file>",
            });
            std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap() + "\n").unwrap();
            println!("section {}: {}", v.section, v.message);
            for l in v.log.iter().take(60) {
                println!("    {l}");
            }
            println!("VIOLATION property={} replay={}", self.property, path.display());
            return 1;
        }
        println!("{}: held on everything explored ({wall:.1}s)", self.property);
        0
    }
}

/// Entry point of the check binaries: `<bin> <property>` or `<bin> --replay <file>`.
pub fn main_with(checks: &[(&str, fn(&mut Run))]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let (property, replay) = if args.get(1).map(String::as_str) == Some("--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        let choices = v["choices"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| c.as_u64().unwrap() as u32)
            .collect();
        if v["tier"] == "thorough" {
            std::env::set_var("VERIF_TIER", "thorough");
        }
        (
            v["property"].as_str().unwrap().to_string(),
            Some((v["section"].as_str().unwrap().to_string(), choices)),
        )
    } else {
        (args.get(1).cloned().unwrap_or_default(), None)
    };
    let Some((_, f)) = checks.iter().find(|(p, _)| *p == property) else {
        eprintln!("unknown property {property}");
        std::process::exit(2);
    };
    let mut run = Run::new(&property);
    if let Some((s, c)) = replay {
        run = run.with_replay(&s, c);
    }
    f(&mut run);
    std::process::exit(run.finish());
}

/// Hashing of observable states.
#[derive(Clone, Copy)]
pub struct H(u64);
impl Default for H {
    fn default() -> Self {
        H(0x9E37_79B9_7F4A_7C15)
    }
}
impl H {
    pub fn new() -> Self {
        Self::default()
    }
    #[inline]
    pub fn u(mut self, v: u64) -> Self {
        self.0 = (self.0.rotate_left(23) ^ v).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        self.0 ^= self.0 >> 29;
        self
    }
    #[inline]
    pub fn f(self, v: f64) -> Self {
        self.u(v.to_bits())
    }
    #[inline]
    pub fn s(self, v: &str) -> Self {
        v.bytes().fold(self.u(v.len() as u64), |h, b| h.u(b as u64))
    }
    pub fn get(self) -> u64 {
        self.0
    }
}

/// Relative comparison of two floats that went through different but equivalent arithmetic.
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    a == b
        || (a.is_nan() && b.is_nan())
        || (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
