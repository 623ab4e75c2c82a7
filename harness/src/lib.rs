//! Executable contracts: bounded conformance and replay against the real crate.
pub mod feats;
pub mod gen;
pub mod obs;
pub mod stacks;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f32_in(&mut self, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * self.unit() as f32
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// a small "nice" float: dyadic, exactly representable products
    pub fn dyadic(&mut self) -> f32 {
        let m = self.below(17) as f32 - 8.0;
        m / [1.0, 2.0, 4.0][self.below(3)]
    }
}

pub struct H {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<serde_json::Value>,
    pub nfails: u64,
    only: Option<String>,
    rule: Vec<String>,
    group: String,
    gidx: u64,
    groups: Vec<(String, u64)>,
    pub budget_s: f64,
    start: std::time::Instant,
    current: std::sync::Arc<std::sync::Mutex<Option<(String, std::time::Instant)>>>,
    trace: bool,
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

impl H {
    pub fn group(&mut self, name: &str, rule: &str) {
        if !self.group.is_empty() {
            self.groups.push((self.group.clone(), self.gidx));
        }
        self.group = name.to_string();
        self.gidx = 0;
        self.rule.push(format!("{}: {}", name, rule));
    }
    pub fn rng(&self) -> Rng {
        Rng::new(self.seed ^ hash_str(&self.group))
    }
    /// scale a count by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            (quick * 4).min(thorough.max(quick))
        }
    }
    /// `desc` is the complete description of the input; returns false when the time budget is used up
    pub fn case<D: FnOnce() -> String, F: FnOnce() -> Result<bool, String>>(&mut self, desc: D, f: F) -> bool {
        let id = format!("{}:{}", self.group, self.gidx);
        self.gidx += 1;
        if let Some(o) = &self.only {
            if *o != id {
                return true;
            }
        }
        if self.start.elapsed().as_secs_f64() > self.budget_s {
            return false;
        }
        self.evals += 1;
        if self.trace {
            eprintln!("CASE {}", id);
        }
        *self.current.lock().unwrap() = Some((id.clone(), std::time::Instant::now()));
        LAST_PANIC.with(|p| p.borrow_mut().clear());
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.current.lock().unwrap() = None;
        let d = desc();
        let bad = match r {
            Ok(Ok(nontrivial)) => {
                if nontrivial {
                    let new = self.distinct.insert(hash_str(&format!("{}|{}", self.group, d)));
                    if new && (self.distinct.len() < 3 || (self.gidx == 7 && self.samples.len() < 12)) {
                        self.samples.push(format!("{} {}", id, trunc(&d)));
                    }
                }
                None
            }
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        };
        if let Some(e) = bad {
            self.nfails += 1;
            if self.fails.len() < 5 {
                self.fails.push(serde_json::json!({"case": id, "input": d, "failure": e}));
            }
        }
        true
    }
    pub fn simple(&mut self, desc: &str, ok: bool, msg: &str) {
        let (d, m) = (desc.to_string(), msg.to_string());
        self.case(|| d, || if ok { Ok(true) } else { Err(m) });
    }
}
pub fn trunc(s: &str) -> String {
    if s.len() > 400 {
        let mut e = 400;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s.to_string()
    }
}

pub fn run(prop: &str, f: impl FnOnce(&mut H)) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").map(|t| t == "thorough").unwrap_or(false);
    let budget_s = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 100.0 });
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let mut h = H {
        prop: prop.into(),
        seed,
        thorough,
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        fails: vec![],
        nfails: 0,
        only: get("--only"),
        rule: vec![],
        group: String::new(),
        gidx: 0,
        groups: vec![],
        budget_s,
        start: std::time::Instant::now(),
        current: Default::default(),
        trace: std::env::var("TRACE").is_ok(),
    };
    // a case that does not return is a failure of that case
    let cur = h.current.clone();
    let out = get("--out");
    let pr = prop.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let c = cur.lock().unwrap().clone();
        if let Some((id, t)) = c {
            if t.elapsed().as_secs() > 40 {
                let o = serde_json::json!({"property": pr, "seed": seed, "tier": if thorough {"thorough"} else {"quick"}, "evaluations": 1, "distinct_nontrivial": 1,
                    "rule": "watchdog", "samples": [id], "nfailures": 1, "wall_s": 40.0, "groups": [],
                    "failures": [{"case": id, "input": "(replay the case by its id)", "failure": "the call did not return within 40 s"}]});
                let t = serde_json::to_string_pretty(&o).unwrap();
                if let Some(p) = &out { std::fs::write(p, &t).unwrap(); } else { println!("{}", t); }
                std::process::exit(1);
            }
        }
    });
    f(&mut h);
    let g = (h.group.clone(), h.gidx);
    h.groups.push(g);
    let out = serde_json::json!({
        "property": h.prop, "seed": seed, "tier": if thorough {"thorough"} else {"quick"},
        "evaluations": h.evals, "distinct_nontrivial": h.distinct.len(),
        "rule": h.rule.join("; "), "samples": h.samples, "failures": h.fails, "nfailures": h.nfails,
        "groups": h.groups.iter().map(|(a,b)| serde_json::json!([a,b])).collect::<Vec<_>>(),
        "wall_s": h.start.elapsed().as_secs_f64(),
        "budget_exhausted": h.start.elapsed().as_secs_f64() > h.budget_s,
    });
    let t = serde_json::to_string_pretty(&out).unwrap();
    if let Some(p) = get("--out") {
        std::fs::write(p, &t).unwrap();
    } else {
        println!("{}", t);
    }
    std::process::exit(if h.nfails > 0 { 1 } else { 0 });
}

/// assert-like helper
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    // single precision overflows earlier than the reference
    if a.is_infinite() || b.is_infinite() {
        return a.abs() > 1e38 && b.abs() > 1e38 && a.signum() == b.signum();
    }
    let d = (a - b).abs();
    d <= tol * (1.0f64).max(a.abs()).max(b.abs())
}
