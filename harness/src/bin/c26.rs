//! C26: the progress schedule of the command line tool (path in $REML_BIN)
use harness::*;
use std::process::Command;

fn period(s: &str) -> Option<(bool, f64)> {
    let t = s.to_lowercase();
    if let Some(x) = t.strip_prefix('*') { return x.parse::<f32>().ok().map(|v| (false, v as f64)); }
    let x = t.strip_prefix('+').unwrap_or(&t);
    if x.is_empty() || !x.chars().all(|c| c.is_ascii_digit()) { return None; }
    x.parse::<u32>().ok().map(|v| (true, v as f64))
}
/// the example numbers that are reported (without the closing report)
fn schedule(p: (bool, f64), n: u64) -> Vec<u64> {
    let mut out = vec![];
    let mut next = 0f64;
    for i in 0..n { if i as f64 >= next { out.push(i); next = if p.0 { i as f64 + p.1 } else { ((i as f32) * p.1 as f32).floor() as f64 }; } }
    out
}
fn main() {
    let bin = std::env::var("REML_BIN").unwrap_or_else(|_| "/verif/target/cli/debug/reml".into());
    let dir = std::env::temp_dir().join(format!("c26-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d2 = dir.clone();
    run("C26", move |h| {
        let exec = |p: &str, n: u64, threads: usize, id: u64| -> Result<(bool, Vec<u64>), String> {
            let d = dir.join(format!("d{}", id));
            let c = dir.join("c.json");
            std::fs::write(&d, (0..n).map(|i| format!("{} |a x:{}\n", i % 2, i % 3)).collect::<String>()).map_err(|e| e.to_string())?;
            std::fs::write(&c, r#"{"globalConfig":{"numBits":2},"entryReduction":{"typename":"Coin"}}"#).map_err(|e| e.to_string())?;
            let o = Command::new(&bin).args(["train", "-d"]).arg(&d).arg("--config").arg(&c).arg(format!("--progress={p}")).args(["--num-parse-threads", &threads.to_string()]).output().map_err(|e| e.to_string())?;
            let _ = std::fs::remove_file(&d);
            if !o.status.success() { return if String::from_utf8_lossy(&o.stderr).contains("Invalid output period") { Ok((false, vec![])) } else { Err(format!("the tool failed: {}", trunc(&String::from_utf8_lossy(&o.stderr)))) }; }
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let last = t.rfind("Example #").ok_or("no table")?;
            let mut rows: Vec<u64> = t[last..].lines().skip(1).filter_map(|l| { let w: String = l.chars().filter(|c| c.is_ascii_digit() || *c == '-').collect(); if l.starts_with('|') { w.parse().ok() } else { None } }).collect();
            let closing = rows.pop().ok_or("no closing report")?;
            if closing != n - 1 { return Err(format!("the closing report is at example {closing}, expected {}", n - 1)); }
            Ok((true, rows))
        };
        h.group("schedule", "training runs of 1..150 examples with additive and multiplicative periods in each spelling; the reported example numbers against the schedule; non-trivial: at least 2 reports");
        let mut ps: Vec<String> = vec![];
        for k in [0u32, 1, 2, 3, 7, 40, 1000] { ps.push(format!("+{k}")); ps.push(format!("{k}")); }
        for f in ["2", "1.5", "1", "1.1", "3", "10", "2.0", "0.5", "1.25", "0", "1e1", "2.75"] { ps.push(format!("*{f}")); }
        ps.push("+007".into()); ps.push("4294967295".into());
        let mut id = 0;
        let mut r = h.rng();
        for _ in 0..h.n(1, 6) { for p in &ps {
            let n = [1u64, 2, 3, 17, 150][r.below(5)].max(if r.bool() { 60 } else { 1 });
            let th = if r.chance(1, 3) { 2 } else { 0 };
            id += 1;
            h.case(|| format!("--progress={p} with {n} examples, {th} parse threads"), || {
                let (acc, rows) = exec(p, n, th, id)?;
                ensure!(acc, "the period is rejected");
                let want = schedule(period(p).ok_or("bad generator")?, n);
                ensure!(rows == want, "reports at {:?}, the schedule gives {:?}", rows, want);
                Ok(want.len() >= 2)
            });
        } }
        h.group("spelling", "accepted exactly when integer, +integer or *number; non-trivial: rejected");
        for p in ["x", "", "+", "*", "2.5", "+2.5", "-1", "+-1", "*x", "* 2", " 2", "2 ", "2x", "+x", "%3", "1,000", "0x10", "4294967296", "+4294967296", "**2", "*+", "two"] {
            id += 1;
            h.case(|| format!("--progress={p:?}"), || {
                let (acc, _) = exec(p, 3, 0, id)?;
                let want = period(p).is_some();
                ensure!(acc == want, "accepted: {acc}");
                Ok(!want)
            });
        }
        let _ = std::fs::remove_dir_all(&d2);
    });
}
