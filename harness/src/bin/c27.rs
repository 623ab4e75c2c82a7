//! C27: training with parser threads against single-threaded training (path of the tool in $REML_BIN)
use harness::*;
use harness::gen::*;
use harness::obs::conf;
use reductionml_core::object_pool::Pool;
use reductionml_core::parsers::*;
use reductionml_core::types::*;
use reductionml_core::workspace::{Configuration, Workspace};
use serde_json::{json, Value};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

const FORMATS: [&str; 3] = ["vw-text", "json", "dsjson"];
fn ns(r: &mut Rng, name: &str, max: usize) -> Ns {
    Ns { name: name.into(), body: Body::Feats((0..r.below(max + 1)).map(|i| Feat::Named(format!("f{}", i * 3 + r.below(3)), r.dyadic())).collect()) }
}
fn list(r: &mut Rng, max: usize) -> Vec<Ns> { ["a", "b", "c"].iter().filter_map(|n| if r.chance(2, 3) { Some(ns(r, n, max)) } else { None }).collect() }
/// labelled examples, most small, some large: the texts of one data file
fn texts(r: &mut Rng, fmt: usize, cb: bool, n: usize, huge: usize) -> Vec<String> {
    (0..n).map(|_| {
        let max = if r.chance(1, 12) { huge } else { 1 + r.below(4) };
        let k = 1 + r.below(4);
        let e = Example { shared: if cb && r.bool() { vec![] } else { list(r, max) }, actions: (0..if cb { k } else { 0 }).map(|_| list(r, max)).collect(), label: if cb { Some((r.below(k), r.dyadic(), 0.5)) } else { None }, simple: Some(([-1.0, 0.0, 1.0, 2.5][r.below(4)], if r.bool() { Some(2.0) } else { None })) };
        match (fmt, cb) { (0, true) => vw_cb(&e), (0, false) => vw_simple(&e), (1, true) => json_cb(&e), (1, false) => json_simple(&e), _ => dsjson(&e) }
    }).collect()
}
struct Job { fmt: usize, cb: bool, cfg: Value, metrics: Vec<&'static str>, texts: Vec<String> }
#[derive(PartialEq)]
struct Out { lines: Option<Vec<String>>, model: Vec<u8>, table: String }
fn diff(a: &Out, b: &Out) -> Result<(), String> {
    if let (Some(x), Some(y)) = (&a.lines, &b.lines) {
        ensure!(x.len() == y.len(), "{} predictions instead of {}", x.len(), y.len());
        for i in 0..x.len() { ensure!(x[i] == y[i], "prediction {} is {} instead of {}", i, trunc(&x[i]), trunc(&y[i])); }
    }
    ensure!(a.model == b.model, "the saved models differ");
    ensure!(a.table == b.table, "the tables differ: {} instead of {}", trunc(&a.table), trunc(&b.table));
    Ok(())
}
fn train(bin: &str, dir: &PathBuf, j: &Job, threads: usize, queue: usize, quiet: bool, preds: bool, slow: &[(usize, u64)]) -> Result<Out, String> {
    let e = |e: std::io::Error| e.to_string();
    let (d, c, m, p, o) = (dir.join("data"), dir.join("c.json"), dir.join("model"), dir.join("preds"), dir.join("out"));
    let sep = if j.fmt == 0 && j.cb { "\n\n" } else { "\n" };
    let _ = std::fs::remove_file(&d);
    if slow.is_empty() { std::fs::write(&d, j.texts.join(sep) + "\n").map_err(e)?; } else {
        // the data arrives through a pipe, with pauses before some examples
        let ok = Command::new("mkfifo").arg(&d).status().map_err(e)?.success();
        ensure!(ok, "no pipe");
        let (d, texts, slow) = (d.clone(), j.texts.clone(), slow.to_vec());
        std::thread::spawn(move || {
            let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&d) else { return };
            for (i, t) in texts.iter().enumerate() {
                for (k, ms) in &slow { if *k == i { std::thread::sleep(Duration::from_millis(*ms)); } }
                if f.write_all(format!("{t}{}", if i + 1 == texts.len() { "\n" } else { sep }).as_bytes()).is_err() { return; }
            }
        });
    }
    std::fs::write(&c, j.cfg.to_string()).map_err(e)?;
    let _ = std::fs::remove_file(&m);
    let _ = std::fs::remove_file(&p);
    // now and then on one or two processors: other interleavings
    let pin = threads > 0 && (threads + queue + j.texts.len()) % 3 == 0 && std::path::Path::new("/usr/bin/taskset").exists();
    let mut cmd = if pin { let mut c = Command::new("/usr/bin/taskset"); c.args(["-c", if queue % 2 == 0 { "0" } else { "0,1" }]).arg(bin); c } else { Command::new(bin) };
    if quiet { cmd.arg("--quiet"); }
    cmd.args(["train", "--data-format", FORMATS[j.fmt], "-d"]).arg(&d).arg("--config").arg(&c).arg("--output-model").arg(&m).args(["--num-parse-threads", &threads.to_string(), "--queue-size", &queue.to_string()]);
    if preds { cmd.arg("--predictions").arg(&p); }
    if !j.metrics.is_empty() { cmd.arg("--metrics").arg(j.metrics.join(",")); }
    let er = dir.join("err");
    let mut ch = cmd.stdin(Stdio::null()).stdout(std::fs::File::create(&o).map_err(e)?).stderr(std::fs::File::create(&er).map_err(e)?).spawn().map_err(e)?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(e)? { break s; }
        if t0.elapsed() > Duration::from_secs(30) { let _ = ch.kill(); let _ = ch.wait(); return Err("training does not terminate (30 s)".into()); }
        std::thread::sleep(Duration::from_millis(1));
    };
    if !st.success() { return Err(format!("the tool failed: {}", trunc(&std::fs::read_to_string(&er).unwrap_or_default()))); }
    let t = String::from_utf8_lossy(&std::fs::read(&o).map_err(e)?).to_string();
    let table = t.rfind("Example #").map(|k| t[k..].to_string()).unwrap_or_default();
    Ok(Out { lines: if preds { Some(std::fs::read_to_string(&p).map_err(e)?.lines().map(|x| x.to_string()).collect()) } else { None }, model: std::fs::read(&m).map_err(e)?, table })
}
/// the same training through the library: every example once, in order
fn direct(j: &Job) -> Result<(Vec<String>, Vec<u8>), String> {
    let e = |e: reductionml_core::error::Error| e.to_string();
    let mut w = Workspace::new(Configuration::from_json_str(&j.cfg.to_string()).map_err(e)?).map_err(e)?;
    let (f, l) = if j.cb { (FeaturesType::SparseCBAdf, LabelType::CB) } else { (FeaturesType::SparseSimple, LabelType::Simple) };
    let (seed, bits) = (w.global_config().hash_seed(), w.global_config().num_bits());
    let pool = Arc::new(Pool::new());
    let mut lines = vec![];
    for t in &j.texts {
        let (mut x, y) = match j.fmt { 0 => VwTextParserFactory.create(f, l, seed, bits, pool.clone()).parse_chunk(t).map_err(e)?, 1 => JsonParserFactory.create(f, l, seed, bits, pool.clone()).parse_chunk(t).map_err(e)?, _ => DsJsonParserFactory.create(f, l, seed, bits, pool.clone()).parse_chunk(t).map_err(e)? };
        let y = y.ok_or("bad generator: no label")?;
        let p = w.predict_then_learn(&mut x, &y);
        lines.push(serde_json::to_string(&p).map_err(|e| e.to_string())?);
    }
    Ok((lines, w.serialize_model().map_err(e)?))
}
fn job(r: &mut Rng, n: usize, huge: usize) -> Job {
    let cb = r.bool();
    let fmt = if cb { r.below(3) } else { r.below(2) };
    let g = json!({"numBits": 3 + r.below(6), "hashSeed": r.below(3), "constantFeatureEnabled": r.bool(), "interactions": if huge < 100 && r.chance(1, 3) { json!([[{"Name": "a"}, {"Name": "b"}]]) } else { json!([]) }});
    let coin = json!({"typename": "Coin"});
    let cbc = json!({"typename": "CbAdf", "config": {"cbType": if r.bool() { "mtr" } else { "ips" }, "regressor": coin}});
    let (entry, metrics) = if !cb { (coin, vec![vec![], vec!["mse"], vec!["mse", "parsed_features"]][r.below(3)].clone()) } else {
        match r.below(3) { 0 => (cbc, vec!["parsed_features"]), 1 => (json!({"typename": "CbExploreAdfGreedy", "config": {"epsilon": 0.25, "cbAdf": cbc}}), vec!["ips"]), _ => (json!({"typename": "CbExploreAdfSoftmax", "config": {"lambda": 0.5, "cbAdf": cbc}}), vec!["ips", "parsed_features"]) }
    };
    Job { fmt, cb, cfg: conf(g, entry), metrics, texts: texts(r, fmt, cb, n, huge) }
}
fn main() {
    let bin = std::env::var("REML_BIN").unwrap_or_else(|_| "/verif/target/cli/debug/reml".into());
    let dir = std::env::temp_dir().join(format!("c27-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d2 = dir.clone();
    run("C27", move |h| {
        let mut r = h.rng();
        let one = |j: &Job, threads: usize, queue: usize, quiet: bool, preds: bool, slow: &[(usize, u64)]| -> Result<bool, String> {
            let base = train(&bin, &dir, j, 0, 512, quiet, preds, &[])?;
            let (lines, model) = direct(j)?;
            if let Some(l) = &base.lines { ensure!(*l == lines, "single-threaded training writes other predictions than the library gives for the examples in order"); }
            ensure!(base.model == model, "single-threaded training saves another model than the library gives");
            let o = train(&bin, &dir, j, threads, queue, quiet, preds, slow)?;
            diff(&o, &base)?;
            Ok(threads > 0 && j.texts.len() >= 3)
        };
        let show = |j: &Job, t: usize, q: usize, quiet: bool, p: bool| format!("{t} parse threads, queue size {q}, quiet {quiet}, predictions {p}, {} {} examples, configuration {}, first text {:?}", j.texts.len(), FORMATS[j.fmt], j.cfg, trunc(j.texts.first().map(|x| x.as_str()).unwrap_or("")));
        h.group("runs", "training runs of the tool over random labelled data files (three formats, plain and multi-action examples, with up to 1500 features), 0..9 parse threads, queues of 0..600, quiet or not: predictions file, saved model and table against the single-threaded run and against the library over the same texts; non-trivial: at least 3 examples and one parse thread");
        for k in 0..h.n(120, 1500) {
            let n = match r.below(8) { 0 => 1, 1 => 1, 2 => 2, 3 => 300, _ => 3 + r.below(60) };
            let huge = [20, 60, 1500][r.below(3)];
            let j = job(&mut r, n, huge);
            let (t, q) = (if k < 3 { k } else { [1, 2, 3, 4, 6, 9][r.below(6)] }, [0, 1, 2, 3, 17, 512, 600][r.below(7)]);
            let (quiet, p) = (r.chance(1, 3), r.chance(3, 4));
            if !h.case(|| show(&j, t, q, quiet, p), || one(&j, t, q, quiet, p, &[])) || h.nfails > 0 { break; }
        }
        h.group("storm", "thousands of tiny examples with small and large queues: many hand-overs; the same comparison");
        for _ in 0..h.n(6, 60) {
            let n = 1500 + r.below(1500);
            let j = job(&mut r, n, 2);
            let (t, q) = ([1, 2, 4, 8, 16][r.below(5)], [0, 1, 2, 512][r.below(4)]);
            let p = r.bool();
            if h.nfails > 0 || !h.case(|| show(&j, t, q, true, p), || one(&j, t, q, true, p, &[])) { break; }
        }
        h.group("slow", "the data arrives through a pipe with pauses of 1 ms to 2.5 s before some of the examples; the same comparison");
        for k in 0..h.n(6, 60) {
            let n = 4 + r.below(30);
            let j = job(&mut r, n, 20);
            let (t, q) = ([1, 2, 4, 8][r.below(4)], [0, 1, 4, 512][r.below(4)]);
            let mut slow: Vec<(usize, u64)> = (0..3).map(|_| (r.below(n), [1, 20, 120][r.below(3)])).collect();
            if k < 3 { slow.push((n - 1 - r.below(3), [2500, 600, 1200][k])); }
            if h.nfails > 0 || !h.case(|| format!("pauses (before example, ms) {slow:?}; {}", show(&j, t, q, true, true)), || one(&j, t, q, true, true, &slow)) { break; }
        }
        let _ = std::fs::remove_dir_all(&d2);
    });
}
