use harness::feats::*;
use harness::obs::*;
use harness::stacks::*;
use harness::*;
use reductionml_core::types::*;
use serde_json::json;

/// the action's features followed, namespace by namespace, by the shared ones
fn joined(a: &View, s: Option<&View>) -> View {
    let mut v = a.clone();
    if let Some(s) = s { for (n, f) in s { v.entry(*n).or_default().extend(f); } }
    v
}
fn same_terms(a: &View, b: &View) -> bool {
    let k = |v: &View| -> Vec<_> { v.iter().map(|(n, f)| { let mut f = f.clone(); f.sort(); (*n, f) }).collect() };
    k(a) == k(b)
}

fn main() {
    run("C09", |h| {
        h.group("cb", "IPS, MTR and SquareCB (MTR below) over sequences of examples with and without shared features, overlapping namespaces, 1 to 5 actions; the base regressor's calls, labels and features are logged and its scores scripted");
        let mut r = h.rng();
        for _ in 0..h.n(700, 12000) {
            let kind = r.below(5); // ips, mtr, squarecb, greedy>ips, softmax>mtr
            let debug = r.chance(1, 5);
            let (top, ty) = [("", "ips"), ("", "mtr"), ("CbExploreAdfSquareCb", "mtr"), ("CbExploreAdfGreedy", "ips"), ("CbExploreAdfSoftmax", "mtr")][kind];
            let mut e = json!({"typename": "CbAdf", "config": {"cbType": ty}});
            if debug { e = json!({"typename": "Debug", "config": {"id": "d", "next": e}}); }
            if !top.is_empty() && !(debug && false) { e = json!({"typename": top, "config": {"cbAdf": e}}); }
            let k = 1 + r.below(5);
            let exs: Vec<(CBAdfFeatures, CBLabel, usize)> = (0..k).map(|_| {
                let n = if r.chance(1, 30) { 1 + r.below(70) } else { 1 + r.below(5) };
                let shared = if r.chance(2, 3) { Some(rand_simple(&mut r, 0, 10, 4)) } else { None };
                let actions = (0..n).map(|_| rand_simple(&mut r, 0, 10, 4)).collect();
                (CBAdfFeatures { shared, actions }, CBLabel::new(r.below(n), r.dyadic(), [0.25f32, 0.5, 1.0, 0.1, 1e-3, 1e-6][r.below(6)]), r.below(3))
            }).collect();
            let d = exs.iter().map(|(f, l, m)| format!("{} {:?} mode={m}", cbview(f).iter().map(show).collect::<Vec<_>>().join(" / "), l)).collect::<Vec<_>>().join(" ;; ");
            h.case(|| format!("{e} {d}"), || {
                let mut w = observed(conf(json!({"numBits": 10}), e.clone()), "CoinRegressor", 0)?;
                let (mut acts, mut events) = (0usize, 0usize);
                for (i, (f, l, mode)) in exs.iter().enumerate() {
                    let av: Vec<View> = f.actions.iter().map(view).collect();
                    let sv = f.shared.as_ref().map(view);
                    let mut fs = Features::SparseCBAdf(f.clone());
                    let lab = Label::CB(*l);
                    let scripted: Vec<(f32, f32)> = (0..av.len()).map(|a| (1000.0 + a as f32, (a as f32 * 7.0) % 5.0 - 2.0 + i as f32)).collect();
                    set_scalars(&scripted);
                    take_log();
                    let p = match mode { 0 => Some(w.predict(&mut fs)), 1 => { w.learn(&mut fs, &lab); None }, _ => Some(w.predict_then_learn(&mut fs, &lab)) };
                    let log = take_log();
                    set_scalars(&[]);
                    let np = if *mode == 1 { 0 } else { av.len() };
                    ensure!(log.len() >= np, "example {i}: {} calls for {} predictions", log.len(), np);
                    for a in 0..np {
                        ensure!(log[a].kind == Kind::Predict, "example {i}: call {a} is {:?}", log[a].kind);
                        ensure!(log[a].feats == vec![joined(&av[a], sv.as_ref())], "example {i}: action {a} scored on {} expected {}", show(&log[a].feats[0]), show(&joined(&av[a], sv.as_ref())));
                    }
                    if let Some(Prediction::ActionScores(s)) = &p {
                        let want: Vec<(usize, f32)> = scripted.iter().enumerate().map(|(a, x)| (a, x.1)).collect();
                        ensure!(s.0 == want, "example {i}: scores {:?} expected {:?}", s.0, want);
                    } else if let Some(p) = &p { ensure!(!top.is_empty() || debug, "prediction {:?}", p); }
                    let learned = &log[np..];
                    if *mode == 0 { ensure!(learned.is_empty(), "example {i}: learning during prediction"); continue; }
                    acts += av.len(); events += 1;
                    let prob = if kind == 2 { 1.0 } else { l.probability };
                    let labels: Vec<(f32, f32)> = learned.iter().map(|c| match &c.label { Some(Label::Simple(s)) => (s.value(), s.weight()), _ => (f32::NAN, f32::NAN) }).collect();
                    for c in learned { ensure!(c.kind == Kind::Learn, "example {i}: {:?} instead of learning", c.kind); }
                    if ty == "ips" {
                        ensure!(learned.len() == av.len(), "example {i}: {} updates for {} actions", learned.len(), av.len());
                        for a in 0..av.len() {
                            let want = if a == l.action { l.cost / prob } else { 0.0 };
                            ensure!(close(labels[a].0 as f64, want as f64, 1e-5) && labels[a].1 == 1.0, "example {i}: action {a} trained on {:?} expected ({want}, 1)", labels[a]);
                            ensure!(learned[a].feats == vec![joined(&av[a], sv.as_ref())], "example {i}: action {a} trained on features {}", show(&learned[a].feats[0]));
                        }
                    } else {
                        ensure!(learned.len() == 1, "example {i}: {} updates", learned.len());
                        let wt = (1.0 / prob as f64) * (events as f64 / acts as f64);
                        ensure!(labels[0].0 == l.cost && close(labels[0].1 as f64, wt, 1e-5), "example {i}: trained on {:?} expected ({}, {wt})", labels[0], l.cost);
                        ensure!(learned[0].feats.len() == 1 && same_terms(&learned[0].feats[0], &joined(&av[l.action], sv.as_ref())), "example {i}: trained on features {} expected {}", show(&learned[0].feats[0]), show(&joined(&av[l.action], sv.as_ref())));
                    }
                }
                Ok(true)
            });
        }
    });
}
