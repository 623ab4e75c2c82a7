use harness::obs::*;
use harness::*;
use reductionml_core::sparse_namespaced_features::SparseFeatures;
use reductionml_core::types::*;
use reductionml_core::workspace::Workspace;
use serde_json::json;

fn feats(n: usize) -> Features<'static> {
    Features::SparseCBAdf(CBAdfFeatures { shared: None, actions: (0..n).map(|_| SparseFeatures::new()).collect() })
}
fn probs(w: &Workspace, scores: &[f32]) -> Result<Vec<(usize, f32)>, String> {
    set_scores(scores);
    match w.predict(&mut feats(scores.len())) { Prediction::ActionProbs(p) => Ok(p.0), x => Err(format!("prediction is {:?}", x)) }
}
fn best(s: &[f32]) -> usize { let mut b = 0; for i in 0..s.len() { if s[i] < s[b] { b = i; } } b }
fn valid(p: &[(usize, f32)], s: &[f32]) -> Result<(), String> {
    ensure!(p.len() == s.len(), "{} entries for {} actions", p.len(), s.len());
    for (i, x) in p.iter().enumerate() { ensure!(x.0 == i, "entry {i} is for action {}", x.0); ensure!(x.1 >= -1e-6 && x.1.is_finite(), "probability {} of action {i}", x.1); }
    let sum: f64 = p.iter().map(|x| x.1 as f64).sum();
    ensure!((sum - 1.0).abs() < 1e-4, "probabilities sum to {sum}: {:?}", p);
    let b = best(s);
    for x in p { ensure!(x.1 <= p[b].1 + 1e-5, "action {} is more likely than the lowest-cost action {b}: {:?}", x.0, p); }
    Ok(())
}
/// the floor: simplex projection of q onto {p >= floor on the support}
fn floor(q: &[f64], eps: f64) -> Vec<f64> {
    if eps == 0.0 { return q.to_vec(); }
    let sup: Vec<usize> = (0..q.len()).filter(|&i| q[i] > 0.0).collect();
    let m = eps / sup.len() as f64;
    let mut o = vec![0.0; q.len()];
    if eps > 0.999 { for &i in &sup { o[i] = 1.0 / sup.len() as f64; } return o; }
    // bisection on tau: sum max(q - tau, m) = 1
    let (mut lo, mut hi) = (-2.0, 2.0);
    for _ in 0..200 { let t = (lo + hi) / 2.0; let s: f64 = sup.iter().map(|&i| (q[i] - t).max(m)).sum(); if s > 1.0 { lo = t } else { hi = t } }
    for &i in &sup { o[i] = (q[i] - lo).max(m); }
    o
}
fn near(p: &[(usize, f32)], want: &[f64], what: &str) -> Result<(), String> {
    for i in 0..want.len() { ensure!((p[i].1 as f64 - want[i]).abs() <= 2e-4, "{what}: action {i} has probability {} expected {}; all {:?} expected {:?}", p[i].1, want[i], p, want); }
    Ok(())
}
fn scores(r: &mut Rng) -> Vec<f32> {
    let n = if r.chance(1, 5) { 1 + r.below(40) } else { 1 + r.below(6) };
    let kind = r.below(6);
    let base = r.f32_in(-50.0, 50.0);
    let mut s: Vec<f32> = (0..n).map(|i| match kind { 0 => r.dyadic(), 1 => r.f32_in(-1.0, 1.0), 2 => r.f32_in(-50.0, 50.0), 3 => base, 4 => base + i as f32 * 0.25, _ => base - i as f32 * 0.25 }).collect();
    if r.bool() && n > 1 { let (i, j) = (r.below(n), r.below(n)); s[i] = s[j]; }
    s
}

fn main() {
    run("C08", |h| {
        h.group("greedy", "epsilon-greedy over scripted scores: ties, negative, equal, large, 1 to 40 actions; epsilon over its range");
        let mut r = h.rng();
        for _ in 0..h.n(1200, 20000) {
            let s = scores(&mut r);
            let eps = [0.0f32, 1.0, 0.05, r.unit() as f32][r.below(4)];
            h.case(|| format!("epsilon={eps} scores={:?}", s), || {
                let w = observed(conf(json!({"numBits": 2}), json!({"typename": "CbExploreAdfGreedy", "config": {"epsilon": eps as f64}})), "CBAdfReduction", 1)?;
                let p = probs(&w, &s)?;
                valid(&p, &s)?;
                let b = best(&s);
                let want: Vec<f64> = (0..s.len()).map(|i| eps as f64 / s.len() as f64 + if i == b { 1.0 - eps as f64 } else { 0.0 }).collect();
                near(&p, &want, "greedy")?;
                Ok(s.len() > 1)
            });
        }
        h.group("softmax", "softmax over scripted scores; lambda, floor over their ranges");
        let mut r = h.rng();
        for _ in 0..h.n(1200, 20000) {
            let s = scores(&mut r);
            let lambda = [0.0f32, 1.0, 0.1, r.unit() as f32 * 3.0][r.below(4)];
            let eps = [0.0f32, 0.0, 1.0, 0.05, r.unit() as f32][r.below(5)];
            h.case(|| format!("lambda={lambda} floor={eps} scores={:?}", s), || {
                let w = observed(conf(json!({"numBits": 2}), json!({"typename": "CbExploreAdfSoftmax", "config": {"lambda": lambda as f64, "uniformEpsilon": eps as f64}})), "CBAdfReduction", 1)?;
                let p = probs(&w, &s)?;
                valid(&p, &s)?;
                let m = s[best(&s)] as f64;
                let e: Vec<f64> = s.iter().map(|x| ((-lambda * (x - m as f32)).exp()) as f64).collect();
                let t: f64 = e.iter().sum();
                let q: Vec<f64> = e.iter().map(|x| ((x / t) as f32) as f64).collect();
                near(&p, &floor(&q, eps as f64), "softmax")?;
                Ok(s.len() > 1)
            });
        }
        h.group("squarecb", "SquareCB over scripted scores, after 0 to 60 learned examples (mixed learn, predict-then-learn and predictions in between)");
        let mut r = h.rng();
        for _ in 0..h.n(900, 15000) {
            let s = scores(&mut r);
            let eps = [0.0f32, 0.0, 1.0, 0.05, r.unit() as f32][r.below(5)];
            let (scale, ex) = ([10.0f32, 1.0, 0.0, 1000.0, r.unit() as f32 * 20.0][r.below(5)], [0.5f32, 1.0, 0.0, 0.25, 2.0][r.below(5)]);
            let hist: Vec<usize> = (0..[0, 1, 3, 60][r.below(4)]).map(|_| r.below(3)).collect();
            h.case(|| format!("floor={eps} scale={scale} exponent={ex} history={:?} scores={:?}", hist, s), || {
                let mut w = observed(conf(json!({"numBits": 2}), json!({"typename": "CbExploreAdfSquareCb", "config": {"uniformEpsilon": eps as f64, "gammaScale": scale as f64, "gammaExponent": ex as f64}})), "CBAdfReduction", 1)?;
                let mut learned = 0;
                set_scores(&s);
                for (j, k) in hist.iter().enumerate() { let lab = Label::CB(CBLabel::new(j % s.len(), [1.0f32, 0.0, -1.0, 0.5][j % 4], [0.5f32, 1.0, 0.01][j % 3])); match k { 0 => { w.learn(&mut feats(s.len()), &lab); learned += 1; } 1 => { w.predict_then_learn(&mut feats(s.len()), &lab); learned += 1; } _ => { w.predict(&mut feats(s.len())); } } }
                let p = probs(&w, &s)?;
                valid(&p, &s)?;
                let b = best(&s);
                let gamma = scale as f64 * (learned as f64).powf(ex as f64);
                let n = s.len() as f64;
                let mut q: Vec<f64> = s.iter().map(|x| 1.0 / (n + gamma * (*x as f64 - s[b] as f64))).collect();
                q[b] = 1.0 - (0..s.len()).filter(|&i| i != b).map(|i| q[i]).sum::<f64>();
                near(&p, &floor(&q, eps as f64), "SquareCB")?;
                Ok(s.len() > 1)
            });
        }
    });
}
