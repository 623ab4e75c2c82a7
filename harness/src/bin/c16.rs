//! C16: predictions of the base regressor
use harness::*;
use harness::feats::*;
use harness::obs::*;
use harness::stacks::*;
use reductionml_core::interactions::compile_interactions;
use reductionml_core::types::*;
use serde_json::json;
use std::collections::BTreeMap;

fn main() {
    run("C16", |h| {
        h.group("predict", "regressors with random or extreme weights and label range, all link/loss/interaction/constant settings: raw prediction against the f64 weighted sum over the reference term list, prediction = link(clamp(raw)), never NaN, model unchanged; overflowing and NaN sums included; non-trivial: some term has a non-zero weight");
        let mut r = h.rng();
        for k in 0..h.n(2500, 40000) {
            let bits = 2 + r.below(4) as u8;
            let seed = if r.bool() { 0 } else { 7 };
            let constant = r.bool();
            let ik = r.below(4);
            let link = r.bool();
            let logloss = r.chance(1, 4);
            let g = global(bits, seed, constant, ik);
            let mut cfg = json!({"linkFunction": if link { "Logistic" } else { "Identity" }});
            if logloss { cfg["lossFunction"] = json!({"Logistic": {}}); }
            let extreme = k % 6 == 0;
            let mut blocks = BTreeMap::new();
            for i in 0..1u32 << bits { if r.chance(2, 3) {
                let x = if extreme && r.bool() { *r.pick(&[3e38f32, -3e38, 1e30, -1e30]) } else { r.dyadic() };
                blocks.insert(i, vec![x, r.dyadic(), r.dyadic().abs(), 1.0, r.dyadic(), 1.0]);
            } }
            // the range of labels seen: set by learning-free state, or the untouched start
            let range = if r.chance(2, 3) && !logloss { Some((-(r.dyadic().abs()), r.dyadic().abs())) } else { None };
            let f = rand_simple(&mut r, seed, bits, 4);
            h.case(|| format!("global {g} config {cfg} range {:?} weights {:?} features {}", range, blocks, show(&view(&f))), || {
                let w0 = workspace(conf(g.clone(), json!({"typename": "Coin", "config": cfg})))?;
                let mut fields = vec![];
                if let Some((a, b)) = range { fields.push(("min_label", json!(a as f64))); fields.push(("max_label", json!(b as f64))); }
                let w = with_coin(&w0, &blocks, &fields)?;
                let before = state(&w)?;
                let (lo, hi) = range.unwrap_or(if logloss { (-50.0, 50.0) } else { (0.0, 0.0) });
                let (p2, t3) = compile_interactions(&serde_json::from_value::<Vec<_>>(interactions(ik)).unwrap(), seed);
                let ts = terms(&view(&f), &p2, &t3, bits, constant);
                let wt = |i: &u32| blocks.get(i).map(|b| b[0]).unwrap_or(0.0);
                let sum: f64 = ts.iter().map(|(i, x)| *x as f64 * wt(i) as f64).sum();
                let mag: f64 = ts.iter().map(|(i, x)| (*x as f64 * wt(i) as f64).abs()).sum();
                let mut s32 = 0f32; for (i, x) in &ts { s32 += x * wt(i); }
                let mut ff = Features::SparseSimple(f.clone());
                let (p, raw) = scalar(&w.predict(&mut ff))?;
                ensure!(!p.is_nan() && !raw.is_nan(), "NaN prediction: {p} {raw}");
                if mag < 1e30 { ensure!((raw as f64 - sum).abs() <= 1e-5 * mag + 1e-30, "raw prediction {raw}, the weighted sum is {sum}"); }
                else if s32.is_nan() { ensure!(raw == 0.0, "raw prediction {raw} where the sum is not a number"); }
                // terms of one sign overflow in whatever order they are added
                else if s32.is_infinite() && (ts.iter().all(|(i, x)| x * wt(i) >= 0.0) || ts.iter().all(|(i, x)| x * wt(i) <= 0.0)) { ensure!(raw == s32, "raw prediction {raw} where the sum is {s32}"); }
                let c = raw.clamp(lo, hi) as f64;
                let want = if link { 1.0 / (1.0 + (-c).exp()) } else { c };
                ensure!(close(p as f64, want, 1e-6), "prediction {p}, link(clamp({raw}, {lo}, {hi})) is {want}");
                if link { ensure!((0.0..=1.0).contains(&p), "prediction {p} outside [0,1]"); } else { ensure!(p >= lo && p <= hi, "prediction {p} outside the seen labels [{lo},{hi}]"); }
                let mut fb = f.clone();
                let again = scalar(&w.predict(&mut Features::SparseSimpleRef(&mut fb)))?;
                ensure!(again == (p, raw), "predicting again gives {:?}", again);
                ensure!(state(&w)? == before, "prediction changed the model");
                Ok(ts.iter().any(|(i, x)| wt(i) * x != 0.0))
            });
        }
        h.group("history", "the clamp range after any label history is the range of labels seen together with 0 (squared) or with -50 and 50 (logistic); learn and predict-then-learn; non-trivial: at least 2 labels");
        let mut r = h.rng();
        for _ in 0..h.n(300, 5000) {
            let logloss = r.bool();
            let n = 1 + r.below(6);
            let steps: Vec<(_, f32, f32, bool)> = (0..n).map(|_| (rand_simple(&mut r, 0, 3, 3), r.dyadic() * if r.chance(1, 5) { 20.0 } else { 1.0 }, [1.0f32, 1.0, 0.5, 0.0][r.below(4)], r.bool())).collect();
            let cfg = if logloss { json!({"lossFunction": {"Logistic": {}}}) } else { json!({}) };
            h.case(|| format!("config {cfg} labels and weights {:?}", steps.iter().map(|s| (s.1, s.2)).collect::<Vec<_>>()), || {
                let mut w = workspace(conf(global(3, 0, true, 1), json!({"typename": "Coin", "config": cfg})))?;
                let (mut lo, mut hi) = if logloss { (-50.0f32, 50.0f32) } else { (0.0, 0.0) };
                for (f, l, wt, both) in &steps {
                    let mut ff = Features::SparseSimple(f.clone());
                    if *both {
                        let p = scalar(&w.predict_then_learn(&mut ff, &simple(*l, *wt)))?;
                        ensure!(p.0 >= lo && p.0 <= hi, "prediction {} before learning outside [{lo},{hi}]", p.0);
                    } else { w.learn(&mut ff, &simple(*l, *wt)); }
                    lo = lo.min(*l); hi = hi.max(*l);
                    let got = (coin_field(&w, "min_label")?.as_f64().unwrap() as f32, coin_field(&w, "max_label")?.as_f64().unwrap() as f32);
                    ensure!(got == (lo, hi), "range {:?} after label {l}, expected {:?}", got, (lo, hi));
                    let p = scalar(&w.predict(&mut ff))?;
                    ensure!(p.0 == p.1.clamp(lo, hi) && !p.0.is_nan(), "prediction {:?} is not the raw prediction clamped to [{lo},{hi}]", p);
                }
                Ok(n >= 2)
            });
        }
    });
}
