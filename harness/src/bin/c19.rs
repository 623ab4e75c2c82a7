//! C19: binary classification
use harness::*;
use harness::obs::*;
use harness::stacks::*;
use reductionml_core::types::*;
use serde_json::json;

fn main() {
    run("C19", |h| {
        h.group("observer", "scripted regressor predictions (positive, negative, zeros, subnormal, infinite, NaN; raw different from prediction) and both labels on every path, with and without Debug above; non-trivial: all");
        let mut r = h.rng();
        let ps = [1.0f32, -1.0, 0.0, -0.0, f32::MIN_POSITIVE / 4.0, -f32::MIN_POSITIVE / 4.0, 0.4, 0.5, 0.6, -0.5, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-30, 3e38];
        for rep in 0..h.n(2, 30) { for p in ps { for raw in [p, -p, 1.0, -1.0, 0.0] { for lab in [true, false] { for mode in 0..3 {
            let dbg = rep % 2 == 1;
            let f = rand_simple(&mut r, 0, 6, 3);
            let p = if rep > 1 { p * (0.5 + r.unit() as f32) } else { p };
            h.case(|| format!("prediction {p} raw {raw} label {lab} mode {mode} debug {dbg} {}", harness::feats::show(&harness::feats::view(&f))), || {
                let b = json!({"typename": "Binary", "config": {"regressor": {"typename": "Coin"}}});
                let e = if dbg { json!({"typename": "Debug", "config": {"id": "x", "next": b}}) } else { b };
                let mut w = observed(conf(json!({"numBits": 3}), e), "CoinRegressor", 0)?;
                set_scalars(&[(p, raw)]);
                let _ = take_log();
                let mut ff = Features::SparseSimple(f.clone());
                let l = Label::Binary(BinaryLabel(lab));
                let out = match mode { 0 => Some(w.predict(&mut ff)), 1 => Some(w.predict_then_learn(&mut ff, &l)), _ => { w.learn(&mut ff, &l); None } };
                set_scalars(&[]);
                if let Some(o) = out { match o { Prediction::Binary(BinaryPrediction(x)) => ensure!(x == (p > 0.0), "predicts {x} for a regressor prediction of {p}"), x => return Err(format!("not a binary prediction: {:?}", x)) } }
                let log = take_log();
                ensure!(log.len() == 1 && log[0].kind == [Kind::Predict, Kind::PredictThenLearn, Kind::Learn][mode], "unexpected calls {:?}", log);
                ensure!(log[0].feats == harness::feats::fview(&ff), "the regressor saw other features");
                if mode > 0 { match &log[0].label { Some(Label::Simple(s)) => ensure!(s.value() == if lab { 1.0 } else { -1.0 } && s.weight() == 1.0, "target {:?}", s), x => return Err(format!("target {:?}", x)) } }
                Ok(true)
            });
        } } } } }
        h.group("real", "binary over the real regressor: predicts true exactly when the base regressor trained on +1/-1 predicts above 0; non-trivial: both classes seen");
        let mut r = h.rng();
        for _ in 0..h.n(300, 4000) {
            let exs: Vec<_> = (0..2 + r.below(6)).map(|_| (rand_simple(&mut r, 0, 4, 3), r.bool(), r.bool())).collect();
            h.case(|| format!("{:?}", exs.iter().map(|(f, l, b)| format!("{} {l} {b}", harness::feats::show(&harness::feats::view(f)))).collect::<Vec<_>>()), || {
                let mut b = workspace(conf(json!({"numBits": 4}), json!({"typename": "Binary", "config": {"regressor": {"typename": "Coin"}}})))?;
                let mut c = workspace(conf(json!({"numBits": 4}), json!({"typename": "Coin"})))?;
                for (f, l, both) in &exs {
                    let mut ff = Features::SparseSimple(f.clone());
                    let pc = scalar(&c.predict(&mut ff))?.0;
                    let bl = Label::Binary(BinaryLabel(*l));
                    let pb = if *both { b.predict_then_learn(&mut ff, &bl) } else { let p = b.predict(&mut ff); b.learn(&mut ff, &bl); p };
                    c.learn(&mut ff, &simple(if *l { 1.0 } else { -1.0 }, 1.0));
                    ensure!(format!("{:?}", pb) == format!("{:?}", Prediction::Binary(BinaryPrediction(pc > 0.0))), "predicts {:?} for {pc}", pb);
                }
                ensure!(coin_state(&b)? == coin_state(&c)?, "the regressor differs from one trained on +1/-1");
                Ok(exs.iter().any(|e| e.1) && exs.iter().any(|e| !e.1))
            });
        }
    });
}
