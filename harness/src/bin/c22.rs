//! C22: learning touches only the addressed blocks
use harness::*;
use harness::feats::*;
use harness::obs::*;
use harness::stacks::*;
use reductionml_core::interactions::compile_interactions;
use reductionml_core::types::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

fn main() {
    run("C22", |h| {
        h.group("learn", "one learn or predict-then-learn from a model with random non-zero contents everywhere; every block not addressed by a term of the example is unchanged bit for bit, weight 0 moves no gradient sums; all interaction settings; non-trivial: some block is addressed and some is not");
        let mut r = h.rng();
        for k in 0..h.n(2500, 40000) {
            let bits = 3 + r.below(4) as u8;
            let (constant, ik) = (r.bool(), r.below(4));
            let seed = if r.bool() { 0 } else { 99 };
            let g = global(bits, seed, constant, ik);
            let blocks: BTreeMap<u32, Vec<f32>> = (0..1u32 << bits).map(|i| (i, vec![r.dyadic() + 0.1, r.dyadic(), r.dyadic().abs(), r.unit() as f32, r.unit() as f32, r.unit() as f32 * 2.0])).collect();
            let f = rand_simple(&mut r, seed, bits, 3);
            let (label, weight, both) = (r.dyadic(), if k % 3 == 0 { 0.0 } else { 1.5f32 }, r.bool());
            h.case(|| format!("global {g} blocks {:?} label {label} weight {weight} predict-then-learn {both} features {}", blocks, show(&view(&f))), || {
                let w0 = workspace(conf(g.clone(), json!({"typename": "Coin"})))?;
                let mut w = with_coin(&w0, &blocks, &[("model_states", json!([{"normalized_sum_norm_x": 3.0, "total_weight": 4.0}]))])?;
                let (p2, t3) = compile_interactions(&serde_json::from_value::<Vec<_>>(interactions(ik)).unwrap(), seed);
                let ts: BTreeSet<u32> = terms(&view(&f), &p2, &t3, bits, constant).iter().map(|t| t.0).collect();
                let mut ff = Features::SparseSimple(f.clone());
                if both { w.predict_then_learn(&mut ff, &simple(label, weight)); } else { w.learn(&mut ff, &simple(label, weight)); }
                let after = coin_state(&w)?;
                for (i, b) in &blocks {
                    let nb = after.get(i).cloned().unwrap_or(vec![0.0; 6]);
                    let same = |s: usize| nb[s].to_bits() == b[s].to_bits() || nb[s] == b[s];
                    if !ts.contains(i) { ensure!((0..6).all(same), "block {i} is not addressed by the example but changed from {:?} to {:?}", b, nb); }
                    else if weight == 0.0 { ensure!(same(1) && same(2), "gradient sums of block {i} moved from {:?} to {:?} at weight 0", b, nb); }
                }
                ensure!(after.keys().all(|i| blocks.contains_key(i)), "new blocks appeared");
                Ok(!ts.is_empty() && ts.len() < blocks.len())
            });
        }
        h.group("stacks", "learning through every stack: blocks outside the union of the terms the base regressor is given do not change; checked by an observer in the same stack; non-trivial: some call reached the base");
        let mut r = h.rng();
        let all = stacks();
        for _ in 0..h.n(3, 30) { for (name, entry, kind) in &all {
            let (bits, ik) = (5u8, r.below(4));
            let ex = rand_example(&mut r, *kind, 0, bits, 3);
            let pre: Vec<_> = (0..2).map(|_| rand_example(&mut r, *kind, 0, bits, 2)).collect();
            let both = r.bool();
            h.case(|| format!("{name} interactions {ik} {} predict-then-learn {both}", desc(&ex.0, &ex.1)), || {
                let cfg = conf(global(bits, 0, true, ik), entry.clone());
                let mut w = workspace(cfg.clone())?;
                for (f, l) in &pre { w.learn(&mut f.clone(), l); }
                let before = coin_state(&w)?;
                // which features reach the base
                let mut o = observed(cfg, "CoinRegressor", 0)?;
                let _ = take_log();
                if both { o.predict_then_learn(&mut ex.0.clone(), &ex.1); } else { o.learn(&mut ex.0.clone(), &ex.1); }
                let calls = take_log();
                let (p2, t3) = compile_interactions(&serde_json::from_value::<Vec<_>>(interactions(ik)).unwrap(), 0);
                let mut ts = BTreeSet::new();
                for c in &calls { if c.kind != Kind::Predict { for v in &c.feats { ts.extend(terms(v, &p2, &t3, bits, true).iter().map(|t| t.0)); } } }
                if both { w.predict_then_learn(&mut ex.0.clone(), &ex.1); } else { w.learn(&mut ex.0.clone(), &ex.1); }
                let after = coin_state(&w)?;
                let z = vec![0f32; 6];
                for i in 0..1u32 << bits { if !ts.contains(&i) {
                    let (a, b) = (before.get(&i).unwrap_or(&z), after.get(&i).unwrap_or(&z));
                    ensure!(a == b, "block {i} is not addressed but changed from {:?} to {:?}", a, b);
                } }
                Ok(!calls.is_empty())
            });
        } }
    });
}
