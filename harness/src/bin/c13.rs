//! C13: weight table representations convert without loss
use harness::*;
use reductionml_core::dense_weights::{DenseWeights, DenseWeightsWithNDArray};
use reductionml_core::weights::Weights;

fn dump(w: &DenseWeights, n: u32, m: u8, _s: u8) -> Vec<Vec<u32>> {
    let mut v = vec![];
    for i in 0..n { for j in 0..m { v.push(w.state_at(i.into(), j.into()).iter().map(|x| if *x == 0.0 { 0 } else { x.to_bits() }).collect()); } }
    v
}
fn finite(v: &[(u32, u8, u8, f32)]) -> bool { v.iter().all(|x| x.3.is_finite()) }
fn main() {
    run("C13", |h| {
        h.group("roundtrip", "tables of 1..=9 (and 16, 33) features x 1..=7 models x 1..=9 slots with random sparse contents (including the last slot, subnormals, zeros, NaN and infinities) through: nested-array form; nested-array form as JSON; sparse form as JSON and as flexbuffers; compared slot by slot, and under further writes; non-trivial: some non-zero slot");
        let mut r = h.rng();
        let mut dims = vec![];
        for n in [1u32, 2, 3, 4, 5, 7, 8, 9, 16, 33] { for m in [1u8, 2, 3, 4, 5, 6, 7] { for s in [1u8, 2, 3, 4, 5, 6, 7, 8, 9] { dims.push((n, m, s)); } } }
        for rep in 0..h.n(3, 40) { for &(n, m, s) in &dims {
            let mut v: Vec<(u32, u8, u8, f32)> = (0..r.below(12)).map(|_| {
                let x = if r.chance(1, 12) { *r.pick(&[f32::MIN_POSITIVE / 8.0, -0.0, f32::MAX, f32::INFINITY, f32::NAN, 1e-30]) } else { r.dyadic() };
                (r.below(n as usize) as u32, r.below(m as usize) as u8, r.below(s as usize) as u8, x) }).collect();
            if rep == 1 { v.push((n - 1, m - 1, s - 1, 2.5)); }
            if rep == 2 { v = (0..n).flat_map(|i| (0..m).flat_map(move |j| (0..s).map(move |k| (i, j, k, (1 + i + 3 * j as u32 + 7 * k as u32) as f32)))).collect(); }
            let more: Vec<(u32, u8, u8, f32)> = (0..3).map(|_| (r.below(n as usize) as u32, r.below(m as usize) as u8, r.below(s as usize) as u8, r.dyadic())).collect();
            h.case(|| format!("{n} features x {m} models x {s} slots, contents {:?}", if rep == 2 { vec![] } else { v.clone() }), || {
                let mut w = DenseWeights::new(n.into(), m.into(), s.into()).map_err(|e| e.to_string())?;
                for (i, j, k, x) in &v { w.state_at_mut((*i).into(), (*j).into())[*k as usize] = *x; }
                let before = dump(&w, n, m, s);
                let mut outs: Vec<(&str, DenseWeights)> = vec![];
                outs.push(("nested arrays", DenseWeightsWithNDArray::from_dense_weights(w.clone()).to_dense_weights()));
                if finite(&v) {
                    let j = serde_json::to_string(&DenseWeightsWithNDArray::from_dense_weights(w.clone())).map_err(|e| e.to_string())?;
                    outs.push(("nested arrays as JSON", serde_json::from_str::<DenseWeightsWithNDArray>(&j).map_err(|e| e.to_string())?.to_dense_weights()));
                    let j = serde_json::to_string(&w).map_err(|e| e.to_string())?;
                    outs.push(("sparse JSON", serde_json::from_str(&j).map_err(|e| e.to_string())?));
                }
                outs.push(("sparse flexbuffers", flexbuffers::from_slice(&flexbuffers::to_vec(&w).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?));
                let sizes = |w: &DenseWeights| { let j = serde_json::to_value(w).unwrap(); (j["feature_index_size"].clone(), j["model_index_size"].clone(), j["feature_state_size"].clone(), j["model_index_size_shift"].clone(), j["feature_state_size_shift"].clone()) };
                for (k, o) in &mut outs {
                    ensure!(dump(o, n, m, s) == before, "{k}: contents differ after the round trip: {:?} instead of {:?}", dump(o, n, m, s), before);
                    if finite(&v) { ensure!(sizes(o) == sizes(&w), "{k}: sizes differ: {:?} instead of {:?}", sizes(o), sizes(&w)); ensure!(approx::AbsDiffEq::abs_diff_eq(o, &w, 0.0), "{k}: the tables compare different"); }
                    let mut w2 = w.clone();
                    for (i, j, q, x) in &more { o.state_at_mut((*i).into(), (*j).into())[*q as usize] = *x; w2.state_at_mut((*i).into(), (*j).into())[*q as usize] = *x; }
                    ensure!(dump(o, n, m, s) == dump(&w2, n, m, s), "{k}: contents differ after further writes");
                }
                ensure!(dump(&w, n, m, s) == before, "converting changed the original");
                Ok(v.iter().any(|x| x.3 != 0.0))
            });
        } }
    });
}
