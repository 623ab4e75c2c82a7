//! C25: one learning step against the recurrences, in f64
use harness::*;
use harness::feats::*;
use harness::obs::*;
use harness::stacks::*;
use reductionml_core::interactions::compile_interactions;
use reductionml_core::types::*;
use serde_json::json;
use std::collections::BTreeMap;

fn main() {
    run("C25", |h| {
        h.group("step", "one learn call from a random regressor state (fresh, or with random parameters, sums, scales, wealth and bounds) against the COCOB recurrences evaluated in f64 over the reference term list: all six slots of every block, label range and normaliser; sums, scales and bounds never decrease; non-trivial: the update is non-zero and some term is visited");
        let mut r = h.rng();
        for k in 0..h.n(4000, 60000) {
            let bits = 2 + r.below(4) as u8;
            let (constant, ik) = (r.bool(), r.below(4));
            let (alpha, beta) = if k % 3 == 0 { (4.0f32, 1.0f32) } else { ([10.0f32, 1.0, 4.0][r.below(3)], [0.5f32, 1.0, 2.0][r.below(3)]) };
            let g = global(bits, 0, constant, ik);
            let mut blocks = BTreeMap::new();
            if k % 4 != 0 { for i in 0..1u32 << bits { if r.chance(3, 4) {
                blocks.insert(i, vec![r.dyadic(), r.dyadic(), r.dyadic().abs(), [0.0f32, 0.5, 1.0, 2.0, 4.0][r.below(5)], [0.0f32, 1.0, 0.5, -1.0][r.below(4)], [0.0f32, 0.5, 1.0, 3.0, 8.0][r.below(5)]]);
            } } }
            let (nsn, tw) = if k % 4 != 0 { (if r.chance(1, 6) { 0.0 } else { r.below(50) as f32 / 2.0 }, 1.0 + r.below(20) as f32) } else { (0.0, 0.0) };
            let (lo, hi) = if k % 4 != 0 { (-(r.dyadic().abs()), r.dyadic().abs()) } else { (0.0, 0.0) };
            let label = r.dyadic();
            let weight = [1.0f32, 0.5, 2.0, 1.0, 0.25, 0.0, 0.001][r.below(7)];
            let mut f = rand_simple(&mut r, 0, bits, 3);
            if r.chance(1, 10) { let v: Vec<_> = view(&f).iter().map(|(n, fs)| (*n, fs.iter().map(|q| (q.0, 0.0f32)).collect::<Vec<_>>())).collect(); f = build(&v); }
            h.case(|| format!("global {g} alpha {alpha} beta {beta} blocks {:?} normaliser {nsn}/{tw} range [{lo},{hi}] label {label} weight {weight} features {}", blocks, show(&view(&f))), || {
                let w0 = workspace(conf(g.clone(), json!({"typename": "Coin", "config": {"alpha": alpha as f64, "beta": beta as f64}})))?;
                let fields = [("min_label", json!(lo as f64)), ("max_label", json!(hi as f64)), ("model_states", json!([{"normalized_sum_norm_x": nsn as f64, "total_weight": tw as f64}]))];
                // a fresh regressor is taken as the crate makes it
                let mut w = if k % 4 != 0 { with_coin(&w0, &blocks, &fields)? } else { w0 };
                let (p2, t3) = compile_interactions(&serde_json::from_value::<Vec<_>>(interactions(ik)).unwrap(), 0);
                let ts = terms(&view(&f), &p2, &t3, bits, constant);
                let mut ff = Features::SparseSimple(f.clone());
                w.learn(&mut ff, &simple(label, weight));
                // recurrences
                let mut st: BTreeMap<u32, [f64; 6]> = blocks.iter().map(|(i, b)| (*i, [b[0] as f64, b[1] as f64, b[2] as f64, b[3] as f64, b[4] as f64, b[5] as f64])).collect();
                let (a, b) = (alpha as f64, beta as f64);
                let (lo2, hi2) = (lo.min(label) as f64, hi.max(label) as f64);
                let bet = |s: &[f64; 6], mx: f64| if s[5] * mx > 0.0 { (a + s[4]) / (s[5] * mx * (s[5] * mx + s[2])) * s[1] } else { 0.0 };
                let (mut pred, mut mag, mut norm) = (0f64, 0f64, 0f64);
                for (i, x) in &ts {
                    let s = st.get(i).cloned().unwrap_or([0.0; 6]);
                    let x = *x as f64;
                    let mx = s[3].max(x.abs());
                    let t = bet(&s, mx) * x;
                    pred += t; mag += t.abs();
                    if mx > 0.0 { norm += (x / mx).powi(2); }
                }
                let n1 = nsn as f64 + norm * weight as f64;
                let t1 = tw as f64 + weight as f64;
                let avg = (n1 + 1e-6) / t1;
                // the 1e-6 is lost to rounding next to larger sums; with nothing else the result is sensitive but well defined
                let p = (pred / avg).clamp(lo2, hi2);
                let perr = 1e-5 * mag / avg;
                let up = 2.0 * (p - label as f64) * weight as f64;
                let uerr = 2.0 * weight as f64 * perr + 1e-6;
                let near = |u: f64, v: f64| (u - v).abs() <= 2.0 * uerr + 1e-5 * v.abs();
                let mut ambiguous = false;
                let mut cond: BTreeMap<u32, f64> = BTreeMap::new();
                for (i, x) in &ts {
                    let x = *x as f64;
                    let s = st.entry(*i).or_insert([0.0; 6]);
                    let gr = up * x;
                    if x.abs() > s[3] { s[3] = x.abs(); }
                    if near(up.abs(), s[5]) && (up.abs() - s[5]).abs() > 0.0 { ambiguous = true; }
                    if near(up.abs(), b) && up.abs() != b { ambiguous = true; }
                    if up.abs() > s[5] { s[5] = if up.abs() > b { up.abs() } else { b }; }
                    s[0] = bet(s, s[3]);
                    s[1] -= gr; s[2] += gr.abs(); s[4] -= gr * s[0];
                    let c = cond.entry(*i).or_insert(0.0);
                    *c += 1.0 + gr.abs() * (1.0 + s[0].abs()) + s[1].abs() + s[2] + s[4].abs() + s[0].abs() / avg;
                    s[0] /= avg;
                }
                let after = coin_state(&w)?;
                let zero = vec![0f32; 6];
                let old = |i: &u32| blocks.get(i).unwrap_or(&zero).clone();
                for i in 0..1u32 << bits {
                    let (o, nw) = (old(&i), after.get(&i).unwrap_or(&zero));
                    for s in [2, 3, 5] { ensure!(nw[s] >= o[s], "slot {s} of feature {i} decreased from {} to {}", o[s], nw[s]); }
                }
                if mag / avg > 1e4 || ambiguous { return Ok(false); }
                for (i, s) in &st {
                    let nw = after.get(i).unwrap_or(&zero);
                    let c = cond.get(i).cloned().unwrap_or(0.0);
                    for q in 0..6 {
                        let tol = 1e-4 * (c + s[q].abs()) * (1.0 + uerr * 1e3) + 3.0 * uerr * c;
                        ensure!((nw[q] as f64 - s[q]).abs() <= tol, "slot {q} of feature {i} is {} after the step, the recurrence gives {} (tolerance {tol})", nw[q], s[q]);
                    }
                }
                let ms = coin_field(&w, "model_states")?;
                let (n2, t2) = (ms[0]["normalized_sum_norm_x"].as_f64().unwrap(), ms[0]["total_weight"].as_f64().unwrap());
                ensure!(close(n2, n1, 1e-5) && close(t2, t1, 1e-6), "normaliser {n2}/{t2}, expected {n1}/{t1}");
                // JSON has no infinity
                let av = coin_field(&w, "average_squared_norm_x")?.as_f64().unwrap_or(f64::INFINITY);
                ensure!(close(av, avg, 1e-4), "average squared norm {av}, expected {avg}");
                Ok(up != 0.0 && !ts.is_empty())
            });
        }
        h.group("history", "random training histories: gradient sums, scales and bounds never decrease; non-trivial: at least 3 steps");
        let mut r = h.rng();
        for _ in 0..h.n(300, 4000) {
            let n = 1 + r.below(8);
            let steps: Vec<_> = (0..n).map(|_| (rand_simple(&mut r, 0, 4, 3), r.dyadic(), [1.0f32, 0.5, 0.0, 4.0][r.below(4)], r.bool())).collect();
            let ik = r.below(4);
            h.case(|| format!("interactions {ik} {:?}", steps.iter().map(|(f, l, w, b)| format!("{} label {l} weight {w} {b}", show(&view(f)))).collect::<Vec<_>>()), || {
                let mut w = workspace(conf(global(4, 0, true, ik), json!({"typename": "Coin"})))?;
                let mut old = coin_state(&w)?;
                for (f, l, wt, both) in &steps {
                    let mut ff = Features::SparseSimple(f.clone());
                    if *both { w.predict_then_learn(&mut ff, &simple(*l, *wt)); } else { w.learn(&mut ff, &simple(*l, *wt)); }
                    let new = coin_state(&w)?;
                    for (i, b) in &old { let nb = new.get(i).cloned().unwrap_or(vec![0.0; 6]); for s in [2, 3, 5] { ensure!(nb[s] >= b[s], "slot {s} of feature {i} decreased from {} to {}", b[s], nb[s]); } }
                    old = new;
                }
                Ok(n >= 3)
            });
        }
    });
}
