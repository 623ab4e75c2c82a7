//! C28: a saved model resumes where it left off
use harness::feats::*;
use harness::*;
use reductionml_core::types::*;
use harness::obs::*;
use harness::stacks::*;
use reductionml_core::workspace::Workspace;
use serde_json::json;

fn main() {
    run("C28", |h| {
        h.group("resume", "every shipped stack, random training history, saved and loaded as binary model and as JSON (text) at a random point: identical configuration, predictions, and model state under further random learning; non-trivial: trained before and after");
        let mut r = h.rng();
        let all = stacks();
        for _ in 0..h.n(4, 60) { for (name, entry, kind) in &all {
            let (bits, ik, seed, c) = ([5u8, 3, 6][r.below(3)], r.below(4), if r.bool() { 0 } else { 5 }, r.bool());
            let exs: Vec<_> = (0..2 + r.below(7)).map(|_| (rand_example(&mut r, *kind, seed, bits, 3), r.bool())).collect();
            let at = r.below(exs.len());
            h.case(|| format!("{name} bits {bits} interactions {ik} seed {seed} constant {c} saved at {at}: {:?}", exs.iter().map(|((f, l), b)| format!("{} {}", desc(f, l), b)).collect::<Vec<_>>()), || {
                let mut a = workspace(conf(global(bits, seed, c, ik), entry.clone()))?;
                for ((f, l), b) in &exs[..at] { if *b { a.predict_then_learn(&mut f.clone(), l); } else { a.learn(&mut f.clone(), l); } }
                let st = state(&a)?;
                let bin = Workspace::create_from_model(&a.serialize_model().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                let js = Workspace::deserialize_from_json(&serde_json::from_str(&a.serialize_to_json().map_err(|e| e.to_string())?.to_string()).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                ensure!(state(&a)? == st, "saving changed the model");
                let mut ms = [("binary", bin), ("json", js)];
                for (k, m) in &ms {
                    ensure!(state(m)? == st, "{k}: the loaded model's state differs");
                    ensure!(format!("{:?}", m.global_config()) == format!("{:?}", a.global_config()), "{k}: global configuration differs");
                    ensure!(m.get_entry_reduction().typename() == a.get_entry_reduction().typename(), "{k}: reduction type differs");
                }
                for (i, ((f, l), b)) in exs.iter().enumerate() {
                    let p = format!("{:?}", a.predict(&mut f.clone()));
                    let q = if *b { format!("{:?}", a.predict_then_learn(&mut f.clone(), l)) } else { a.learn(&mut f.clone(), l); String::new() };
                    let s = state(&a)?;
                    for (k, m) in ms.iter_mut() {
                        let p2 = format!("{:?}", m.predict(&mut f.clone()));
                        let q2 = if *b { format!("{:?}", m.predict_then_learn(&mut f.clone(), l)) } else { m.learn(&mut f.clone(), l); String::new() };
                        ensure!(p == p2 && q == q2, "{k}: prediction {p2} {q2} at step {i} after loading, the original gives {p} {q}");
                        ensure!(state(m)? == s, "{k}: the models differ after step {i}");
                    }
                }
                Ok(at > 0)
            });
        } }
        h.group("weightless", "training histories whose examples have importance weight zero or nearly so, the first one included, saved and loaded as binary model and as JSON: same state; non-trivial: all");
        let mut r = h.rng();
        for _ in 0..h.n(60, 600) {
            let n = 1 + r.below(4);
            let exs: Vec<_> = (0..n).map(|i| (rand_simple(&mut r, 0, 4, 3), r.dyadic(), if i == 0 { [0.0f32, 1e-45, 1e-30][r.below(3)] } else { [0.0f32, 1e-45, 1e-30, 0.001, 1.0][r.below(5)] })).collect();
            h.case(|| format!("{:?}", exs.iter().map(|(f, l, w)| format!("{} label {l} weight {w}", show(&view(f)))).collect::<Vec<_>>()), || {
                let mut w = workspace(conf(global(4, 0, true, 1), json!({"typename": "Coin"})))?;
                for (f, l, wt) in &exs {
                    w.learn(&mut Features::SparseSimple(f.clone()), &simple(*l, *wt));
                    let st = state(&w)?;
                    let b = Workspace::create_from_model(&w.serialize_model().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                    let j = Workspace::deserialize_from_json(&serde_json::from_str(&w.serialize_to_json().map_err(|e| e.to_string())?.to_string()).map_err(|e| e.to_string())?).map_err(|e| format!("JSON model does not load: {e}"))?;
                    ensure!(state(&b)? == st && state(&j)? == st, "the loaded model's state differs");
                }
                Ok(true)
            });
        }
        h.group("sizes", "larger tables and the default number of bits keep every weight, including the last slots; non-trivial: all");
        for bits in [1u8, 10, 14] {
            h.case(|| format!("numBits {bits}"), || {
                let w = workspace(conf(json!({"numBits": bits}), json!({"typename": "Coin"})))?;
                let n = 1u32 << bits;
                let blocks: std::collections::BTreeMap<u32, Vec<f32>> = (0..n).filter(|i| i % 3 == 0 || *i == n - 1).map(|i| (i, (0..6).map(|s| (i * 7 + s) as f32 / 8.0 - 3.0).collect())).collect();
                let w = with_coin(&w, &blocks, &[])?;
                let b = Workspace::create_from_model(&w.serialize_model().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                ensure!(coin_state(&b)? == blocks && coin_state(&w)? == blocks, "weights lost");
                Ok(true)
            });
        }
    });
}
