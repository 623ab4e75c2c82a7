//! C18: the element-wise interaction
use harness::*;
use harness::feats::*;
use harness::obs::*;
use harness::stacks::named;
use reductionml_core::sparse_namespaced_features::Namespace;
use reductionml_core::types::*;
use serde_json::json;
use std::collections::BTreeMap;

fn main() {
    run("C18", |h| {
        h.group("child", "what the child sees, for predict, learn and predict-then-learn, against the join of the two offset maps; namespaces absent, empty, equal, default, bases near the end of the feature space, both keep settings; non-trivial: at least one matching and one unmatched position");
        let mut r = h.rng();
        for k in 0..h.n(4000, 60000) {
            let bits = [2u8, 3, 4, 6, 10, 18][r.below(if k % 10 == 0 { 6 } else { 5 })];
            let seed = [0u32, 1, 77, 4242][r.below(4)];
            let mask = ((1u64 << bits) - 1) as u32;
            let names = [json!({"Name": "a"}), json!({"Name": "b"}), json!({"Name": "zz"}), json!("Default")];
            let nsv = [named("a", seed), named("b", seed), named("zz", seed), Namespace::Default];
            let (i1, i2) = (r.below(4), r.below(4));
            let keep = r.bool();
            let mut feats = vec![];
            for n in [nsv[0], nsv[1], nsv[2], nsv[3], named("other", seed)] {
                if r.chance(5, 6) {
                    let base = u32::from(n.hash());
                    let mut off = r.below(3) as u32;
                    let mut fs = vec![];
                    for _ in 0..r.below(5) { if off > mask { break; } fs.push((base.wrapping_add(off) & mask, r.dyadic())); off += 1 + r.below(3) as u32; }
                    feats.push((n, fs));
                }
            }
            // an example may already have a namespace of the composite's hash: it is put aside
            if r.chance(1, 5) { let c = u32::from(nsv[i1].hash()).wrapping_mul(u32::from(nsv[i2].hash())); feats.push((Namespace::RawHash(c.into()), (0..r.below(3)).map(|_| (r.below(4) as u32, r.dyadic())).collect())); }
            let f = build(&feats);
            let mode = r.below(3);
            let borrowed = r.bool();
            let cfg = json!({"typename": "ElementwiseInteraction", "config": {"one": names[i1], "two": names[i2], "keepOriginalFeatures": keep, "regressor": {"typename": "Coin"}}});
            h.case(|| format!("bits {bits} seed {seed} {cfg} mode {mode} borrowed {borrowed} {}", show(&view(&f))), || {
                let (n1, n2) = (nsv[i1], nsv[i2]);
                let mut w = observed(conf(json!({"numBits": bits, "hashSeed": seed}), cfg.clone()), "CoinRegressor", 0)?;
                set_scalars(&[(0.25, -7.5)]);
                let _ = take_log();
                let before = view(&f);
                let mut own = f.clone();
                let mut ff = if borrowed { Features::SparseSimpleRef(&mut own) } else { Features::SparseSimple(f.clone()) };
                let label = simple(3.5, 0.75);
                let p = match mode { 0 => Some(w.predict(&mut ff)), 1 => Some(w.predict_then_learn(&mut ff, &label)), _ => { w.learn(&mut ff, &label); None } };
                set_scalars(&[]);
                if let Some(p) = p { ensure!(scalar(&p)? == (0.25, -7.5), "the child's prediction is not passed through: {:?}", p); }
                ensure!(fview(&ff)[0] == before, "the example changed");
                let log = take_log();
                ensure!(log.len() == 1, "the child was called {} times", log.len());
                let c = &log[0];
                ensure!(c.kind == [Kind::Predict, Kind::PredictThenLearn, Kind::Learn][mode], "wrong call {:?}", c.kind);
                if mode > 0 { ensure!(lab_eq(&c.label, &Some(label)), "the child's label is {:?}", c.label); }
                // oracle
                let comp = u32::from(n1.hash()).wrapping_mul(u32::from(n2.hash()));
                let cns = Namespace::RawHash(comp.into());
                let offs = |n: &Namespace| -> BTreeMap<u32, f32> { let b = u32::from(n.hash()) & mask; before.get(n).map(|v| v.iter().map(|(i, x)| (i.wrapping_sub(b) & mask, f32::from_bits(*x))).collect()).unwrap_or_default() };
                let (o1, o2) = (offs(&n1), offs(&n2));
                let want: BTreeMap<u32, u32> = o1.iter().filter_map(|(o, x)| o2.get(o).map(|y| ((comp & mask).wrapping_add(*o) & mask, (x * y).to_bits()))).collect();
                let got: Vec<(u32, u32)> = c.feats[0].get(&cns).cloned().unwrap_or_default();
                let gotm: BTreeMap<u32, u32> = got.iter().cloned().collect();
                ensure!(gotm.len() == got.len() && gotm == want, "the composite namespace holds {:?}, expected {:?}", got.iter().map(|(i, x)| (i, f32::from_bits(*x))).collect::<Vec<_>>(), want.iter().map(|(i, x)| (i, f32::from_bits(*x))).collect::<Vec<_>>());
                let mut rest = c.feats[0].clone();
                rest.remove(&cns);
                let mut exp = before.clone();
                exp.remove(&cns);
                if !keep { exp.remove(&n1); exp.remove(&n2); }
                ensure!(rest == exp, "the child sees {}, expected {}", show(&rest), show(&exp));
                Ok(!want.is_empty() && (o1.len() > want.len() || o2.len() > want.len()))
            });
        }
    });
}
