use harness::feats::*;
use harness::obs::*;
use harness::stacks::*;
use harness::*;
use reductionml_core::object_pool::Pool;
use reductionml_core::parsers::*;
use reductionml_core::sparse_namespaced_features::{constant_feature_index, Namespace};
use reductionml_core::weights::*;
use reductionml_core::*;
use serde_json::json;
use std::cell::RefCell;
use std::sync::Arc;

struct Rec(RefCell<Vec<u32>>, Vec<f32>);
impl Weights for Rec {
    fn weight_at(&self, f: FeatureIndex, _m: ModelIndex) -> f32 { self.0.borrow_mut().push(u32::from(f)); 0.0 }
    fn weight_at_mut(&mut self, f: FeatureIndex, _m: ModelIndex) -> &mut f32 { self.0.borrow_mut().push(u32::from(f)); &mut self.1[0] }
    fn state_at(&self, f: FeatureIndex, _m: ModelIndex) -> &[f32] { self.0.borrow_mut().push(u32::from(f)); &self.1 }
    fn state_at_mut(&mut self, f: FeatureIndex, _m: ModelIndex) -> &mut [f32] { self.0.borrow_mut().push(u32::from(f)); &mut self.1 }
}

fn check(v: &[View], bits: u8, what: &str) -> Result<bool, String> {
    let mut any = false;
    for m in v { for fs in m.values() { for (i, _) in fs { any = true;
        ensure!((*i as u64) < (1u64 << bits), "{what}: index {i} is not below 2^{bits}"); } } }
    Ok(any)
}

fn main() {
    run("C02", |h| {
        h.group("mask", "every width 0..=31 with boundary and random hashes; non-trivial when the mask removes bits");
        let mut r = h.rng();
        let mut hs = vec![0u32, 1, 2, 3, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 0xAAAAAAAA, 0x55555555];
        for b in 0..32 { hs.push(1u32 << b); hs.push((1u32 << b).wrapping_sub(1)); }
        for _ in 0..h.n(200, 5000) { hs.push(r.next() as u32); }
        for bits in 0..32u8 {
            h.case(|| format!("bits={bits}"), || {
                let m = FeatureMask::from_num_bits(bits);
                for &x in &hs {
                    let want = (x as u64 % (1u64 << bits)) as u32;
                    let a = u32::from(m.mask(FeatureHash::from(x)));
                    let b = u32::from(FeatureHash::from(x).mask(m));
                    ensure!(a == want && b == want, "hash {x} masked to {bits} bits is {a}/{b}, not {want}");
                }
                let c = u32::from(constant_feature_index(bits)) as u64;
                ensure!(c < (1u64 << bits), "constant feature index {c} is not below 2^{bits}");
                Ok(bits < 31)
            });
        }
        h.group("interactions", "random examples and interactions; every index handed to the weights by all three visitors is recorded; non-trivial with at least one interaction term");
        let mut r = h.rng();
        for _ in 0..h.n(400, 8000) {
            let top = if r.bool() { 8 } else { 31 }; let bits = 1 + r.below(top) as u8;
            let pool: Vec<Namespace> = (0..4).map(ns).collect();
            let f = random_feats(&mut r, &pool, 3, ((1u64 << bits).min(u32::MAX as u64)) as u32);
            let p: Vec<_> = (0..r.below(4)).map(|_| (*r.pick(&pool), *r.pick(&pool))).collect();
            let t: Vec<_> = (0..r.below(3)).map(|_| (*r.pick(&pool), *r.pick(&pool), *r.pick(&pool))).collect();
            h.case(|| format!("bits={bits} {:?} pairs={:?} triples={:?}", f, p, t), || {
                let sf = build(&f);
                let lin: usize = f.iter().map(|x| x.1.len()).sum();
                let mut w = Rec(RefCell::new(vec![]), vec![0.0; 6]);
                foreach_feature(0.into(), &sf, &w, &p, &t, bits, true, |_, _| {});
                foreach_feature_with_state(0.into(), &sf, &w, &p, &t, bits, true, |_, _| {});
                foreach_feature_with_state_mut(0.into(), &sf, &mut w, &p, &t, bits, true, |_, _| {});
                for i in w.0.borrow().iter() { ensure!((*i as u64) < 1u64 << bits, "index {i} reached the weights, feature space 2^{bits}"); }
                for (a, b) in &p { if let Some(it) = sf.quadratic_features(*a, *b, bits) { for (i, _) in it { ensure!((u32::from(i) as u64) < 1u64 << bits, "quadratic feature index {:?}", i); } } }
                for (a, b, c) in &t { if let Some(it) = sf.cubic_features(*a, *b, *c, bits) { for (i, _) in it { ensure!((u32::from(i) as u64) < 1u64 << bits, "cubic feature index {:?}", i); } } }
                let n = w.0.borrow().len();
                Ok(n > 3 * lin + 3)
            });
        }
        h.group("elementwise", "random examples through the element-wise interaction; the child's indices are observed; non-trivial when the child sees features");
        let mut r = h.rng();
        for k in 0..h.n(300, 4000) {
            let bits = 1 + r.below(if k % 2 == 0 { 6 } else { 18 }) as u8;
            let seed = r.next() as u32;
            let names = ["a", "b", "c", "d", "ns1", "zz"];
            let (x, y) = (*r.pick(&names), *r.pick(&names));
            let keep = r.bool();
            let mut fs = vec![];
            for nm in ["a", "b", "c", "d", "ns1", "zz"] {
                let n = named(nm, seed);
                let base = u32::from(n.hash());
                let mut o = r.below(3) as u32;
                let mut l = vec![];
                for _ in 0..r.below(6) { l.push((base.wrapping_add(o) & ((1u32 << bits) - 1), r.dyadic())); o += 1 + r.below(2) as u32; }
                fs.push((n, l));
            }
            h.case(|| format!("bits={bits} seed={seed} one={x} two={y} keep={keep} {:?}", fs), || {
                let mut w = observed(conf(json!({"numBits": bits, "hashSeed": seed}),
                    json!({"typename": "ElementwiseInteraction", "config": {"one": {"Name": x}, "two": {"Name": y}, "keepOriginalFeatures": keep}})), "CoinRegressor", 0)?;
                take_log();
                let mut f = Features::SparseSimple(build(&fs));
                w.predict(&mut f); w.learn(&mut f, &simple(1.0, 1.0)); w.predict_then_learn(&mut f, &simple(1.0, 1.0));
                let mut any = false;
                let l = take_log();
                ensure!(l.len() == 3, "the child was called {} times", l.len());
                for c in l { any |= check(&c.feats, bits, "child of the element-wise interaction")?; }
                Ok(any)
            });
        }
        h.group("parsers", "examples in every text format at every feature-space size; non-trivial when features are produced");
        let mut r = h.rng();
        for k in 0..h.n(400, 5000) {
            let bits = (k % 31 + 1) as u8;
            let seed = if r.bool() { 0 } else { r.next() as u32 };
            let ex = gen::example(&mut r, true);
            let (vw, js, ds) = (gen::vw_cb(&ex), gen::json_cb(&ex), gen::dsjson(&ex));
            h.case(|| format!("bits={bits} seed={seed} vw={vw:?} json={js} dsjson={ds}"), || {
                let mut any = false;
                let p = Arc::new(Pool::new());
                let a = VwTextParserFactory.create(FeaturesType::SparseCBAdf, LabelType::CB, seed, bits, p.clone());
                let b = JsonParserFactory.create(FeaturesType::SparseCBAdf, LabelType::CB, seed, bits, p.clone());
                let c = DsJsonParserFactory.create(FeaturesType::SparseCBAdf, LabelType::CB, seed, bits, p);
                any |= check(&fview(&a.parse_chunk(&vw).map_err(|e| e.to_string())?.0), bits, "vw text")?;
                any |= check(&fview(&b.parse_chunk(&js).map_err(|e| e.to_string())?.0), bits, "json")?;
                any |= check(&fview(&c.parse_chunk(&ds).map_err(|e| e.to_string())?.0), bits, "dsjson")?;
                Ok(any)
            });
        }
    });
}
