use harness::feats::*;
use harness::obs::*;
use harness::stacks::*;
use harness::*;
use reductionml_core::interactions::*;
use reductionml_core::sparse_namespaced_features::Namespace;
use reductionml_core::weights::*;
use reductionml_core::*;
use std::cell::RefCell;

struct Rec(RefCell<Vec<(u32, u8)>>, Vec<f32>);
impl Weights for Rec {
    fn weight_at(&self, f: FeatureIndex, m: ModelIndex) -> f32 { self.0.borrow_mut().push((u32::from(f), u8::from(m))); 0.0 }
    fn weight_at_mut(&mut self, f: FeatureIndex, m: ModelIndex) -> &mut f32 { self.0.borrow_mut().push((u32::from(f), u8::from(m))); &mut self.1[0] }
    fn state_at(&self, f: FeatureIndex, m: ModelIndex) -> &[f32] { self.0.borrow_mut().push((u32::from(f), u8::from(m))); &self.1 }
    fn state_at_mut(&mut self, f: FeatureIndex, m: ModelIndex) -> &mut [f32] { self.0.borrow_mut().push((u32::from(f), u8::from(m))); &mut self.1 }
}
type P = (Namespace, Namespace);
type T = (Namespace, Namespace, Namespace);

fn sorted(v: &[(u32, f32)]) -> Vec<(u32, u32)> { let mut s: Vec<_> = v.iter().map(|(i, x)| (*i, x.to_bits())).collect(); s.sort(); s }

fn compare(got: &[(u32, f32)], v: &View, p: &[P], t: &[T], bits: u8, constant: bool, what: &str) -> Result<(), String> {
    let want = terms(v, p, t, bits, constant);
    if sorted(got) != sorted(&want) { return Err(format!("{what} visited {:?}, expected (any order) {:?}", got, want)); }
    // section by section: linear, each interaction, constant
    let mut at = 0;
    let mut secs = vec![terms(v, &[], &[], bits, false).len()];
    for q in p { secs.push(terms(v, &[*q], &[], bits, false).len() - secs[0]); }
    for q in t { secs.push(terms(v, &[], &[*q], bits, false).len() - secs[0]); }
    if constant { secs.push(1); }
    for n in secs {
        if sorted(&got[at..at + n]) != sorted(&want[at..at + n]) { return Err(format!("{what}: section at {at} is {:?}, expected {:?}", &got[at..at + n], &want[at..at + n])); }
        at += n;
    }
    Ok(())
}

fn check(v: &[(Namespace, Vec<(u32, f32)>)], p: &[P], t: &[T], bits: u8, constant: bool, off: u8) -> Result<bool, String> {
    let f = build(v);
    let vw = view(&f);
    let mut w = Rec(RefCell::new(vec![]), vec![0.0; 6]);
    let mut vals = vec![];
    let collect = |w: &Rec, vals: &mut Vec<f32>| -> Result<Vec<(u32, f32)>, String> {
        let ix = std::mem::take(&mut *w.0.borrow_mut());
        let vs = std::mem::take(vals);
        ensure!(ix.len() == vs.len(), "{} weight accesses for {} terms", ix.len(), vs.len());
        for (_, m) in &ix { ensure!(*m == off, "model offset {m} used instead of {off}"); }
        Ok(ix.iter().zip(vs).map(|((i, _), x)| (*i, x)).collect())
    };
    foreach_feature(off.into(), &f, &w, p, t, bits, constant, |x, _| vals.push(x));
    let a = collect(&w, &mut vals)?;
    foreach_feature_with_state(off.into(), &f, &w, p, t, bits, constant, |x, s: &[f32]| { assert!(s.len() == 6); vals.push(x) });
    let b = collect(&w, &mut vals)?;
    foreach_feature_with_state_mut(off.into(), &f, &mut w, p, t, bits, constant, |x, s: &mut [f32]| { assert!(s.len() == 6); vals.push(x) });
    let c = collect(&w, &mut vals)?;
    compare(&a, &vw, p, t, bits, constant, "prediction")?;
    compare(&b, &vw, p, t, bits, constant, "the state visitor")?;
    compare(&c, &vw, p, t, bits, constant, "learning")?;
    ensure!(view(&f) == vw, "the visit changed the features");
    Ok(a.len() > 1)
}

fn main() {
    run("C03", |h| {
        h.group("single", "every pair and triple over three namespaces (repeats included) holding 0..3 features each; non-trivial with more than one term");
        let pool: Vec<Namespace> = (0..3).map(ns).collect();
        let top = h.n(4, 5);
        for sizes in 0..top * top * top {
            let (x, y, z) = (sizes % top, sizes / top % top, sizes / top / top);
            let mut k = 3u32;
            let mut mk = |n: usize| -> Vec<(u32, f32)> { (0..n).map(|_| { k = k.wrapping_mul(1103515245).wrapping_add(12345); ((k >> 8) % 4096, (1 + (k >> 20) % 7) as f32 / 2.0) }).collect() };
            // a namespace of size 0 is absent, size 4 is present-but-empty
            let mut v = vec![];
            for (n, s) in [(pool[0], x), (pool[1], y), (pool[2], z)] { if s == 4 { v.push((n, vec![])); } else if s > 0 { v.push((n, mk(s))); } }
            for a in 0..3 { for b in 0..3 {
                let p = [(pool[a], pool[b])];
                h.case(|| format!("{:?} pair {:?}", v, p), || check(&v, &p, &[], 12, a == b, 0));
                for c in 0..3 {
                    let t = [(pool[a], pool[b], pool[c])];
                    h.case(|| format!("{:?} triple {:?}", v, t), || check(&v, &[], &t, 12, false, 1));
                }
            } }
        }
        h.group("mixed", "random examples, several interactions, all feature-space widths, constant on or off");
        let mut r = h.rng();
        for _ in 0..h.n(1500, 30000) {
            let pool: Vec<Namespace> = (0..5).map(ns).collect();
            let top = if r.bool() { 6 } else { 30 };
            let bits = 1 + r.below(top) as u8;
            let v = random_feats(&mut r, &pool, 6, 1 << bits);
            let p: Vec<_> = (0..r.below(4)).map(|_| (*r.pick(&pool), *r.pick(&pool))).collect();
            let t: Vec<_> = (0..r.below(3)).map(|_| (*r.pick(&pool), *r.pick(&pool), *r.pick(&pool))).collect();
            let (c, off) = (r.bool(), r.below(200) as u8);
            h.case(|| format!("{:?} pairs={:?} triples={:?} bits={bits} constant={c} offset={off}", v, p, t), || check(&v, &p, &t, bits, c, off));
        }
        h.group("recycled", "the same visits over containers that were filled and cleared before, and after attach/detach");
        let mut r = h.rng();
        for _ in 0..h.n(300, 5000) {
            let pool: Vec<Namespace> = (0..4).map(ns).collect();
            let (old, new, ext) = (random_feats(&mut r, &pool, 4, 256), random_feats(&mut r, &pool, 4, 256), random_feats(&mut r, &pool, 3, 256));
            let p: Vec<_> = (0..3).map(|_| (*r.pick(&pool), *r.pick(&pool))).collect();
            let t: Vec<_> = (0..2).map(|_| (*r.pick(&pool), *r.pick(&pool), *r.pick(&pool))).collect();
            h.case(|| format!("first {:?} then {:?} attached {:?} pairs={:?} triples={:?}", old, new, ext, p, t), || {
                let mut f = build(&old);
                f.clear();
                for (n, fs) in &new { let c = f.get_or_create_namespace(*n); for &(i, x) in fs { c.add_feature(i.into(), x); } }
                let e = build(&ext);
                let mut w = Rec(RefCell::new(vec![]), vec![0.0; 6]);
                for round in 0..3 {
                    if round == 1 { f.append(&e); }
                    if round == 2 { f.remove(&e); }
                    let mut v = View::new();
                    for (n, fs) in &new { v.entry(*n).or_default().extend(fs.iter().map(|(i, x)| (*i, x.to_bits()))); }
                    if round == 1 { for (n, fs) in &ext { v.entry(*n).or_default().extend(fs.iter().map(|(i, x)| (*i, x.to_bits()))); } }
                    let mut vals = vec![];
                    foreach_feature_with_state_mut(0.into(), &f, &mut w, &p, &t, 8, true, |x, _: &mut [f32]| vals.push(x));
                    let ix = std::mem::take(&mut *w.0.borrow_mut());
                    let got: Vec<_> = ix.iter().zip(vals).map(|((i, _), x)| (*i, x)).collect();
                    compare(&got, &v, &p, &t, 8, true, &format!("round {round}"))?;
                }
                Ok(true)
            });
        }
        h.group("configured", "interactions as configured are compiled to exactly the configured namespace pairs and triples");
        let mut r = h.rng();
        for _ in 0..h.n(200, 3000) {
            let seed = r.next() as u32;
            let names = ["a", "b", "c", "user"];
            let ints: Vec<Interaction> = (0..r.below(5)).map(|_| (0..2 + r.below(2)).map(|_| if r.chance(1, 4) { NamespaceDef::Default } else { NamespaceDef::Name(r.pick(&names).to_string()) }).collect()).collect();
            h.case(|| format!("seed={seed} {:?}", ints), || {
                let g = |d: &NamespaceDef| match d { NamespaceDef::Default => Namespace::Default, NamespaceDef::Name(n) => named(n, seed) };
                let (p, t) = compile_interactions(&ints, seed);
                let wp: Vec<P> = ints.iter().filter(|i| i.len() == 2).map(|i| (g(&i[0]), g(&i[1]))).collect();
                let wt: Vec<T> = ints.iter().filter(|i| i.len() == 3).map(|i| (g(&i[0]), g(&i[1]), g(&i[2]))).collect();
                ensure!(p == wp, "pairs {:?}, expected {:?}", p, wp);
                ensure!(t == wt, "triples {:?}, expected {:?}", t, wt);
                Ok(!ints.is_empty())
            });
        }
        h.group("learner", "learning in the base regressor touches exactly the slots of the expected terms");
        let mut r = h.rng();
        for k in 0..h.n(200, 3000) {
            let bits = 3 + r.below(3) as u8;
            let seed = r.below(3) as u32;
            let constant = r.bool();
            let f = rand_simple(&mut r, seed, bits, 3);
            let cfg = conf(global(bits, seed, constant, k % 4), serde_json::json!({"typename": "Coin"}));
            h.case(|| format!("{} {}", cfg, show(&view(&f))), || {
                let mut w = workspace(cfg.clone())?;
                let v = view(&f);
                let ints: Vec<Interaction> = serde_json::from_value(interactions(k % 4)).map_err(|e| e.to_string())?;
                let (p, t) = compile_interactions(&ints, seed);
                let want: Vec<u32> = terms(&v, &p, &t, bits, constant).iter().map(|(i, _)| *i).collect();
                let must: Vec<u32> = terms(&v, &p, &t, bits, constant).iter().filter(|(_, x)| *x != 0.0).map(|(i, _)| *i).collect();
                w.learn(&mut Features::SparseSimple(f.clone()), &simple(1.5, 1.0));
                let s = coin_state(&w)?;
                let mut touched: Vec<u32> = s.keys().cloned().collect();
                touched.sort();
                ensure!(touched.iter().all(|i| want.contains(i)) && must.iter().all(|i| touched.contains(i)), "learning changed the slots {:?}, the example's terms are {:?}", touched, want);
                Ok(want.len() > 1)
            });
        }
        h.group("sensitivity", "the sensitivity of a fresh base regressor is the sum over exactly the expected terms, each contributing its sign over the same denominator");
        let mut r = h.rng();
        for k in 0..h.n(300, 4000) {
            let bits = 3 + r.below(3) as u8;
            let seed = r.below(3) as u32;
            let constant = r.bool();
            let f = rand_simple(&mut r, seed, bits, 3);
            let g = global(bits, seed, constant, k % 4);
            h.case(|| format!("{g} {}", show(&view(&f))), || {
                let gc: global_config::GlobalConfig = serde_json::from_value(g.clone()).map_err(|e| e.to_string())?;
                let reg = reduction_registry::REDUCTION_REGISTRY.lock();
                let coin = reg.get("Coin").ok_or("no Coin")?;
                let c = coin.parse_config(&coin.get_config_default()).map_err(|e| format!("{e:?}"))?;
                let w = coin.create(&*c, &gc, 1.into()).map_err(|e| format!("{e:?}"))?;
                let ints: Vec<Interaction> = serde_json::from_value(interactions(k % 4)).map_err(|e| e.to_string())?;
                let (p, t) = compile_interactions(&ints, seed);
                let ts = terms(&view(&f), &p, &t, bits, constant);
                let want: f64 = ts.iter().map(|(_, x)| x.signum() as f64).sum();
                let one = {
                    // what a single positive term scores
                    let gc: global_config::GlobalConfig = serde_json::from_value(global(bits, seed, true, 0)).map_err(|e| e.to_string())?;
                    let w = coin.create(&*c, &gc, 1.into()).map_err(|e| format!("{e:?}"))?;
                    w.sensitivity(&Features::SparseSimple(build(&[])), 0.0, 0.0, 1.0, reduction::DepthInfo::new()) as f64
                };
                let got = w.sensitivity(&Features::SparseSimple(f.clone()), 0.0, 0.0, 1.0, reduction::DepthInfo::new()) as f64;
                ensure!(one != 0.0 && close(got / one, want, 1e-4), "sensitivity {got}, one term scores {one}, the terms sum to {want}");
                Ok(ts.len() > 1)
            });
        }
    });
}
