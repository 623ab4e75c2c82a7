//! the shipped reductions in the stacks that type-check, and examples for them
use crate::feats::*;
use crate::Rng;
use reductionml_core::sparse_namespaced_features::Namespace;
use reductionml_core::types::*;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum In { Simple, Binary, Cb }

pub fn interactions(k: usize) -> Value {
    match k {
        0 => json!([]),
        1 => json!([[{"Name": "a"}, {"Name": "b"}]]),
        2 => json!([[{"Name": "a"}, {"Name": "a"}], ["Default", {"Name": "b"}]]),
        _ => json!([[{"Name": "a"}, {"Name": "a"}, {"Name": "b"}], [{"Name": "b"}, "Default", "Default"], [{"Name": "b"}, {"Name": "c"}]]),
    }
}
pub fn global(bits: u8, seed: u32, constant: bool, k: usize) -> Value {
    json!({"numBits": bits, "hashSeed": seed, "constantFeatureEnabled": constant, "interactions": interactions(k)})
}
pub fn named(s: &str, seed: u32) -> Namespace { Namespace::from_name(s, seed) }
pub fn ns_pool(seed: u32) -> Vec<Namespace> { vec![Namespace::Default, named("a", seed), named("b", seed), named("c", seed), named("d", seed)] }

fn ew(inner: Value, one: Value, two: Value, keep: bool) -> Value {
    json!({"typename": "ElementwiseInteraction", "config": {"one": one, "two": two, "keepOriginalFeatures": keep, "regressor": inner}})
}
fn dbg(inner: Value) -> Value { json!({"typename": "Debug", "config": {"next": inner, "id": "x"}}) }
fn n(s: &str) -> Value { json!({"Name": s}) }

/// (name, entry configuration, input kind)
pub fn stacks() -> Vec<(String, Value, In)> {
    let coin = json!({"typename": "Coin"});
    let mut simple = vec![("coin".to_string(), coin.clone())];
    simple.push(("coin-alpha".into(), json!({"typename": "Coin", "config": {"alpha": 10, "beta": 0.5, "l2Lambda": 0.1}})));
    simple.push(("coin-logistic-link".into(), json!({"typename": "Coin", "config": {"linkFunction": "Logistic"}})));
    for (nm, one, two) in [("ab", n("a"), n("b")), ("aa", n("a"), n("a")), ("a-default", n("a"), json!("Default")), ("ad", n("a"), n("d"))] {
        for keep in [true, false] { simple.push((format!("elementwise-{nm}-{keep}>coin"), ew(coin.clone(), one.clone(), two.clone(), keep))); }
    }
    simple.push(("elementwise>elementwise>coin".into(), ew(ew(coin.clone(), n("a"), n("c"), false), n("a"), n("b"), true)));
    simple.push(("debug>coin".into(), dbg(coin.clone())));
    simple.push(("debug>elementwise>coin".into(), dbg(ew(coin.clone(), n("b"), n("c"), false))));
    simple.push(("elementwise>debug>coin".into(), ew(dbg(coin.clone()), n("b"), n("c"), true)));
    let mut out: Vec<(String, Value, In)> = simple.iter().map(|(a, b)| (a.clone(), b.clone(), In::Simple)).collect();
    for (nm, c) in &simple {
        out.push((format!("binary>{nm}"), json!({"typename": "Binary", "config": {"regressor": c}}), In::Binary));
    }
    out.push(("debug>binary>coin".into(), dbg(json!({"typename": "Binary", "config": {"regressor": coin}})), In::Binary));
    for (nm, c) in simple.iter().filter(|(a, _)| !a.contains("aa") && !a.contains("default")) {
        for t in ["ips", "mtr"] {
            let cb = json!({"typename": "CbAdf", "config": {"cbType": t, "regressor": c}});
            out.push((format!("cb-{t}>{nm}"), cb.clone(), In::Cb));
            if nm == "coin" || nm.starts_with("elementwise-ab") || nm.starts_with("debug>coin") {
                out.push((format!("greedy>cb-{t}>{nm}"), json!({"typename": "CbExploreAdfGreedy", "config": {"epsilon": 0.2, "cbAdf": cb}}), In::Cb));
                out.push((format!("softmax>cb-{t}>{nm}"), json!({"typename": "CbExploreAdfSoftmax", "config": {"lambda": 2.0, "uniformEpsilon": 0.1, "cbAdf": cb}}), In::Cb));
                if t == "mtr" {
                    out.push((format!("squarecb>cb-{t}>{nm}"), json!({"typename": "CbExploreAdfSquareCb", "config": {"uniformEpsilon": 0.05, "cbAdf": cb}}), In::Cb));
                    out.push((format!("debug>squarecb>debug>cb-{t}>{nm}"), dbg(json!({"typename": "CbExploreAdfSquareCb", "config": {"cbAdf": dbg(cb.clone())}})), In::Cb));
                }
            }
        }
    }
    out
}

/// increasing indices inside each namespace (distinct), values dyadic
pub fn rand_simple(r: &mut Rng, seed: u32, bits: u8, maxf: usize) -> reductionml_core::sparse_namespaced_features::SparseFeatures {
    let mut v = random_feats(r, &ns_pool(seed), maxf, 1 << bits);
    for (n, fs) in v.iter_mut() {
        if r.bool() {
            // positions relative to the namespace's base, increasing
            let base = u32::from(n.hash());
            let mut off = 0;
            for f in fs.iter_mut() { f.0 = base.wrapping_add(off) & ((1 << bits) - 1); off += 1 + r.below(2) as u32; }
        }
    }
    // present but empty namespaces, and namespaces created in any order
    if r.chance(1, 4) { v.push((named("empty", seed), vec![])); }
    if r.bool() { v.reverse(); }
    build(&v)
}
pub fn rand_example(r: &mut Rng, kind: In, seed: u32, bits: u8, maxf: usize) -> (Features<'static>, Label) {
    match kind {
        In::Simple => (Features::SparseSimple(rand_simple(r, seed, bits, maxf)), Label::Simple(SimpleLabel::new(r.dyadic(), [1.0, 0.5, 2.0, 1.0][r.below(4)]))),
        In::Binary => (Features::SparseSimple(rand_simple(r, seed, bits, maxf)), Label::Binary(BinaryLabel(r.bool()))),
        In::Cb => {
            let n = 1 + r.below(4);
            let shared = if r.chance(2, 3) { Some(rand_simple(r, seed, bits, maxf)) } else { None };
            let actions = (0..n).map(|_| rand_simple(r, seed, bits, maxf)).collect();
            (Features::SparseCBAdf(CBAdfFeatures { shared, actions }), Label::CB(CBLabel::new(r.below(n), r.dyadic(), [0.25, 0.5, 1.0, 0.1, 0.002][r.below(5)])))
        }
    }
}
pub fn desc(f: &Features, l: &Label) -> String {
    format!("{} label {:?}", fview(f).iter().map(|v| show(v)).collect::<Vec<_>>().join(" / "), l)
}
