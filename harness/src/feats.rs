//! reference view of the feature container, and generators
use crate::Rng;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::types::*;
use std::collections::BTreeMap;

/// namespace -> ordered (index, value); exactly the namespaces that are present
pub type View = BTreeMap<Namespace, Vec<(u32, u32)>>;

pub fn ns(i: u32) -> Namespace {
    if i == 0 { Namespace::Default } else { Namespace::Named(i.wrapping_mul(2654435761).into()) }
}

pub fn view(f: &SparseFeatures) -> View {
    let mut v = View::new();
    for (n, _) in f.namespaces() {
        if let Some(c) = f.get_namespace(n) {
            v.insert(n, c.iter().map(|(i, x)| (u32::from(i), x.to_bits())).collect());
        }
    }
    v
}

pub fn build(v: &[(Namespace, Vec<(u32, f32)>)]) -> SparseFeatures {
    let mut f = SparseFeatures::new();
    for (n, fs) in v {
        let c = f.get_or_create_namespace(*n);
        for &(i, x) in fs { c.add_feature(i.into(), x); }
    }
    f
}

/// `n` namespaces chosen among `pool`, each with up to `maxf` features below `space`
pub fn random_feats(r: &mut Rng, pool: &[Namespace], maxf: usize, space: u32) -> Vec<(Namespace, Vec<(u32, f32)>)> {
    let mut out = vec![];
    for n in pool {
        if r.chance(2, 3) {
            let k = r.below(maxf + 1);
            out.push((*n, (0..k).map(|_| (r.next() as u32 % space, r.dyadic())).collect()));
        }
    }
    out
}

pub fn fview(f: &Features) -> Vec<View> {
    match f {
        Features::SparseSimple(s) => vec![view(s)],
        Features::SparseSimpleRef(s) => vec![view(s)],
        Features::SparseCBAdf(c) => cbview(c),
        Features::SparseCBAdfRef(c) => cbview(c),
    }
}
pub fn cbview(c: &CBAdfFeatures) -> Vec<View> {
    let mut v = vec![];
    if let Some(s) = &c.shared { v.push(view(s)); let mut m = View::new(); m.insert(Namespace::RawHash(77.into()), vec![]); v.push(m); }
    for a in &c.actions { v.push(view(a)); }
    v
}
pub fn show(v: &View) -> String {
    let mut s = String::from("{");
    for (n, fs) in v {
        s += &format!("{:?}:[{}] ", n, fs.iter().map(|(i, x)| format!("{}:{}", i, f32::from_bits(*x))).collect::<Vec<_>>().join(" "));
    }
    s + "}"
}

const FNV: u32 = 16777619;
/// every term the learner must visit, as (index, value), in order: the defining formula
pub fn terms(v: &View, pairs: &[(Namespace, Namespace)], triples: &[(Namespace, Namespace, Namespace)], bits: u8, constant: bool) -> Vec<(u32, f32)> {
    let mask = ((1u64 << bits) - 1) as u32;
    let mut out = vec![];
    for fs in v.values() { for &(i, x) in fs { out.push((i, f32::from_bits(x))); } }
    let g = |n: &Namespace| -> Vec<(u32, f32)> { v.get(n).map(|f| f.iter().map(|&(i, x)| (i, f32::from_bits(x))).collect()).unwrap_or_default() };
    for (a, b) in pairs {
        let (fa, fb) = (g(a), g(b));
        for i in 0..fa.len() {
            for j in 0..fb.len() {
                if a == b && j < i { continue; }
                out.push(((FNV.wrapping_mul(fa[i].0) ^ fb[j].0) & mask, fa[i].1 * fb[j].1));
            }
        }
    }
    for (a, b, c) in triples {
        let (fa, fb, fc) = (g(a), g(b), g(c));
        for i in 0..fa.len() {
            for j in 0..fb.len() {
                if a == b && j < i { continue; }
                for k in 0..fc.len() {
                    if b == c && k < j { continue; }
                    let h = FNV.wrapping_mul(FNV.wrapping_mul(fa[i].0) ^ fb[j].0) ^ fc[k].0;
                    out.push((h & mask, fa[i].1 * fb[j].1 * fc[k].1));
                }
            }
        }
    }
    if constant { out.push((((1u64 << bits) / 2) as u32, 1.0)); }
    out
}
