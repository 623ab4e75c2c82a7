//! C12: one hash per feature, whoever computes it
use harness::*;
use harness::feats::*;
use harness::gen::*;
use reductionml_core::hash::hash_bytes;
use reductionml_core::inverse_hash_table::{Feature, InverseHashTable};
use reductionml_core::object_pool::Pool;
use reductionml_core::parsers::*;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::types::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

const FNV: u32 = 16777619;
const STR: [&str; 16] = ["", "a", "b", "ab", "feature", "myNamespace", "x:y", " ", ":default", "0", "1.5", "ü", "日本語", "a b", "\u{1F600}", "a-very-long-name-that-takes-another-code-path-of-the-hash-function-because-it-is-long-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789"];

fn text(r: &mut Rng) -> String {
    if r.bool() { return r.pick(&STR).to_string(); }
    (0..r.below(12)).map(|_| *r.pick(&['a', 'b', 'Z', '0', '_', 'é', '~'])).collect()
}
fn seed(r: &mut Rng) -> u32 { *r.pick(&[0u32, 1, 42, 0x8000_0000, u32::MAX, 7919]) ^ (if r.bool() { r.next() as u32 } else { 0 }) }
/// the namespace hash the parsers use
fn nh(name: &str, seed: u32) -> u32 { if name == " " || name == ":default" { 0 } else { hash_bytes(name.as_bytes(), seed) } }
fn oracle(f: &Feature, seed: u32) -> u32 {
    match f {
        Feature::Simple { namespace, name } => hash_bytes(name.as_bytes(), nh(namespace, seed)),
        Feature::SimpleWithStringValue { namespace, name, value } => hash_bytes(value.as_bytes(), hash_bytes(name.as_bytes(), nh(namespace, seed))),
        Feature::Anonymous { namespace, offset } => nh(namespace, seed).wrapping_add(*offset),
        Feature::Interacted { terms } => {
            let h: Vec<u32> = terms.iter().map(|t| oracle(t, seed)).collect();
            let mut x = FNV.wrapping_mul(h[0]);
            for t in &h[1..h.len() - 1] { x = FNV.wrapping_mul(x ^ t); }
            x ^ h[h.len() - 1]
        }
    }
}
fn parsed<'a>(r: &mut Rng, a: &'a str, b: &'a str) -> ParsedFeature<'a> {
    match r.below(3) { 0 => ParsedFeature::Simple { name: a }, 1 => ParsedFeature::SimpleWithStringValue { name: a, value: b },
        _ => ParsedFeature::Anonymous { offset: *r.pick(&[0u32, 1, 2, 77, u32::MAX, 0x7fff_ffff]) } }
}
fn pdesc(p: &ParsedFeature) -> String { match p { ParsedFeature::Simple { name } => format!("named {:?}", name), ParsedFeature::SimpleWithStringValue { name, value } => format!("{:?}={:?}", name, value), ParsedFeature::Anonymous { offset } => format!("anonymous {}", offset) } }
fn parser(cb: bool, seed: u32, bits: u8) -> impl TextModeParser {
    let (f, l) = if cb { (FeaturesType::SparseCBAdf, LabelType::CB) } else { (FeaturesType::SparseSimple, LabelType::Simple) };
    VwTextParserFactory.create(f, l, seed, bits, Arc::new(Pool::new()))
}
fn info(n: &ParsedNamespaceInfo) -> String { match n { ParsedNamespaceInfo::Named(s) => s.to_string(), ParsedNamespaceInfo::Default => " ".into() } }

fn main() {
    run("C12", |h| {
        h.group("hash", "a parsed feature, its stored description and the defining formula give the same hash; every namespace, seed and kind; non-trivial: all");
        let mut r = h.rng();
        for _ in 0..h.n(6000, 200000) {
            let (s, n, a, b) = (seed(&mut r), text(&mut r), text(&mut r), text(&mut r));
            let p = parsed(&mut r, &a, &b);
            h.case(|| format!("seed {s} namespace {n:?} feature {}", pdesc(&p)), || {
                let f = Feature::from_parsed_feature(&p, &n);
                let x = u32::from(p.hash(Namespace::from_name(&n, s).hash()));
                let (y, o) = (u32::from(f.hash(s)), oracle(&f, s));
                ensure!(x == o, "the parser's hash is {x}, the formula gives {o}");
                ensure!(y == o, "the stored feature's hash is {y}, the parser's {o}");
                Ok(true)
            });
        }
        h.group("interacted", "masked hash of 2..4 interacted features equals the learner's combination of the masked component indices, for every mask width; non-trivial: all");
        let mut r = h.rng();
        for _ in 0..h.n(4000, 100000) {
            let s = seed(&mut r);
            let bits = 1 + r.below(31) as u8;
            let n = [2, 2, 3, 3, 4][r.below(5)];
            let terms: Vec<Feature> = (0..n).map(|_| { let (a, b, c) = (text(&mut r), text(&mut r), text(&mut r)); Feature::from_parsed_feature(&parsed(&mut r, &a, &b), &c) }).collect();
            h.case(|| format!("seed {s} bits {bits} {:?}", terms), || {
                let m = FeatureMask::from_num_bits(bits);
                let mask = ((1u64 << bits) - 1) as u32;
                let idx: Vec<u32> = terms.iter().map(|t| u32::from(t.hash(s).mask(m))).collect();
                let f = Feature::Interacted { terms: terms.clone() };
                let got = u32::from(f.hash(s).mask(m));
                let mut x = FNV.wrapping_mul(idx[0]);
                for t in &idx[1..n - 1] { x = FNV.wrapping_mul(x ^ t); }
                let want = (x ^ idx[n - 1]) & mask;
                ensure!(got == want, "hash {got}, the learner's index of the masked components is {want}");
                ensure!(u32::from(f.hash(s)) == oracle(&f, s), "unmasked hash differs from the formula");
                Ok(true)
            });
        }
        h.group("table", "random insert sequences into the inverse table against a map of sets; non-trivial: some index is inserted twice");
        let mut r = h.rng();
        for _ in 0..h.n(300, 5000) {
            let ops: Vec<(u32, Feature)> = (0..r.below(40)).map(|_| { let a = text(&mut r); let b = text(&mut r); (r.below(6) as u32, Feature::from_parsed_feature(&parsed(&mut r, &a, &b), "n")) }).collect();
            h.case(|| format!("{:?}", ops), || {
                let mut t = InverseHashTable::new();
                let mut m: BTreeMap<u32, BTreeSet<Feature>> = BTreeMap::new();
                for (i, f) in &ops { t.insert((*i).into(), f.clone()); m.entry(*i).or_default().insert(f.clone()); }
                for i in 0..7u32 {
                    let got: Option<BTreeSet<Feature>> = t.get(i.into()).map(|s| s.iter().cloned().collect());
                    ensure!(got == m.get(&i).cloned(), "index {i}: {:?} instead of {:?}", got, m.get(&i));
                }
                Ok(m.values().any(|s| s.len() > 1))
            });
        }
        h.group("names", "features extracted from VW text as names, stored and hashed, are exactly the parsed feature indices; repeated, anonymous and empty namespaces, tabs, multi-line; non-trivial: some feature");
        let mut r = h.rng();
        for k in 0..h.n(3000, 60000) {
            let cb = k % 2 == 0;
            let e = example(&mut r, cb);
            let mut t = if cb { vw_cb(&e) } else { vw_simple(&e) };
            if r.chance(1, 3) { t = t.lines().map(|l| { let mut l = l.to_string(); if l.contains('|') { l += &[" |a x y:2 :3 ", "| :1 :2 ", "|user2:0.5 q:1 z ", "| ", "|a ", "|a\tx\ty:3", "|a x:s"][r.below(7)]; } l }).collect::<Vec<_>>().join("\n"); }
            if r.chance(1, 4) { t = t.replace(" x", "\tx").replace("|\tx", "| x").replace("  ", " \t"); }
            let (s, bits) = (seed(&mut r), [18u8, 24, 10, 31][r.below(4)]);
            h.case(|| format!("cb {cb} seed {s} bits {bits} {t:?}"), || {
                let p = parser(cb, s, bits);
                let (f, _) = p.parse_chunk(&t).map_err(|e| e.to_string())?;
                let names = p.extract_feature_names(&t).map_err(|e| e.to_string())?;
                let m = FeatureMask::from_num_bits(bits);
                let (mut want, mut got) = (BTreeMap::<String, Vec<u32>>::new(), BTreeMap::<String, Vec<u32>>::new());
                let flat: Vec<&SparseFeatures> = match &f { Features::SparseSimple(x) => vec![x], Features::SparseCBAdf(c) => c.shared.iter().chain(c.actions.iter()).collect(), _ => vec![] };
                for x in flat { for (n, fs) in view(x) { if !fs.is_empty() { want.entry(format!("{:?}", n)).or_default().extend(fs.iter().map(|q| q.0)); } } }
                let mut table = InverseHashTable::new();
                for (n, fs) in &names { for q in fs {
                    let st = Feature::from_parsed_feature(q, &info(n));
                    let i = st.hash(s).mask(m);
                    ensure!(i == q.hash(Namespace::from_name(&info(n), s).hash()).mask(m), "stored and extracted hash differ for {:?}", st);
                    got.entry(format!("{:?}", Namespace::from_name(&info(n), s))).or_default().push(u32::from(i));
                    table.insert(i, st);
                } }
                for v in want.values_mut().chain(got.values_mut()) { v.sort(); }
                ensure!(want == got, "parsed indices {:?}, extracted names give {:?}", want, got);
                for v in want.values() { for i in v { ensure!(table.get((*i).into()).map(|s: &HashSet<Feature>| !s.is_empty()).unwrap_or(false), "no name recorded for index {i}"); } }
                Ok(!want.is_empty())
            });
        }
    });
}
