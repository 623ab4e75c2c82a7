//! abstract examples written out in every text format, with the features and label they mean
use crate::feats::View;
use crate::Rng;
use reductionml_core::hash::hash_bytes;
use reductionml_core::sparse_namespaced_features::Namespace;
use reductionml_core::types::*;
use serde_json::{json, Map, Value};

#[derive(Clone, Debug)]
pub enum Feat { Named(String, f32), Str(String, String), Flag(String) }
#[derive(Clone, Debug)]
pub enum Body { Feats(Vec<Feat>), Numbers(Vec<f32>) }
/// "" is the default namespace
#[derive(Clone, Debug)]
pub struct Ns { pub name: String, pub body: Body }
#[derive(Clone, Debug)]
pub struct Example { pub shared: Vec<Ns>, pub actions: Vec<Vec<Ns>>, pub label: Option<(usize, f32, f32)>, pub simple: Option<(f32, Option<f32>)> }

const NAMES: [&str; 20] = ["a", "b", "user", "Weather", "x1", "f", "héllo", "price$", "A", "aa", "b2", "日本", "q-r", "n.o", "z_", "a__b", "10000001", "0", "00", "4294967296"];
fn name(r: &mut Rng) -> String {
    // now and then a long one: hashes take another path there
    if r.chance(1, 60) { return format!("{}{}", "a-very-long-name-".repeat(20), r.below(40)); }
    let n = r.pick(&NAMES).to_string(); if r.chance(1, 3) { format!("{}{}", n, r.below(40)) } else { n }
}
/// a text that is not a number
fn word(r: &mut Rng) -> String { loop { let n = name(r); if n.parse::<f32>().is_err() { return n; } } }
pub fn val(r: &mut Rng) -> f32 {
    match r.below(13) { 8 => 5e9, 9 => -3e9, 10 => 1e-7, 11 => 16777216.0, 12 => -1e-30, 0 => 0.0, 1 => 1.0, 2 => -2.5, 3 => 0.1, 4 => 1e-3, 5 => 123456.0, 6 => -7.0, _ => (r.below(2000) as f32 - 1000.0) / 64.0 }
}
fn body(r: &mut Rng) -> Body {
    if r.chance(1, 3) { return Body::Numbers((0..if r.chance(1, 60) { 300 } else { 1 + r.below(4) }).map(|_| val(r)).collect()); }
    let mut seen = vec![];
    let mut out = vec![];
    for _ in 0..r.below(5) {
        let n = name(r);
        if seen.contains(&n) { continue; }
        seen.push(n.clone());
        out.push(match r.below(4) { 0 => Feat::Str(n, word(r)), 1 => Feat::Flag(n), _ => Feat::Named(n, val(r)) });
    }
    Body::Feats(out)
}
pub fn nslist(r: &mut Rng, max: usize) -> Vec<Ns> {
    let mut seen: Vec<String> = vec![];
    let mut out = vec![];
    for _ in 0..r.below(max + 1) {
        let n = if r.chance(1, 5) { String::new() } else { format!("{}{}", r.pick(&["ns", "user", "Q", "ü", "ns_", "_n", "7"]), ["0", "1", "2", "10", "11", "25", "29", "_", "300"][r.below(9)]) };
        if seen.contains(&n) { continue; }
        seen.push(n.clone());
        out.push(Ns { name: n, body: body(r) });
    }
    out
}
pub fn example(r: &mut Rng, cb: bool) -> Example {
    let many = cb && r.chance(1, 150);
    let n = if many { 260 + r.below(60) } else { 1 + r.below(4) };
    let actions: Vec<_> = (0..if cb { n } else { 0 }).map(|_| nslist(r, if many { 1 } else { 3 })).collect();
    let label = if cb && r.chance(2, 3) { Some((r.below(n), val(r), [0.25f32, 0.5, 1.0, 0.05, 1e-7][r.below(5)])) } else { None };
    let simple = if r.chance(3, 4) { Some((val(r), if r.bool() { Some([1.0, 0.5, 2.0, 0.0][r.below(4)]) } else { None })) } else { None };
    Example { shared: nslist(r, 4), actions, label, simple }
}

fn feat_vw(f: &Feat) -> String { match f { Feat::Named(n, v) => format!("{n}:{v}"), Feat::Str(n, v) => format!("{n}:{v}"), Feat::Flag(n) => n.clone() } }
pub fn ns_vw(l: &[Ns]) -> String {
    let mut s = String::new();
    for n in l {
        s += "|"; s += &n.name;
        match &n.body {
            Body::Feats(fs) => { if fs.is_empty() { s += " "; } for f in fs { s += " "; s += &feat_vw(f); } }
            Body::Numbers(v) => for x in v { s += &format!(" :{x}"); },
        }
        s += " ";
    }
    s
}
/// one line per shared/action; the shared line only when there are shared namespaces
pub fn vw_cb(e: &Example) -> String {
    let mut ls = vec![];
    if !e.shared.is_empty() { ls.push(format!("shared {}", ns_vw(&e.shared))); }
    for (i, a) in e.actions.iter().enumerate() {
        let l = match e.label { Some((k, c, p)) if k == i => format!("{}:{}:{} ", k, c, p), _ => String::new() };
        let b = ns_vw(a);
        ls.push(format!("{}{}", l, if b.is_empty() { "| ".to_string() } else { b }));
    }
    ls.join("\n")
}
pub fn vw_simple(e: &Example) -> String {
    let l = match e.simple { Some((v, Some(w))) => format!("{v} {w} "), Some((v, None)) => format!("{v} "), None => String::new() };
    let b = ns_vw(&e.shared);
    format!("{}{}", l, if b.is_empty() { "|".to_string() } else { b })
}
/// whole numbers also without a decimal point
fn num(v: f32, whole: bool) -> Value { if whole && v.fract() == 0.0 { json!(v as i64) } else { json!(v as f64) } }
fn ns_json(l: &[Ns], defname: &str) -> Value {
    let mut m = Map::new();
    for n in l {
        let v = match &n.body {
            Body::Numbers(v) => json!(v.iter().map(|x| num(*x, v.len() % 2 == 0)).collect::<Vec<_>>()),
            Body::Feats(fs) => {
                let mut o = Map::new();
                for f in fs { match f { Feat::Named(n, v) => o.insert(n.clone(), num(*v, fs.len() % 2 == 0)), Feat::Str(n, v) => o.insert(n.clone(), json!(v)), Feat::Flag(n) => o.insert(n.clone(), json!(true)) }; }
                Value::Object(o)
            }
        };
        m.insert(if n.name.is_empty() { defname.into() } else { n.name.clone() }, v);
    }
    Value::Object(m)
}
pub fn json_cb(e: &Example) -> String {
    let mut o = json!({"actions": e.actions.iter().map(|a| ns_json(a, ":default")).collect::<Vec<_>>()});
    if !e.shared.is_empty() { o["shared"] = ns_json(&e.shared, ":default"); }
    if let Some((a, c, p)) = e.label { o["label"] = json!({"action": a, "cost": c as f64, "probability": p as f64}); }
    o.to_string()
}
pub fn json_simple(e: &Example) -> String {
    let mut o = json!({"features": ns_json(&e.shared, " ")});
    match e.simple { Some((v, Some(w))) => o["label"] = json!({"value": v as f64, "weight": w as f64}), Some((v, None)) => o["label"] = json!(v as f64), None => () }
    o.to_string()
}
/// dsjson leaves out what starts with an underscore, so an example with such a name cannot be written in it
pub fn in_dsjson(e: &Example) -> bool { e.shared.iter().chain(e.actions.iter().flatten()).all(|n| !n.name.starts_with('_')) }
pub fn dsjson(e: &Example) -> String {
    let mut c = ns_json(&e.shared, " ");
    c["_multi"] = json!(e.actions.iter().map(|a| ns_json(a, ":default")).collect::<Vec<_>>());
    let mut o = json!({"c": c, "_skipped": {"x": 1}, "Version": "1"});
    if let Some((a, c, p)) = e.label { o["_label_cost"] = json!(c as f64); o["_label_probability"] = json!(p as f64); o["_labelIndex"] = json!(a); }
    o.to_string()
}

pub fn ns_of(name: &str, seed: u32) -> (Namespace, u32) {
    if name.is_empty() || name == ":default" || name == " " { (Namespace::Default, 0) } else { let h = hash_bytes(name.as_bytes(), seed); (Namespace::Named(h.into()), h) }
}
pub fn feat_hash(f: &Feat, nh: u32) -> u32 {
    match f { Feat::Named(n, _) | Feat::Flag(n) => hash_bytes(n.as_bytes(), nh), Feat::Str(n, v) => hash_bytes(v.as_bytes(), hash_bytes(n.as_bytes(), nh)) }
}
/// the features the list means (present namespaces only when they have features, for formats that differ on empty ones)
pub fn expect(l: &[Ns], seed: u32, bits: u8) -> View {
    let mut v = View::new();
    let mask = ((1u64 << bits) - 1) as u32;
    for n in l {
        let (ns, nh) = ns_of(&n.name, seed);
        let mut fs: Vec<(u32, u32)> = vec![];
        match &n.body {
            Body::Numbers(x) => for (i, x) in x.iter().enumerate() { fs.push((nh.wrapping_add(i as u32) & mask, x.to_bits())); },
            Body::Feats(x) => for f in x { fs.push((feat_hash(f, nh) & mask, match f { Feat::Named(_, v) => v.to_bits(), _ => 1f32.to_bits() })); },
        }
        if !fs.is_empty() { v.entry(ns).or_default().extend(fs); }
    }
    v
}
/// drop namespaces without features, sort inside each namespace when `sorted` (key order of JSON objects is not part of the meaning)
pub fn norm(v: &View, sorted: bool) -> View {
    v.iter().filter(|(_, f)| !f.is_empty()).map(|(n, f)| { let mut f = f.clone(); if sorted { f.sort(); } (*n, f) }).collect()
}
pub fn cb_label(e: &Example) -> Option<Label> { e.label.map(|(a, c, p)| Label::CB(CBLabel::new(a, c, p))) }
pub fn simple_label(e: &Example) -> Option<Label> { e.simple.map(|(v, w)| Label::Simple(SimpleLabel::new(v, w.unwrap_or(1.0)))) }
