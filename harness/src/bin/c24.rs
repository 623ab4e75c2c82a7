//! C24: what the formats mean
use harness::*;
use harness::feats::*;
use harness::gen::*;
use reductionml_core::object_pool::Pool;
use reductionml_core::parsers::*;
use reductionml_core::sparse_namespaced_features::Namespace;
use reductionml_core::types::*;
use std::sync::Arc;

type Parsed = (Vec<View>, Option<View>, Option<Label>);
fn split(f: Features, l: Option<Label>) -> Parsed {
    match f {
        Features::SparseSimple(s) => (vec![view(&s)], None, l),
        Features::SparseCBAdf(c) => (c.actions.iter().map(view).collect(), c.shared.as_ref().map(view), l),
        _ => (vec![], None, l),
    }
}
fn types(cb: bool) -> (FeaturesType, LabelType) { if cb { (FeaturesType::SparseCBAdf, LabelType::CB) } else { (FeaturesType::SparseSimple, LabelType::Simple) } }
fn parse(fmt: usize, t: &str, cb: bool, seed: u32, bits: u8) -> Result<Parsed, String> {
    let p = Arc::new(Pool::new());
    let (f, l) = types(cb);
    let e = |e: reductionml_core::error::Error| e.to_string();
    let (a, b) = match fmt { 0 => VwTextParserFactory.create(f, l, seed, bits, p).parse_chunk(t).map_err(e)?, 1 => JsonParserFactory.create(f, l, seed, bits, p).parse_chunk(t).map_err(e)?, _ => DsJsonParserFactory.create(f, l, seed, bits, p).parse_chunk(t).map_err(e)? };
    Ok(split(a, b))
}
fn lab(l: &Option<Label>) -> String { format!("{:?}", l) }
fn lshow(v: &[View]) -> String { v.iter().map(show).collect::<Vec<_>>().join(" / ") }

fn main() {
    run("C24", |h| {
        h.group("formats", "random abstract examples (named, string-valued, flag and positional features, default and named namespaces, labels, multiple actions) written in VW text, JSON and dsjson, each parsed and compared with the features and label the example means; non-trivial: at least 3 features");
        let mut r = h.rng();
        for k in 0..h.n(5000, 100000) {
            let cb = k % 2 == 0;
            let e = example(&mut r, cb);
            let (seed, bits) = ([0u32, 1, 99, u32::MAX][r.below(4)], [18u8, 24, 8, 31, 3][r.below(5)]);
            h.case(|| format!("seed {seed} bits {bits} {:?}", e), || {
                let want_l = lab(&if cb { cb_label(&e) } else { simple_label(&e) });
                let sh = expect(&e.shared, seed, bits);
                let ac: Vec<View> = if cb { e.actions.iter().map(|a| expect(a, seed, bits)).collect() } else { vec![sh.clone()] };
                let fmts = if cb { let mut v = vec![(0, "vw", vw_cb(&e)), (1, "json", json_cb(&e))]; if in_dsjson(&e) { v.push((2, "dsjson", dsjson(&e))); } v } else { vec![(0, "vw", vw_simple(&e)), (1, "json", json_simple(&e))] };
                for (i, name, t) in fmts {
                    let (a, s, l) = parse(i, &t, cb, seed, bits).map_err(|x| format!("{name} {t:?}: {x}"))?;
                    ensure!(lab(&l) == want_l, "{name} {t:?}: label {}, written {want_l}", lab(&l));
                    let sorted = i > 0;
                    ensure!(a.len() == ac.len(), "{name} {t:?}: {} actions, expected {}", a.len(), ac.len());
                    for (j, (x, y)) in a.iter().zip(&ac).enumerate() { ensure!(norm(x, sorted) == norm(y, sorted), "{name} {t:?}: entry {j} is {}, expected {}", show(&norm(x, sorted)), show(&norm(y, sorted))); }
                    if cb {
                        let s = s.unwrap_or_default();
                        ensure!(norm(&s, sorted) == norm(&sh, sorted), "{name} {t:?}: shared is {}, expected {}", show(&norm(&s, sorted)), show(&norm(&sh, sorted)));
                    }
                }
                Ok(sh.values().chain(ac.iter().flat_map(|v| v.values())).map(|f| f.len()).sum::<usize>() >= 3)
            });
        }
        h.group("vw", "VW text by an independent reading of the grammar: namespace weights, tags, repeated namespaces, empty segments, string values, ':v' positional features restarting in each segment, tabs and repeated blanks, label with weight; non-trivial: at least 2 features");
        let mut r = h.rng();
        for _ in 0..h.n(5000, 100000) {
            let (seed, bits) = ([0u32, 7, u32::MAX][r.below(3)], [18u8, 10, 31][r.below(3)]);
            let mask = ((1u64 << bits) - 1) as u32;
            let mut t = String::new();
            let mut label = None;
            match r.below(6) { 0 => (), 4 => { let v = val(&mut r); t += &format!("{v} 0.5 tag"); label = Some(Label::Simple(SimpleLabel::new(v, 0.5))); }, 5 => { t += ["tag", "'tag", "1.5"][r.below(3)]; }, 1 => { let v = val(&mut r); t += &format!("{v} "); label = Some(Label::Simple(SimpleLabel::new(v, 1.0))); },
                2 => { let (v, w) = (val(&mut r), val(&mut r).abs()); t += &format!("{v} {w} "); label = Some(Label::Simple(SimpleLabel::new(v, w))); },
                _ => { let v = val(&mut r); t += &format!("{v} 2 '{}", ["tag", "t1", "x:y"][r.below(3)]); if r.bool() { t += " "; } label = Some(Label::Simple(SimpleLabel::new(v, 2.0))); } }
            let mut want = View::new();
            for _ in 0..r.below(5) {
                t += "|";
                let name = ["", "a", "b", "user", "ü", "_a", "a_", "_", "1", "a.b"][r.below(10)];
                let mut wgt = 1f32;
                t += name;
                if !name.is_empty() && r.chance(1, 3) { wgt = [0.5f32, 2.0, -1.0, 0.0, 3.25][r.below(5)]; t += &format!(":{wgt}"); }
                let (ns, nh) = ns_of(name, seed);
                let fs = want.entry(ns).or_default();
                let mut pos = 0u32;
                t += [" ", "  ", " \t"][if name.is_empty() { r.below(2) } else { r.below(3) }];
                for _ in 0..r.below(5) {
                    let v = val(&mut r);
                    let n = ["x", "y", "price$", "日本", "1", "a-b", "_x", "x_", "10000001"][r.below(9)];
                    match r.below(5) {
                        0 => { t += n; fs.push((feat_hash(&Feat::Flag(n.into()), nh) & mask, (1f32 * wgt).to_bits())); }
                        1 => { t += &format!("{n}:{v}"); fs.push((feat_hash(&Feat::Flag(n.into()), nh) & mask, (v * wgt).to_bits())); }
                        2 => { let s = ["red", "blue", "x1", "ünï", "1a"][r.below(5)]; t += &format!("{n}:{s}"); fs.push((feat_hash(&Feat::Str(n.into(), s.into()), nh) & mask, (1f32 * wgt).to_bits())); }
                        3 => { t += &format!(":{v}"); fs.push((nh.wrapping_add(pos) & mask, (v * wgt).to_bits())); pos += 1; }
                        _ => { let s = ["red", "abc"][r.below(2)]; t += &format!(":{s}"); fs.push((feat_hash(&Feat::Str("".into(), s.into()), nh) & mask, (1f32 * wgt).to_bits())); }
                    }
                    t += [" ", "  ", "\t"][r.below(3)];
                }
            }
            h.case(|| format!("seed {seed} bits {bits} {t:?}"), || {
                let (a, _, l) = parse(0, &t, false, seed, bits)?;
                ensure!(lab(&l) == lab(&label), "label {}, written {}", lab(&l), lab(&label));
                ensure!(a[0] == want, "features {}, written {}", show(&a[0]), show(&want));
                Ok(want.values().map(|f| f.len()).sum::<usize>() >= 2)
            });
        }
        h.group("vwcb", "multi-line VW text: shared line or not, the labelled action at every position, its written action number irrelevant, no label, tags, two labels rejected; non-trivial: labelled");
        let mut r = h.rng();
        for _ in 0..h.n(2000, 40000) {
            let n = 1 + r.below(5);
            let shared = r.bool();
            let lab_at = if r.chance(3, 4) { Some((r.below(n), r.below(9), val(&mut r), [0.5f32, 1.0, 0.125, 1e-7][r.below(4)])) } else { None };
            let second = if n > 1 && lab_at.is_some() && r.chance(1, 6) { Some((lab_at.unwrap().0 + 1 + r.below(n - 1)) % n) } else { None };
            let mut ls = vec![];
            if shared { ls.push(format!("shared{} |s sx sy:2", [" 'tag", ""][r.below(2)])); if ls[0].starts_with("shared |") {} }
            for i in 0..n {
                let mut s = String::new();
                if let Some((k, a, c, p)) = lab_at { if k == i || second == Some(i) { s += &format!("{a}:{c}:{p} "); } }
                match r.below(10) { 0 => s += "'tg ", 1 => s += "tg", 2 => s += "'tg", _ => () }
                s += &format!("|a i{i} z:{i}");
                ls.push(s);
            }
            let t = ls.join("\n");
            h.case(|| format!("{t:?}"), || {
                let x = parse(0, &t, true, 0, 18);
                if second.is_some() { ensure!(x.is_err(), "two labelled actions are accepted"); return Ok(true); }
                let (a, s, l) = x?;
                ensure!(s.is_some() == shared, "shared present: {}", s.is_some());
                ensure!(a.len() == n, "{} actions instead of {n}", a.len());
                let nh = ns_of("a", 0);
                for (i, v) in a.iter().enumerate() { ensure!(v.get(&nh.0).map(|f| f.len()) == Some(2) && v.len() == 1 && v[&nh.0][1].1 == (i as f32).to_bits(), "action {i} is {}", show(v)); }
                ensure!(lab(&l) == lab(&lab_at.map(|(k, _, c, p)| Label::CB(CBLabel::new(k, c, p)))), "label {}", lab(&l));
                Ok(lab_at.is_some())
            });
        }
        h.group("dsjson", "dsjson contexts: underscore keys at any depth skipped, nested objects and arrays of objects become namespaces, null array entries keep positions, booleans, labelled and unlabelled; non-trivial: all");
        let mut r = h.rng();
        for _ in 0..h.n(1500, 30000) {
            let bits = 18;
            let mask = (1u32 << bits) - 1;
            fn obj(r: &mut Rng, depth: usize, ns: &str, out: &mut View, mask: u32) -> serde_json::Value {
                let mut m = serde_json::Map::new();
                for _ in 0..r.below(5) {
                    let key = if r.chance(1, 12) { "_".to_string() } else { format!("{}{}", ["k", "user", "ü", "_skip", "_tag", "1", " k", "k "][r.below(8)], r.below(30)) };
                    if m.contains_key(&key) { continue; }
                    let skip = key.starts_with('_');
                    let mut sink = View::new();
                    let o: &mut View = if skip { &mut sink } else { out };
                    let (n, nh) = ns_of(ns, 0);
                    let v = match r.below(if depth == 0 { 4 } else { 7 }) {
                        0 => { let x = val(r); o.entry(n).or_default().push((feat_hash(&Feat::Flag(key.clone()), nh) & mask, x.to_bits())); serde_json::json!(x as f64) }
                        1 => { let v = ["vé", " v ", "", "1", "a:b|c", "v\n\"w"][r.below(6)]; o.entry(n).or_default().push((feat_hash(&Feat::Str(key.clone(), v.into()), nh) & mask, 1f32.to_bits())); serde_json::json!(v) }
                        2 => { o.entry(n).or_default().push((feat_hash(&Feat::Flag(key.clone()), nh) & mask, 1f32.to_bits())); serde_json::json!(true) }
                        3 => serde_json::json!(false),
                        4 => obj(r, depth - 1, &key, o, mask),
                        5 => { let (n2, h2) = ns_of(&key, 0); serde_json::Value::Array((0..if r.chance(1, 40) { 290 } else { r.below(4) }).map(|i| if r.chance(1, 4) { serde_json::Value::Null } else { let x = val(r); o.entry(n2).or_default().push((h2.wrapping_add(i as u32) & mask, x.to_bits())); serde_json::json!(x as f64) }).collect()) }
                        _ => serde_json::Value::Array((0..r.below(3)).map(|_| obj(r, depth - 1, &key, o, mask)).collect()),
                    };
                    m.insert(key, v);
                }
                serde_json::Value::Object(m)
            }
            let mut sh = View::new();
            let mut c = obj(&mut r, 2, " ", &mut sh, mask);
            let n = if r.chance(1, 100) { 300 } else { 1 + r.below(3) };
            let mut acts = vec![]; let mut av = vec![];
            for _ in 0..n { let mut v = View::new(); acts.push(obj(&mut r, 2, " ", &mut v, mask)); av.push(v); }
            c["_multi"] = serde_json::Value::Array(acts);
            let mut o = serde_json::json!({"c": c, "p": [0.5, 0.5], "a": [2, 1], "_label_Action": 1, "VWState": {"m": "x"}});
            let label = if r.bool() { let l = (r.below(n), val(&mut r), 0.25f32); o["_label_cost"] = serde_json::json!(l.1 as f64); o["_label_probability"] = serde_json::json!(0.25); o["_labelIndex"] = serde_json::json!(l.0); Some(Label::CB(CBLabel::new(l.0, l.1, l.2))) } else { None };
            let t = o.to_string();
            h.case(|| t.clone(), || {
                let (a, s, l) = parse(2, &t, true, 0, bits)?;
                ensure!(lab(&l) == lab(&label), "label {}, written {}", lab(&l), lab(&label));
                let s = s.ok_or("no shared features")?;
                ensure!(norm(&s, true) == norm(&sh, true), "shared {}, written {}", show(&norm(&s, true)), show(&norm(&sh, true)));
                ensure!(a.len() == av.len(), "{} actions", a.len());
                for (x, y) in a.iter().zip(&av) { ensure!(norm(x, true) == norm(y, true), "action {}, written {}", show(&norm(x, true)), show(&norm(y, true))); }
                Ok(true)
            });
        }
        h.group("jsonrand", "random JSON examples: keys and strings with blanks, quotes, digits, nothing in them, true and false, whole and fractional numbers, long arrays with tiny numbers, strings in arrays; non-trivial: at least 2 features");
        let mut r = h.rng();
        for _ in 0..h.n(2000, 40000) {
            let (seed, bits) = ([0u32, 7, u32::MAX][r.below(3)], [18u8, 10, 31][r.below(3)]);
            let mask = ((1u64 << bits) - 1) as u32;
            let mut want = View::new();
            let mut m = serde_json::Map::new();
            for _ in 0..r.below(4) {
                let nsn = ["a", "_a", " ", ":default", "é ", "ns 1", "1"][r.below(7)];
                if m.contains_key(nsn) || (nsn == " " && m.contains_key(":default")) || (nsn == ":default" && m.contains_key(" ")) { continue; }
                let (ns, nh) = ns_of(nsn, seed);
                let fs = want.entry(ns).or_default();
                let v = match r.below(3) {
                    0 => { let long = r.chance(1, 30); serde_json::Value::Array((0..1 + if long { 400 } else { r.below(4) }).map(|i| { let x = val(&mut r); fs.push((nh.wrapping_add(i as u32) & mask, x.to_bits())); serde_json::json!(x as f64) }).collect()) }
                    1 => serde_json::Value::Array((0..1 + r.below(4)).map(|_| { let k = ["x", " y", "", "1", "x"][r.below(5)]; fs.push((feat_hash(&Feat::Flag(k.into()), nh) & mask, 1f32.to_bits())); serde_json::json!(k) }).collect()),
                    _ => { let mut o = serde_json::Map::new();
                        for _ in 0..r.below(6) {
                            let k = ["k", "", " k", "k ", "_k", "ü", "1", "k:1", "a|b"][r.below(9)];
                            if o.contains_key(k) { continue; }
                            let x = match r.below(5) {
                                0 => serde_json::json!(false),
                                1 => { fs.push((feat_hash(&Feat::Flag(k.into()), nh) & mask, 1f32.to_bits())); serde_json::json!(true) }
                                2 => { let s = ["v", "", " v", "v ", "1", "a\"b", "a\nb", "true"][r.below(8)]; fs.push((feat_hash(&Feat::Str(k.into(), s.into()), nh) & mask, 1f32.to_bits())); serde_json::json!(s) }
                                3 => { let x = val(&mut r); fs.push((feat_hash(&Feat::Flag(k.into()), nh) & mask, x.to_bits())); serde_json::json!(x as f64) }
                                _ => { let x = r.next() as i64 >> r.below(64); fs.push((feat_hash(&Feat::Flag(k.into()), nh) & mask, (x as f64 as f32).to_bits())); serde_json::json!(x) }
                            };
                            o.insert(k.into(), x);
                        }
                        serde_json::Value::Object(o) }
                };
                m.insert(nsn.into(), v);
            }
            let t = serde_json::json!({"features": m}).to_string();
            h.case(|| format!("seed {seed} bits {bits} {t}"), || {
                let (a, _, l) = parse(1, &t, false, seed, bits)?;
                ensure!(l.is_none(), "a label nobody wrote");
                ensure!(norm(&a[0], true) == norm(&want, true), "features {}, written {}", show(&norm(&a[0], true)), show(&norm(&want, true)));
                Ok(want.values().map(|f| f.len()).sum::<usize>() >= 2)
            });
        }
        h.group("json", "JSON specifics: arrays of strings, number and object labels, default namespace under both spellings, example order kept in arrays; non-trivial: all");
        for (t, want, label) in [
            (r#"{"features": {"a": ["x", "y", "x"], " ": {"q": 2.5}, "n": [1, 0, -3.5]}, "label": 2}"#, vec![("a", vec![("x", 1.0f32), ("y", 1.0), ("x", 1.0)]), ("", vec![("q", 2.5)]), ("n", vec![("#0", 1.0), ("#1", 0.0), ("#2", -3.5)])], Some((2.0f32, 1.0f32))),
            (r#"{"label": {"value": -1.5, "weight": 0.25}, "features": {":default": {"q": 1, "f": false, "t": true}}}"#, vec![("", vec![("q", 1.0), ("t", 1.0)])], Some((-1.5, 0.25))),
            (r#"{"features": {"é": {"k": "v"}}}"#, vec![("é", vec![("k=v", 1.0)])], None),
            (r#"{"features": {}}"#, vec![], None),
        ] {
            h.case(|| t.to_string(), || {
                let (a, _, l) = parse(1, t, false, 3, 20)?;
                let mut v = View::new();
                for (n, fs) in &want { let (ns, nh): (Namespace, u32) = ns_of(n, 3); let e = v.entry(ns).or_default();
                    for (f, x) in fs { let i = if let Some(p) = f.strip_prefix('#') { nh.wrapping_add(p.parse().unwrap()) } else if let Some((a, b)) = f.split_once('=') { feat_hash(&Feat::Str(a.into(), b.into()), nh) } else { feat_hash(&Feat::Flag(f.to_string()), nh) }; e.push((i & ((1 << 20) - 1), x.to_bits())); } }
                ensure!(norm(&a[0], true) == norm(&v, true), "features {}, written {}", show(&a[0]), show(&v));
                ensure!(lab(&l) == lab(&label.map(|(v, w)| Label::Simple(SimpleLabel::new(v, w)))), "label {}", lab(&l));
                let _ = lshow(&a);
                Ok(true)
            });
        }
    });
}
