//! C21: reduction names and configuration
use harness::*;
use harness::obs::*;
use reductionml_core::reduction_factory::PascalCaseString;
use reductionml_core::workspace::{Configuration, Workspace};
use serde_json::{json, Value};

fn ok(s: &str) -> bool { let mut c = s.chars(); matches!(c.next(), Some(x) if x.is_ascii_uppercase()) && s.chars().all(|x| x.is_ascii_alphanumeric()) }
fn build(v: &Value) -> Result<Workspace, String> { Workspace::new(Configuration::from_json_str(&v.to_string()).map_err(|e| e.to_string())?).map_err(|e| e.to_string()) }
fn put(v: &mut Value, path: &[&str], key: &str, x: Value) { let mut p = v; for k in path { p = &mut p[*k]; } p[key] = x; }

fn main() {
    run("C21", |h| {
        h.group("names", "every string up to length 4 over a small alphabet covering the character classes and their neighbours, and random longer ones, through both conversions; non-trivial: accepted");
        let al: Vec<char> = "AZaz09_- @[`{/:é".chars().chain(['\u{391}', '\u{1D400}', '٣', 'M', 'm', '5', '\0']).collect();
        let one = |h: &mut H, s: String| {
            h.case(|| format!("{:?}", s), || {
                let a: Result<PascalCaseString, _> = s.as_str().try_into();
                let b: Result<PascalCaseString, _> = s.clone().try_into();
                ensure!(a.is_ok() == ok(&s), "from a str: accepted {}", a.is_ok());
                ensure!(b.is_ok() == ok(&s), "from a string: accepted {}", b.is_ok());
                if let (Ok(a), Ok(b)) = (a, b) {
                    ensure!(a.as_ref() == s && b.as_ref() == s && a.to_string() == s && String::from(b.clone()) == s, "the accepted name is {:?}", a.as_ref());
                    return Ok(true);
                }
                Ok(false)
            })
        };
        for len in 0..=h.n(3, 4) { for code in 0..al.len().pow(len as u32) { let mut c = code; let s: String = (0..len).map(|_| { let x = al[c % al.len()]; c /= al.len(); x }).collect(); one(h, s); } }
        for i in 0..=0x250u32 { if let Some(c) = char::from_u32(i) { for s in [c.to_string(), format!("A{c}"), format!("{c}b"), format!("Ab{c}9")] { one(h, s); } } }
        let mut r = h.rng();
        for _ in 0..h.n(2000, 30000) { let s: String = (0..r.below(20)).map(|_| al[r.below(al.len())]).collect(); one(h, format!("{}{}", ["", "A", "Cb"][r.below(3)], s)); }

        let leaf = json!({"typename": "Coin", "config": {}});
        let cb = json!({"typename": "CbAdf", "config": {"regressor": leaf}});
        let stacks: Vec<(Value, Vec<Vec<&str>>)> = vec![
            (leaf.clone(), vec![vec!["config"]]),
            (json!({"typename": "Binary", "config": {"regressor": leaf}}), vec![vec!["config"], vec!["config", "regressor", "config"]]),
            (json!({"typename": "Debug", "config": {"next": leaf}}), vec![vec!["config"], vec!["config", "next", "config"]]),
            (json!({"typename": "ElementwiseInteraction", "config": {"regressor": leaf}}), vec![vec!["config"], vec!["config", "regressor", "config"]]),
            (cb.clone(), vec![vec!["config"], vec!["config", "regressor", "config"]]),
            (json!({"typename": "CbExploreAdfGreedy", "config": {"cbAdf": cb}}), vec![vec!["config"], vec!["config", "cbAdf", "config"], vec!["config", "cbAdf", "config", "regressor", "config"]]),
            (json!({"typename": "CbExploreAdfSoftmax", "config": {"cbAdf": cb}}), vec![vec!["config"], vec!["config", "cbAdf", "config"]]),
            (json!({"typename": "CbExploreAdfSquareCb", "config": {"cbAdf": cb}}), vec![vec!["config"], vec!["config", "cbAdf", "config"]]),
        ];
        h.group("unknown", "every shipped reduction: the stack builds; an unknown field at any level, an unknown reduction name at any level, and unknown top-level and global fields are each rejected with an error; non-trivial: all");
        for (e, levels) in &stacks {
            let base = conf(json!({"numBits": 4}), e.clone());
            h.case(|| base.to_string(), || { build(&base).map(|_| true).map_err(|x| format!("rejected: {x}")) });
            for l in levels {
                for f in ["unknownField", "Alpha", "num_bits", "regressors", ""] {
                    let mut v = base.clone();
                    let mut path = vec!["entryReduction"]; path.extend(l);
                    put(&mut v, &path, f, json!(1));
                    h.case(|| v.to_string(), || { ensure!(build(&v).is_err(), "an unknown field {f:?} is accepted"); Ok(true) });
                }
                for n in ["Nope", "coin", "", "Coin ", "COIN", "CoinRegressor", "Cb-Adf", "CoinX", "Coi"] {
                    let mut v = base.clone();
                    let mut path = vec!["entryReduction"]; path.extend(&l[..l.len() - 1]);
                    put(&mut v, &path, "typename", json!(n));
                    h.case(|| v.to_string(), || { ensure!(build(&v).is_err(), "the unknown reduction {n:?} is accepted"); Ok(true) });
                }
            }
        }
        for (path, key) in [(vec![], "extra"), (vec![], "entry_reduction"), (vec!["globalConfig"], "extra"), (vec!["globalConfig"], "num_bits"), (vec!["globalConfig"], "constantFeature")] {
            let mut v = conf(json!({"numBits": 4}), leaf.clone());
            put(&mut v, &path, key, json!(1));
            h.case(|| v.to_string(), || { ensure!(build(&v).is_err(), "an unknown field is accepted"); Ok(true) });
        }
        for v in [json!({}), json!({"globalConfig": {}}), json!({"entryReduction": leaf}), json!([]), json!(1), json!({"globalConfig": {"numBits": "x"}, "entryReduction": leaf}), json!({"globalConfig": {}, "entryReduction": {"config": {}}})] {
            h.case(|| v.to_string(), || { ensure!(build(&v).is_err(), "an incomplete configuration is accepted"); Ok(true) });
        }
        h.group("defaults", "leaving out a configuration, all of its fields, or single fields gives exactly the model built from the documented defaults written out; non-trivial: all");
        let g = json!({"numBits": 3});
        let coin = json!({"alpha": 4.0, "beta": 1.0, "l1Lambda": 0.0, "l2Lambda": 0.0, "lossFunction": {"Squared": {}}, "linkFunction": "Identity"});
        let cb_full = json!({"cbType": "mtr", "regressor": {"typename": "Coin", "config": coin}});
        let cbt = json!({"typename": "CbAdf", "config": cb_full});
        let full: Vec<(&str, Value)> = vec![
            ("Coin", coin.clone()),
            ("Binary", json!({"regressor": {"typename": "Coin", "config": coin}})),
            ("ElementwiseInteraction", json!({"regressor": {"typename": "Coin", "config": coin}, "one": "Default", "two": "Default", "keepOriginalFeatures": false})),
            ("CbAdf", cb_full.clone()),
            ("CbExploreAdfGreedy", json!({"epsilon": 0.05, "cbAdf": cbt})),
            ("CbExploreAdfSoftmax", json!({"uniformEpsilon": 0.0, "lambda": 1.0, "cbAdf": cbt})),
            ("CbExploreAdfSquareCb", json!({"uniformEpsilon": 0.0, "gammaScale": 10.0, "gammaExponent": 0.5, "cbAdf": cbt})),
        ];
        for (n, c) in &full {
            let full_state = |w: &Workspace| state(w);
            let mut variants = vec![json!({"typename": n}), json!({"typename": n, "config": {}}), json!({"typename": n, "config": null})];
            for k in c.as_object().unwrap().keys() { let mut m = c.clone(); m.as_object_mut().unwrap().remove(k); variants.push(json!({"typename": n, "config": m})); }
            for v in variants {
                h.case(|| v.to_string(), || {
                    let a = build(&conf(g.clone(), json!({"typename": n, "config": c}))).map_err(|e| format!("the written-out defaults are rejected: {e}"))?;
                    let b = build(&conf(g.clone(), v.clone()));
                    let b = b.map_err(|e| format!("rejected: {e}"))?;
                    let (x, y) = (full_state(&a)?, full_state(&b)?);
                    ensure!(x == y, "the model is {}, the documented defaults give {}", trunc(&y.to_string()), trunc(&x.to_string()));
                    Ok(true)
                });
            }
        }
        h.case(|| "global defaults".into(), || {
            let a = build(&conf(json!({}), leaf.clone()))?;
            ensure!(a.global_config().num_bits() == 18 && a.global_config().hash_seed() == 0 && a.global_config().constant_feature_enabled() && a.global_config().interactions().is_empty(), "global defaults");
            Ok(true)
        });
        h.case(|| "yaml and json configurations agree".into(), || {
            let v = conf(json!({"numBits": 3, "hashSeed": 4}), json!({"typename": "Binary"}));
            let a = Workspace::new(Configuration::from_yaml_str("globalConfig:\n  numBits: 3\n  hashSeed: 4\nentryReduction:\n  typename: Binary\n").map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            ensure!(state(&a)? == state(&build(&v)?)?, "different models");
            ensure!(Configuration::from_yaml_str("globalConfig:\n  numBits: 3\n  nope: 4\nentryReduction:\n  typename: Binary\n").is_err(), "unknown field in yaml accepted");
            Ok(true)
        });
    });
}
