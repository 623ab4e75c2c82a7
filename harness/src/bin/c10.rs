use harness::obs::*;
use harness::*;
use reductionml_core::reduction::*;
use reductionml_core::types::*;
use serde_json::{json, Value};

const L: [LabelType; 3] = [LabelType::Simple, LabelType::Binary, LabelType::CB];
const F: [FeaturesType; 2] = [FeaturesType::SparseSimple, FeaturesType::SparseCBAdf];
const P: [PredictionType; 4] = [PredictionType::Scalar, PredictionType::Binary, PredictionType::ActionScores, PredictionType::ActionProbs];

type Ty = (LabelType, FeaturesType, PredictionType);
const SCALAR: Ty = (LabelType::Simple, FeaturesType::SparseSimple, PredictionType::Scalar);
const KINDS: [&str; 7] = ["Coin", "Binary", "Debug", "ElementwiseInteraction", "CbAdf", "CbExploreAdfGreedy", "CbExploreAdfSoftmax"];

/// the rule each reduction declares: its own type given its child's, or no type
fn rule(kind: &str, child: Option<Ty>, child_ips: bool) -> Option<Ty> {
    match kind {
        "Coin" => Some(SCALAR),
        _ => {
            let c = child?;
            match kind {
                "Binary" => if c.0 == LabelType::Simple && c.2 == PredictionType::Scalar { Some((LabelType::Binary, c.1, PredictionType::Binary)) } else { None },
                "Debug" => Some(c),
                "ElementwiseInteraction" => if c.1 == FeaturesType::SparseSimple { Some(c) } else { None },
                "CbAdf" => if c == SCALAR { Some((LabelType::CB, FeaturesType::SparseCBAdf, PredictionType::ActionScores)) } else { None },
                _ => if c == (LabelType::CB, FeaturesType::SparseCBAdf, PredictionType::ActionScores) && !(kind == "CbExploreAdfSquareCb" && child_ips) { Some((LabelType::CB, FeaturesType::SparseCBAdf, PredictionType::ActionProbs)) } else { None },
            }
        }
    }
}
fn config(chain: &[(&str, bool)]) -> Value {
    let (k, ips) = chain[0];
    if k == "CbAdf" && chain.len() == 1 { return json!({"typename": k, "config": {"cbType": if ips { "ips" } else { "mtr" }}}); }
    if k == "Coin" || chain.len() == 1 { return json!({"typename": k}); }
    let c = config(&chain[1..]);
    let cfg = match k {
        "Debug" => json!({"id": "x", "next": c}),
        "Binary" | "ElementwiseInteraction" => json!({"regressor": c}),
        "CbAdf" => json!({"cbType": if ips { "ips" } else { "mtr" }, "regressor": c}),
        _ => json!({"cbAdf": c}),
    };
    json!({"typename": k, "config": cfg})
}
fn expect(chain: &[(&str, bool)]) -> Option<Ty> {
    let (k, _) = chain[0];
    if k == "Coin" { return rule(k, None, false); }
    if chain.len() == 1 {
        // defaults below: a regressor or a CbAdf
        let c = match k { "Debug" => None, "Binary" | "ElementwiseInteraction" | "CbAdf" => Some(SCALAR), _ => rule("CbAdf", Some(SCALAR), false) };
        return rule(k, c, false);
    }
    rule(k, expect(&chain[1..]), chain[1].0 == "CbAdf" && chain[1].1)
}

fn main() {
    run("C10", |h| {
        h.group("pairs", "the neighbour check on every parent and child type description, including absent exchanged types");
        let ol: Vec<Option<LabelType>> = std::iter::once(None).chain(L.iter().cloned().map(Some)).collect();
        let of: Vec<Option<FeaturesType>> = std::iter::once(None).chain(F.iter().cloned().map(Some)).collect();
        let op: Vec<Option<PredictionType>> = std::iter::once(None).chain(P.iter().cloned().map(Some)).collect();
        for (k, own) in [(LabelType::Simple, FeaturesType::SparseSimple, PredictionType::Scalar), (LabelType::CB, FeaturesType::SparseCBAdf, PredictionType::ActionProbs), (LabelType::Binary, FeaturesType::SparseCBAdf, PredictionType::Binary)].iter().enumerate() {
            for a in &ol { for b in &of { for c in &op { for l in L { for f in F { for p in P {
                h.case(|| format!("parent {:?} exchanging {:?} {:?} {:?} child {:?} {:?} {:?}", own, a, b, c, l, f, p), || {
                    let mut t = ReductionTypeDescriptionBuilder::new(own.0, own.1, own.2);
                    if let Some(x) = a { t = t.with_output_label_type(*x); }
                    if let Some(x) = b { t = t.with_output_features_type(*x); }
                    if let Some(x) = c { t = t.with_input_prediction_type(*x); }
                    let t = t.build();
                    ensure!(t.input_label_type() == own.0 && t.input_features_type() == own.1 && t.output_prediction_type() == own.2, "own types are not as built");
                    ensure!(t.output_label_type() == *a && t.output_features_type() == *b && t.input_prediction_type() == *c, "exchanged types are not as built");
                    // what the child itself exchanges further down must not matter
                    for deep in 0..2 {
                        let mut ch = ReductionTypeDescriptionBuilder::new(l, f, p);
                        if deep == 1 { ch = ch.with_output_label_type(own.0).with_output_features_type(own.1).with_input_prediction_type(own.2); }
                        let ch = ch.build();
                        let want = *a == Some(l) && *b == Some(f) && *c == Some(p);
                        let got = t.check_and_get_reason(&ch);
                        ensure!(got.is_none() == want, "accepted: {} expected: {want} ({:?})", got.is_none(), got);
                    }
                    Ok(k < 3)
                });
            } } } } } }
        }
        h.group("stacks", "building every chain of up to four shipped reductions (IPS and MTR), against the declared type rules");
        let mut kinds: Vec<(&str, bool)> = KINDS.iter().map(|k| (*k, false)).collect();
        kinds.push(("CbExploreAdfSquareCb", false));
        kinds.push(("CbAdf", true));
        let mut chains: Vec<Vec<(&str, bool)>> = vec![];
        let depth = h.n(3, 4);
        fn grow<'a>(c: Vec<(&'a str, bool)>, kinds: &[(&'a str, bool)], depth: usize, out: &mut Vec<Vec<(&'a str, bool)>>) {
            if !c.is_empty() { out.push(c.clone()); if c.last().unwrap().0 == "Coin" || c.len() == depth { return; } }
            for k in kinds { let mut d = c.clone(); d.push(*k); grow(d, kinds, depth, out); }
        }
        grow(vec![], &kinds, depth, &mut chains);
        // longer chains that should be accepted
        for top in ["Debug", "CbExploreAdfGreedy", "CbExploreAdfSoftmax", "CbExploreAdfSquareCb"] { for ips in [false, true] { for mid in ["Debug", "ElementwiseInteraction", "Binary"] {
            chains.push(vec![(top, false), ("Debug", false), ("CbAdf", ips), (mid, false), ("Debug", false), ("Coin", false)]);
            chains.push(vec![(top, false), ("CbAdf", ips), (mid, false), ("Coin", false)]);
            chains.push(vec![("Debug", false), (top, false), ("CbAdf", ips), ("Coin", false)]);
        } } }
        for c in chains {
            let cfg = config(&c);
            h.case(|| format!("{:?} {cfg}", c), || {
                let want = expect(&c);
                match (workspace(conf(json!({"numBits": 3}), cfg.clone())), want) {
                    (Ok(w), Some(t)) => {
                        let d = w.get_entry_reduction().types();
                        ensure!(d.input_label_type() == t.0 && d.input_features_type() == t.1 && d.output_prediction_type() == t.2, "type is ({:?} {:?} {:?}) expected {:?}", d.input_label_type(), d.input_features_type(), d.output_prediction_type(), t);
                        // at every level the exchanged types agree with the child
                        let mut n = w.get_entry_reduction();
                        loop {
                            let k = n.children();
                            if k.is_empty() { break; }
                            ensure!(k.len() == 1, "{} children", k.len());
                            let (p, q) = (n.types(), k[0].types());
                            ensure!(p.output_label_type() == Some(q.input_label_type()) && p.output_features_type() == Some(q.input_features_type()) && p.input_prediction_type() == Some(q.output_prediction_type()), "{} above {} does not agree", n.typename(), k[0].typename());
                            n = k[0];
                        }
                        ensure!(w.get_entry_reduction().typename() == c[0].0, "entry reduction is {}", w.get_entry_reduction().typename());
                        Ok(true)
                    }
                    (Err(_), None) => Ok(true),
                    (Ok(_), None) => Err("accepted although neighbouring types disagree".into()),
                    (Err(e), Some(_)) => Err(format!("rejected: {e}")),
                }
            });
        }
    });
}
