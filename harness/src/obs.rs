//! an observing reduction, put at the bottom of (or inside) a real stack
use crate::feats::*;
use reductionml_core::reduction::{DepthInfo, ReductionImpl, ReductionWrapper};
use reductionml_core::types::*;
use reductionml_core::workspace::Workspace;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Predict, Learn, PredictThenLearn }

#[derive(Clone, Debug)]
pub struct Call {
    pub who: u32,
    pub kind: Kind,
    pub feats: Vec<View>,
    pub label: Option<Label>,
    pub abs: u8,
    pub offset: u8,
}

thread_local! {
    pub static LOG: RefCell<Vec<Call>> = RefCell::new(vec![]);
    /// scalar predictions to hand out, as (prediction, raw_prediction)
    pub static SCALARS: RefCell<VecDeque<(f32, f32)>> = RefCell::new(VecDeque::new());
    /// action scores to hand out
    pub static SCORES: RefCell<Vec<(usize, f32)>> = RefCell::new(vec![]);
}
pub fn take_log() -> Vec<Call> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
pub fn set_scalars(v: &[(f32, f32)]) { SCALARS.with(|s| *s.borrow_mut() = v.iter().cloned().collect()) }
pub fn set_scores(v: &[f32]) { SCORES.with(|s| *s.borrow_mut() = v.iter().cloned().enumerate().collect()) }

pub fn abs_of(d: &DepthInfo) -> u8 {
    assert!(std::mem::size_of::<DepthInfo>() == 1);
    unsafe { *(d as *const DepthInfo as *const u8) }
}

/// kind: 0 scalar, 1 action scores. The scripted predictions come first; otherwise a fixed function of the features.
#[derive(Serialize, Deserialize)]
pub struct Observer { pub who: u32, pub kind: u8 }

pub fn fscore(v: &[View]) -> f32 {
    let mut h: u64 = 1469598103934665603;
    for m in v { for (n, fs) in m { for (i, x) in fs {
        let k = (u32::from(n.hash()) as u64) ^ ((*i as u64) << 20) ^ ((*x as u64) << 7);
        h = (h ^ k).wrapping_mul(1099511628211); h ^= h >> 29; } } }
    ((h >> 40) as f32) / 65536.0 - 100.0
}

impl Observer {
    fn pred(&self, v: &[View]) -> Prediction {
        if self.kind == 1 {
            Prediction::ActionScores(ActionScoresPrediction(SCORES.with(|s| s.borrow().clone())))
        } else {
            let (p, r) = SCALARS.with(|s| s.borrow_mut().pop_front()).unwrap_or_else(|| { let x = fscore(v); (x / 2.0, x) });
            Prediction::Scalar(ScalarPrediction { prediction: p, raw_prediction: r })
        }
    }
    fn log(&self, kind: Kind, f: &Features, l: Option<&Label>, d: &DepthInfo, o: ModelIndex) -> Vec<View> {
        let v = fview(f);
        LOG.with(|g| g.borrow_mut().push(Call { who: self.who, kind, feats: v.clone(), label: l.cloned(), abs: abs_of(d), offset: u8::from(o) }));
        v
    }
}

#[typetag::serde]
impl ReductionImpl for Observer {
    fn predict(&self, f: &mut Features, d: &mut DepthInfo, o: ModelIndex) -> Prediction {
        let v = self.log(Kind::Predict, f, None, d, o);
        self.pred(&v)
    }
    fn predict_then_learn(&mut self, f: &mut Features, l: &Label, d: &mut DepthInfo, o: ModelIndex) -> Prediction {
        let v = self.log(Kind::PredictThenLearn, f, Some(l), d, o);
        self.pred(&v)
    }
    fn learn(&mut self, f: &mut Features, l: &Label, d: &mut DepthInfo, o: ModelIndex) {
        self.log(Kind::Learn, f, Some(l), d, o);
    }
    fn children(&self) -> Vec<&ReductionWrapper> { vec![] }
}

fn replace(v: &mut Value, target: &str, with: &Value) -> usize {
    match v {
        Value::Object(m) => {
            if m.get("type").and_then(|t| t.as_str()) == Some(target) {
                *v = with.clone();
                return 1;
            }
            m.values_mut().map(|x| replace(x, target, with)).sum()
        }
        Value::Array(a) => a.iter_mut().map(|x| replace(x, target, with)).sum(),
        _ => 0,
    }
}

pub fn workspace(cfg: Value) -> Result<Workspace, String> {
    let c = cfg.try_into().map_err(|e: reductionml_core::error::Error| e.to_string())?;
    Workspace::new(c).map_err(|e| e.to_string())
}

/// the configured stack with the implementation of type `target` replaced by an observer
pub fn observed(cfg: Value, target: &str, kind: u8) -> Result<Workspace, String> {
    let w = workspace(cfg)?;
    let mut j = w.serialize_to_json().map_err(|e| e.to_string())?;
    let n = replace(&mut j, target, &json!({"type": "Observer", "who": 0, "kind": kind}));
    if n != 1 { return Err(format!("expected one {target} in the stack, found {n}")); }
    Workspace::deserialize_from_json(&j).map_err(|e| e.to_string())
}

pub fn coin(bits: u8) -> (Value, Value) {
    (json!({"numBits": bits}), json!({"typename": "Coin"}))
}
pub fn conf(global: Value, entry: Value) -> Value { json!({"globalConfig": global, "entryReduction": entry}) }
/// the complete serialised state of a workspace
pub fn state(w: &Workspace) -> Result<Value, String> { w.serialize_to_json().map_err(|e| e.to_string()) }

pub fn simple(v: f32, w: f32) -> Label { Label::Simple(SimpleLabel::new(v, w)) }
pub fn scalar(p: &Prediction) -> Result<(f32, f32), String> {
    match p { Prediction::Scalar(s) => Ok((s.prediction, s.raw_prediction)), x => Err(format!("not a scalar prediction: {:?}", x)) }
}
pub fn lab_eq(a: &Option<Label>, b: &Option<Label>) -> bool { format!("{:?}", a) == format!("{:?}", b) }

fn find_weights<'a>(v: &'a Value) -> Option<&'a Value> {
    match v {
        Value::Object(m) => {
            if m.contains_key("weights") && m.contains_key("feature_state_size") { return Some(v); }
            m.values().find_map(find_weights)
        }
        Value::Array(a) => a.iter().find_map(find_weights),
        _ => None,
    }
}
/// non-zero weight blocks of the (single) base regressor in the stack: feature index -> state of model 0
pub fn coin_state(w: &Workspace) -> Result<std::collections::BTreeMap<u32, Vec<f32>>, String> { coin_state_json(&state(w)?) }
pub fn coin_state_json(j: &Value) -> Result<std::collections::BTreeMap<u32, Vec<f32>>, String> {
    let t = find_weights(j).ok_or("no weights in the model")?;
    let m = t["weights"].as_object().ok_or("weights are not an object")?;
    let mut out = std::collections::BTreeMap::new();
    for (k, v) in m {
        let blk = v.as_array().and_then(|a| a.first()).and_then(|a| a.as_array()).ok_or("bad block")?;
        out.insert(k.parse().map_err(|_| "bad index")?, blk.iter().map(|x| x.as_f64().map(|x| x as f32).unwrap_or(f32::NAN)).collect());
    }
    Ok(out)
}
/// the same model with these weight blocks (model 0) and top-level regressor fields
pub fn with_coin(w: &Workspace, blocks: &std::collections::BTreeMap<u32, Vec<f32>>, fields: &[(&str, Value)]) -> Result<Workspace, String> {
    fn go(v: &mut Value, blocks: &std::collections::BTreeMap<u32, Vec<f32>>, fields: &[(&str, Value)]) -> bool {
        match v {
            Value::Object(m) => {
                if m.get("type").and_then(|t| t.as_str()) == Some("CoinRegressor") {
                    m["weights"]["weights"] = Value::Object(blocks.iter().map(|(k, b)| (k.to_string(), json!([b]))).collect());
                    for (k, x) in fields { m.insert(k.to_string(), x.clone()); }
                    return true;
                }
                m.values_mut().any(|x| go(x, blocks, fields))
            }
            Value::Array(a) => a.iter_mut().any(|x| go(x, blocks, fields)),
            _ => false,
        }
    }
    let mut j = state(w)?;
    if !go(&mut j, blocks, fields) { return Err("no base regressor".into()); }
    Workspace::deserialize_from_json(&j).map_err(|e| e.to_string())
}
pub fn coin_field(w: &Workspace, k: &str) -> Result<Value, String> {
    fn go<'a>(v: &'a Value) -> Option<&'a Value> {
        match v {
            Value::Object(m) => if m.get("type").and_then(|t| t.as_str()) == Some("CoinRegressor") { Some(v) } else { m.values().find_map(go) },
            Value::Array(a) => a.iter().find_map(go),
            _ => None,
        }
    }
    let s = state(w)?;
    Ok(go(&s).ok_or("no base regressor")?[k].clone())
}
