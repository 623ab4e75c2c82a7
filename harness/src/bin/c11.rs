use harness::feats::*;
use harness::obs::*;
use harness::*;
use reductionml_core::reduction::*;
use reductionml_core::types::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;

thread_local! { static SEEN: RefCell<Vec<(u32, u8, u8, char)>> = RefCell::new(vec![]); }
fn saw(id: u32, d: &DepthInfo, o: ModelIndex, k: char) { SEEN.with(|s| s.borrow_mut().push((id, abs_of(d), u8::from(o), k))) }

/// calls every child at every model index it has, and records what it is given itself
#[derive(Serialize, Deserialize)]
struct Node { id: u32, models: u8, kids: Vec<ReductionWrapper>, own_ptl: bool }
#[typetag::serde]
impl ReductionImpl for Node {
    fn predict(&self, f: &mut Features, d: &mut DepthInfo, o: ModelIndex) -> Prediction {
        saw(self.id, d, o, 'p');
        for i in 0..self.models { for k in &self.kids { let b = abs_of(d); k.predict(f, d, i.into()); assert!(abs_of(d) == b, "the caller's offset {b} became {} after predicting", abs_of(d)); } }
        Prediction::Binary(true.into())
    }
    fn learn(&mut self, f: &mut Features, l: &Label, d: &mut DepthInfo, o: ModelIndex) {
        saw(self.id, d, o, 'l');
        for i in (0..self.models).rev() { for k in &mut self.kids { let b = abs_of(d); k.learn(f, l, d, i.into()); assert!(abs_of(d) == b, "the caller's offset {b} became {} after learning", abs_of(d)); } }
    }
    fn predict_then_learn(&mut self, f: &mut Features, l: &Label, d: &mut DepthInfo, o: ModelIndex) -> Prediction {
        if self.own_ptl {
            saw(self.id, d, o, 'b');
            for i in 0..self.models { for k in &mut self.kids { let b = abs_of(d); k.predict_then_learn(f, l, d, i.into()); assert!(abs_of(d) == b, "the caller's offset {b} became {} after predict-then-learn", abs_of(d)); } }
            Prediction::Binary(true.into())
        } else { // what the trait does by default, through the trait
            let b = abs_of(d);
            let p = DefaultPtl(self).run(f, l, d, o);
            assert!(abs_of(d) == b, "the caller's offset {b} became {} after the default predict-then-learn", abs_of(d));
            p
        }
    }
    fn children(&self) -> Vec<&ReductionWrapper> { self.kids.iter().collect() }
}
/// same node without an override
#[derive(Serialize, Deserialize)]
struct Plain { id: u32, models: u8, kids: Vec<ReductionWrapper> }
#[typetag::serde]
impl ReductionImpl for Plain {
    fn predict(&self, f: &mut Features, d: &mut DepthInfo, o: ModelIndex) -> Prediction {
        saw(self.id, d, o, 'p');
        for i in 0..self.models { for k in &self.kids { let b = abs_of(d); k.predict(f, d, i.into()); assert!(abs_of(d) == b); } }
        Prediction::Binary(true.into())
    }
    fn learn(&mut self, f: &mut Features, l: &Label, d: &mut DepthInfo, o: ModelIndex) {
        saw(self.id, d, o, 'l');
        for i in (0..self.models).rev() { for k in &mut self.kids { let b = abs_of(d); k.learn(f, l, d, i.into()); assert!(abs_of(d) == b); } }
    }
    fn children(&self) -> Vec<&ReductionWrapper> { self.kids.iter().collect() }
}
struct DefaultPtl<'a>(&'a mut Node);
impl<'a> DefaultPtl<'a> {
    fn run(&mut self, f: &mut Features, l: &Label, d: &mut DepthInfo, o: ModelIndex) -> Prediction { let p = self.0.predict(f, d, o); self.0.learn(f, l, d, o); p }
}
#[derive(Clone, Debug)]
struct Tree { id: u32, models: u8, below: u8, kids: Vec<Tree>, how: usize }
fn ty() -> ReductionTypeDescription { ReductionTypeDescriptionBuilder::new(LabelType::Binary, FeaturesType::SparseSimple, PredictionType::Binary).build() }
fn mk(t: &Tree) -> ReductionWrapper {
    let kids: Vec<ReductionWrapper> = t.kids.iter().map(mk).collect();
    let b: Box<dyn ReductionImpl> = if t.how == 0 { Box::new(Plain { id: t.id, models: t.models, kids }) } else { Box::new(Node { id: t.id, models: t.models, kids, own_ptl: t.how == 1 }) };
    ReductionWrapper::new("Node".try_into().unwrap(), b, ty(), t.below.into())
}
fn want(t: &Tree, call: char, base: u8, i: u8, out: &mut Vec<(u32, u8, u8, char)>) {
    let at = base + t.below * i;
    let one = |c: char, out: &mut Vec<_>| {
        out.push((t.id, at, i, c));
        let r: Vec<u8> = if c == 'l' { (0..t.models).rev().collect() } else { (0..t.models).collect() };
        for j in r { for k in &t.kids { want(k, c, at, j, out); } }
    };
    match call { 'b' if t.how != 1 => { one('p', out); one('l', out) } c => one(c, out) }
}
fn tree(r: &mut Rng, depth: usize, id: &mut u32) -> Tree {
    let me = *id; *id += 1;
    let kids: Vec<Tree> = if depth == 0 { vec![] } else { (0..1 + r.below(2)).map(|_| tree(r, depth - 1, id)).collect() };
    Tree { id: me, models: if depth <= 1 && r.chance(1, 8) { 6 } else { 1 + r.below(3) as u8 }, below: 1 + r.below(4) as u8, kids, how: r.below(3) }
}

fn main() {
    run("C11", |h| {
        h.group("trees", "random trees of recording reductions (up to three levels, several children, several models per level), entered at any model index and any starting offset, all three operations");
        let mut r = h.rng();
        for _ in 0..h.n(1500, 20000) {
            let mut id = 0;
            let depth = r.below(4);
            let t = tree(&mut r, depth, &mut id);
            let (call, i) = (['p', 'l', 'b'][r.below(3)], if depth <= 1 && r.chance(1, 6) { 9 } else { r.below(4) as u8 });
            let rounds = 1 + r.below(2);
            h.case(|| format!("{:?} call={call} model={i} rounds={rounds}", t), || {
                let mut w = mk(&t);
                let mut f = Features::SparseSimple(build(&[(ns(1), vec![(1, 1.0)])]));
                let l = Label::Binary(true.into());
                let mut d = DepthInfo::new();
                ensure!(abs_of(&d) == 0, "the first offset is {}", abs_of(&d));
                for _ in 0..rounds {
                    SEEN.with(|s| s.borrow_mut().clear());
                    match call { 'p' => { w.predict(&mut f, &mut d, i.into()); } 'l' => w.learn(&mut f, &l, &mut d, i.into()), _ => { w.predict_then_learn(&mut f, &l, &mut d, i.into()); } }
                    ensure!(abs_of(&d) == 0, "the caller's offset became {}", abs_of(&d));
                    let mut exp = vec![];
                    want(&t, call, 0, i, &mut exp);
                    let got = SEEN.with(|s| s.borrow().clone());
                    ensure!(got == exp, "calls (reduction, absolute offset, model, kind) {:?} expected {:?}", got, exp);
                }
                Ok(t.models > 1 || i > 0)
            });
        }
        h.group("shipped", "every shipped stack with the regressor observed: the offset reaching it and the offset after the call");
        let mut r = h.rng();
        for (nm, e, kind) in harness::stacks::stacks() {
            if nm.contains("logistic") { continue; }
            for mode in 0..3 {
                let (f, l) = harness::stacks::rand_example(&mut r, kind, 0, 8, 3);
                h.case(|| format!("{nm} mode={mode} {}", harness::stacks::desc(&f, &l)), || {
                    let mut f = f.clone();
                    let mut w = observed(conf(json!({"numBits": 8}), e.clone()), "CoinRegressor", 0)?;
                    take_log();
                    match mode { 0 => { w.predict(&mut f); } 1 => w.learn(&mut f, &l), _ => { w.predict_then_learn(&mut f, &l); } }
                    let log = take_log();
                    ensure!(!log.is_empty(), "the regressor is never called");
                    for c in &log { ensure!(c.abs == 0 && c.offset == 0, "the regressor is called at absolute offset {} with model {}", c.abs, c.offset); }
                    Ok(true)
                });
            }
        }
    });
}
