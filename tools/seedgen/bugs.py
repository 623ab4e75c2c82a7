C = "reductionml-core/src/"
RUN_RUST = '''#!/bin/bash
# run with cwd = the repository, after it was built
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -A warnings -L dependency=target/debug/deps --extern reductionml_core=target/debug/libreductionml_core.rlib -o "$t/demo" "$d/demo.rs" || exit 98
cd "$t" && timeout 250 ./demo
'''
RUN_CLI = '''#!/bin/bash
# run with cwd = the repository, after it was built
reml=$PWD/target/debug/reml
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 99
'''
DEMO_PRELUDE = '''#![allow(unused)]
use reductionml_core::sparse_namespaced_features::*;
use reductionml_core::workspace::*;
use reductionml_core::weights::*;
use reductionml_core::dense_weights::*;
use reductionml_core::parsers::*;
use reductionml_core::object_pool::*;
use reductionml_core::metrics::*;
use reductionml_core::utils::AsInner;
use reductionml_core::*;
fn ws(c: &str) -> Workspace { Workspace::new(Configuration::from_json_str(c).unwrap()).unwrap() }
fn feats(l: &[(Namespace, u32, f32)]) -> SparseFeatures {
    let mut f = SparseFeatures::new();
    for (n, i, v) in l { f.get_or_create_namespace(*n).add_feature((*i).into(), *v); }
    f
}
fn ns(n: &str) -> Namespace { Namespace::from_name(n, 0) }
fn scalar(w: &Workspace, f: &SparseFeatures) -> ScalarPrediction {
    let mut x = Features::SparseSimple(f.clone());
    let p = w.predict(&mut x);
    let s: &ScalarPrediction = p.as_inner().unwrap();
    ScalarPrediction { prediction: s.prediction, raw_prediction: s.raw_prediction }
}
fn need(c: bool, m: &str) { if !c { eprintln!("FAILED: {m}"); std::process::exit(1); } }
'''
BUGS = [
 dict(id="c01-model-shift", property="C01", needs="a number of models that is not a power of two", breaks="the model shift rounds down, so blocks of different (feature, model) pairs overlap and the last ones leave the storage",
  edits=[(C+"dense_weights.rs", "let model_index_size_shift = num_bits_to_represent(*model_index_size as u64 - 1) as usize;", "let model_index_size_shift = num_bits_to_represent(*model_index_size as u64) as usize - 1;")],
  rust='''fn main() {
    let mut w = DenseWeights::new(4.into(), 3.into(), 2.into()).unwrap();
    for f in 0..4u32 { for m in 0..3u8 { w.state_at_mut(f.into(), m.into()).copy_from_slice(&[(f * 10 + m as u32) as f32, 0.5]); } }
    for f in 0..4u32 { for m in 0..3u8 { need(w.state_at(f.into(), m.into()) == [(f * 10 + m as u32) as f32, 0.5], "a block was overwritten through another pair"); } }
}'''),
 dict(id="c02-constant-zero-bits", property="C02", needs="numBits = 0, the smallest feature space", breaks="the constant feature's index is rounded up and leaves the one-element feature space",
  edits=[(C+"sparse_namespaced_features.rs", "(u32::from(bits_to_max_feature_index(num_bits)) / 2).into()", "((u32::from(bits_to_max_feature_index(num_bits)) + 1) / 2).into()")],
  rust='''fn main() {
    for b in 0..20u8 { need((u32::from(constant_feature_index(b)) as u64) < (1u64 << b), &format!("constant index outside the space of {b} bits")); }
}'''),
 dict(id="c03-repeat-last-pair", property="C03", needs="a cubic interaction whose last two namespaces repeat while the first differs", breaks="each unordered choice of the repeated pair is visited twice",
  edits=[(C+"weights.rs", "let same_ns2 = ns2 == ns3;", "let same_ns2 = ns1 == ns2 && ns2 == ns3;")],
  rust='''fn main() {
    let f = feats(&[(ns("a"), 1, 2.0), (ns("b"), 2, 3.0), (ns("b"), 3, 5.0), (ns("b"), 4, 7.0)]);
    let w = DenseWeights::new(16.into(), 1.into(), 1.into()).unwrap();
    let mut vs = vec![];
    foreach_feature(0.into(), &f, &w, &[], &[(ns("a"), ns("b"), ns("b"))], 4, false, |v, _| vs.push(v));
    need(vs[4..] == [18.0, 30.0, 42.0, 50.0, 70.0, 98.0], &format!("{vs:?}"));
}'''),
 dict(id="c04-empty-namespace", property="C04", needs="shared features with a present but empty namespace which the action lacks", breaks="detaching the shared features leaves the empty namespace present on the action",
  edits=[(C+"sparse_namespaced_features.rs", "            if feats.active {\n                let container = self.get_or_create_namespace(*ns);", "            if feats.active && feats.size() > 0 {\n                let container = self.get_or_create_namespace(*ns);")],
  rust='''fn main() {
    let mut shared = feats(&[(ns("s"), 1, 1.0)]);
    shared.get_or_create_namespace(ns("empty"));
    let mut a = feats(&[(ns("a"), 2, 1.0)]);
    a.append(&shared); a.remove(&shared);
    need(a.get_namespace(ns("empty")).is_none() && a.get_namespace(ns("s")).is_none() && a.get_namespace(ns("a")).is_some(), "not restored");
}'''),
 dict(id="c05-clear-skips-empty", property="C05", needs="an example with an empty namespace parsed before the container is recycled", breaks="clearing skips namespaces without features, so an empty namespace survives into the next example",
  edits=[(C+"sparse_namespaced_features.rs", "for namespace in self.namespaces.values_mut() {\n            namespace.clear();", "for namespace in self.namespaces.values_mut().filter(|ns| ns.size() > 0) {\n            namespace.clear();")],
  rust='''fn main() {
    let pool = std::sync::Arc::new(Pool::new());
    let p = VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, 0, 18, pool.clone());
    let (f, _) = p.parse_chunk("1 |a x |empty").unwrap();
    f.clear_and_return_object(&pool);
    let (f, _) = p.parse_chunk("1 |b y").unwrap();
    let s: &SparseFeatures = f.as_inner().unwrap();
    need(s.get_namespace(ns("empty")).is_none(), "the previous example's namespace is present");
}'''),
 dict(id="c06-set-recycled", property="C06", needs="a namespace set in a container that had it before it was cleared", breaks="the replaced features reuse the old entry, which stays inactive after a clear, so the namespace is not present",
  edits=[(C+"sparse_namespaced_features.rs", "        namespace_features.set_active(true);\n        self.namespaces.insert(namespace, namespace_features);", "        namespace_features.set_active(true);\n        match self.namespaces.get_mut(&namespace) {\n            Some(existing) => {\n                existing.clear();\n                existing.feature_indices.append(&mut namespace_features.feature_indices);\n                existing.feature_values.append(&mut namespace_features.feature_values);\n            }\n            None => {\n                self.namespaces.insert(namespace, namespace_features);\n            }\n        }")],
  rust='''fn main() {
    let mut f = feats(&[(ns("a"), 1, 1.0), (ns("b"), 2, 1.0)]);
    f.clear();
    let mut n = SparseFeaturesNamespace::new(ns("a"));
    n.add_feature(3.into(), 2.0);
    f.set_namespace(ns("a"), n);
    need(f.get_namespace(ns("a")).map_or(0, |x| x.size()) == 1, "a namespace that was set is not there");
}'''),
 dict(id="c07-tiny-support", property="C07", needs="zeros excluded and a tiny non-zero probability", breaks="a tiny probability is left out of the support, so it does not get its share",
  edits=[(C+"explore.rs", "filter(|(_, p)| *p == 0.0).count()", "filter(|(_, p)| *p < 1e-6).count()"), (C+"explore.rs", "!consider_zero_valued_elements && prob == 0.0", "!consider_zero_valued_elements && prob < 1e-6"), (C+"explore.rs", "if consider_zero_valued_elements || *p > 0.0 {\n            *p = (*p - tau)", "if consider_zero_valued_elements || *p >= 1e-6 {\n            *p = (*p - tau)")],
  rust='''fn main() {
    let mut v = vec![(0usize, 0.6f32), (1, 1e-7), (2, 0.0), (3, 0.4)];
    reductionml_core::explore::enforce_min_prob(0.3, false, &mut v).unwrap();
    need(v[1].1 >= 0.0999 && v[2].1 == 0.0, &format!("{v:?}"));
}'''),
 dict(id="c08-tie-last", property="C08", needs="two actions tied for the lowest cost", breaks="epsilon-greedy favours the last of tied lowest-cost actions",
  edits=[(C+"reductions/cb_explore_adf_greedy.rs", "std::cmp::Ordering::Equal\n", "std::cmp::Ordering::Greater\n")],
  rust='''fn main() {
    let w = ws(r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbExploreAdfGreedy","config":{"epsilon":0.1}}}"#);
    let mut f = Features::SparseCBAdf(CBAdfFeatures { shared: None, actions: vec![feats(&[(ns("a"), 1, 1.0)]), feats(&[(ns("a"), 2, 1.0)]), feats(&[(ns("a"), 3, 1.0)])] });
    let p = w.predict(&mut f);
    let p: &ActionProbsPrediction = p.as_inner().unwrap();
    need(p.0[0].1 > 0.9, &format!("{:?}", p.0));
}'''),
 dict(id="c08-squarecb-ties", property="C08", needs="SquareCB with actions tied with the best one after learning", breaks="an action with the same score as the best one is skipped like the best one instead of getting 1/n",
  edits=[(C+"reductions/cb_explore_adf_squarecb.rs", "if *action == best_action {", "if *action == best_action || *score == best_score {")],
  rust='''fn main() {
    let w = ws(r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbExploreAdfSquareCb"}}"#);
    let mut f = Features::SparseCBAdf(CBAdfFeatures { shared: None, actions: vec![feats(&[(ns("a"), 1, 1.0)]), feats(&[(ns("a"), 2, 1.0)])] });
    let p = w.predict(&mut f);
    let p: &ActionProbsPrediction = p.as_inner().unwrap();
    let s: f32 = p.0.iter().map(|x| x.1).sum();
    need((s - 1.0).abs() < 1e-5 && (p.0[1].1 - 0.5).abs() < 1e-5, &format!("{:?}", p.0));
}'''),
 dict(id="c09-ips-clip", property="C09", needs="a logged probability below 0.02", breaks="the importance weight is clipped, so the IPS target is not cost/probability",
  edits=[(C+"reductions/cb_adf.rs", "(label.cost / label.probability).into()", "(label.cost / label.probability.max(0.02)).into()")],
  rust='''fn main() {
    let mut cb = ws(r#"{"globalConfig":{"numBits":6},"entryReduction":{"typename":"CbAdf","config":{"cbType":"ips"}}}"#);
    let mut co = ws(r#"{"globalConfig":{"numBits":6},"entryReduction":{"typename":"Coin"}}"#);
    let a = [feats(&[(ns("a"), 1, 1.0)]), feats(&[(ns("a"), 2, 1.0)])];
    for _ in 0..3 {
        let mut f = Features::SparseCBAdf(CBAdfFeatures { shared: None, actions: a.to_vec() });
        cb.learn(&mut f, &Label::CB(CBLabel { action: 1, cost: 1.0, probability: 0.01 }));
        for (i, x) in a.iter().enumerate() { co.learn(&mut Features::SparseSimple(x.clone()), &Label::Simple(SimpleLabel::from(if i == 1 { 1.0 / 0.01 } else { 0.0 }))); }
    }
    let mut f = Features::SparseCBAdf(CBAdfFeatures { shared: None, actions: a.to_vec() });
    let p = cb.predict(&mut f);
    let p: &ActionScoresPrediction = p.as_inner().unwrap();
    for i in 0..2 { need(p.0[i].1 == scalar(&co, &a[i]).raw_prediction, "the regressor was trained on another target"); }
}'''),
 dict(id="c09-mtr-zero-cost", property="C09", needs="an earlier event with zero cost and a number of actions different from the later ones", breaks="events with zero cost are left out of the MTR action count, so later weights are wrong",
  edits=[(C+"reductions/cb_adf.rs", "self.mtr_state.action_sum += cb_adf_features.actions.len();\n                self.mtr_state.event_sum += 1;", "if cb_label.cost != 0.0 || self.mtr_state.action_sum == 0 {\n                    self.mtr_state.action_sum += cb_adf_features.actions.len();\n                    self.mtr_state.event_sum += 1;\n                }")],
  rust='''fn main() {
    let mut cb = ws(r#"{"globalConfig":{"numBits":6},"entryReduction":{"typename":"CbAdf"}}"#);
    let mut co = ws(r#"{"globalConfig":{"numBits":6},"entryReduction":{"typename":"Coin"}}"#);
    let (mut ev, mut ac) = (0f32, 0f32);
    for (n, cost) in [(2usize, 1.0f32), (5, 0.0), (3, 2.0), (4, 0.5)] {
        let a: Vec<_> = (0..n as u32).map(|i| feats(&[(ns("a"), i, 1.0)])).collect();
        let mut f = Features::SparseCBAdf(CBAdfFeatures { shared: None, actions: a.clone() });
        cb.learn(&mut f, &Label::CB(CBLabel { action: 1, cost, probability: 0.5 }));
        ev += 1.0; ac += n as f32;
        co.learn(&mut Features::SparseSimple(a[1].clone()), &Label::Simple(SimpleLabel::new(cost, 1.0 / 0.5 * (ev / ac))));
    }
    let a = feats(&[(ns("a"), 1, 1.0)]);
    let mut f = Features::SparseCBAdf(CBAdfFeatures { shared: None, actions: vec![a.clone()] });
    let p = cb.predict(&mut f);
    let p: &ActionScoresPrediction = p.as_inner().unwrap();
    need(p.0[0].1 == scalar(&co, &a).raw_prediction, "the regressor was trained with another weight");
}'''),
 dict(id="c10-probs-as-scores", property="C10", needs="a policy stacked on another policy (action probabilities where action scores are expected)", breaks="the prediction-type check accepts probabilities in place of scores",
  edits=[(C+"reduction.rs", "if self.input_prediction_type != Some(base.output_prediction_type) {", "if self.input_prediction_type != Some(base.output_prediction_type)\n            && !(self.input_prediction_type == Some(PredictionType::ActionScores)\n                && base.output_prediction_type == PredictionType::ActionProbs)\n        {")],
  rust='''fn main() {
    let c = Configuration::from_json_str(r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbExploreAdfGreedy","config":{"cbAdf":{"typename":"CbExploreAdfGreedy"}}}}"#).unwrap();
    need(Workspace::new(c).is_err(), "a mismatching stack was accepted");
}'''),
 dict(id="c11-offset-bits", property="C11", needs="a caller's offset that shares bits with the requested model's", breaks="offsets are combined and separated bit by bit instead of by addition, so overlapping ones are wrong and not restored",
  edits=[(C+"reduction.rs", "(*self.offset + (*num_models_below * *i)).into()", "(*self.offset | (*num_models_below * *i)).into()"), (C+"reduction.rs", "(*self.offset - (*num_models_below * *i)).into()", "(*self.offset ^ (*num_models_below * *i)).into()")],
  rust='''use reductionml_core::reduction::*;
use reductionml_core::reduction_factory::*;
use reductionml_core::global_config::GlobalConfig;
fn main() {
    let reg = reductionml_core::reduction_registry::REDUCTION_REGISTRY.lock();
    let fac = reg.get("Coin").unwrap();
    let c = fac.parse_config(&fac.get_config_default()).unwrap();
    let w = fac.create(&*c, &GlobalConfig::default(), 1.into()).unwrap();
    // a caller which is itself at offset 3
    let mut d: DepthInfo = unsafe { std::mem::transmute::<u8, DepthInfo>(3) };
    w.predict(&mut Features::SparseSimple(feats(&[(ns("a"), 1, 1.0)])), &mut d, 1.into());
    let after = unsafe { std::mem::transmute::<DepthInfo, u8>(d) };
    need(after == 3, &format!("the caller's offset 3 became {after}"));
}'''),
 dict(id="c18-gallop", property="C18", needs="two namespaces whose offsets have gaps at different places", breaks="the merge skips as many features as the offsets differ, so a common offset after a gap is passed over",
  edits=[(C+"reductions/elementwise_interaction.rs", "        } else if idx1 < idx2 {\n            cur_1 = ns_one_it.next();\n        } else {\n            cur_2 = ns_two_it.next();", "        } else if idx1 < idx2 {\n            cur_1 = ns_one_it.nth((idx2 - idx1 - 1) as usize);\n        } else {\n            cur_2 = ns_two_it.nth((idx1 - idx2 - 1) as usize);")],
  rust='''fn main() {
    let bits = 8u32; let m = (1u32 << bits) - 1;
    let conf = r#"{"globalConfig":{"numBits":8,"constantFeatureEnabled":false},"entryReduction":{"typename":"ElementwiseInteraction","config":{"one":{"Name":"x"},"two":{"Name":"y"}}}}"#;
    let base = |n: &str| u32::from(ns(n).hash()) & m;
    let both = |xs: &[u32], ys: &[u32]| {
        let mut l: Vec<(Namespace, u32, f32)> = vec![];
        for o in xs { l.push((ns("x"), (base("x") + o) & m, 1.0)); }
        for o in ys { l.push((ns("y"), (base("y") + o) & m, 1.0)); }
        feats(&l)
    };
    let mut w = ws(conf);
    let mut f = Features::SparseSimple(both(&[7], &[7]));
    for _ in 0..5 { w.learn(&mut f, &Label::Simple(SimpleLabel::new(1.0, 1.0))); }
    let a = scalar(&w, &both(&[7], &[7])).raw_prediction;
    let b = scalar(&w, &both(&[0, 3, 7], &[7])).raw_prediction;
    need(a != 0.0, "nothing learned");
    need((a - b).abs() < a.abs() * 0.5 + 1e-6 && b != 0.0, &format!("{a} {b}"));
}'''),
 dict(id="c12-three-terms", property="C12", needs="an interacted feature of three or more terms", breaks="the running hash of the middle terms is multiplied before instead of after mixing the term in",
  edits=[(C+"inverse_hash_table.rs", "(FNV_PRIME).wrapping_mul(hash_so_far ^ *Feature::hash(term, hash_seed));", "(FNV_PRIME).wrapping_mul(hash_so_far) ^ *Feature::hash(term, hash_seed);")],
  rust='''use reductionml_core::inverse_hash_table::Feature;
fn main() {
    let t: Vec<Feature> = ["a", "b", "c"].iter().map(|n| Feature::Simple { namespace: n.to_string(), name: "x".to_string() }).collect();
    let mask = FeatureMask::from_num_bits(10);
    let mut f = SparseFeatures::new();
    for (n, t) in ["a", "b", "c"].iter().zip(&t) { f.get_or_create_namespace(ns(n)).add_feature(t.hash(0).mask(mask), 1.0); }
    let want = f.cubic_features(ns("a"), ns("b"), ns("c"), 10).unwrap().next().unwrap().0;
    need(Feature::Interacted { terms: t }.hash(0).mask(mask) == want, "the interacted feature has another index");
}'''),
 dict(id="c13-tiny-weights", property="C13", needs="a feature all of whose weights are tiny but not zero", breaks="features with weights of magnitude below 1.2e-7 are dropped from the nested-array form",
  edits=[(C+"dense_weights.rs", "if state.iter().any(|x| *x != 0.0) {", "if state.iter().any(|x| x.abs() > f32::EPSILON) {")],
  rust='''fn main() {
    let mut w = DenseWeights::new(4.into(), 1.into(), 2.into()).unwrap();
    w.state_at_mut(1.into(), 0.into())[1] = 1e-9;
    let b = DenseWeightsWithNDArray::from_dense_weights(w.clone()).to_dense_weights();
    need(b.state_at(1.into(), 0.into())[1] == 1e-9, "a weight was lost");
}'''),
 dict(id="c14-ips-clip", property="C14", needs="a logged probability below 0.01", breaks="the IPS estimate clips small logged probabilities",
  edits=[(C+"metrics/ips.rs", "let w = p_pred / p_log;", "let w = p_pred / p_log.max(0.01);")],
  rust='''fn main() {
    let mut m = IpsMetric::new();
    let f = Features::SparseSimple(SparseFeatures::new());
    m.add_point(&f, &Label::CB(CBLabel { action: 1, cost: -1.0, probability: 0.001 }), &Prediction::ActionProbs(ActionProbsPrediction(vec![(0, 0.5), (1, 0.5)])));
    match m.get_value() { MetricValue::Float(v) => need((v - 500.0).abs() < 1.0, &format!("{v}")), _ => need(false, "kind") }
}'''),
 dict(id="c15-cancel", property="C15", needs="a tiny prediction change per update with an ordinary step size", breaks="the guard against cancellation looks at the step size only, so the update rounds to zero",
  edits=[(C+"loss_function/squared_loss.rs", "if update_scale * pred_per_update < 1e-6 {", "if update_scale < 1e-6 {")],
  rust='''use reductionml_core::loss_function::*;
fn main() {
    let l: LossFunction = SquaredLoss::default().into();
    let u = l.get_update(0.0, 1.0, 1e-3, 1e-6);
    need((u - 2e-3).abs() < 1e-4, &format!("update {u}"));
}'''),
 dict(id="c16-raw-nan", property="C16", needs="a NaN weighted sum (a product of feature values that overflows, at weight 0)", breaks="only the clamped prediction replaces NaN; the raw prediction stays NaN",
  edits=[(C+"reductions/coin.rs", "        if prediction.is_nan() {\n            prediction = 0.0;\n        }\n", "        let raw_prediction = prediction;\n        if prediction.is_nan() {\n            prediction = 0.0;\n        }\n"), (C+"reductions/coin.rs", "raw_prediction: prediction,", "raw_prediction,")],
  rust='''fn main() {
    let w = ws(r#"{"globalConfig":{"numBits":4,"interactions":[[{"Name":"a"},{"Name":"b"}]]},"entryReduction":{"typename":"Coin"}}"#);
    let p = scalar(&w, &feats(&[(ns("a"), 1, 1e30), (ns("b"), 2, 1e30)]));
    need(!p.raw_prediction.is_nan() && !p.prediction.is_nan(), "NaN prediction");
}'''),
 dict(id="c17-coin-shortcut", property="C17", needs="predict-then-learn on the base regressor with a model that has seen examples", breaks="predict-then-learn returns the internal normalised prediction computed after the label was taken into account",
  edits=[(C+"reductions/coin.rs", "    fn learn(\n        &mut self,\n        features: &mut Features,\n        label: &Label,\n        _depth_info: &mut DepthInfo,\n        _model_offset: ModelIndex,\n    ) {\n        let sparse_feats", "    fn predict_then_learn(\n        &mut self,\n        features: &mut Features,\n        label: &Label,\n        _depth_info: &mut DepthInfo,\n        _model_offset: ModelIndex,\n    ) -> Prediction {\n        let prediction = self.learn_and_get_prediction(features, label);\n        ScalarPrediction {\n            prediction: self.config.link_function.link(prediction),\n            raw_prediction: prediction,\n        }\n        .into()\n    }\n\n    fn learn(\n        &mut self,\n        features: &mut Features,\n        label: &Label,\n        _depth_info: &mut DepthInfo,\n        _model_offset: ModelIndex,\n    ) {\n        self.learn_and_get_prediction(features, label);\n    }\n\n    fn children(&self) -> Vec<&ReductionWrapper> {\n        vec![]\n    }\n//CUT1\n        let sparse_feats"),
   (C+"reductions/coin.rs", "//CUT1\n        let sparse_feats: &SparseFeatures = features.as_inner().unwrap();\n        let simple_label: &SimpleLabel = label.as_inner().unwrap();\n\n        self.min_label = simple_label.value().min(self.min_label);\n        self.max_label = simple_label.value().max(self.max_label);\n        let _prediction = self.coin_betting_predict(sparse_feats, simple_label.weight());\n        self.coin_betting_update_after_predict(\n            sparse_feats,\n            _prediction,\n            simple_label.value(),\n            simple_label.weight(),\n        );\n    }\n\n    fn children(&self) -> Vec<&ReductionWrapper> {\n        vec![]\n    }\n", ""),
   (C+"reductions/coin.rs", "impl CoinRegressor {\n    fn coin_betting_predict(", "impl CoinRegressor {\n    fn learn_and_get_prediction(&mut self, features: &mut Features, label: &Label) -> f32 {\n        let sparse_feats: &SparseFeatures = features.as_inner().unwrap();\n        let simple_label: &SimpleLabel = label.as_inner().unwrap();\n\n        self.min_label = simple_label.value().min(self.min_label);\n        self.max_label = simple_label.value().max(self.max_label);\n        let prediction = self.coin_betting_predict(sparse_feats, simple_label.weight());\n        self.coin_betting_update_after_predict(\n            sparse_feats,\n            prediction,\n            simple_label.value(),\n            simple_label.weight(),\n        );\n        prediction\n    }\n\n    fn coin_betting_predict(")],
  rust='''fn main() {
    let mut w = ws(r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin"}}"#);
    for (i, l) in [(1u32, 0.5f32), (2, 1.0), (1, 3.0), (3, -2.0)] {
        let f = feats(&[(ns("a"), i, 1.5), (ns("b"), 5, 0.5)]);
        let before = scalar(&w, &f);
        let p = w.predict_then_learn(&mut Features::SparseSimple(f.clone()), &Label::Simple(SimpleLabel::from(l)));
        let p: &ScalarPrediction = p.as_inner().unwrap();
        need(p.prediction == before.prediction && p.raw_prediction == before.raw_prediction, &format!("{} vs {}", p.prediction, before.prediction));
    }
}'''),
 dict(id="c19-zero-is-true", property="C19", needs="predict-then-learn when the regressor predicts exactly 0", breaks="a prediction of exactly 0 counts as true on the predict-then-learn path only",
  edits=[(C+"reductions/binary.rs", "        let scalar_pred: &ScalarPrediction = pred.as_inner().unwrap();\n\n        Prediction::Binary((scalar_pred.prediction > 0.0).into())\n    }\n\n    fn learn(", "        let scalar_pred: &ScalarPrediction = pred.as_inner().unwrap();\n\n        Prediction::Binary((scalar_pred.prediction >= 0.0).into())\n    }\n\n    fn learn(")],
  rust='''fn main() {
    let mut w = ws(r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Binary"}}"#);
    let p = w.predict_then_learn(&mut Features::SparseSimple(feats(&[(ns("a"), 1, 1.0)])), &Label::Binary(true.into()));
    match p { Prediction::Binary(b) => need(format!("{b:?}").contains("false"), "true at 0"), _ => need(false, "kind") }
}'''),
 dict(id="c20-ref-compare", property="C20", needs="comparing a borrowed with an owned contextual-bandit example", breaks="the comparison treats a borrowed and an owned example with equal contents as different",
  edits=[(C+"types.rs", "Features::SparseCBAdf(_) | Features::SparseCBAdfRef(_),\n                Features::SparseCBAdf(_) | Features::SparseCBAdfRef(_),", "Features::SparseCBAdf(_),\n                Features::SparseCBAdf(_) | Features::SparseCBAdfRef(_),")],
  rust='''fn main() {
    // in a debug build the workspace itself compares the (borrowed) example with an owned copy after every call
    let w = ws(r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbAdf"}}"#);
    let mut c = CBAdfFeatures { shared: None, actions: vec![feats(&[(ns("a"), 1, 1.0)])] };
    w.predict(&mut (&mut c).into());
}'''),
 dict(id="c21-unicode-name", property="C21", needs="a type name with a non-ASCII letter, given as an owned string", breaks="non-ASCII letters and digits are accepted in reduction names",
  edits=[(C+"reduction_factory.rs", "        if value.chars().any(|c| !c.is_ascii_alphanumeric()) {\n            return Err(Error::InvalidArgument(\n                \"typename must only contain alphanumeric characters\".to_owned(),\n            ));\n        }\n        Ok(PascalCaseString(value))", "        if value.chars().any(|c| !c.is_alphanumeric()) {\n            return Err(Error::InvalidArgument(\n                \"typename must only contain alphanumeric characters\".to_owned(),\n            ));\n        }\n        Ok(PascalCaseString(value))")],
  rust='''use reductionml_core::reduction_factory::PascalCaseString;
fn main() {
    need(PascalCaseString::try_from("Caf\\u{e9}".to_string()).is_err(), "accepted");
    need(PascalCaseString::try_from("Cafe9".to_string()).is_ok(), "rejected");
}'''),
 dict(id="c22-signed-decay", property="C22", needs="learning while the model's first state slots already hold values at other indices", breaks="every learning step rescales all weights when the label leaves the seen range",
  edits=[(C+"reductions/coin.rs", "        self.min_label = simple_label.value().min(self.min_label);\n        self.max_label = simple_label.value().max(self.max_label);\n        let _prediction", "        if simple_label.value() > 2.0 * self.max_label && self.max_label > 0.0 {\n            let scale = self.max_label / simple_label.value();\n            for i in 0..(1_u32 << self.num_bits) {\n                *crate::weights::Weights::weight_at_mut(&mut self.weights, i.into(), 0.into()) *= scale;\n            }\n        }\n        self.min_label = simple_label.value().min(self.min_label);\n        self.max_label = simple_label.value().max(self.max_label);\n        let _prediction")],
  rust='''fn main() {
    let mut w = ws(r#"{"globalConfig":{"numBits":4,"constantFeatureEnabled":false},"entryReduction":{"typename":"Coin"}}"#);
    let a = feats(&[(ns("a"), 1, 1.0)]);
    for _ in 0..3 { w.learn(&mut Features::SparseSimple(a.clone()), &Label::Simple(SimpleLabel::from(1.0))); }
    let before = scalar(&w, &a).raw_prediction;
    w.learn(&mut Features::SparseSimple(feats(&[(ns("a"), 2, 1.0)])), &Label::Simple(SimpleLabel::from(5.0)));
    need(scalar(&w, &a).raw_prediction == before && before != 0.0, "a weight the example does not address moved");
}'''),
 dict(id="c23-short-line", property="C23", needs="a line of a multi-line example that holds a single character", breaks="a one-character line is taken for a blank line and ends the example early",
  edits=[(C+"parsers/vw_text_parser.rs", "if len_before > 0 && output_buffer.len() == len_before {", "if len_before > 0 && (bytes_read <= 2 || output_buffer.len() == len_before) {")],
  rust='''fn main() {
    let p = VwTextParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, 0, 18, std::sync::Arc::new(Pool::new()));
    let mut i = std::io::Cursor::new("0:1:0.5 |a x\\n|\\n|a y\\n\\n|b z\\n");
    let mut n = vec![];
    while let Some(c) = p.get_next_chunk(&mut i, String::new()).unwrap() { n.push(c); }
    need(n == ["0:1:0.5 |a x\\n|\\n|a y", "|b z"], &format!("{n:?}"));
}'''),
 dict(id="c24-namespace-weight", property="C24", needs="a string-valued feature in a namespace with a weight", breaks="the namespace weight is not applied to features with a string value",
  edits=[(C+"parsers/vw_text_parser.rs", "dest.add_feature(masked_hash, feat_value * namespace_value);", "let scale = match parsed_feat {\n            ParsedFeature::SimpleWithStringValue { .. } => 1.0,\n            _ => namespace_value,\n        };\n        dest.add_feature(masked_hash, feat_value * scale);")],
  rust='''fn main() {
    let p = VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, 0, 18, std::sync::Arc::new(Pool::new()));
    let (f, _) = p.parse_chunk("1 |a:2 x:3 color:red y").unwrap();
    let s: &SparseFeatures = f.as_inner().unwrap();
    need(s.get_namespace(ns("a")).unwrap().values() == [6.0, 2.0, 2.0], "wrong values");
}'''),
 dict(id="c25-negative-scale", property="C25", needs="a negative feature value", breaks="the scale of a term is only raised by positive values",
  edits=[(C+"reductions/coin.rs", "if fabs_x > state[W_MX] {\n                state[W_MX] = fabs_x;", "if feat_value > state[W_MX] {\n                state[W_MX] = fabs_x;")],
  rust='''fn main() {
    let c = r#"{"globalConfig":{"numBits":4,"constantFeatureEnabled":false},"entryReduction":{"typename":"Coin"}}"#;
    let (mut a, mut b) = (ws(c), ws(c));
    let (p, n) = (feats(&[(ns("a"), 1, 2.0)]), feats(&[(ns("a"), 1, -2.0)]));
    for l in [1.0, 0.5, 2.0] {
        a.learn(&mut Features::SparseSimple(p.clone()), &Label::Simple(SimpleLabel::from(l)));
        b.learn(&mut Features::SparseSimple(n.clone()), &Label::Simple(SimpleLabel::from(l)));
    }
    need(scalar(&a, &p).raw_prediction == scalar(&b, &n).raw_prediction, "mirrored data gives another model");
}'''),
 dict(id="c26-round-up", property="C26", needs="a multiplicative period with a fractional product", breaks="the next report is rounded instead of rounded down",
  edits=[("reductionml-cli/src/train.rs", "(self.iteration as f32 * period) as u32,", "(self.iteration as f32 * period).round() as u32,")],
  sh='''
for i in $(seq 1 20); do echo "$((i % 2)) |a x:$i"; done > data
echo '{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin"}}' > c.json
"$reml" train -d data --config c.json --progress='*1.5' --num-parse-threads 0 > out 2> err || exit 1
# reports at 0 1 2 3 4 6 9 13, and a closing one at 19
got=$(tac out | awk '/Example #/ {exit} {print}' | tac | grep '^|' | grep -oE '[0-9]+' | tr '\\n' ' ')
case "$got" in "0 1 2 3 4 6 9 13 19 "*) exit 0;; esac
echo "reports at: $got"; exit 1
'''),
 dict(id="c28-counter-skipped", property="C28", needs="a trained SquareCB model saved and loaded", breaks="the number of examples learned is not saved, so exploration starts over",
  edits=[(C+"reductions/cb_explore_adf_squarecb.rs", "    config: CBExploreAdfSquareCBConfig,\n    counter: usize,", "    config: CBExploreAdfSquareCBConfig,\n    #[serde(skip)]\n    counter: usize,")],
  rust='''fn main() {
    let mut w = ws(r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbExploreAdfSquareCb"}}"#);
    let c = CBAdfFeatures { shared: None, actions: vec![feats(&[(ns("a"), 1, 1.0)]), feats(&[(ns("a"), 2, 1.0)])] };
    for _ in 0..6 { w.learn(&mut Features::SparseCBAdf(c.clone()), &Label::CB(CBLabel { action: 1, cost: 1.0, probability: 0.5 })); }
    let w2 = Workspace::create_from_model(&w.serialize_model().unwrap()).unwrap();
    let f = |w: &Workspace| { let p = w.predict(&mut Features::SparseCBAdf(c.clone())); let p: &ActionProbsPrediction = p.as_inner().unwrap(); p.0.clone() };
    need(f(&w) == f(&w2), &format!("{:?} {:?}", f(&w), f(&w2)));
}'''),
 dict(id="c27-quiet-input", property="C27", needs="parser threads and input that pauses for more than a second (a pipe)", breaks="the learner stops waiting for a slow input and leaves the remaining examples out",
  edits=[("reductionml-cli/src/train.rs", "let res = learn_receiver.recv();", "let res = learn_receiver.recv_timeout(std::time::Duration::from_millis(900));"),
    ("reductionml-cli/src/train.rs", ".get_next_chunk(&mut input_file, string_pool.get_object())\n                                .unwrap()\n                            {\n                                let res = Arc::new(ParseResult::new(chunk));\n                                parse_sender.send(res.clone()).unwrap();\n                                learn_sender.send(res).unwrap();", ".get_next_chunk(&mut input_file, string_pool.get_object())\n                                .unwrap()\n                            {\n                                let res = Arc::new(ParseResult::new(chunk));\n                                if parse_sender.send(res.clone()).is_err() {\n                                    break;\n                                }\n                                if learn_sender.send(res).is_err() {\n                                    break;\n                                }")],
  sh="""
mkfifo data
echo '{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin"}}' > c.json
( for i in 1 2 3; do echo "1 |a x:$i"; done; sleep 2; for i in 4 5 6; do echo "1 |a x:$i"; done ) > data &
timeout 60 "$reml" train -d data --config c.json --num-parse-threads 2 -p preds > out 2> err || { cat err; exit 1; }
n=$(wc -l < preds)
[ "$n" = 6 ] || { echo "$n predictions for 6 examples"; exit 1; }
"""),
 dict(id="c27-ready-first", property="C27", needs="several parser threads and a queue of two or more holding an example that parses slowly in front of ones that parse fast", breaks="an example that is ready overtakes one that is still being parsed, so the learner sees another order",
  edits=[("reductionml-cli/src/train.rs", "                    loop {\n                        let res = learn_receiver.recv();", "                    let mut held: Option<Arc<ParseResult>> = None;\n                    loop {\n                        let mut res = held.take().map_or_else(|| learn_receiver.recv(), Ok);\n                        // do not idle on an example that is still being parsed when the next one is ready\n                        if let Ok(first) = &res {\n                            if first.ready.load(Ordering::Acquire) == 0 {\n                                if let Ok(next) = learn_receiver.try_recv() {\n                                    if next.ready.load(Ordering::Acquire) == 1 {\n                                        held = res.ok();\n                                        res = Ok(next);\n                                    } else {\n                                        held = Some(next);\n                                    }\n                                }\n                            }\n                        }")],
  sh="""
# one huge example, then small ones, again and again
python3 - <<'P'
import random
random.seed(3)
with open('data', 'w') as f:
    for i in range(60):
        f.write('1 |a ' + ' '.join('f%d:0.%d' % (k, k % 9 + 1) for k in range(4000)) + '\\n')
        for j in range(4): f.write('%d |a f%d:0.5\\n' % (j % 2, j))
P
echo '{"globalConfig":{"numBits":12},"entryReduction":{"typename":"Coin"}}' > c.json
timeout 60 "$reml" train -d data --config c.json --num-parse-threads 0 -p p0 > out 2> err || { cat err; exit 1; }
for k in 1 2 3 4 5; do
timeout 60 "$reml" train -d data --config c.json --num-parse-threads 6 -p p1 > out 2> err || { cat err; exit 1; }
cmp -s p0 p1 || { echo "other predictions with parser threads"; exit 1; }
done
"""),
 dict(id="c27-no-more-threads-than-queue", property="C27", needs="parser threads with --queue-size 0", breaks="no parser thread is started, so training never ends",
  edits=[("reductionml-cli/src/train.rs", "for _ in 0..n {", "for _ in 0..n.min(args.queue_size) {")],
  sh="""
for i in 1 2 3; do echo "1 |a x:$i"; done > data
echo '{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin"}}' > c.json
timeout 20 "$reml" train -d data --config c.json --num-parse-threads 2 --queue-size 0 -p preds > out 2> err || { echo "exit $?"; exit 1; }
[ "$(wc -l < preds)" = 3 ]
"""),
]
