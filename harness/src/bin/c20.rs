//! C20: typed access to labels, predictions and features
use harness::*;
use harness::feats::*;
use harness::stacks::*;
use reductionml_core::types::*;
use reductionml_core::sparse_namespaced_features::SparseFeatures;
use reductionml_core::utils::AsInner;

macro_rules! acc { ($v:expr, $t:ty) => {{ let x = $v; <_ as AsInner<$t>>::as_inner(x).map(|p| format!("{:?}", p)) }}; }
macro_rules! accm { ($v:expr, $t:ty) => {{ let x = $v; <_ as AsInner<$t>>::as_inner_mut(x).map(|p| format!("{:?}", p)) }}; }

fn preds(r: &mut Rng) -> Vec<(Prediction, usize, String)> {
    let s = ScalarPrediction { prediction: r.dyadic(), raw_prediction: r.dyadic() };
    let b = BinaryPrediction(r.bool());
    let v: Vec<(usize, f32)> = (0..r.below(4)).map(|i| (i, r.dyadic())).collect();
    let (a, q) = (ActionScoresPrediction(v.clone()), ActionProbsPrediction(v));
    let d = (format!("{:?}", s), format!("{:?}", b), format!("{:?}", a), format!("{:?}", q));
    vec![(s.into(), 0, d.0), (b.into(), 1, d.1), (a.into(), 2, d.2), (q.into(), 3, d.3)]
}
fn main() {
    run("C20", |h| {
        h.group("predictions", "every prediction kind asked for every kind, shared and mutable, converted out and back, mutation visible; non-trivial: all");
        let mut r = h.rng();
        for _ in 0..h.n(300, 5000) {
            for (p, k, d) in preds(&mut r) {
                h.case(|| format!("{:?}", p), || {
                    let mut p2 = p.clone();
                    let got = [acc!(&p, ScalarPrediction), acc!(&p, BinaryPrediction), acc!(&p, ActionScoresPrediction), acc!(&p, ActionProbsPrediction)];
                    let gotm = [accm!(&mut p2, ScalarPrediction), accm!(&mut p2, BinaryPrediction), accm!(&mut p2, ActionScoresPrediction), accm!(&mut p2, ActionProbsPrediction)];
                    for i in 0..4 {
                        let want = if i == k { Some(d.clone()) } else { None };
                        ensure!(got[i] == want, "kind {i} asked of {:?} gives {:?}", p, got[i]);
                        ensure!(gotm[i] == want, "kind {i} asked mutably of {:?} gives {:?}", p, gotm[i]);
                    }
                    let outs: [Option<String>; 4] = [TryInto::<ScalarPrediction>::try_into(p.clone()).ok().map(|x| format!("{:?}", Prediction::from(x))), TryInto::<BinaryPrediction>::try_into(p.clone()).ok().map(|x| format!("{:?}", Prediction::from(x))),
                        TryInto::<ActionScoresPrediction>::try_into(p.clone()).ok().map(|x| format!("{:?}", Prediction::from(x))), TryInto::<ActionProbsPrediction>::try_into(p.clone()).ok().map(|x| format!("{:?}", Prediction::from(x)))];
                    for i in 0..4 { ensure!(outs[i] == if i == k { Some(format!("{:?}", p)) } else { None }, "conversion to kind {i} and back gives {:?}", outs[i]); }
                    // mutation through the typed access is seen through the value
                    match k {
                        0 => { let m: &mut ScalarPrediction = p2.as_inner_mut().unwrap(); m.prediction = 42.5; m.raw_prediction = -1.5; ensure!(format!("{:?}", p2) == format!("{:?}", Prediction::from(ScalarPrediction { prediction: 42.5, raw_prediction: -1.5 })), "mutation lost: {:?}", p2); }
                        1 => { let m: &mut BinaryPrediction = p2.as_inner_mut().unwrap(); let o = m.0; m.0 = !o; ensure!(p2 == Prediction::Binary(BinaryPrediction(!o)), "mutation lost: {:?}", p2); }
                        2 => { let m: &mut ActionScoresPrediction = p2.as_inner_mut().unwrap(); m.0 = vec![(9, 9.0)]; ensure!(p2 == Prediction::ActionScores(ActionScoresPrediction(vec![(9, 9.0)])), "mutation lost: {:?}", p2); }
                        _ => { let m: &mut ActionProbsPrediction = p2.as_inner_mut().unwrap(); m.0 = vec![(9, 9.0)]; ensure!(p2 == Prediction::ActionProbs(ActionProbsPrediction(vec![(9, 9.0)])), "mutation lost: {:?}", p2); }
                    }
                    Ok(true)
                });
            }
        }
        h.group("labels", "every label kind asked for every kind, shared and mutable, conversions, accessors; non-trivial: all");
        let mut r = h.rng();
        for _ in 0..h.n(400, 5000) {
            let (v, w, b, a, c, q) = (r.dyadic(), r.dyadic(), r.bool(), r.below(9), r.dyadic(), r.unit() as f32);
            let ls: Vec<(Label, usize, String)> = vec![(SimpleLabel::new(v, w).into(), 0, format!("{:?}", SimpleLabel::new(v, w))), (BinaryLabel(b).into(), 1, format!("{:?}", BinaryLabel(b))), (CBLabel::new(a, c, q).into(), 2, format!("{:?}", CBLabel::new(a, c, q)))];
            for (l, k, d) in ls {
                h.case(|| format!("{:?}", l), || {
                    let mut l2 = l;
                    let got = [acc!(&l, SimpleLabel), acc!(&l, BinaryLabel), acc!(&l, CBLabel)];
                    let gotm = [accm!(&mut l2, SimpleLabel), accm!(&mut l2, BinaryLabel), accm!(&mut l2, CBLabel)];
                    for i in 0..3 { let want = if i == k { Some(d.clone()) } else { None }; ensure!(got[i] == want && gotm[i] == want, "kind {i} asked of {:?} gives {:?} / {:?}", l, got[i], gotm[i]); }
                    match k {
                        0 => { let s: &SimpleLabel = l.as_inner().unwrap(); ensure!(s.value() == v && s.weight() == w, "accessors {:?}", s);
                            ensure!(format!("{:?}", SimpleLabel::from(v)) == format!("{:?}", SimpleLabel::new(v, 1.0)) && format!("{:?}", SimpleLabel::default()) == format!("{:?}", SimpleLabel::new(0.0, 1.0)), "default weight");
                            *AsInner::<SimpleLabel>::as_inner_mut(&mut l2).unwrap() = SimpleLabel::new(7.0, 8.0); ensure!(format!("{:?}", l2) == format!("{:?}", Label::Simple(SimpleLabel::new(7.0, 8.0))), "mutation lost") }
                        1 => { AsInner::<BinaryLabel>::as_inner_mut(&mut l2).unwrap().0 = !b; ensure!(matches!(l2, Label::Binary(BinaryLabel(x)) if x != b), "mutation lost"); ensure!(BinaryLabel::from(b).0 == b, "bool conversion");
                            let s: SimpleLabel = BinaryLabel(b).into(); ensure!(s.value() == if b { 1.0 } else { -1.0 } && s.weight() == 1.0, "as a regression target {:?}", s); }
                        _ => { let s: &CBLabel = l.as_inner().unwrap(); ensure!(s.action() == a && s.cost() == c && s.probability() == q && s.action == a && s.cost == c && s.probability == q, "accessors {:?}", s);
                            AsInner::<CBLabel>::as_inner_mut(&mut l2).unwrap().cost = 99.0; ensure!(matches!(l2, Label::CB(x) if x.cost == 99.0 && x.action == a), "mutation lost") }
                    }
                    Ok(true)
                });
            }
        }
        h.group("features", "owned and borrowed, simple and action-dependent: typed access shared and mutable, conversion, cloning, comparison; non-trivial: all");
        let mut r = h.rng();
        for _ in 0..h.n(1500, 20000) {
            let s = rand_simple(&mut r, 0, 8, 3);
            let c = CBAdfFeatures { shared: if r.bool() { Some(rand_simple(&mut r, 0, 8, 3)) } else { None }, actions: (0..r.below(4)).map(|_| rand_simple(&mut r, 0, 8, 3)).collect() };
            let (vs, vc) = (view(&s), cbview(&c));
            h.case(|| format!("{} / {}", show(&vs), vc.iter().map(show).collect::<Vec<_>>().join(" , ")), || {
                let (mut s1, mut c1) = (s.clone(), c.clone());
                let (mut s2, mut c2) = (s.clone(), c.clone());
                {
                    let mut vals: Vec<(Features, bool)> = vec![(Features::from(s.clone()), true), (Features::from(&mut s1), true), (Features::from(c.clone()), false), (Features::from(&mut c1), false)];
                    for (k, (f, simple)) in vals.iter_mut().enumerate() {
                        let a: Option<&SparseFeatures> = f.as_inner();
                        ensure!(a.map(view) == if *simple { Some(vs.clone()) } else { None }, "variant {k}: simple features wrong");
                        let b: Option<&CBAdfFeatures> = f.as_inner();
                        ensure!(b.map(cbview) == if *simple { None } else { Some(vc.clone()) }, "variant {k}: action features wrong");
                        let cl = f.clone();
                        ensure!(matches!((&cl, *simple), (Features::SparseSimple(_), true) | (Features::SparseCBAdf(_), false)), "variant {k}: clone is not owned");
                        ensure!(fview(&cl) == fview(f), "variant {k}: clone differs");
                        ensure!(approx::AbsDiffEq::abs_diff_eq(&cl, f, 0.0), "variant {k}: differs from its clone");
                        let a: Option<&mut SparseFeatures> = f.as_inner_mut();
                        ensure!(a.is_some() == *simple, "variant {k}: mutable simple access");
                        if let Some(a) = a { a.get_or_create_namespace(ns(9)).add_feature(3.into(), 1.5); }
                        let b: Option<&mut CBAdfFeatures> = f.as_inner_mut();
                        ensure!(b.is_some() != *simple, "variant {k}: mutable action access");
                        if let Some(b) = b { b.actions.push(build(&[(ns(9), vec![(1, 2.0)])])); }
                        ensure!(fview(&cl) != fview(f), "variant {k}: mutation through typed access is not visible");
                    }
                    for i in 0..4 { for j in 0..4 {
                        let e = approx::AbsDiffEq::abs_diff_eq(&vals[i].0, &vals[j].0, 1e-6);
                        ensure!(e == (vals[i].1 == vals[j].1), "variants {i} and {j} with equal contents compare {e}");
                    } }
                }
                ensure!(view(&s1).get(&ns(9)).is_some() && c1.actions.len() == c.actions.len() + 1, "mutation through a borrowed wrapper did not reach the features");
                // ownership conversions
                ensure!(SparseFeatures::try_from(Features::from(s.clone())).map(|x| view(&x)) == Ok(vs.clone()), "owned simple conversion");
                ensure!(CBAdfFeatures::try_from(Features::from(c.clone())).map(|x| cbview(&x)) == Ok(vc.clone()), "owned action conversion");
                ensure!(SparseFeatures::try_from(Features::from(c.clone())).is_err() && CBAdfFeatures::try_from(Features::from(s.clone())).is_err(), "wrong kind converts");
                ensure!(SparseFeatures::try_from(Features::from(&mut s2)).is_err() && CBAdfFeatures::try_from(Features::from(&mut c2)).is_err(), "a borrowed wrapper converts to an owned value");
                // different contents compare different
                let mut s3 = s.clone();
                s3.get_or_create_namespace(ns(7)).add_feature(1.into(), 2.0);
                let mut s4 = s3.clone();
                ensure!(!approx::AbsDiffEq::abs_diff_eq(&Features::from(s3.clone()), &Features::from(s.clone()), 1e-6), "an added feature is not noticed");
                ensure!(!approx::AbsDiffEq::abs_diff_eq(&Features::from(s.clone()), &Features::from(&mut s3), 1e-6), "an added feature is not noticed (borrowed)");
                s4.get_or_create_namespace(ns(7)).add_feature(2.into(), 2.0);
                ensure!(!approx::AbsDiffEq::abs_diff_eq(&Features::from(&mut s4), &Features::from(&mut s3), 1e-6), "a second feature is not noticed");
                let mut s5 = s.clone(); s5.get_or_create_namespace(ns(7)).add_feature(1.into(), 2.25);
                ensure!(!approx::AbsDiffEq::abs_diff_eq(&Features::from(s5.clone()), &Features::from(s3.clone()), 1e-6), "a different value is not noticed");
                let mut s6 = s.clone(); s6.get_or_create_namespace(ns(8)).add_feature(1.into(), 2.0);
                ensure!(!approx::AbsDiffEq::abs_diff_eq(&Features::from(s6), &Features::from(s3.clone()), 1e-6), "a different namespace is not noticed");
                let mut c3 = c.clone(); c3.actions.push(s.clone());
                ensure!(!approx::AbsDiffEq::abs_diff_eq(&Features::from(c3), &Features::from(c.clone()), 1e-6), "an added action is not noticed");
                let mut c4 = c.clone(); c4.shared = match c4.shared { Some(_) => None, None => Some(s.clone()) };
                ensure!(!approx::AbsDiffEq::abs_diff_eq(&Features::from(c4.clone()), &Features::from(c.clone()), 1e-6) && !approx::AbsDiffEq::abs_diff_eq(&Features::from(c.clone()), &Features::from(c4), 1e-6), "presence of shared features is not noticed");
                if let Some(a) = c.actions.last() { let mut c5 = c.clone(); let mut a = a.clone(); a.get_or_create_namespace(ns(7)).add_feature(1.into(), 1.0); *c5.actions.last_mut().unwrap() = a;
                    ensure!(!approx::AbsDiffEq::abs_diff_eq(&Features::from(c5), &Features::from(c.clone()), 1e-6), "a changed last action is not noticed"); }
                Ok(true)
            });
        }
    });
}
