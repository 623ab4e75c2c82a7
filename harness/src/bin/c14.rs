//! C14: online metrics against their defining formulas
use harness::*;
use harness::feats::*;
use harness::stacks::*;
use reductionml_core::metrics::*;
use reductionml_core::types::*;

fn val(m: &dyn Metric) -> f64 { match m.get_value() { MetricValue::Float(f) => f as f64, MetricValue::Int(i) => i as f64, _ => f64::NAN } }
fn nfeat(f: &Features) -> u64 { match f { Features::SparseSimple(s) => view(s).values().map(|x| x.len() as u64).sum(), Features::SparseSimpleRef(s) => view(s).values().map(|x| x.len() as u64).sum(),
    Features::SparseCBAdf(c) => c.shared.iter().chain(c.actions.iter()).map(|s| view(s).values().map(|x| x.len() as u64).sum::<u64>()).sum(),
    Features::SparseCBAdfRef(c) => c.shared.iter().chain(c.actions.iter()).map(|s| view(s).values().map(|x| x.len() as u64).sum::<u64>()).sum() } }

fn main() {
    run("C14", |h| {
        h.group("sequences", "sequences of 1..30 points per metric (owned and borrowed features, labels with any weight, action ids in any order), value after every point against the f64 formula; non-trivial: at least 3 points");
        let mut r = h.rng();
        for k in 0..h.n(2500, 40000) {
            let n = 1 + r.below(if k % 10 == 0 { 30 } else { 8 });
            let cb = k % 2 == 0;
            let pts: Vec<(Features<'static>, Label, Prediction, bool)> = (0..n).map(|_| {
                let (f, l) = rand_example(&mut r, if cb { In::Cb } else { In::Simple }, 0, 10, 3);
                let p = if cb {
                    let na = match &f { Features::SparseCBAdf(c) => c.actions.len(), _ => 1 };
                    let mut v: Vec<(usize, f32)> = (0..na).map(|a| (a, r.unit() as f32)).collect();
                    if r.bool() { v.reverse(); }
                    Prediction::ActionProbs(ActionProbsPrediction(v))
                } else { let x = r.dyadic(); Prediction::Scalar(ScalarPrediction { prediction: x, raw_prediction: r.dyadic() * 100.0 }) };
                (f, l, p, r.bool())
            }).collect();
            h.case(|| pts.iter().map(|(f, l, p, _)| format!("{} => {:?}", desc(f, l), p)).collect::<Vec<_>>().join(" ; "), || {
                let mut ms: Vec<(&str, Box<dyn Metric>)> = vec![("parsed_features", Box::new(ParsedFeaturesMetric::new())), ("example_number", Box::new(ExampleNumberMetric::new()))];
                if cb { ms.push(("ips", Box::new(IpsMetric::new()))); } else { ms.push(("mse", Box::new(MeanSquaredErrorMetric::new()))); }
                let (mut se, mut rew, mut fc, mut mag) = (0f64, 0f64, 0f64, 0f64);
                for (i, (f, l, p, borrowed)) in pts.iter().enumerate() {
                    let before = fview(f);
                    let mut own = f.clone();
                    match (&mut own, *borrowed) {
                        (Features::SparseSimple(s), true) => for (_, m) in ms.iter_mut() { m.add_point(&Features::SparseSimpleRef(s), l, p) },
                        (Features::SparseCBAdf(s), true) => for (_, m) in ms.iter_mut() { m.add_point(&Features::SparseCBAdfRef(s), l, p) },
                        (o, _) => for (_, m) in ms.iter_mut() { m.add_point(o, l, p) },
                    }
                    ensure!(fview(&own) == before, "adding a point changed the features");
                    fc += nfeat(f) as f64;
                    if let (Label::Simple(s), Prediction::Scalar(q)) = (l, p) { se += (s.value() as f64 - q.prediction as f64).powi(2); }
                    if let (Label::CB(c), Prediction::ActionProbs(q)) = (l, p) { let t = -(c.cost as f64) * q.0.iter().find(|(a, _)| *a == c.action).unwrap().1 as f64 / c.probability as f64; rew += t; mag += t.abs(); }
                    let cnt = (i + 1) as f64;
                    for (name, m) in &ms {
                        let want = match *name { "parsed_features" => fc, "example_number" => cnt - 1.0, "ips" => rew / cnt, _ => se / cnt };
                        let got = val(m.as_ref());
                        // single precision loses digits of the largest terms where they cancel
                        let slack = if *name == "ips" { 1e-5 * mag / cnt } else { 0.0 };
                        ensure!(close(got, want, 2e-5) || (got - want).abs() <= slack, "{name} after {} points is {got}, the formula gives {want}", i + 1);
                    }
                }
                Ok(n >= 3)
            });
        }
        h.group("registry", "each metric name yields that metric; unknown names yield none");
        for (n, t) in [("mse", "MeanSquaredError"), ("ips", "Estimated reward (IPS)"), ("nope", "")] {
            h.case(|| n.to_string(), || { let g = get_metric(n).map(|m| m.get_name()); match g { Some(x) => { ensure!(t.is_empty() || x == t, "{n} gives {x}"); Ok(true) } None => Ok(false) } });
        }
        h.group("longmean", "the means over a long stream of points that all count the same; non-trivial: all");
        h.case(|| "70000 points of squared error 1, 70000 points of reward 1".into(), || {
            let (mut a, mut b) = (MeanSquaredErrorMetric::new(), IpsMetric::new());
            let f = Features::SparseSimple(build(&[(ns(1), vec![(1, 1.0)])]));
            let cf = Features::SparseCBAdf(CBAdfFeatures { shared: None, actions: vec![build(&[])] });
            let (l, p) = (Label::Simple(SimpleLabel::new(1.0, 1.0)), Prediction::Scalar(ScalarPrediction { prediction: 0.0, raw_prediction: 0.0 }));
            let (cl, cp) = (Label::CB(CBLabel::new(0, -1.0, 1.0)), Prediction::ActionProbs(ActionProbsPrediction(vec![(0, 1.0)])));
            for _ in 0..70000 { a.add_point(&f, &l, &p); b.add_point(&cf, &cl, &cp); }
            ensure!(close(val(&a), 1.0, 2e-5) && close(val(&b), 1.0, 2e-5), "means {} and {}", val(&a), val(&b));
            Ok(true)
        });
        h.group("long", "a long stream of many-feature examples keeps exact counts; non-trivial: all");
        for big in [1usize, 200] {
            h.case(|| format!("{big} features x 70000 points"), || {
                let (mut a, mut b) = (ParsedFeaturesMetric::new(), ExampleNumberMetric::new());
                let mut f = Features::SparseSimple(build(&[(ns(1), (0..big as u32).map(|i| (i, 1.0)).collect())]));
                let _ = &mut f;
                let (l, p) = (Label::Simple(SimpleLabel::new(1.0, 2.0)), Prediction::Scalar(ScalarPrediction { prediction: 0.0, raw_prediction: 0.0 }));
                for _ in 0..70000 { a.add_point(&f, &l, &p); b.add_point(&f, &l, &p); }
                ensure!(val(&a) == 70000.0 * big as f64 && val(&b) == 69999.0, "counts {} and {}", val(&a), val(&b));
                Ok(true)
            });
        }
    });
}
