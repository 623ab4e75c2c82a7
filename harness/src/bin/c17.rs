//! C17: predict-then-learn = predict; learn
use harness::*;
use harness::obs::*;
use harness::stacks::*;

fn main() {
    run("C17", |h| {
        h.group("stacks", "every shipped reduction and stack, random histories: predict-then-learn returns the prediction predict gives on an identical copy and leaves exactly the serialised state learn leaves; predict alone leaves the state; non-trivial: the model is trained before");
        let mut r = h.rng();
        let all = stacks();
        for _ in 0..h.n(3, 40) { for (name, entry, kind) in &all {
            let (bits, ik, seed) = (5u8, r.below(4), if r.bool() { 0 } else { 5 });
            let exs: Vec<_> = (0..1 + r.below(6)).map(|_| (rand_example(&mut r, *kind, seed, bits, 3), r.bool())).collect();
            h.case(|| format!("{name} interactions {ik} seed {seed} {:?}", exs.iter().map(|((f, l), b)| format!("{} {}", desc(f, l), b)).collect::<Vec<_>>()), || {
                let cfg = conf(global(bits, seed, ik % 2 == 0, ik), entry.clone());
                let mut a = workspace(cfg.clone())?;
                let mut b = workspace(cfg)?;
                for (i, ((f, l), _)) in exs.iter().enumerate() {
                    let (sa, sb) = (state(&a)?, state(&b)?);
                    ensure!(sa == sb, "the two models differ before step {i}");
                    let p = format!("{:?}", a.predict(&mut f.clone()));
                    ensure!(state(&a)? == sa, "predict changed the model at step {i}");
                    let q = format!("{:?}", a.predict_then_learn(&mut f.clone(), l));
                    ensure!(p == q, "step {i}: predict gives {p}, predict-then-learn {q}");
                    b.learn(&mut f.clone(), l);
                    let (sa, sb) = (state(&a)?, state(&b)?);
                    ensure!(sa == sb, "step {i}: predict-then-learn and learn leave different models");
                }
                Ok(exs.len() > 1)
            });
        } }
        h.group("forward", "every stack above an observer: the calls that reach the base in predict-then-learn carry the same features, targets and offsets as those of predict (features) and learn (features and targets); non-trivial: some call");
        let mut r = h.rng();
        for _ in 0..h.n(6, 60) { for (name, entry, kind) in &all {
            let (bits, seed) = (5u8, 0);
            let ex = rand_example(&mut r, *kind, seed, bits, 3);
            h.case(|| format!("{name} {}", desc(&ex.0, &ex.1)), || {
                let cfg = conf(global(bits, seed, true, 0), entry.clone());
                let mut logs = vec![];
                let mut preds = vec![];
                for m in 0..3 {
                    let mut w = observed(cfg.clone(), "CoinRegressor", 0)?;
                    let _ = take_log();
                    let mut f = ex.0.clone();
                    match m { 0 => preds.push(format!("{:?}", w.predict(&mut f))), 1 => preds.push(format!("{:?}", w.predict_then_learn(&mut f, &ex.1))), _ => w.learn(&mut f, &ex.1) }
                    logs.push(take_log());
                }
                ensure!(preds[0] == preds[1], "predict gives {}, predict-then-learn {}", preds[0], preds[1]);
                let key = |c: &Call| format!("{:?} {:?} {:?}", c.feats, c.abs, c.offset);
                let lkey = |c: &Call| format!("{:?} {:?} {:?} {:?}", c.feats, c.label, c.abs, c.offset);
                let p0: Vec<_> = logs[0].iter().map(key).collect();
                let p1: Vec<_> = logs[1].iter().filter(|c| c.kind != Kind::Learn).map(key).collect();
                let l1: Vec<_> = logs[1].iter().filter(|c| c.kind != Kind::Predict).map(lkey).collect();
                let l2: Vec<_> = logs[2].iter().filter(|c| c.kind != Kind::Predict).map(lkey).collect();
                ensure!(p0 == p1 || p1.is_empty(), "different predictions asked of the base: {:?} / {:?}", p0, p1);
                ensure!(l1 == l2, "different learning at the base: {:?} / {:?}", l1, l2);
                Ok(!p0.is_empty())
            });
        } }
    });
}
