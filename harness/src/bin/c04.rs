use harness::feats::*;
use harness::obs::*;
use harness::stacks::*;
use harness::*;
use reductionml_core::sparse_namespaced_features::Namespace;
use reductionml_core::*;

fn main() {
    run("C04", |h| {
        h.group("attach", "random examples: attaching another example's features and detaching them is the identity, also repeatedly and on recycled containers; non-trivial when something is attached");
        let mut r = h.rng();
        for _ in 0..h.n(1500, 30000) {
            let pool: Vec<Namespace> = (0..5).map(ns).collect();
            let (mut a, mut b, old) = (random_feats(&mut r, &pool, 3, 64), random_feats(&mut r, &pool, 3, 64), random_feats(&mut r, &pool, 3, 64));
            for l in [&mut a, &mut b] { for (_, fs) in l.iter_mut() { if r.chance(1, 4) { fs.clear(); } } }
            let recycle = r.bool();
            h.case(|| format!("base {:?} attached {:?} recycled from {:?}", a, b, if recycle { &old[..] } else { &[] }), || {
                let mut f = if recycle { let mut f = build(&old); f.clear(); f } else { build(&[]) };
                for (n, fs) in &a { let c = f.get_or_create_namespace(*n); for &(i, x) in fs { c.add_feature(i.into(), x); } }
                let e = build(&b);
                let (vf, ve) = (view(&f), view(&e));
                let empty = f.empty();
                for round in 0..3 {
                    f.append(&e);
                    let mut want = vf.clone();
                    for (n, fs) in &ve { want.entry(*n).or_default().extend(fs.iter()); }
                    ensure!(view(&f) == want, "round {round}: after attaching the example is {}, expected {}", show(&view(&f)), show(&want));
                    ensure!(view(&e) == ve, "attaching changed the attached features");
                    f.remove(&e);
                    ensure!(view(&f) == vf, "round {round}: after detaching the example is {}, it was {}", show(&view(&f)), show(&vf));
                    ensure!(f.empty() == empty, "round {round}: emptiness changed");
                    ensure!(view(&e) == ve, "detaching changed the attached features");
                    let all: Vec<_> = f.all_features().map(|(i, x)| (u32::from(i), x.to_bits())).collect();
                    ensure!(all == vf.values().flatten().cloned().collect::<Vec<_>>(), "the features iterated after detaching differ");
                }
                // the example is edited in between: what the user has activated since stays
                for n in ve.keys() { f.get_or_create_namespace(*n); }
                let vf = view(&f);
                for round in 0..2 {
                    f.append(&e);
                    f.remove(&e);
                    ensure!(view(&f) == vf, "after an edit, round {round}: after detaching the example is {}, it was {}", show(&view(&f)), show(&vf));
                }
                Ok(!ve.is_empty())
            });
        }
        h.group("stacks", "every shipped stack, random examples (shared or not, empty namespaces, repeated interactions), predict / learn / predict-then-learn in random order, owned and borrowed; non-trivial when the example has features");
        let mut r = h.rng();
        let st = stacks();
        let reps = h.n(12, 200);
        for (name, cfg, kind) in &st {
            for k in 0..reps {
                let bits = 4 + r.below(3) as u8;
                let seed = r.below(3) as u32;
                let g = global(bits, seed, r.bool(), k % 4);
                let exs: Vec<_> = (0..3).map(|_| rand_example(&mut r, *kind, seed, bits, 3)).collect();
                let calls: Vec<u8> = (0..6).map(|_| r.below(3) as u8).collect();
                let descs: Vec<String> = exs.iter().map(|(f, l)| desc(f, l)).collect();
                h.case(|| format!("{name} {g} calls {:?} (0 predict, 1 learn, 2 predict_then_learn) on {:?}", calls, descs), || {
                    let mut w = workspace(conf(g.clone(), cfg.clone()))?;
                    let mut any = false;
                    for (k, c) in calls.iter().enumerate() {
                        let (f0, l) = &exs[k % exs.len()];
                        let mut f = f0.clone();
                        let before = fview(&f);
                        any |= before.iter().any(|v| v.values().any(|x| !x.is_empty()));
                        {
                            let mut run = |f: &mut Features| match c { 0 => { w.predict(f); } 1 => w.learn(f, l), _ => { w.predict_then_learn(f, l); } };
                            if k % 2 == 0 { run(&mut f); } else {
                                match &mut f {
                                    Features::SparseSimple(s) => run(&mut Features::SparseSimpleRef(s)),
                                    Features::SparseCBAdf(s) => run(&mut Features::SparseCBAdfRef(s)),
                                    _ => (),
                                }
                            }
                        }
                        let after = fview(&f);
                        ensure!(after == before, "call {k} (kind {c}) changed the example: {} became {}", before.iter().map(show).collect::<Vec<_>>().join(" / "), after.iter().map(show).collect::<Vec<_>>().join(" / "));
                    }
                    Ok(any)
                });
            }
        }
    });
}
