use harness::feats::*;
use harness::*;
use reductionml_core::sparse_namespaced_features::*;
use std::collections::BTreeMap;

type M = BTreeMap<Namespace, Vec<(u32, u32)>>;

fn agree(f: &SparseFeatures, m: &M, pool: &[Namespace]) -> Result<(), String> {
    ensure!(view(f) == *m, "holds {} expected {}", show(&view(f)), show(m));
    ensure!(f.empty() == m.is_empty(), "empty() is {} with {} namespaces present", f.empty(), m.len());
    let all: Vec<_> = f.all_features().map(|(i, x)| (u32::from(i), x.to_bits())).collect();
    let want: Vec<_> = m.values().flatten().cloned().collect();
    ensure!(all == want, "all features {:?} expected {:?}", all, want);
    for n in pool {
        match (f.get_namespace(*n), m.get(n)) {
            (None, None) => (),
            (Some(c), Some(w)) => {
                ensure!(c.size() == w.len(), "size {} of {:?}", c.size(), w.len());
                ensure!(c.indices().len() == w.len() && c.values().len() == w.len(), "{} indices {} values {} features", c.indices().len(), c.values().len(), w.len());
                for k in 0..w.len() { ensure!(u32::from(c.indices()[k]) == w[k].0 && c.values()[k].to_bits() == w[k].1, "position {k} differs"); }
                iter_ok(c.iter(), w)?;
            }
            (a, b) => return Err(format!("namespace {:?} present: {} expected: {}", n, a.is_some(), b.is_some())),
        }
    }
    // iterating over the container shows each namespace with its features, in order
    let mut got = M::new();
    for (n, it) in f.namespaces() { let v: Vec<_> = it.map(|(i, x)| (u32::from(i), x.to_bits())).collect(); if f.get_namespace(n).is_some() { ensure!(got.insert(n, v).is_none(), "namespace twice"); } else { ensure!(v.is_empty(), "features in an absent namespace"); } }
    ensure!(got == *m, "iteration differs");
    Ok(())
}
fn iter_ok(it: NamespaceIterator, w: &[(u32, u32)]) -> Result<(), String> {
    let n = w.len();
    // stepping, skipping and counting from every position
    for start in 0..=n {
        let mut a = it.clone();
        for k in 0..start { let x = a.next().map(|(i, v)| (u32::from(i), v.to_bits())); ensure!(x == Some(w[k]), "step {k} yields {:?}", x); }
        ensure!(a.size_hint() == (n - start, Some(n - start)), "remaining count {:?} expected {}", a.size_hint(), n - start);
        ensure!(a.clone().count() == n - start, "count {}", a.clone().count());
        for skip in 0..=(n - start) + 1 {
            let mut b = a.clone();
            let x = b.nth(skip).map(|(i, v)| (u32::from(i), v.to_bits()));
            ensure!(x == w.get(start + skip).cloned(), "from {start} skipping {skip} yields {:?}", x);
            let rest: Vec<_> = b.map(|(i, v)| (u32::from(i), v.to_bits())).collect();
            let want: Vec<_> = w.iter().skip(start + skip + 1).cloned().collect();
            ensure!(rest == want, "from {start} after skipping {skip} the rest is {:?}", rest);
            let s: Vec<_> = a.clone().skip(skip).map(|(i, v)| (u32::from(i), v.to_bits())).collect();
            ensure!(s == w.iter().skip(start + skip).cloned().collect::<Vec<_>>(), "skip({skip}) from {start} yields {:?}", s);
        }
        let mut c = it.clone();
        for _ in 0..n { c.next(); }
        ensure!(c.next().is_none() && c.next().is_none(), "does not end");
        ensure!(c.nth(0).is_none() && c.size_hint().0 == 0, "not at its end");
    }
    Ok(())
}

fn main() {
    run("C06", |h| {
        h.group("operations", "random sequences of up to 14 container operations against a map from namespace to feature list, compared after every step through every accessor");
        let mut r = h.rng();
        let pool: Vec<Namespace> = vec![Namespace::Default, Namespace::Named(1.into()), Namespace::RawHash(1.into()), Namespace::Named(0.into()), ns(3)];
        for _ in 0..h.n(2500, 40000) {
            let len = 1 + r.below(14);
            let sub = &pool[..1 + r.below(pool.len())];
            let ops: Vec<(usize, Namespace, Namespace, Vec<(u32, f32)>)> = (0..len).map(|_| { let k = r.below(4); (r.below(12), *r.pick(sub), *r.pick(sub), (0..k).map(|_| (r.below(64) as u32, r.dyadic())).collect()) }).collect();
            h.case(|| format!("{:?}", ops), || {
                let mut f = SparseFeatures::new();
                let mut m = M::new();
                agree(&f, &m, &pool)?;
                for (i, (op, n, n2, fs)) in ops.iter().enumerate() {
                    let bits: Vec<(u32, u32)> = fs.iter().map(|(a, b)| (*a, b.to_bits())).collect();
                    let r: Result<(), String> = (|| {
                        match op {
                            0 | 1 => { let c = f.get_or_create_namespace(*n); for &(a, b) in fs { c.add_feature(a.into(), b); } m.entry(*n).or_default().extend(&bits); }
                            2 => {
                                let c = f.get_or_create_namespace_with_capacity(*n, fs.len());
                                let ix: Vec<_> = fs.iter().map(|x| x.0.into()).collect();
                                let vs: Vec<_> = fs.iter().map(|x| x.1).collect();
                                c.add_features(&ix, &vs);
                                m.entry(*n).or_default().extend(&bits);
                            }
                            3 => { if let Some(c) = f.get_namespace_mut(*n) { c.add_features_with_iter(fs.iter().map(|x| x.0.into()), fs.iter().map(|x| x.1)); } if let Some(c) = m.get_mut(n) { c.extend(&bits); } }
                            4 => {
                                let mut c = if fs.len() % 2 == 0 { SparseFeaturesNamespace::new(*n2) } else { SparseFeaturesNamespace::new_with_capacity(*n2, 7) };
                                for &(a, b) in fs { c.add_feature(a.into(), b); }
                                f.set_namespace(*n, c);
                                m.insert(*n, bits.clone());
                            }
                            5 => {
                                let got = f.remove_namespace(*n).map(|c| c.iter().map(|(i, x)| (u32::from(i), x.to_bits())).collect::<Vec<_>>());
                                let want = m.remove(n);
                                ensure!(got == want, "remove_namespace gave {:?} expected {:?}", got, want);
                            }
                            6 => { // move a namespace elsewhere
                                if let Some(c) = f.remove_namespace(*n) { f.set_namespace(*n2, c); }
                                if let Some(c) = m.remove(n) { m.insert(*n2, c); }
                            }
                            7 | 8 => { // attach
                                let mut e = SparseFeatures::new();
                                let c = e.get_or_create_namespace(*n); for &(a, b) in fs { c.add_feature(a.into(), b); }
                                e.get_or_create_namespace(*n2).add_feature(9.into(), 1.0);
                                if *op == 8 { e.get_or_create_namespace(ns(3)); e.clear(); e.get_or_create_namespace(*n); }
                                let before = view(&f);
                                let ev = view(&e);
                                f.append(&e);
                                ensure!(view(&e) == ev, "the attached container changed");
                                if fs.len() == 1 {
                                    let mut g = build(&before.iter().map(|(n, l)| (*n, l.iter().map(|(i, x)| (*i, f32::from_bits(*x))).collect())).collect::<Vec<_>>());
                                    g.append(&e);
                                    ensure!(view(&g) == view(&f), "attaching depends on the history");
                                    g.remove(&e);
                                    ensure!(view(&g) == before, "detaching again gives {} not {}", show(&view(&g)), show(&before));
                                }
                                for (k, v) in ev { m.entry(k).or_default().extend(v); }
                            }
                            9 => { if fs.is_empty() { f.clear(); m.clear(); } }
                            10 => { let c = f.get_or_create_namespace(*n); c.reserve(fs.len() * 3); m.entry(*n).or_default(); }
                            _ => { let g = f.clone(); agree(&g, &m, &pool)?; let mut e = build(&[(*n, fs.clone())]); if let Some(c) = e.get_namespace_mut(*n) { c.add_feature(1.into(), 1.0); } ensure!(*n != e.get_namespace(*n).map(|c| c.namespace()).unwrap_or(*n) || e.get_namespace(*n).unwrap().size() == fs.len() + 1, "mutable access does not reach the namespace"); }
                        }
                        agree(&f, &m, &pool)
                    })();
                    r.map_err(|e| format!("after step {i}: {e}"))?;
                }
                Ok(m.len() > 0)
            });
        }
        h.group("products", "quadratic and cubic feature products of two or three namespaces");
        let mut r = h.rng();
        for _ in 0..h.n(400, 6000) {
            let p: Vec<_> = (0..3).map(ns).collect();
            let bits = 1 + r.below(16) as u8;
            let v = random_feats(&mut r, &p, 4, 1 << bits);
            let (a, b, c) = (*r.pick(&p), *r.pick(&p), *r.pick(&p));
            h.case(|| format!("{:?} {:?} {:?} {:?} bits={bits}", v, a, b, c), || {
                let f = build(&v);
                let m = view(&f);
                let fnv = |x: u32, y: u32| x.wrapping_mul(16777619) ^ y;
                let mask = ((1u64 << bits) - 1) as u32;
                let g = |n: &Namespace| m.get(n).map(|l| l.iter().map(|(i, x)| (*i, f32::from_bits(*x))).collect::<Vec<_>>());
                let q = f.quadratic_features(a, b, bits).map(|i| i.map(|(i, x)| (u32::from(i), x)).collect::<Vec<_>>());
                let wq = match (g(&a), g(&b)) { (Some(x), Some(y)) => Some(x.iter().flat_map(|p| y.iter().map(move |q| (fnv(p.0, q.0) & mask, p.1 * q.1))).collect::<Vec<_>>()), _ => None };
                ensure!(q == wq, "quadratic {:?} expected {:?}", q, wq);
                let t = f.cubic_features(a, b, c, bits).map(|i| i.map(|(i, x)| (u32::from(i), x)).collect::<Vec<_>>());
                let mut wt = None;
                if let (Some(x), Some(y), Some(z)) = (g(&a), g(&b), g(&c)) {
                    let mut o = vec![];
                    for p in &x { for q in &y { for s in &z { o.push((fnv(fnv(p.0, q.0), s.0) & mask, p.1 * q.1 * s.1)); } } }
                    wt = Some(o);
                }
                ensure!(t == wt, "cubic {:?} expected {:?}", t, wt);
                Ok(wt.map_or(false, |w| w.len() > 1))
            });
        }
    });
}
