use harness::feats::*;
use harness::gen;
use harness::*;
use reductionml_core::object_pool::*;
use reductionml_core::parsers::*;
use reductionml_core::sparse_namespaced_features::SparseFeatures;
use reductionml_core::types::*;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fmt { VwCb, VwSimple, JsonCb, JsonSimple, Ds }
const ALL: [Fmt; 5] = [Fmt::VwCb, Fmt::VwSimple, Fmt::JsonCb, Fmt::JsonSimple, Fmt::Ds];
fn text(f: Fmt, e: &gen::Example) -> String {
    match f { Fmt::VwCb => gen::vw_cb(e), Fmt::VwSimple => gen::vw_simple(e), Fmt::JsonCb => gen::json_cb(e), Fmt::JsonSimple => gen::json_simple(e), Fmt::Ds => gen::dsjson(e) }
}
fn cb(f: Fmt) -> bool { matches!(f, Fmt::VwCb | Fmt::JsonCb | Fmt::Ds) }
fn parse(f: Fmt, t: &str, seed: u32, bits: u8, pool: &Arc<Pool<SparseFeatures>>) -> Result<(Features<'static>, Option<Label>), String> {
    let (ft, lt) = if cb(f) { (FeaturesType::SparseCBAdf, LabelType::CB) } else { (FeaturesType::SparseSimple, LabelType::Simple) };
    let r = match f {
        Fmt::VwCb | Fmt::VwSimple => VwTextParserFactory::default().create(ft, lt, seed, bits, pool.clone()).parse_chunk(t),
        Fmt::JsonCb | Fmt::JsonSimple => JsonParserFactory::default().create(ft, lt, seed, bits, pool.clone()).parse_chunk(t),
        Fmt::Ds => DsJsonParserFactory::default().create(ft, lt, seed, bits, pool.clone()).parse_chunk(t),
    };
    r.map_err(|e| e.to_string())
}
/// what a container shows, through every read accessor
fn full(s: &SparseFeatures) -> String {
    let mut o = format!("{} empty={} all={:?}", show(&view(s)), s.empty(), s.all_features().map(|(i, x)| (u32::from(i), x.to_bits())).collect::<Vec<_>>());
    for (n, _) in s.namespaces() {
        if let Some(c) = s.get_namespace(n) { o += &format!(" {:?}:{}/{}/{}", c.namespace(), c.size(), c.indices().len(), c.values().len()); }
    }
    o
}
fn fulls(f: &Features) -> String {
    match f {
        Features::SparseSimple(s) => full(s),
        Features::SparseSimpleRef(s) => full(s),
        Features::SparseCBAdf(c) => format!("shared {:?} actions {:?}", c.shared.as_ref().map(full), c.actions.iter().map(full).collect::<Vec<_>>()),
        Features::SparseCBAdfRef(c) => format!("shared {:?} actions {:?}", c.shared.as_ref().map(full), c.actions.iter().map(full).collect::<Vec<_>>()),
    }
}
fn count(f: &Features) -> usize { match f { Features::SparseCBAdf(c) => c.actions.len() + c.shared.is_some() as usize, _ => 1 } }

fn main() {
    run("C05", |h| {
        h.group("history", "sequences of examples in all formats parsed through one shared pool, returned in between (sometimes edited, attached or held back), against a fresh pool for each example");
        let mut r = h.rng();
        for _ in 0..h.n(250, 4000) {
            let seed = if r.bool() { 0 } else { r.next() as u32 };
            let bits = [4u8, 12, 18, 30][r.below(4)];
            let only = if r.bool() { Some(ALL[r.below(5)]) } else { None };
            let k = 2 + r.below(6);
            let hist: Vec<(Fmt, String, u64)> = (0..k).map(|_| { let f = only.unwrap_or(ALL[r.below(5)]); let e = gen::example(&mut r, cb(f)); let e = gen::Example { label: if f == Fmt::VwCb || cb(f) { e.label } else { None }, ..e }; (f, text(f, &e), r.next()) }).collect();
            h.case(|| format!("seed={seed} bits={bits} {:?}", hist), || {
                let pool: Arc<Pool<SparseFeatures>> = Arc::new(Pool::new());
                for (i, (f, t, what)) in hist.iter().enumerate() {
                    let before = pool.len();
                    let (a, la) = parse(*f, t, seed, bits, &pool)?;
                    let taken = before - pool.len();
                    let (b, lb) = parse(*f, t, seed, bits, &Arc::new(Pool::new()))?;
                    ensure!(fulls(&a) == fulls(&b), "example {i} parsed into recycled containers is {} but into new ones {}", fulls(&a), fulls(&b));
                    ensure!(format!("{:?}", la) == format!("{:?}", lb), "label {:?} differs from {:?}", la, lb);
                    ensure!(taken <= count(&a), "{taken} containers taken from the pool for {} used", count(&a));
                    // what happens to the example before it goes back
                    let mut a = a;
                    if let Features::SparseCBAdf(c) = &mut a {
                        let sh = c.shared.clone();
                        if let Some(s) = &sh { for x in &mut c.actions { if what % 3 == 0 { x.append(s); } if what % 6 == 0 { x.remove(s); } } }
                    }
                    if let Features::SparseSimple(s) = &mut a {
                        if what % 3 == 0 { s.get_or_create_namespace(ns(5)).add_feature(3.into(), 4.0); }
                        if what % 5 == 0 { s.remove_namespace(ns(5)); }
                    }
                    if what % 7 != 0 {
                        let n = count(&a);
                        let before = pool.len();
                        a.clear_and_return_object(&pool);
                        ensure!(pool.len() == before + n, "returning an example of {n} containers put {} back", pool.len() - before);
                    }
                }
                Ok(true)
            });
        }
        h.group("cleared", "containers with any content, activity and attach history, cleared and then filled again, against new containers; including pre-sized access and reserve");
        let mut r = h.rng();
        for _ in 0..h.n(600, 10000) {
            let pool: Vec<_> = (0..4).map(ns).collect();
            let big = if r.chance(1, 20) { 3000 } else { 5 };
            let (old, ext, new) = (random_feats(&mut r, &pool, big, 256), random_feats(&mut r, &pool, 3, 256), random_feats(&mut r, &pool, 5, 256));
            let (mode, cap) = (r.below(4), r.below(20));
            h.case(|| format!("old {:?} attached {:?} new {:?} mode={mode} cap={cap}", old, ext, new), || {
                let p: Pool<SparseFeatures> = Pool::new();
                let mut f = build(&old);
                let e = build(&ext);
                if mode & 1 == 1 { f.append(&e); }
                if mode == 3 { f.remove(&e); }
                f.clear_and_return_object(&p);
                ensure!(p.len() == 1 && !p.is_empty(), "pool holds {} objects", p.len());
                let mut f = p.get_object();
                ensure!(p.is_empty(), "the object stays in the pool");
                ensure!(f.empty() && view(&f).is_empty() && f.all_features().count() == 0, "a recycled container is not empty: {}", full(&f));
                for n in &pool { ensure!(f.get_namespace(*n).is_none() && f.get_namespace_mut(*n).is_none(), "recycled container has {:?}", n); }
                let mut g = SparseFeatures::new();
                for x in [&mut f, &mut g] {
                    for (n, fs) in &new {
                        let c = if mode < 2 { x.get_or_create_namespace(*n) } else { x.get_or_create_namespace_with_capacity(*n, cap) };
                        c.reserve(cap);
                        if mode == 0 { c.add_features_with_iter(fs.iter().map(|x| x.0.into()), fs.iter().map(|x| x.1)); }
                        else { for &(i, v) in fs { c.add_feature(i.into(), v); } }
                    }
                }
                ensure!(full(&f) == full(&g), "recycled {} new {}", full(&f), full(&g));
                // attaching and detaching behaves the same as on a new container
                for x in [&mut f, &mut g] { x.append(&e); }
                ensure!(full(&f) == full(&g), "after attaching: recycled {} new {}", full(&f), full(&g));
                for x in [&mut f, &mut g] { x.remove(&e); }
                ensure!(full(&f) == full(&g), "after detaching: recycled {} new {}", full(&f), full(&g));
                // comparisons and attaching the recycled one elsewhere
                ensure!(approx::AbsDiffEq::abs_diff_eq(&f, &g, 0.0) && approx::AbsDiffEq::abs_diff_eq(&g, &f, 0.0), "recycled and new containers with the same content compare unequal");
                let (mut a, mut b) = (build(&ext), build(&ext));
                a.append(&f); b.append(&g);
                ensure!(full(&a) == full(&b), "attached elsewhere: {} {}", full(&a), full(&b));
                Ok(!old.is_empty())
            });
        }
    });
}
