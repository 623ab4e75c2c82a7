use harness::*;
use reductionml_core::explore::enforce_min_prob;

fn check(eps: f32, zeros: bool, inp: &[(usize, f32)]) -> Result<bool, String> {
    let mut v = inp.to_vec();
    let r = enforce_min_prob(eps, zeros, &mut v);
    let same = v.iter().map(|x| (x.0, x.1.to_bits())).eq(inp.iter().map(|x| (x.0, x.1.to_bits())));
    if inp.is_empty() || !(0.0..=1.0).contains(&eps) {
        ensure!(r.is_err(), "accepted: {:?}", v);
        ensure!(same, "rejected but changed to {:?}", v);
        return Ok(true);
    }
    ensure!(r.is_ok(), "rejected: {:?}", r.err().map(|e| e.to_string()));
    if eps == 0.0 { ensure!(same, "changed by epsilon 0 to {:?}", v); return Ok(true); }
    ensure!(v.iter().map(|x| x.0).eq(inp.iter().map(|x| x.0)), "action ids changed to {:?}", v);
    let support: Vec<usize> = (0..inp.len()).filter(|&i| zeros || inp[i].1 > 0.0).collect();
    let n = support.len() as f64;
    let tol = 1e-5 * (1.0 + inp.len() as f64) * inp.iter().map(|x| x.1 as f64).fold(1.0, f64::max);
    for i in 0..v.len() { if !support.contains(&i) { ensure!(v[i].1 == 0.0, "excluded zero at {i} became {}", v[i].1); } }
    if support.is_empty() { return Ok(false); }
    for &i in &support { ensure!(v[i].1 as f64 >= eps as f64 / n - tol && v[i].1 <= 1.0 + tol as f32, "probability {} at {i} below the floor {}", v[i].1, eps as f64 / n); }
    let s: f64 = v.iter().map(|x| x.1 as f64).sum();
    ensure!((s - 1.0).abs() <= tol, "sum is {s}: {:?}", v);
    for &i in &support { for &j in &support { if inp[i].1 > inp[j].1 { ensure!(v[i].1 >= v[j].1, "order of {i} and {j} reversed: {:?}", v); } if inp[i].1 == inp[j].1 { ensure!(v[i].1 == v[j].1, "equal scores got unequal probabilities: {:?}", v); } } }
    Ok(inp.len() > 1)
}

fn main() {
    run("C07", |h| {
        h.group("grid", "all score lists of up to 4 values over a small grid (zeros, ties, sums below, at and above 1), all floors, zeros counted or not");
        let g = [0.0f32, 0.1, 0.25, 0.5, 1.0, 3.0];
        let eps = [0.0f32, 1e-3, 0.1, 0.3, 0.5, 0.75, 0.9, 0.99, 0.9985, 0.9995, 1.0];
        let top = h.n(4, 5);
        for len in 0..=top {
            for k in 0..g.len().pow(len as u32) {
                let mut kk = k;
                let v: Vec<(usize, f32)> = (0..len).map(|i| { let x = g[kk % g.len()]; kk /= g.len(); (10 - i, x) }).collect();
                for &e in &eps { for z in [true, false] { h.case(|| format!("epsilon={e} zeros={z} {:?}", v), || check(e, z, &v)); } }
            }
        }
        h.group("rejected", "floors outside [0,1]");
        for e in [-0.1f32, -1.0, 1.0001, 2.0, f32::INFINITY, f32::NEG_INFINITY, -f32::MIN_POSITIVE, 1.0 + f32::EPSILON] { for z in [true, false] { for v in [vec![], vec![(0, 0.5)], vec![(3, 0.9), (1, 0.1)]] { h.case(|| format!("epsilon={e} zeros={z} {:?}", v), || check(e, z, &v)); } } }
        h.group("random", "random distributions and unnormalised scores of up to 40 actions");
        let mut r = h.rng();
        for _ in 0..h.n(6000, 100000) {
            let len = if r.bool() { 1 + r.below(6) } else { 1 + r.below(40) };
            let kind = r.below(4);
            let mut v: Vec<(usize, f32)> = (0..len).map(|i| { let u = r.unit(); (i * 3, match kind { 0 => u as f32, 1 => (u * u * u * u) as f32, 2 => if u < 0.4 { 0.0 } else { u as f32 }, _ => (u * 10.0) as f32 }) }).collect();
            if r.chance(3, 4) { let s: f32 = v.iter().map(|x| x.1).sum(); if s > 0.0 { for x in &mut v { x.1 /= s; } } }
            if r.chance(1, 4) { let k = r.below(len); v[k].1 = v[0].1; }
            let e = match r.below(5) { 0 => 1e-6, 1 => 1.0 - r.unit() as f32 * 0.01, _ => r.unit() as f32 };
            let z = r.bool();
            h.case(|| format!("epsilon={e} zeros={z} {:?}", v), || check(e.max(1e-7), z, &v));
        }
    });
}
