use harness::*;
use reductionml_core::dense_weights::DenseWeights;
use reductionml_core::weights::Weights;
use reductionml_core::*;
use std::collections::HashMap;

fn table(f: u32, m: u8, s: u8) -> Result<DenseWeights, String> {
    DenseWeights::new(FeatureIndex::from(f), ModelIndex::from(m), StateIndex::from(s)).map_err(|e| e.to_string())
}

/// fill every state slot with a unique value, then read all back
fn check_all(f: u32, m: u8, s: u8) -> Result<bool, String> {
    let mut w = table(f, m, s)?;
    let mut k = 1.0f32;
    let mut expect: HashMap<(u32, u8, u8), f32> = HashMap::new();
    for i in 0..f {
        for j in 0..m {
            let b = w.state_at_mut(i.into(), j.into());
            ensure!(b.len() == s as usize, "block of ({i},{j}) has {} slots, not {s}", b.len());
            for (t, x) in b.iter_mut().enumerate() {
                ensure!(*x == 0.0, "fresh slot ({i},{j},{t}) is {x} or overlaps a block written before");
                *x = k;
                expect.insert((i, j, t as u8), k);
                k += 1.0;
            }
        }
    }
    for i in 0..f {
        for j in 0..m {
            let b = w.state_at(i.into(), j.into());
            ensure!(b.len() == s as usize, "read block of ({i},{j}) has {} slots", b.len());
            for (t, x) in b.iter().enumerate() {
                ensure!(*x == expect[&(i, j, t as u8)], "slot ({i},{j},{t}) reads {x}, expected {}", expect[&(i, j, t as u8)]);
            }
            ensure!(w.weight_at(i.into(), j.into()) == expect[&(i, j, 0)], "weight of ({i},{j}) is not its first slot");
        }
    }
    // writing one weight changes only that weight
    let probes = [(0u32, 0u8), (f - 1, m - 1), (f / 2, 0), (0, m - 1), (f - 1, 0)];
    for &(a, b) in &probes {
        let before = w.clone();
        *w.weight_at_mut(a.into(), b.into()) = -1.0;
        for i in 0..f {
            for j in 0..m {
                for t in 0..s as usize {
                    let e = if (i, j, t) == (a, b, 0) { -1.0 } else { before.state_at(i.into(), j.into())[t] };
                    let g = w.state_at(i.into(), j.into())[t];
                    ensure!(g == e, "after writing the weight of ({a},{b}), slot ({i},{j},{t}) is {g}, expected {e}");
                }
            }
        }
        w = before;
    }
    Ok(f > 1 || m > 1 || s > 1)
}

fn main() {
    run("C01", |h| {
        h.group("tables", "every table with the given feature count, model count and state size is filled slot by slot and read back; non-trivial when it has more than one slot");
        let fs: Vec<u32> = (1..=h.n(9, 20) as u32).collect();
        let ms: Vec<u8> = (1..=h.n(6, 12) as u8).collect();
        let ss: Vec<u8> = (1..=h.n(7, 10) as u8).collect();
        for &f in &fs {
            for &m in &ms {
                for &s in &ss {
                    h.case(|| format!("features={f} models={m} state={s}"), || check_all(f, m, s));
                }
            }
        }
        h.group("extreme", "tables with extreme sizes in one dimension (up to 255 models, 255 state slots, 2^20 features), boundary blocks only");
        let mut big = vec![(1u32 << 16, 1u8, 6u8), (1 << 18, 1, 6), (1000, 3, 5), (65537, 2, 1), (3, 255, 1), (1, 255, 6), (2, 1, 255), (5, 100, 9), (1, 1, 255), (33, 200, 3), (7, 16, 16), (2, 255, 255), (1, 128, 128)];
        if h.thorough { big.push((1 << 22, 3, 6)); big.push(((1 << 20) + 1, 5, 7)); }
        let mut rng = h.rng();
        for _ in 0..h.n(20, 200) { big.push((1 + rng.below(5000) as u32, 1 + rng.below(255) as u8, 1 + rng.below(9) as u8)); }
        for (f, m, s) in big {
            h.case(|| format!("features={f} models={m} state={s}"), || {
                let mut w = table(f, m, s)?;
                let mut pts: Vec<(u32, u8)> = vec![];
                for a in [0, 1, f / 3, f / 2, f.wrapping_sub(2), f - 1] { for b in [0, 1, m / 2, m.wrapping_sub(2), m - 1] {
                    if a < f && b < m && !pts.contains(&(a, b)) { pts.push((a, b)); } } }
                let mut k = 1.0;
                for &(a, b) in &pts { let blk = w.state_at_mut(a.into(), b.into());
                    ensure!(blk.len() == s as usize, "block length {}", blk.len());
                    for (t, x) in blk.iter_mut().enumerate() { ensure!(*x == 0.0, "slot ({a},{b},{t}) is {x}: overlaps"); *x = k; k += 1.0; } }
                let mut k = 1.0;
                for &(a, b) in &pts {
                    ensure!(w.weight_at(a.into(), b.into()) == k, "weight of ({a},{b})");
                    for (t, x) in w.state_at(a.into(), b.into()).iter().enumerate() { ensure!(*x == k, "slot ({a},{b},{t}) reads {x}, expected {k}"); k += 1.0; } }
                Ok(true)
            });
        }
    });
}
