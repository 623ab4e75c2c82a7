//! C15: losses, gradients and updates agree
use harness::*;
use reductionml_core::loss_function::*;

fn main() {
    run("C15", |h| {
        for (kind, what) in [("squared", "squared"), ("logistic", "logistic")] {
            let sq = kind == "squared";
            h.group(what, "random label range, label in range, predictions inside, outside and at the ends; direct loss object and through the LossFunction enum; checked against the closed forms in f64 and numeric slopes; non-trivial: prediction different from the label");
            let mut r = h.rng();
            for k in 0..h.n(12000, 300000) {
                let (mn, mx) = if sq { let a = r.f32_in(-5.0, 5.0); (a, a + r.f32_in(0.0, 6.0)) } else { *r.pick(&[(-1.0f32, 1.0f32), (0.0, 1.0), (-3.0, 2.0)]) };
                let label = match r.below(3) { 0 => mn, 1 => mx, _ => mn + (mx - mn) * r.unit() as f32 };
                let label = label.clamp(mn, mx);
                let p = match r.below(6) { 0 => mn, 1 => mx, 2 => label, 3 => r.f32_in(-12.0, 12.0), 4 => mn - r.f32_in(0.0, 4.0), _ => mn + (mx - mn) * r.unit() as f32 };
                let scale = [1e-9f32, 1e-7, 1e-4, 0.01, 0.1, 0.5, 1.0, 3.0][r.below(8)];
                let ppu = [1e-6f32, 1e-3, 0.1, 1.0, 2.0, 10.0][r.below(6)];
                h.case(|| format!("range [{mn},{mx}] label {label} prediction {p} scale {scale} pred_per_update {ppu} via_enum {}", k % 2 == 1), || {
                    let sqi: SquaredLoss = Default::default();
                    let lgi = LogisticLoss::new(mn, mx);
                    let en: LossFunction = if sq { sqi.into() } else { lgi.into() };
                    let l: &dyn LossFunctionImpl = if k % 2 == 1 { &en } else if sq { &sqi } else { &lgi };
                    let (dp, dl) = (p as f64, label as f64);
                    let (lo, hi) = (mn as f64, mx as f64);
                    let std = if sq { 0.0 } else { (dl - lo) / (hi - lo) };
                    let s = |x: f64| 1.0 / (1.0 + (-x).exp());
                    let lossf = |q: f64| if sq { if q < lo { (dl - lo).powi(2) + 2.0 * (dl - lo) * (lo - q) } else if q > hi { (hi - dl).powi(2) + 2.0 * (hi - dl) * (q - hi) } else { (q - dl).powi(2) } }
                        else { std * (1.0 + (-q).exp()).ln() + (1.0 - std) * (1.0 + q.exp()).ln() };
                    let dw = if sq { 2.0 * (dp.clamp(lo, hi) - dl) } else { -std * (1.0 - s(dp)) + (1.0 - std) * s(dp) };
                    let ddw = if sq { if dp >= lo && dp <= hi { 2.0 } else { 0.0 } } else { s(dp) * (1.0 - s(dp)) };
                    let loss = l.get_loss(mn, mx, p, label) as f64;
                    ensure!(loss >= 0.0, "negative loss {loss}");
                    ensure!((loss - lossf(dp)).abs() <= 1e-4 * (1.0 + lossf(dp)), "loss {loss}, closed form {}", lossf(dp));
                    let d = l.first_derivative(mn, mx, p, label) as f64;
                    ensure!((d - dw).abs() <= 1e-4 * (1.0 + dw.abs()), "derivative {d}, slope of the loss {dw}");
                    if sq && p == label { ensure!(d == 0.0, "derivative {d} at the label"); }
                    if !sq && label == mx { ensure!(d <= 0.0, "derivative {d} points away from the label"); }
                    if !sq && label == mn { ensure!(d >= 0.0, "derivative {d} points away from the label"); }
                    // numeric slope of the implementation itself, away from the corners
                    let e = 0.05f32;
                    if !sq || ((p - mn).abs() > 2.0 * e && (p - mx).abs() > 2.0 * e) {
                        let num = (l.get_loss(mn, mx, p + e, label) as f64 - l.get_loss(mn, mx, p - e, label) as f64) / ((p + e) as f64 - (p - e) as f64);
                        ensure!((num - d).abs() <= 4e-3 * (1.0 + d.abs()), "derivative {d}, numeric slope {num}");
                    }
                    let dd = l.second_derivative(mn, mx, p, label) as f64;
                    ensure!(dd >= 0.0 && (dd - ddw).abs() <= 1e-4, "curvature {dd}, expected {ddw}");
                    if sq || label == mn || label == mx {
                        let g = l.get_square_grad(p, label) as f64;
                        let gw = if sq { 4.0 * (dp - dl).powi(2) } else { dw * dw };
                        ensure!((g - gw).abs() <= 2e-4 * (1.0 + gw), "squared gradient {g}, expected {gw}");
                        if !sq || (p >= mn && p <= mx) { ensure!((g - d * d).abs() <= 3e-4 * (1.0 + gw), "squared gradient {g}, derivative squared {}", d * d); }
                        let uu = l.get_unsafe_update(p, label, scale) as f64;
                        let raw = if sq { 2.0 * (dp - dl) } else { dw };
                        ensure!((uu + raw * scale as f64).abs() <= 1e-4 * (scale as f64) * (1.0 + raw.abs()), "unsafe update {uu}, minus gradient times step {}", -raw * scale as f64);
                        if sq || p.abs() <= 8.0 {
                            let u = l.get_update(p, label, scale, ppu) as f64;
                            let x = (scale * ppu) as f64;
                            if sq {
                                let want = if (scale * ppu) < 1e-6 { 2.0 * (dl - dp) * scale as f64 } else { (dl - dp) * (1.0 - (-2.0 * x).exp()) / ppu as f64 };
                                ensure!((u - want).abs() <= if scale * ppu < 1e-6 { 0.0 } else { 1e-5 * (dl - dp).abs() / ppu as f64 } + 1e-4 * want.abs(), "update {u}, closed form {want}");
                                ensure!(u * (dl - dp) >= 0.0, "update {u} moves away from the label");
                                ensure!((u * ppu as f64).abs() <= (dl - dp).abs() * (1.0 + 1e-5), "update {u} overshoots the label");
                            } else {
                                let y = if label == mx { 1.0 } else { -1.0 };
                                // the exact step solves the gradient flow of the logistic loss up to the approximation of W(exp(x))-x
                                ensure!(u * y >= -2e-3 / ppu as f64 * 0.1 || scale * ppu >= 1e-6 && (u * y) >= -2e-4 / ppu as f64, "update {u} moves away from the label");
                                if scale * ppu < 1e-6 { ensure!((u - y * scale as f64 / (1.0 + (y * dp).exp())).abs() <= 1e-4 * scale as f64, "small-step update {u}"); }
                                else {
                                    // W(e^z)-z with z = x + y p + e^{y p}, by Newton in f64
                                    let z = x + y * dp + (y * dp).exp();
                                    let mut w = if z > 1.0 { z - z.ln() } else { z.exp() };
                                    for _ in 0..60 { let f = w + w.ln() - z; w -= f / (1.0 + 1.0 / w); if w <= 0.0 { w = 1e-300; } }
                                    let want = -(y * (w - z) + dp) / ppu as f64;
                                    ensure!((u - want).abs() <= (2.5e-4 + 1e-5 * z.abs()) / ppu as f64, "update {u}, exact step {want}");
                                }
                            }
                            if x <= 1e-3 && ppu >= 0.1 { ensure!((u - uu).abs() <= 2e-3 * uu.abs() + 2.5e-4 / ppu as f64 * if sq { 0.0 } else { 1.0 } + 1e-5 * (dl - dp).abs() / ppu as f64, "small step: update {u}, plain gradient step {uu}"); }
                        }
                    }
                    Ok(p != label)
                });
            }
        }
    });
}
