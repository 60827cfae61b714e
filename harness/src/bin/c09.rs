use replay::{drives::*, *};

// Volume rates are the derivatives of the volumes (numerical differentiation)
fn main() {
    let s = ws_state();
    drive("c09", 4000, |r, k| {
        let odd = k % 16 > 13;
        let (f, v, d) = if odd {
            odd_drive(r, k, &s)
        } else {
            let (f, v, d, _, _) = any_drive(r, k, &s);
            (f, v, d)
        };
        let period = 1.0 / f;
        let n = 64;
        let (mut mc, mut me) = (0f64, 0f64);
        for i in 0..n {
            let x = v(period * i as f64 / n as f64);
            mc = mc.max(x.0.deriv.abs());
            me = me.max(x.1.deriv.abs());
        }
        for _ in 0..6 {
            let near = odd && r.coin();
            let t = period * if near { r.f(-0.02, 0.02) } else { if r.n(8) == 0 { r.log(1.0, 1e4) } else { r.f(-2.0, 3.0) } };
            let h = period * if odd { 2e-4 } else { 2e-3 };
            // fourth order central difference
            let w = |g: &dyn Fn(f64) -> f64, h: f64| (8.0 * (g(t + h) - g(t - h)) - (g(t + 2.0 * h) - g(t - 2.0 * h))) / (12.0 * h);
            let (dc, de) = (w(&|t| v(t).0.value, h), w(&|t| v(t).1.value, h));
            let x = v(t);
            if !dc.is_finite() || !de.is_finite() {
                return Out::Skip;
            }
            if odd && ((dc - w(&|t| v(t).0.value, 2.0 * h)).abs() > 1e-5 * mc || (de - w(&|t| v(t).1.value, 2.0 * h)).abs() > 1e-5 * me) {
                continue; // too sharp a turn for this step
            }
            if (dc - x.0.deriv).abs() > 1e-4 * mc.max(dc.abs()) || x.0.deriv.is_nan() {
                return Out::Fail(format!("compression rate {:e} but the volume changes at {:e}; time {:e}, {}", x.0.deriv, dc, t, d));
            }
            if (de - x.1.deriv).abs() > 1e-4 * me.max(de.abs()) || x.1.deriv.is_nan() {
                return Out::Fail(format!("expansion rate {:e} but the volume changes at {:e}; time {:e}, {}", x.1.deriv, de, t, d));
            }
        }
        Out::Pass
    })
}
