use replay::{drives::*, *};

// Periodicity, bounds, clearance attained, phase
fn main() {
    let s = ws_state();
    drive("c10", 2000, |r, k| {
        let (f, v, d, vc, sin) = any_drive(r, k, &s);
        let period = 1.0 / f;
        let n = 720;
        let (mut lo, mut hi) = ((f64::MAX, f64::MAX), (f64::MIN, f64::MIN));
        let (mut rc, mut re) = (0f64, 0f64);
        for i in 0..n {
            let x = v(period * i as f64 / n as f64);
            lo = (lo.0.min(x.0.value), lo.1.min(x.1.value));
            hi = (hi.0.max(x.0.value), hi.1.max(x.1.value));
            rc = rc.max(x.0.deriv.abs());
            re = re.max(x.1.deriv.abs());
        }
        let span = (hi.0 - lo.0, hi.1 - lo.1);
        for _ in 0..4 {
            let t = period * if r.n(8) == 0 { r.log(1.0, 1e4) } else { r.f(-2.0, 3.0) };
            let (a, b) = (v(t), v(t + period));
            let bad = (a.0.value - b.0.value).abs() > 1e-8 * hi.0.abs() || (a.1.value - b.1.value).abs() > 1e-8 * hi.1.abs() || (a.0.deriv - b.0.deriv).abs() > 1e-7 * rc || (a.1.deriv - b.1.deriv).abs() > 1e-7 * re;
            if bad {
                return Out::Fail(format!("not periodic at {:e}: {:?} and {:?}; {}", t, a, b, d));
            }
        }
        for (name, lo, c, span, hi) in [("compression", lo.0, vc.0, span.0, hi.0), ("expansion", lo.1, vc.1, span.1, hi.1)] {
            if lo < c - 1e-9 * hi.abs() {
                return Out::Fail(format!("{} volume {:e} below its clearance {:e}; {}", name, lo, c, d));
            }
            if lo > c + 1e-3 * span + 1e-9 * hi.abs() {
                return Out::Fail(format!("{} volume never attains its clearance {:e}: least {:e}; {}", name, c, lo, d));
            }
        }
        if let Some(q) = sin {
            for (name, hi, m) in [("compression", hi.0, q.vc.0 + q.vs.0), ("expansion", hi.1, q.vc.1 + q.vs.1)] {
                if hi > m * (1.0 + 1e-9) {
                    return Out::Fail(format!("{} volume {:e} above clearance plus swept {:e}; {}", name, hi, m, d));
                }
            }
            if !close(v(0.0).0.value, q.vc.0 + q.vs.0, 1e-9, 0.0) {
                return Out::Fail(format!("compression volume at time zero {:e}; {}", v(0.0).0.value, d));
            }
            for _ in 0..3 {
                let t = period * r.f(0.0, 1.0);
                let x = (v(t + q.phase / 360.0 * period).0.value - q.vc.0) / q.vs.0;
                let y = (v(t).1.value - q.vc.1) / q.vs.1;
                let tol = 1e-7 + 1e-9 * (q.vc.0 / q.vs.0 + q.vc.1 / q.vs.1);
                if (x - y).abs() > tol {
                    return Out::Fail(format!("expansion space does not lead by the phase angle: {} and {}; {}", x, y, d));
                }
            }
        }
        Out::Pass
    })
}
