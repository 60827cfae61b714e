use replay::*;
use sett_rs::types::ConvergenceTolerance;

fn special(r: &mut Rng) -> f64 {
    let xs = [0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, 1e-300, 1e300, 1e-3, 300.0];
    match r.n(5) {
        0 => xs[r.n(xs.len() as u64) as usize],
        1 => f64::from_bits(r.u()),
        2 => r.log(1e-6, 1e6) * if r.coin() { 1.0 } else { -1.0 },
        _ => r.f(-1000., 1000.),
    }
}

// Acceptance only of small finite changes, and of all clearly small ones
fn main() {
    drive("c20", 4_000_000, |r, k| {
        let old = special(r);
        let new = match r.n(4) {
            0 => special(r),
            1 => old * (1.0 + r.f(-1.0, 1.0) * r.log(1e-12, 1.0)),
            2 => old + r.f(-1.0, 1.0) * r.log(1e-12, 10.0),
            _ => f64::from_bits(old.to_bits().wrapping_add(r.n(5)).wrapping_sub(2)),
        };
        let tl = |r: &mut Rng| match r.n(6) {
            0 => special(r),
            1 => -r.log(1e-9, 1e3),
            _ => r.log(1e-9, 1e3),
        };
        let (abs, rel) = (tl(r), tl(r));
        let got = ConvergenceTolerance { abs, rel }.is_converged(old, new);
        let ctx = format!("old {:e} ({:#x}), new {:e} ({:#x}), abs {:e}, rel {:e}, case {}", old, old.to_bits(), new, new.to_bits(), abs, rel, k);
        if got {
            if !old.is_finite() || !new.is_finite() {
                return Out::Fail(format!("accepts a value that is not finite: {}", ctx));
            }
            if !(abs > 0.0) || !(rel > 0.0) {
                return Out::Fail(format!("accepts with a tolerance that is not positive: {}", ctx));
            }
            let d = (new - old).abs();
            if !(d < abs) {
                return Out::Fail(format!("change {:e} not below the absolute tolerance: {}", d, ctx));
            }
            if !(d <= rel * old.abs() * (1.0 + 1e-12) + 1e-307) {
                return Out::Fail(format!("change {:e} not below the relative tolerance: {}", d, ctx));
            }
        } else if old.is_finite() && new.is_finite() && old.abs() > 1e-6 && old.abs() < 1e300 && rel > 1e-300 && rel < 1e6 && abs > 0.0 {
            let d = (new - old).abs();
            if d <= 0.5 * abs && d <= 0.5 * rel * old.abs() && rel * old.abs() > 1e-300 && abs > 1e-300 {
                return Out::Fail(format!("refuses a change of {:e} that is clearly below both tolerances: {}", d, ctx));
            }
        }
        Out::Pass
    })
}
