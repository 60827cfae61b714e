use replay::*;
use sett_rs::fluid::{Fluid, IdealGas};

/// the hydrogen enthalpy of the pinned known finding: sum a_i/(i+1) (T-250) T^i
pub const H2: [f64; 6] = [12471.4839, 13.319_443_2, -3.477_828_06e-2, 4.317_848_38e-5, -2.428_833_35e-8, 5.142_898_38e-12];

// Derivative properties are the derivatives (numerical differentiation), ideal-gas law
fn main() {
    drive("c11", 20000, |r, k| {
        let (gas, name, rs) = if k % 2 == 0 { (IdealGas::helium(), "helium", 8314.4626 / 4.0026) } else { (IdealGas::hydrogen(), "hydrogen", 8314.4626 / 2.01588) };
        let ends = (if r.coin() { 1e-6 } else { 2.0 }, if r.coin() { 1e7 } else { 1e4 });
        let (t, p) = if r.n(3) == 0 { (r.log(ends.0, ends.1), r.log(1e-3, 1e11)) } else { (r.log(60.0, 2000.0), r.log(1e3, 3e7)) };
        let at = format!("{} at {} K, {:e} Pa", name, t, p);
        let d4 = |g: &dyn Fn(f64) -> f64, x: f64| {
            let h = 1e-3 * x;
            (8.0 * (g(x + h) - g(x - h)) - (g(x + 2.0 * h) - g(x - 2.0 * h))) / (12.0 * h)
        };
        if !close(gas.dens(t, p), p / (rs * t), 0.005, 0.0) {
            return Out::Fail(format!("density {:e}, ideal gas {:e}; {}", gas.dens(t, p), p / (rs * t), at));
        }
        // proportional to p/T with one constant
        if !close(gas.dens(t, p) * t / p, gas.dens(300.0, 1e6) * 300.0 / 1e6, 1e-9, 0.0) {
            return Out::Fail(format!("density times T over p varies; {}", at));
        }
        let fd = d4(&|x| gas.dens(t, x), p);
        if !close(gas.dd_dP_T(t, p), fd, 1e-7, 0.0) {
            return Out::Fail(format!("density derivative by pressure {:e}, numerical {:e}; {}", gas.dd_dP_T(t, p), fd, at));
        }
        let fd = d4(&|x| gas.dens(x, p), t);
        if !close(gas.dd_dT_P(t, p), fd, 1e-7, 0.0) {
            return Out::Fail(format!("density derivative by temperature {:e}, numerical {:e}; {}", gas.dd_dT_P(t, p), fd, at));
        }
        let fd = d4(&|x| gas.inte(t, x), p);
        let noise = 1e-10 * gas.inte(t, p).abs() / (1e-3 * p);
        if !close(gas.du_dP_T(t, p), fd, 1e-7, noise) {
            return Out::Fail(format!("energy derivative by pressure {:e}, numerical {:e}; {}", gas.du_dP_T(t, p), fd, at));
        }
        let fd = d4(&|x| gas.inte(x, p), t);
        let noise = 1e-9 * (gas.inte(t, p).abs() + 1e5) / t;
        if !close(gas.du_dT_P(t, p), fd, 1e-6, noise) {
            let h: f64 = (0..6).map(|i| H2[i] / (i as f64 + 1.0) * (t - 250.0) * t.powi(i as i32)).sum();
            let cp: f64 = (0..6).map(|i| H2[i] * t.powi(i as i32)).sum();
            let rg = p / (gas.dens(t, p) * t);
            let known = name == "hydrogen" && close(gas.du_dT_P(t, p), cp - rg, 1e-9, 0.0) && close(gas.inte(t, p), h - rg * (t - 250.0), 1e-9, 1e-3);
            if known {
                return Out::Known("KF1".into());
            }
            return Out::Fail(format!("energy derivative by temperature {:e}, numerical {:e}; {}", gas.du_dT_P(t, p), fd, at));
        }
        Out::Pass
    })
}
