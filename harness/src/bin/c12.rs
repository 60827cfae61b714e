use replay::*;
use sett_rs::fluid::{Fluid, IdealGas};

pub const H2: [f64; 6] = [12471.4839, 13.319_443_2, -3.477_828_06e-2, 4.317_848_38e-5, -2.428_833_35e-8, 5.142_898_38e-12];

// Heat capacity, enthalpy, energy and p/rho
fn main() {
    drive("c12", 20000, |r, k| {
        let (gas, name) = if k % 2 == 0 { (IdealGas::helium(), "helium") } else { (IdealGas::hydrogen(), "hydrogen") };
        let ends = (if r.coin() { 1e-6 } else { 2.0 }, if r.coin() { 1e7 } else { 1e4 });
        let (t, p) = if r.n(3) == 0 { (r.log(ends.0, ends.1), r.log(1e-3, 1e11)) } else { (r.log(60.0, 2000.0), r.log(1e3, 3e7)) };
        let at = format!("{} at {} K, {:e} Pa", name, t, p);
        let mut known = String::new();
        let h = 1e-3 * t;
        let g = |x: f64| gas.enth(x, p);
        let fd = (8.0 * (g(t + h) - g(t - h)) - (g(t + 2.0 * h) - g(t - 2.0 * h))) / (12.0 * h);
        let noise = 1e-9 * (gas.enth(t, p).abs() + 1e5) / t;
        if !close(gas.cp(t, p), fd, 1e-6, noise) {
            let hh: f64 = (0..6).map(|i| H2[i] / (i as f64 + 1.0) * (t - 250.0) * t.powi(i as i32)).sum();
            let cp: f64 = (0..6).map(|i| H2[i] * t.powi(i as i32)).sum();
            if name == "hydrogen" && close(gas.cp(t, p), cp, 1e-9, 0.0) && close(gas.enth(t, p), hh, 1e-9, 1e-3) {
                known = "KF1".into();
            } else {
                return Out::Fail(format!("heat capacity {:e}, enthalpy changes at {:e}; {}", gas.cp(t, p), fd, at));
            }
        }
        let rg = p / (gas.dens(t, p) * t);
        if gas.enth(250.0, p).abs() > 1e-6 * gas.cp(250.0, p) * 250.0 {
            return Out::Fail(format!("enthalpy at 250 K is {:e}; {}", gas.enth(250.0, p), at));
        }
        let u0 = gas.inte(250.0, p);
        if u0.abs() > 1e-6 * rg * 250.0 && !close(u0, -rg * 250.0, 1e-6, 0.0) {
            return Out::Fail(format!("internal energy at 250 K is {:e}; {}", u0, at));
        }
        let diff = gas.enth(t, p) - gas.inte(t, p);
        let noise = 1e-9 * (gas.enth(t, p).abs() + rg * t);
        if !close(diff, rg * t, 1e-9, noise) {
            if close(diff, rg * (t - 250.0), 1e-9, noise) {
                known = format!("{}KF2", if known.is_empty() { "".to_string() } else { format!("{} ", known) });
            } else {
                return Out::Fail(format!("enthalpy less internal energy {:e}, p/rho {:e}; {}", diff, rg * t, at));
            }
        }
        if known.is_empty() {
            Out::Pass
        } else {
            Out::Known(known)
        }
    })
}
