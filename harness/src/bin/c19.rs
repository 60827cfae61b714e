use replay::*;
use sett_rs::types::{HeatExchanger, ParasiticPower};
use sett_rs::{chx, hhx, regen};
use sett_rs::{chx::ColdHeatExchanger, hhx::HotHeatExchanger, regen::Regenerator};

// The effectiveness-NTU laws of the fixed-conductance exchangers, and fixed approaches
fn main() {
    drive("c19", 20000, |r, k| {
        let par = ParasiticPower { thermal: r.f(0., 1.), mechanical: r.f(0., 1.), electrical: r.f(0., 1.) };
        let (vol, rh) = (r.log(1e-6, 1e-3), r.log(1e2, 1e6));
        let h = HeatExchanger { temp: r.f(280., 900.), pres: r.log(1e5, 1e7), dens: r.log(0.1, 20.0), cp: r.log(500., 2e4), m_dot: r.log(1e-4, 1.0), Q_dot: r.f(-1e4, 1e4) };
        let mut h = h;
        if r.n(3) == 0 {
            h.cp = r.log(1e-3, 1e7);
            h.m_dot = r.log(1e-12, 1e4);
            h.Q_dot *= r.log(1e-9, 1e3);
            h.pres = r.log(1e-3, 1e12);
            h.dens = r.log(1e-6, 1e4);
        }
        if r.n(20) == 0 {
            h.Q_dot = 0.0;
        }
        let h = h;
        let cc = h.cp * h.m_dot;
        let most = if r.coin() { 800.0 } else { 1e12 };
        let ntu = if r.n(3) == 0 { r.log(1e-9, most) } else { r.log(1e-3, 12.0) };
        let ua = ntu * cc;
        let (tk, tl) = if r.n(4) == 0 { (r.f(1., 1500.), r.f(1., 1500.)) } else { (r.f(280., 400.), r.f(500., 1200.)) };
        let dt = match r.n(8) {
            0 => 0.0,
            1 => r.log(1e-12, 1e12),
            _ => r.f(-20., 120.),
        };
        let what = format!("UA {:e}, {:?}, exchangers {} {}", ua, h, tk, tl);
        let law = h.Q_dot / cc * (1.0 / (-(-ntu).exp_m1()) - 1.0);
        let slack = 1e-11 * (h.Q_dot / cc).abs() / (1.0 - (-ntu).exp());
        let sc = chx::State { hxr: h, sink_temp: r.f(280., 320.) };
        let sh = hhx::State { hxr: h, source_temp: r.f(680., 920.) };
        let sr = regen::State { hxr: h, temp_chx: tk, temp_hhx: tl };
        let a = chx::FixedConductance::new(vol, rh, ua, par).approach(&sc);
        let b = hhx::FixedConductance::new(vol, rh, ua, par).approach(&sh);
        for (n, x) in [("cold", a), ("hot", b)] {
            if !close(x, law, 1e-8 + 1e-15 / ntu, slack) {
                return Out::Fail(format!("{} exchanger approach {:e}, law {:e}; {}", n, x, law, what));
            }
            if x != 0.0 && h.Q_dot != 0.0 && law.abs() > 10.0 * slack && (x > 0.0) != (h.Q_dot > 0.0) {
                return Out::Fail(format!("{} exchanger approach {:e} has another sign than the heat flow; {}", n, x, what));
            }
        }
        let g = regen::FixedConductance::new(vol, rh, ua, par).approach(&sr);
        let law = (tl - tk) * (1.0 - ntu / (2.0 + ntu));
        if !close(g, law, 1e-9, 1e-9) {
            return Out::Fail(format!("regenerator approach {:e}, law {:e}; {}", g, law, what));
        }
        if tl - tk > 0.1 && !(g > 0.0 && g < tl - tk) {
            return Out::Fail(format!("regenerator approach {:e} outside; {}", g, what));
        }
        // fixed approaches
        let fa = (chx::FixedApproach::new(vol, rh, dt, par), regen::FixedApproach::new(vol, rh, dt, par), hhx::FixedApproach::new(vol, rh, dt, par));
        let all = [fa.0.approach(&sc), fa.0.initial_approach(), fa.1.approach(&sr), fa.1.initial_approach(), fa.2.approach(&sh), fa.2.initial_approach()];
        if all.iter().any(|x| *x != dt) {
            return Out::Fail(format!("fixed approach {} reported as {:?}; case {}", dt, all, k));
        }
        Out::Pass
    })
}
