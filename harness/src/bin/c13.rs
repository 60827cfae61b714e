use replay::{drives::*, *};
use sett_rs::types::{HeatExchanger, ParasiticPower};
use sett_rs::{chx, hhx, regen, ws, Components};

struct Want {
    ws_kind: u64,
    kinds: [u64; 3],
    w: Vec<f64>,
}

pub fn num(r: &mut Rng) -> f64 {
    if r.n(8) == 0 {
        r.log(1e-12, 1e12)
    } else {
        r.log(1e-3, 1e3)
    }
}

fn section(name: &str, kv: &[(&str, f64)]) -> String {
    let mut s = format!("[engine.components.{}]\n", name);
    for (k, v) in kv {
        if v.is_infinite() {
            s += &format!("{} = inf\n", k);
        } else {
            s += &format!("{} = {:e}\n", k, v);
        }
    }
    s
}

fn hx(h: &mut Rng) -> HeatExchanger {
    HeatExchanger { temp: h.f(300., 900.), pres: h.f(1e5, 1e7), dens: h.f(0.5, 5.0), cp: h.f(500., 15000.), m_dot: h.log(1e-3, 1.0), Q_dot: h.f(-9e3, 9e3) }
}

fn ne(name: &str, x: f64, y: f64, bad: &mut String) {
    if !close(x, y, 1e-9, 1e-300) {
        *bad += &format!("{} is {:e} instead of {:e}; ", name, x, y);
    }
}

fn par(name: &str, p: ParasiticPower, w: (f64, f64, f64), bad: &mut String) {
    ne(&format!("{} thermal parasitic", name), p.thermal, w.0, bad);
    ne(&format!("{} mechanical parasitic", name), p.mechanical, w.1, bad);
    ne(&format!("{} electrical parasitic", name), p.electrical, w.2, bad);
}

// Components built from a parsed configuration report the configured numbers
fn main() {
    let st = ws_state();
    drive("c13", 3000, |r, k| {
        let mut want = Want { ws_kind: k % 2, kinds: [r.n(2), r.n(2), r.n(2)], w: (0..60).map(|_| num(r)).collect() };
        for i in 0..24 {
            if i != 15 && r.n(10) == 0 {
                want.w[i] = 0.0;
            }
        }
        for i in [3, 7, 8, 12, 15, 18, 19, 20, 21] {
            if r.n(10) == 0 {
                want.w[i] = -want.w[i];
            }
        }
        let w = &want.w;
        let mut t = String::from("[engine.fluid.hydrogen]\nmodel = \"ideal_gas\"\n");
        t += "[solver.inner_loop]\ntolerance = { abs = 1e-6, rel = 1e-6 }\nmax_iterations = 10\n[solver.outer_loop]\ntolerance = { abs = 1e-8, rel = 1e-8 }\nmax_iterations = 10\n[solver.ode]\ntolerance = { abs = 1e-8, rel = 1e-8 }\nnum_timesteps = 20\n[conditions]\ntemp_sink = 20\ntemp_source = 50\npres_zero = 100\n";
        let ua = ["DT", "UA"];
        let nm = ["fixed_approach", "fixed_conductance"];
        t += &section(&format!("chx.{}", nm[want.kinds[0] as usize]), &[("vol", w[0]), (ua[want.kinds[0] as usize], w[1]), ("R_hyd", w[2]), ("W_parasitic", w[3])]);
        t += &section(&format!("hhx.{}", nm[want.kinds[1] as usize]), &[("vol", w[4]), (ua[want.kinds[1] as usize], w[5]), ("R_hyd", w[6]), ("W_parasitic", w[7]), ("Q_parasitic", w[8])]);
        t += &section(&format!("regen.{}", nm[want.kinds[2] as usize]), &[("vol", w[9]), (ua[want.kinds[2] as usize], w[10]), ("R_hyd", w[11]), ("Q_parasitic", w[12])]);
        let mut rr = (if r.coin() { w[13].max(1e-3) } else { f64::INFINITY }, if r.coin() { w[14].max(1e-3) } else { f64::INFINITY });
        match r.n(16) {
            0 => rr.0 = r.log(1e12, 1e307),
            1 => rr.1 = r.log(1e12, 1e307),
            2 => rr.0 = r.log(1e290, 1e307),
            3 => rr.1 = r.log(1e290, 1e307),
            _ => (),
        }
        let mut rho = Rho::new(r);
        rho.f = w[15];
        rho.vc = (w[16], w[17]);
        if want.ws_kind == 0 {
            t += &section("ws.sinusoidal", &[("frequency", w[15]), ("phase_angle", w[21]), ("V_swept_c", w[22]), ("V_clearance_c", w[16]), ("R_c", rr.0), ("W_parasitic_c", w[18]), ("V_swept_e", w[23]), ("V_clearance_e", w[17]), ("R_e", rr.1), ("W_parasitic_e", w[19]), ("Q_parasitic_e", w[20])]);
        } else {
            t += &section("ws.rhombic", &[("frequency", w[15]), ("V_clearance_c", w[16]), ("R_c", rr.0), ("W_parasitic_c", w[18]), ("V_clearance_e", w[17]), ("R_e", rr.1), ("W_parasitic_e", w[19]), ("Q_parasitic_e", w[20]), ("r_crank", rho.r), ("L_conn", rho.l), ("eccentricity", rho.e), ("D_p", rho.dp), ("D_d", rho.dd)]);
        }
        let cfg = match parse::<sett_rs::Config>(&t, false) {
            Some(c) => c,
            None => return Out::Fail(format!("valid configuration refused:\n{}", t)),
        };
        let c: Components = match quiet(move || cfg.engine.components.into()) {
            Some(c) => c,
            None => return Out::Fail(format!("panic on configuration:\n{}", t)),
        };
        let mut bad = String::new();
        let q = match quiet(|| {
            let mut bad = String::new();
            let ntu = |ua: f64, h: &HeatExchanger| {
                let cc = h.cp * h.m_dot;
                let e = -(-ua / cc).exp_m1();
                h.Q_dot / cc * (1.0 / e - 1.0)
            };
            let s = chx::State { hxr: hx(r), sink_temp: r.f(280., 320.) };
            ne("chx volume", c.chx.volume(), w[0], &mut bad);
            ne("chx hydraulic resistance", c.chx.hydraulic_resistance(&s), w[2], &mut bad);
            par("chx", c.chx.parasitics(&s), (0.0, w[3], 0.0), &mut bad);
            if want.kinds[0] == 0 {
                ne("chx approach", c.chx.approach(&s), w[1], &mut bad);
                ne("chx initial approach", c.chx.initial_approach(), w[1], &mut bad);
            } else if w[1] / (s.hxr.cp * s.hxr.m_dot) > 1e-6 && w[1] / (s.hxr.cp * s.hxr.m_dot) < 15.0 {
                let y = ntu(w[1], &s.hxr);
                if !close(c.chx.approach(&s), y, 1e-6, 1e-9 * s.hxr.Q_dot.abs() / (s.hxr.cp * s.hxr.m_dot)) {
                    bad += "chx approach law; ";
                }
            }
            let s = hhx::State { hxr: hx(r), source_temp: r.f(680., 920.) };
            ne("hhx volume", c.hhx.volume(), w[4], &mut bad);
            ne("hhx hydraulic resistance", c.hhx.hydraulic_resistance(&s), w[6], &mut bad);
            par("hhx", c.hhx.parasitics(&s), (w[8], w[7], 0.0), &mut bad);
            if want.kinds[1] == 0 {
                ne("hhx approach", c.hhx.approach(&s), w[5], &mut bad);
                ne("hhx initial approach", c.hhx.initial_approach(), w[5], &mut bad);
            } else if w[5] / (s.hxr.cp * s.hxr.m_dot) > 1e-6 && w[5] / (s.hxr.cp * s.hxr.m_dot) < 15.0 {
                let y = ntu(w[5], &s.hxr);
                if !close(c.hhx.approach(&s), y, 1e-6, 1e-9 * s.hxr.Q_dot.abs() / (s.hxr.cp * s.hxr.m_dot)) {
                    bad += "hhx approach law; ";
                }
            }
            let s = regen::State { hxr: hx(r), temp_chx: r.f(280., 400.), temp_hhx: r.f(680., 920.) };
            ne("regen volume", c.regen.volume(), w[9], &mut bad);
            ne("regen hydraulic resistance", c.regen.hydraulic_resistance(&s), w[11], &mut bad);
            par("regen", c.regen.parasitics(&s), (w[12], 0.0, 0.0), &mut bad);
            if want.kinds[2] == 0 {
                ne("regen approach", c.regen.approach(&s), w[10], &mut bad);
                ne("regen initial approach", c.regen.initial_approach(), w[10], &mut bad);
            } else {
                let n = w[10] / (s.hxr.cp * s.hxr.m_dot);
                let d = s.temp_hhx - s.temp_chx;
                let (x, y) = (c.regen.approach(&s), d * 2.0 / (2.0 + n));
                if !close(x, y, 1e-9, 1e-12 * d.abs()) {
                    bad += &format!("regen approach law {:e} instead of {:e}; ", x, y);
                }
            }
            ne("frequency", c.ws.frequency(&st), w[15], &mut bad);
            let th: ws::ThermalResistance = c.ws.thermal_resistance(&st);
            ne("compression resistance", th.comp, rr.0, &mut bad);
            ne("expansion resistance", th.exp, rr.1, &mut bad);
            let p = c.ws.parasitics(&st);
            par("compression", p.comp, (0.0, w[18], 0.0), &mut bad);
            par("expansion", p.exp, (w[20], w[19], 0.0), &mut bad);
            let v = c.ws.volumes(&st);
            let pi = std::f64::consts::PI;
            for _ in 0..3 {
                let t = r.f(0.0, 1.0) / w[15];
                let x = v(t);
                let th = 2.0 * pi * w[15] * t;
                let (a, b) = if want.ws_kind == 0 {
                    (w[16] + 0.5 * w[22] * (1.0 + th.cos()), w[17] + 0.5 * w[23] * (1.0 + (th + w[21] * pi / 180.0).cos()))
                } else {
                    let b = |x: f64| (rho.l * rho.l - x * x).sqrt();
                    let bt = b(rho.e + rho.r * th.cos());
                    let b1 = b(rho.e - rho.r);
                    let b2 = ((rho.l - rho.r).powi(2) - rho.e * rho.e).sqrt();
                    (w[16] + pi / 2.0 * rho.dp * rho.dp * (b1 - bt), w[17] + pi / 4.0 * rho.dd * rho.dd * (bt - b2 - rho.r * th.sin()))
                };
                let (sa, sb) = (1e-9 * (w[16] + w[22]), 1e-9 * (w[17] + w[23]));
                let s2 = if want.ws_kind == 0 { 0.0 } else { 1e-9 * rho.l * (rho.dp * rho.dp + rho.dd * rho.dd) };
                if !close(x.0.value, a, 1e-8, sa + s2) {
                    bad += &format!("compression volume {:e} instead of {:e}; ", x.0.value, a);
                }
                if !close(x.1.value, b, 1e-8, sb + s2) {
                    bad += &format!("expansion volume {:e} instead of {:e}; ", x.1.value, b);
                }
            }
            bad
        }) {
            Some(b) => b,
            None => "a component method panicked".into(),
        };
        bad += &q;
        if bad.is_empty() {
            Out::Pass
        } else {
            Out::Fail(format!("{} for configuration:\n{}", bad, t))
        }
    })
}
