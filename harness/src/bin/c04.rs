use replay::*;
use sett_rs::types::*;

fn finite(xs: &[&Vec<f64>]) -> bool {
    xs.iter().all(|v| v.iter().all(|x| x.is_finite()))
}

// Points of one cycle, solved at their own conditions, evolving under the derivatives
fn main() {
    drive("c04", 3000, |r, k| {
        let mut c = unit_case(r);
        c.solver = 0;
        if k % 40 == 7 {
            return swapped_tolerances(r, c);
        }
        let fine = k % 5 == 0;
        if fine {
            c.settings.resolution = 301 + r.n(3) as u32;
            c.settings.ode_tol = OdeTolerance { abs: 1e-9, rel: 1e-9 };
        } else if k % 5 == 1 {
            c.settings.resolution = 2 + r.n(900) as u32;
        }
        let n = c.settings.resolution as usize;
        let e = match c.run() {
            Some(Ok(e)) => e,
            _ => return Out::Skip,
        };
        let v = &e.values;
        let period = 1.0 / c.ws.freq;
        let lens = [v.time.len(), v.P.len(), v.T_c.len(), v.T_e.len(), v.m_dot_ck.len(), v.m_dot_kr.len(), v.m_dot_rl.len(), v.m_dot_le.len(), v.Q_dot_k.len(), v.Q_dot_r.len(), v.Q_dot_l.len()];
        if !finite(&[&v.P, &v.T_c, &v.T_e]) {
            return Out::Skip;
        }
        if lens.iter().any(|l| *l != n) {
            return Out::Fail(format!("series lengths {:?} instead of {}; case {:?}", lens, n, c));
        }
        for i in 0..n {
            let t = period * i as f64 / (n - 1) as f64;
            if (v.time[i] - t).abs() > 1e-7 * period {
                return Out::Fail(format!("time[{}] = {:e} instead of {:e}, period {:e}, {} points", i, v.time[i], t, period, n));
            }
        }
        let s = e.state.ws();
        match check_instants(&c, &e, &s, 1e-6) {
            Out::Pass => {}
            o => return o,
        }
        if !fine {
            return Out::Pass;
        }
        // evolution: the sum of the trapezoidal increments follows the series
        let t = temps(&e);
        let mut d: Vec<[f64; 3]> = vec![];
        for i in 0..n {
            let m = [v.m_dot_ck[i], v.m_dot_kr[i], v.m_dot_rl[i], v.m_dot_le[i]];
            let qd = [v.Q_dot_k[i], v.Q_dot_r[i], v.Q_dot_l[i]];
            let b = balances(&c.fluid, &t, (c.chx.vol, c.regen.vol, c.hhx.vol), c.ws.at(&s, v.time[i]), (0.0, 0.0), v.P[i], v.T_c[i], v.T_e[i], m, qd);
            d.push(b.d);
        }
        for (j, (name, y)) in [("P", &v.P), ("T_c", &v.T_c), ("T_e", &v.T_e)].iter().enumerate() {
            let (mut bad, mut tot) = (0.0, 0.0);
            for i in 1..n {
                let dt = v.time[i] - v.time[i - 1];
                let inc = 0.5 * (d[i][j] + d[i - 1][j]) * dt;
                bad += (y[i] - y[i - 1] - inc).abs();
                tot += (y[i] - y[i - 1]).abs() + inc.abs();
            }
            if bad > 0.02 * tot {
                return Out::Fail(format!("{} does not evolve under its derivative: {:e} of {:e} over the cycle; case {:?}", name, bad, tot, c));
            }
        }
        Out::Pass
    })
}

// absolute and relative tolerance of the integrator each in its own place
fn swapped_tolerances(r: &mut Rng, _c: Case) -> Out {
    let drive = sett_rs::ws::SinusoidalDrive {
        frequency: r.f(20.0, 80.0),
        phase_angle: 90.0,
        comp_geometry: sett_rs::ws::sinusoidal_drive::Geometry { clearance_volume: 2e-5, swept_volume: r.f(3e-4, 6e-4) },
        exp_geometry: sett_rs::ws::sinusoidal_drive::Geometry { clearance_volume: 2e-5, swept_volume: r.f(3e-4, 6e-4) },
        thermal_resistance: Default::default(),
        parasitics: Default::default(),
    };
    let f = drive.frequency;
    let (sc, se) = (drive.comp_geometry.swept_volume, drive.exp_geometry.swept_volume);
    let run = |abs: f64, rel: f64| {
        let d = sett_rs::ws::SinusoidalDrive {
            frequency: f,
            phase_angle: 90.0,
            comp_geometry: sett_rs::ws::sinusoidal_drive::Geometry { clearance_volume: 2e-5, swept_volume: sc },
            exp_geometry: sett_rs::ws::sinusoidal_drive::Geometry { clearance_volume: 2e-5, swept_volume: se },
            thermal_resistance: Default::default(),
            parasitics: Default::default(),
        };
        quiet(move || {
            sett_rs::Engine::run::<sett_rs::LuSolver>(
                sett_rs::Components {
                    ws: Box::new(d),
                    chx: Box::<sett_rs::chx::FixedApproach>::default(),
                    regen: Box::<sett_rs::regen::FixedApproach>::default(),
                    hhx: Box::<sett_rs::hhx::FixedApproach>::default(),
                },
                sett_rs::fluid::IdealGas::helium(),
                RunInputs { pres_zero: 8e6, temp_sink: 300., temp_source: 900. },
                settings(12, tol(1e9, 1e9), tol(1e9, 1e9), OdeTolerance { abs, rel }, 2, 2),
            )
        })
    };
    let (a, b) = match (run(1e-5, 1e-30), run(1e-9, 1e-10)) {
        (Some(Ok(a)), Some(Ok(b))) => (a, b),
        _ => return Out::Skip,
    };
    if a.values.P.len() != b.values.P.len() {
        return Out::Skip;
    }
    for i in 0..a.values.P.len() {
        let e = [(a.values.P[i], b.values.P[i]), (a.values.T_c[i], b.values.T_c[i]), (a.values.T_e[i], b.values.T_e[i])];
        for (x, y) in e {
            if !x.is_finite() || !y.is_finite() {
                return Out::Skip;
            }
            if !close(x, y, 2e-5, 0.0) {
                return Out::Fail(format!("integration with absolute tolerance 1e-5 (and negligible relative tolerance) is off by {:e} of {:e} at point {}", x - y, y, i));
            }
        }
    }
    Out::Pass
}
