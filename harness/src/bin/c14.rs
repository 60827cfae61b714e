use replay::{drives::*, *};
use sett_rs::fluid::{Config as FC, ModelConfig as MC};
use sett_rs::types::{RunInputs, RunSettings};
use sett_rs::{Config, Legacy};

fn obj(kv: &[(&str, f64)]) -> String {
    let x: Vec<String> = kv.iter().map(|(k, v)| format!("\"{}\": {:e}", k, v)).collect();
    format!("{{{}}}", x.join(", "))
}

// A legacy configuration and the current configuration with the same meaning are equal once translated
fn main() {
    drive("c14", 2000, |r, k| {
        let w: Vec<f64> = (0..60)
            .map(|_| match r.n(16) {
                0 => 0.0,
                1 => -r.log(1e-3, 1e3),
                2 => r.log(1e-12, 1e12),
                _ => r.log(1e-3, 1e3),
            })
            .collect();
        let (kc, kh, kg, kw) = (r.n(2), r.n(2), r.n(2), r.n(2));
        let nm = ["FixedApproach", "FixedConductance"];
        let sn = ["fixed_approach", "fixed_conductance"];
        let ua = ["DT", "UA"];
        let mut count = |lo: u64, hi: u64| if r.n(3) == 0 { r.log(1.0, u32::MAX as f64) as u64 } else { lo + r.n(hi) };
        let n = count(2, 500);
        let (it_i, it_o) = (count(1, 90), count(1, 90));
        let chx = [("vol", w[0]), (ua[kc as usize], w[1]), ("R_hyd", w[2]), ("W_parasitic", w[3])];
        let hhx = [("vol", w[4]), (ua[kh as usize], w[5]), ("R_hyd", w[6]), ("W_parasitic", w[7]), ("Q_parasitic", w[8])];
        let reg = [("vol", w[9]), (ua[kg as usize], w[10]), ("R_hyd", w[11]), ("Q_parasitic", w[12])];
        let sin = [("frequency", w[13]), ("phase_angle", w[14]), ("V_swept_c", w[15]), ("V_clearance_c", w[16]), ("R_c", w[17]), ("W_parasitic_c", w[18]), ("V_swept_e", w[19]), ("V_clearance_e", w[20]), ("R_e", w[21]), ("W_parasitic_e", w[22]), ("Q_parasitic_e", w[23])];
        let rho = [("frequency", w[13]), ("V_clearance_c", w[16]), ("R_c", w[17]), ("W_parasitic_c", w[18]), ("V_clearance_e", w[20]), ("R_e", w[21]), ("W_parasitic_e", w[22]), ("Q_parasitic_e", w[23]), ("r_crank", w[24]), ("L_conn", w[25]), ("eccentricity", w[26]), ("D_p", w[27]), ("D_d", w[28])];
        let wsv: &[(&str, f64)] = if kw == 0 { &sin } else { &rho };
        let fl = k % 5;
        let (fluid, lf, kind, model) = match fl {
            0 => ("Hydrogen-ideal", "{\"model\": \"IdealGas\", \"params\": {\"name\": \"Hydrogen\"}}", "hydrogen", "ideal_gas"),
            1 => ("Helium-ideal", "{\"model\": \"IdealGas\", \"params\": {\"name\": \"Helium\"}}", "helium", "ideal_gas"),
            2 => ("Hydrogen-refprop", "{\"model\": \"RealGasRefprop\", \"params\": {\"name\": \"Hydrogen\"}}", "hydrogen", "ref_prop"),
            3 => ("Helium-refprop", "{\"model\": \"RealGasRefprop\", \"params\": {\"name\": \"Helium\"}}", "helium", "ref_prop"),
            _ => ("Hydrogen", "{\"model\": \"Hydrogen\"}", "hydrogen", "custom"),
        };
        let legacy = format!(
            "{{\"fluid\": {}, \"ws\": {{\"model\": \"{}\", \"params\": {}}}, \"chx\": {{\"model\": \"{}\", \"params\": {}}}, \"regen\": {{\"model\": \"{}\", \"params\": {}}}, \"hhx\": {{\"model\": \"{}\", \"params\": {}}}, \"solver\": {{\"innerLoopTolerance\": {{\"abs\": {:e}, \"rel\": {:e}}}, \"outerLoopTolerance\": {{\"abs\": {:e}, \"rel\": {:e}}}, \"odeTolerance\": {{\"abs\": {:e}, \"rel\": {:e}}}, \"odeSolver\": \"ode45\", \"timeResolution\": {}}}, \"conditions\": {{\"T_cold\": {:e}, \"T_hot\": {:e}, \"P_0\": {:e}}}}}",
            lf, ["Sinusoidal", "Rhombic"][kw as usize], obj(wsv), nm[kc as usize], obj(&chx), nm[kg as usize], obj(&reg), nm[kh as usize], obj(&hhx),
            w[30], w[31], w[32], w[33], w[34], w[35], n, w[36], w[37], w[38]
        );
        let current = |i: u64, o: u64| {
            format!(
                "{{\"engine\": {{\"fluid\": {{\"{}\": {{\"model\": \"{}\"}}}}, \"components\": {{\"ws\": {{\"{}\": {}}}, \"chx\": {{\"{}\": {}}}, \"regen\": {{\"{}\": {}}}, \"hhx\": {{\"{}\": {}}}}}}}, \"solver\": {{\"inner_loop\": {{\"tolerance\": {{\"abs\": {:e}, \"rel\": {:e}}}, \"max_iterations\": {}}}, \"outer_loop\": {{\"tolerance\": {{\"abs\": {:e}, \"rel\": {:e}}}, \"max_iterations\": {}}}, \"ode\": {{\"tolerance\": {{\"abs\": {:e}, \"rel\": {:e}}}, \"num_timesteps\": {}}}}}, \"conditions\": {{\"temp_sink\": {:e}, \"temp_source\": {:e}, \"pres_zero\": {:e}}}}}",
                kind, if model == "ref_prop" { "ref_prop" } else { model }, ["sinusoidal", "rhombic"][kw as usize], obj(wsv), sn[kc as usize], obj(&chx), sn[kg as usize], obj(&reg), sn[kh as usize], obj(&hhx),
                w[30], w[31], i, w[32], w[33], o, w[34], w[35], n, w[36], w[37], w[38]
            )
        };
        let a = match parse::<Legacy>(&legacy, true) {
            Some(l) => match quiet(move || Config::from(l)) {
                Some(c) => c,
                None => return Out::Fail(format!("panic translating {}", legacy)),
            },
            None => return Out::Fail(format!("valid legacy configuration refused: {}", legacy)),
        };
        let cur = current(20, 20);
        let b = match parse::<Config>(&cur, true) {
            Some(c) => c,
            None => return Out::Fail(format!("valid configuration refused: {}", cur)),
        };
        if a != b {
            return Out::Fail(format!("translated legacy configuration {:?} differs from {:?}; legacy {}", a, b, legacy));
        }
        let ok = match (&a.engine.fluid, fl) {
            (FC::Hydrogen(MC::IdealGas), 0) | (FC::Helium(MC::IdealGas), 1) | (FC::Hydrogen(MC::RefProp), 2) | (FC::Helium(MC::RefProp), 3) | (FC::Hydrogen(MC::Custom), 4) => true,
            _ => false,
        };
        if !ok {
            return Out::Fail(format!("fluid {} became {:?}", fluid, a.engine.fluid));
        }
        let cur = current(it_i, it_o);
        let c = match parse::<Config>(&cur, true) {
            Some(c) => c,
            None => return Out::Fail(format!("valid configuration refused: {}", cur)),
        };
        let (i, s): (RunInputs, RunSettings) = (c.conditions.into(), c.solver.into());
        for (name, x, y) in [
            ("sink temperature", i.temp_sink, w[36]), ("source temperature", i.temp_source, w[37]), ("initial pressure", i.pres_zero, w[38]),
            ("inner absolute tolerance", s.loop_tol.inner.abs, w[30]), ("inner relative tolerance", s.loop_tol.inner.rel, w[31]),
            ("outer absolute tolerance", s.loop_tol.outer.abs, w[32]), ("outer relative tolerance", s.loop_tol.outer.rel, w[33]),
            ("ode absolute tolerance", s.ode_tol.abs, w[34]), ("ode relative tolerance", s.ode_tol.rel, w[35]),
            ("resolution", s.resolution as f64, n as f64), ("inner iterations", s.max_iters.inner as f64, it_i as f64), ("outer iterations", s.max_iters.outer as f64, it_o as f64),
        ] {
            if !close(x, y, 1e-14, 0.0) {
                return Out::Fail(format!("{} is {:e} instead of {:e}; configuration {}", name, x, y, cur));
            }
        }
        // a legacy configuration that is run uses the configured fluid
        Out::Pass
    })
}
