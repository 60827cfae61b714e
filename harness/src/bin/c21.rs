use replay::{drives::*, *};
use sett_rs::types::*;
use sett_rs::{api::RunResults, run_engine, Config};

fn any(r: &mut Rng, what: &[&str]) -> String {
    what[r.n(what.len() as u64) as usize].to_string()
}

// a whole configuration, of the implemented models only
fn config(r: &mut Rng) -> String {
    let wild = r.coin();
    let sink = if wild { r.f(80., 600.) } else { r.f(250., 400.) };
    let source = if wild { r.f(100., 1200.) } else { sink + r.f(200., 900.) };
    let hx = |r: &mut Rng, name: &str, dt: f64, more: &str| {
        let (model, k, v) = if r.coin() { ("fixed_approach", "DT", r.f(0., dt)) } else { ("fixed_conductance", "UA", r.log(1., 1e5)) };
        let hyd = if r.coin() { 0. } else { r.log(1., 1e6) };
        format!("[engine.components.{}.{}]\nvol = {:e}\n{} = {:e}\nR_hyd = {:e}\n{}", name, model, r.log(1e-6, 1e-3), k, v, hyd, more)
    };
    let inf = |r: &mut Rng| if r.coin() { "inf".to_string() } else { format!("{:e}", r.log(0.01, 100.)) };
    let mut t = format!("[engine.fluid.{}]\nmodel = \"ideal_gas\"\n", any(r, &["hydrogen", "helium"]));
    t += &hx(r, "chx", 80., "W_parasitic = 1.5\n");
    t += &hx(r, "regen", 30., "Q_parasitic = 2.5\n");
    t += &hx(r, "hhx", 150., "W_parasitic = 0\nQ_parasitic = 0\n");
    let common = format!(
        "frequency = {:e}\nV_clearance_c = {:e}\nR_c = {}\nW_parasitic_c = 0\nV_clearance_e = {:e}\nR_e = {}\nW_parasitic_e = 0\nQ_parasitic_e = {:e}\n",
        r.log(1., 200.), r.log(1e-7, 1e-4), inf(r), r.log(1e-7, 1e-4), inf(r), if r.coin() { 0. } else { r.log(1., 1e4) }
    );
    if r.n(3) > 0 {
        t += &format!("[engine.components.ws.sinusoidal]\n{}phase_angle = {:e}\nV_swept_c = {:e}\nV_swept_e = {:e}\n", common, r.f(0., 180.), r.log(1e-5, 1e-3), r.log(1e-5, 1e-3));
    } else {
        t += &format!("[engine.components.ws.rhombic]\n{}r_crank = 0.0138\nL_conn = 0.0462\neccentricity = 0.0208\nD_p = 0.0699\nD_d = 0.0696\n", common);
    }
    let lp = |r: &mut Rng| format!("tolerance = {{ abs = {:e}, rel = {:e} }}\nmax_iterations = {}\n", r.log(1e-6, 1.), r.log(1e-6, 1e-2), r.n(25));
    t += &format!("[solver.inner_loop]\n{}[solver.outer_loop]\n{}", lp(r), lp(r));
    t += &format!("[solver.ode]\ntolerance = {{ abs = {:e}, rel = {:e} }}\nnum_timesteps = {}\n", r.log(1e-5, 1e-2), r.log(1e-5, 1e-2), 2 + r.n(40));
    let mut source = source;
    if r.n(3) == 0 {
        // an engine that does nothing, or lacks something
        for key in ["V_swept_", "V_clearance_", "UA", "DT", "vol", "eccentricity", "r_crank"] {
            if r.n(4) == 0 {
                let both = r.coin();
                t = t.lines().map(|l| if l.starts_with(key) && (both || r.coin()) { format!("{} = 0\n", l.split(" = ").next().unwrap()) } else { format!("{}\n", l) }).collect();
            }
        }
        if r.n(3) == 0 {
            source = sink;
        }
    }
    t + &format!("[conditions]\ntemp_sink = {:e}\ntemp_source = {:e}\npres_zero = {:e}\n", sink, source, r.log(1e4, 5e7))
}

// A run ends with results or with an error, and results can be built from every finished run
fn main() {
    drive("c21", 900, |r, k| {
        if k % 3 == 0 {
            let text = config(r);
            let c = match parse::<Config>(&text, false) {
                Some(c) => c,
                None => return Out::Fail(format!("valid configuration refused: {}", text)),
            };
            return match quiet(move || run_engine(c).map(|_| ())) {
                Some(_) => Out::Pass,
                None => Out::Fail(format!("run_engine panics on {}", text)),
            };
        }
        let mut c = unit_case(r);
        c.settings.max_iters = MaxIters { inner: r.n(4) as usize, outer: r.n(4) as usize };
        if r.coin() {
            c.settings.loop_tol.inner = tol(r.log(1e-9, 1e2), r.log(1e-9, 1e2));
        }
        if r.coin() {
            c.settings.loop_tol.outer = tol(r.log(1e-9, 1e2), r.log(1e-9, 1e2));
        }
        c.settings.resolution = 2 + r.n(4) as u32;
        if r.n(10) == 0 {
            c.ws.freq = -c.ws.freq; // turning backwards
        }
        if r.n(8) == 0 {
            // far more iterations allowed than needed
            c.settings.loop_tol = LoopTolerance { inner: tol(1e9, 1e9), outer: tol(1e9, 1e9) };
            c.settings.max_iters = MaxIters { inner: r.log(1.0, 1e12) as usize, outer: r.log(1.0, 1e12) as usize };
        }
        if r.n(12) == 0 {
            // nothing moves and nothing flows: all powers and heats are exactly zero
            let none = ParasiticPower::default();
            c.ws.vc.1 = 0.0;
            c.ws.ve.1 = 0.0;
            c.ws.r = (f64::INFINITY, f64::INFINITY);
            c.ws.par = sett_rs::ws::Parasitics { comp: none, exp: none };
            for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
                h.par = none;
            }
            c.settings.loop_tol = LoopTolerance { inner: tol(1e9, 1e9), outer: tol(1e9, 1e9) };
            c.settings.max_iters = MaxIters { inner: 2, outer: 2 };
        }
        if k == 1 || k == 100 {
            // more points than 16 bits count
            for _ in 0..4 {
                c = plain_case(r);
                c.solver = 0;
                c.settings.resolution = 65_536 + r.n(9000) as u32;
                c.settings.max_iters = MaxIters { inner: 1, outer: 1 };
                match c.run() {
                    None => return Out::Fail(format!("Engine::run panics with {} points; case {:?}", c.settings.resolution, c)),
                    Some(Ok(_)) => return Out::Pass,
                    Some(Err(_)) => {}
                }
            }
            return Out::Skip;
        }
        match r.n(10) {
            // imbalances and conditions that leave little or nothing to solve
            0 => c.inputs.pres_zero = r.log(1e-12, 1e12),
            1 => c.inputs.temp_source = c.inputs.temp_sink,
            2 => std::mem::swap(&mut c.inputs.temp_source, &mut c.inputs.temp_sink),
            3 => c.fluid.cv = r.log(1e-12, 1e3),
            4 | 5 => {
                // properties that do not follow temperature or pressure, missing volumes: a singular system
                let zero = Wave(-1.0, 0.0, 0.0, std::f64::consts::FRAC_PI_2);
                for i in 4..8 {
                    if r.coin() {
                        c.fluid.w[i] = zero;
                    }
                }
                if r.coin() {
                    c.chx.vol = 0.0;
                    c.regen.vol = 0.0;
                    c.hhx.vol = 0.0;
                }
                c.solver = r.n(2) as u8;
            }
            _ => {}
        }
        if c.solver == 2 && k % 3 == 2 {
            c.solver = 0;
        }
        let me = c.clone();
        match c.run() {
            None => Out::Fail(format!("Engine::run panics; case {:?}", me)),
            Some(Err(_)) => Out::Pass,
            Some(Ok(e)) => match quiet(move || RunResults::from(e)) {
                Some(_) => Out::Pass,
                None => Out::Fail(format!("RunResults::from panics; case {:?}", me)),
            },
        }
    })
}
