//! The results of an arbitrary finished run, recomputed independently
use crate::*;
use sett_rs::api::RunResults;
use sett_rs::{chx::ColdHeatExchanger, hhx::HotHeatExchanger, regen::Regenerator, ws::WorkingSpaces};

/// engines to start from
pub fn pool() -> Vec<Case> {
    let mut r = Rng::new(11);
    let mut out = vec![];
    while out.len() < 20 {
        let mut c = unit_case(&mut r);
        c.solver = 0;
        if let Some(Ok(_)) = c.run() {
            out.push(c);
        }
    }
    out
}

fn series(r: &mut Rng, n: usize, lo: f64, hi: f64, unit: f64) -> Vec<f64> {
    (0..n).map(|_| r.f(lo, hi) * unit).collect()
}

pub fn check(pool: &[Case], r: &mut Rng, what: &str) -> Out {
    let mut c = pool[r.n(pool.len() as u64) as usize].clone();
    let mut e = match c.run() {
        Some(Ok(e)) => e,
        _ => return Out::Skip,
    };
    // overwrite everything the run produced with unrelated numbers
    let dep = if r.n(3) == 0 { 0.0 } else { 0.3 };
    for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
        h.dep = dep;
        h.rhyd = r.f(0.1, 2.0) * h.u.p * h.u.t / h.u.v;
    }
    c.ws.dep = dep;
    let u = c.fluid.u;
    let (up, ut, uq, um) = (u.p, u.t, u.q(), u.m());
    if r.n(4) == 0 {
        c.ws.r.0 = f64::INFINITY;
    } else {
        c.ws.r.0 = r.f(0.3, 3.0) / uq;
    }
    c.ws.r.1 = if r.n(4) == 0 { f64::INFINITY } else { r.f(0.3, 3.0) / uq };
    let zero = r.n(6) == 0;
    if zero {
        c.chx.rhyd = 0.0;
        c.regen.rhyd = 0.0;
        c.hhx.rhyd = 0.0;
    }
    if r.n(6) == 0 {
        // heat gains and driven auxiliaries
        for p in [&mut c.chx.par, &mut c.regen.par, &mut c.hhx.par, &mut c.ws.par.comp, &mut c.ws.par.exp] {
            let k = if r.coin() { -1.0 } else { 1.0 };
            *p = ParasiticPower { thermal: k * p.thermal, mechanical: if r.coin() { -p.mechanical } else { p.mechanical }, ..*p };
        }
    }
    if r.n(8) == 0 {
        // very slow, or turning backwards
        c.ws.freq *= r.log(1e-6, 1.0) * if r.coin() { -1.0 } else { 1.0 };
    }
    e.components = c.components();
    let n = 2 + r.n(20) as usize;
    let mut t = series(r, n, 0.05, 1.0, 1.0);
    for i in 1..n {
        t[i] += t[i - 1];
    }
    let t0 = t[0];
    for x in &mut t {
        *x = (*x - t0) * ut;
    }
    let v = &mut e.values;
    v.time = t;
    v.P = series(r, n, 0.5, 3.0, up);
    if r.n(8) == 0 {
        // pressures of very different magnitudes
        for p in &mut v.P {
            *p *= r.log(1e-6, 1.0);
        }
    }
    if r.n(8) == 0 {
        // a run that ends where it began, or that stands still in places
        v.P[n - 1] = v.P[0];
    } else if r.n(8) == 0 {
        let p = v.P[0];
        v.P[n / 2..].fill(p);
    }
    v.T_c = series(r, n, 0.8, 3.0, 1.0);
    v.T_e = series(r, n, 0.8, 3.0, 1.0);
    v.m_dot_ck = series(r, n, -2.0, 2.0, um);
    v.m_dot_kr = series(r, n, -2.0, 2.0, um);
    v.m_dot_rl = series(r, n, -2.0, 2.0, um);
    v.m_dot_le = series(r, n, -2.0, 2.0, um);
    v.Q_dot_k = series(r, n, -2.0, 2.0, uq);
    v.Q_dot_r = series(r, n, -2.0, 2.0, uq);
    v.Q_dot_l = series(r, n, -2.0, 2.0, uq);
    let s = &mut e.state;
    s.temp.sink = r.f(0.8, 3.0);
    s.temp.chx = r.f(0.8, 3.0);
    s.temp.regen.cold = r.f(0.8, 3.0);
    s.temp.regen.avg = r.f(0.8, 3.0);
    s.temp.regen.hot = r.f(0.8, 3.0);
    s.temp.hhx = r.f(0.8, 3.0);
    s.temp.source = r.f(0.8, 3.0);
    s.pres.avg = r.f(0.5, 3.0) * up;
    s.pres.max = r.f(0.5, 3.0) * up;
    s.pres.min = r.f(0.5, 3.0) * up;
    s.pres.t_zero = r.f(0.5, 3.0) * up;
    s.mass_flow.chx = r.f(0.1, 2.0) * um;
    s.mass_flow.regen = r.f(0.1, 2.0) * um;
    s.mass_flow.hhx = r.f(0.1, 2.0) * um;
    s.heat_flow.chx = r.f(-2.0, 2.0) * uq;
    s.heat_flow.regen = r.f(-2.0, 2.0) * uq;
    s.heat_flow.hhx = r.f(-2.0, 2.0) * uq;
    s.regen_imbalance.0 = r.f(-2.0, 2.0);

    // ---- what the results must be -----------------------------------------
    use std::f64::consts::PI;
    let (s, v) = (&e.state, &e.values);
    let (t, fl) = (temps(&e), &c.fluid);
    let f = c.ws.frequency(&s.ws());
    let wp = c.ws.parasitics(&s.ws());
    let wr = c.ws.thermal_resistance(&s.ws());
    let kp = ColdHeatExchanger::parasitics(&c.chx, &chx_state(&e));
    let gp = Regenerator::parasitics(&c.regen, &regen_state(&e));
    let lp = HotHeatExchanger::parasitics(&c.hhx, &hhx_state(&e));
    let (rk, rg, rl) = (ColdHeatExchanger::hydraulic_resistance(&c.chx, &chx_state(&e)), Regenerator::hydraulic_resistance(&c.regen, &regen_state(&e)), HotHeatExchanger::hydraulic_resistance(&c.hhx, &hhx_state(&e)));
    let vol: Vec<_> = v.time.iter().map(|x| c.ws.at(&s.ws(), *x)).collect();
    let mean = |a: &[f64], b: &[f64], i: usize| 0.5 * (a[i] + b[i]);
    let mut pc = vec![];
    let mut pe = vec![];
    for i in 0..n {
        let p = v.P[i];
        let d = rk * mean(&v.m_dot_ck, &v.m_dot_kr, i) / fl.dens(t.chx, p) + rg * mean(&v.m_dot_kr, &v.m_dot_rl, i) / fl.dens(t.avg, p) + rl * mean(&v.m_dot_rl, &v.m_dot_le, i) / fl.dens(t.hhx, p);
        pc.push(p + 0.5 * d);
        pe.push(p - 0.5 * d);
    }
    let integ = |g: &dyn Fn(usize) -> f64| {
        let y: Vec<f64> = (0..n).map(g).collect();
        f * trapz(&v.time, &y)
    };
    let ideal = integ(&|i| v.P[i] * (vol[i].1 + vol[i].3));
    let ind = integ(&|i| pc[i] * vol[i].1 + pe[i] * vol[i].3);
    let shaft = ind - wp.comp.mechanical - wp.exp.mechanical;
    let net = shaft - kp.mechanical - lp.mechanical;
    let ext = lp.thermal + gp.thermal + wp.exp.thermal;
    let qc = if wr.comp.is_infinite() { 0.0 } else { integ(&|i| (v.T_c[i] - t.chx) / wr.comp) };
    let qe = if wr.exp.is_infinite() { 0.0 } else { integ(&|i| (t.hhx - v.T_e[i]) / wr.exp) };
    let input = integ(&|i| v.Q_dot_l[i]) + qe + ext;
    let rej = integ(&|i| v.Q_dot_k[i]) + qc + (ideal - ind) + wp.comp.mechanical + wp.exp.mechanical + ext;
    let sc = (f * (trapz_abs(&v.time, &v.T_c) + trapz_abs(&v.time, &v.T_e)) * 10.0 + 100.0) * uq;
    let psc = f * v.time[n - 1] * 400.0 * uq;

    let want_series = [v.time.clone(), v.P.clone(), v.T_c.clone(), v.T_e.clone(), v.m_dot_ck.clone(), v.m_dot_kr.clone(), v.m_dot_rl.clone(), v.m_dot_le.clone(), v.Q_dot_k.clone(), v.Q_dot_r.clone(), v.Q_dot_l.clone()];
    let st = (s.mass_flow, s.heat_flow, s.pres, s.regen_imbalance.0);
    let res = match quiet(move || RunResults::from(e)) {
        Some(x) => x,
        None => return Out::Fail(format!("panic computing results; {:?}", c)),
    };
    let mut w: Vec<(&str, f64, f64, f64)> = vec![];
    match what {
        "power" => {
            w.push(("ideal indicated power", res.power.ideal_indicated, ideal, psc));
            w.push(("shaft power", res.power.shaft, res.power.indicated - wp.comp.mechanical - wp.exp.mechanical, psc));
            w.push(("net power", res.power.net, res.power.shaft - kp.mechanical - lp.mechanical, psc));
            w.push(("shaft torque", res.shaft_torque, res.power.shaft / (2.0 * PI * f), psc / f));
            let eff = res.power.net / res.heat_flow.input;
            w.push(("efficiency", res.efficiency.mechanical, eff, 1e-3));
            if res.values.P_c.len() == n && res.values.P_e.len() == n {
                let ind = integ2(f, &want_series[0], &res.values.P_c, &res.values.P_e, &vol);
                w.push(("indicated power", res.power.indicated, ind, psc));
            }
        }
        "heat" => {
            // the flow-friction loss is the difference of the powers of these very results
            let rej = rej - (ideal - ind) + (res.power.ideal_indicated - res.power.indicated);
            w.push(("heat input", res.heat_flow.input, input, sc + psc));
            w.push(("heat rejection", res.heat_flow.rejection, rej, sc + psc));
        }
        "pressure" => {
            if res.values.P_c.len() != n || res.values.P_e.len() != n {
                return Out::Fail(format!("pressure series of lengths {} {}", res.values.P_c.len(), res.values.P_e.len()));
            }
            for i in 0..n {
                w.push(("compression-space pressure", res.values.P_c[i], pc[i], 100.0 * up));
                w.push(("expansion-space pressure", res.values.P_e[i], pe[i], 100.0 * up));
            }
        }
        _ => {
            let rt = &res.temperature;
            for (n, x, y) in [("sink", rt.sink, t.sink), ("chx", rt.chx, t.chx), ("regen cold", rt.regen_cold, t.cold), ("regen avg", rt.regen_avg, t.avg), ("regen hot", rt.regen_hot, t.hot), ("hhx", rt.hhx, t.hhx), ("source", rt.source, t.source)] {
                w.push((n, x, y, 0.0));
            }
            w.push(("mass flow chx", res.mass_flow.chx, st.0.chx, 0.0));
            w.push(("mass flow regen", res.mass_flow.regen, st.0.regen, 0.0));
            w.push(("mass flow hhx", res.mass_flow.hhx, st.0.hhx, 0.0));
            w.push(("heat flow chx", res.heat_flow.chx, st.1.chx, 0.0));
            w.push(("heat flow regen", res.heat_flow.regen, st.1.regen, 0.0));
            w.push(("heat flow hhx", res.heat_flow.hhx, st.1.hhx, 0.0));
            w.push(("pressure avg", res.pressure.avg, st.2.avg, 0.0));
            w.push(("pressure max", res.pressure.max, st.2.max, 0.0));
            w.push(("pressure min", res.pressure.min, st.2.min, 0.0));
            w.push(("pressure t_zero", res.pressure.t_zero, st.2.t_zero, 0.0));
            w.push(("imbalance", res.regen_imbalance, st.3, 0.0));
            // powers and heats under their own names
            w.push(("ideal indicated power", res.power.ideal_indicated, ideal, psc));
            w.push(("indicated power", res.power.indicated, ind, psc));
            w.push(("shaft power", res.power.shaft, shaft, psc));
            w.push(("net power", res.power.net, net, psc));
            w.push(("heat input", res.heat_flow.input, input, sc));
            w.push(("heat rejection", res.heat_flow.rejection, rej, sc + psc));
            w.push(("shaft torque", res.shaft_torque, shaft / (2.0 * PI * f), psc / f));
            let got = [&res.values.time, &res.values.P, &res.values.T_c, &res.values.T_e, &res.values.m_dot_ck, &res.values.m_dot_kr, &res.values.m_dot_rl, &res.values.m_dot_le, &res.values.Q_dot_k, &res.values.Q_dot_r, &res.values.Q_dot_l];
            let names = ["time", "P", "T_c", "T_e", "m_dot_ck", "m_dot_kr", "m_dot_rl", "m_dot_le", "Q_dot_k", "Q_dot_r", "Q_dot_l"];
            for i in 0..names.len() {
                if got[i] != &want_series[i] {
                    return Out::Fail(format!("series {} is {:?} instead of {:?}", names[i], got[i], want_series[i]));
                }
            }
            if res.values.P_c.len() != n || res.values.P_e.len() != n {
                return Out::Fail("pressure series of another length".into());
            }
            for i in 0..n {
                w.push(("P_c", res.values.P_c[i], pc[i], 100.0 * up));
                w.push(("P_e", res.values.P_e[i], pe[i], 100.0 * up));
            }
        }
    }
    for (name, x, y, sc) in w {
        if !close(x, y, if sc == 0.0 { 0.0 } else { 1e-9 }, 1e-11 * sc.abs()) {
            return Out::Fail(format!("{}: {:e} instead of {:e}; {} points; case {:?}; series {:?}; temperatures {:?}", name, x, y, n, c, want_series, t));
        }
    }
    if zero && what == "pressure" {
        for i in 0..n {
            if res.values.P_c[i] != want_series[1][i] || res.values.P_e[i] != want_series[1][i] {
                return Out::Fail("zero resistances but different pressures".into());
            }
        }
    }
    Out::Pass
}

fn integ2(f: f64, t: &[f64], pc: &[f64], pe: &[f64], vol: &[(f64, f64, f64, f64)]) -> f64 {
    let y: Vec<f64> = (0..t.len()).map(|i| pc[i] * vol[i].1 + pe[i] * vol[i].3).collect();
    f * trapz(t, &y)
}

fn hx(e: &Engine<F>, temp: f64, m: f64, q: f64) -> HeatExchanger {
    let p = e.state.pres.avg;
    HeatExchanger { temp, pres: p, dens: e.state.fluid.dens(temp, p), cp: e.state.fluid.cp(temp, p), m_dot: m, Q_dot: q }
}

pub fn chx_state(e: &Engine<F>) -> chx::State {
    let s = &e.state;
    chx::State { hxr: hx(e, s.temp.chx, s.mass_flow.chx, s.heat_flow.chx), sink_temp: s.temp.sink }
}

pub fn regen_state(e: &Engine<F>) -> regen::State {
    let s = &e.state;
    regen::State { hxr: hx(e, s.temp.regen.avg, s.mass_flow.regen, s.heat_flow.regen), temp_chx: s.temp.chx, temp_hhx: s.temp.hhx }
}

pub fn hhx_state(e: &Engine<F>) -> hhx::State {
    let s = &e.state;
    hhx::State { hxr: hx(e, s.temp.hhx, s.mass_flow.hhx, s.heat_flow.hhx), source_temp: s.temp.source }
}
