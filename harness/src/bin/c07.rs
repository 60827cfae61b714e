use replay::*;

// Averages of a run are those of its series
fn main() {
    drive("c07", 3000, |r, k| {
        let mut c = unit_case(r);
        c.solver = 0;
        c.settings.resolution = 2 + r.n(40) as u32;
        if k % 3 == 1 {
            // several outer iterations
            c.settings.loop_tol.outer = tol(0.05, 0.05);
            c.settings.max_iters.outer = 8;
            c.chx.dep = 0.1;
            c.hhx.dep = 0.1;
        }
        if k % 7 == 2 {
            // walls that hardly conduct, in an engine where hardly any heat flows
            c.ws.r = (c.ws.r.0 * r.log(1e3, 1e15), c.ws.r.1 * r.log(1e3, 1e15));
        }
        if k % 5 == 3 {
            // cycles that hardly close, at a few points
            c.settings.loop_tol.inner = tol(0.3, 0.3);
            c.settings.resolution = 2 + r.n(5) as u32;
            if r.coin() {
                // smallest volume first
                c.ws.vc = (c.ws.vc.0 + c.ws.vc.1, -c.ws.vc.1);
                c.ws.ve = (c.ws.ve.0 + c.ws.ve.1, -c.ws.ve.1);
            }
        }
        let e = match c.run() {
            Some(Ok(e)) => e,
            _ => return Out::Skip,
        };
        let (v, s) = (&e.values, &e.state);
        let n = v.time.len();
        if n < 2 || v.P.len() != n || v.T_c.len() != n {
            return Out::Skip;
        }
        let all: Vec<&Vec<f64>> = vec![&v.time, &v.P, &v.T_c, &v.T_e, &v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl, &v.m_dot_le, &v.Q_dot_k, &v.Q_dot_r, &v.Q_dot_l];
        let u = &c.fluid.u;
        let (um, uq) = (u.m(), u.q());
        let units = [u.t, u.p, 1.0, 1.0, um, um, um, um, uq, uq, uq];
        if all.iter().zip(units).any(|(x, u)| x.iter().any(|y| !y.is_finite() || y.abs() / u > 1e9)) {
            return Out::Skip;
        }
        let t = temps(&e);
        let period = v.time[n - 1];
        let mean = |y: &[f64]| trapz(&v.time, y) / period;
        let magn = |y: &[f64]| trapz_abs(&v.time, y) / period;
        let flow = |a: &[f64], b: &[f64]| -> Vec<f64> { a.iter().zip(b).map(|(x, y)| (0.5 * (x + y)).abs()).collect() };
        let cond = |y: &[f64], k: f64, r: f64| -> Vec<f64> { y.iter().map(|x| if r.is_infinite() { 0.0 } else { (x - k) / r }).collect() };
        let (rc, re) = c.ws.r;
        let mut w: Vec<(&str, f64, f64, f64)> = vec![];
        w.push(("pressure average", s.pres.avg, mean(&v.P), magn(&v.P)));
        w.push(("pressure maximum", s.pres.max, v.P.iter().cloned().fold(f64::MIN, f64::max), 0.0));
        w.push(("pressure minimum", s.pres.min, v.P.iter().cloned().fold(f64::MAX, f64::min), 0.0));
        w.push(("initial pressure", s.pres.t_zero, v.P[0], 0.0));
        for (name, x, a, b) in [("chx", s.mass_flow.chx, &v.m_dot_ck, &v.m_dot_kr), ("regen", s.mass_flow.regen, &v.m_dot_kr, &v.m_dot_rl), ("hhx", s.mass_flow.hhx, &v.m_dot_rl, &v.m_dot_le)] {
            w.push((name, x, mean(&flow(a, b)), magn(a) + magn(b)));
        }
        let (qc, qe) = (cond(&v.T_c, t.chx, rc), cond(&v.T_e, t.hhx, re));
        w.push(("cold heat flow", s.heat_flow.chx, mean(&v.Q_dot_k) + mean(&qc), magn(&v.Q_dot_k) + magn(&qc)));
        w.push(("regenerator heat flow", s.heat_flow.regen, mean(&v.Q_dot_r), magn(&v.Q_dot_r)));
        w.push(("hot heat flow", s.heat_flow.hhx, mean(&v.Q_dot_l) - mean(&qe), magn(&v.Q_dot_l) + magn(&qe)));
        for (name, x, y, sc) in w {
            if !close(x, y, 1e-9, 1e-9 * sc) {
                return Out::Fail(format!("{}: reported {:e}, from the series {:e}; values {:?}; case {:?}", name, x, y, v, c));
            }
        }
        Out::Pass
    })
}
