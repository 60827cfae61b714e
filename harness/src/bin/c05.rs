use replay::*;
use sett_rs::types::*;

// Success means the cycle closes within the inner tolerances from the requested pressure
fn main() {
    drive("c05", 400, |r, k| {
        let mut c = unit_case(r);
        let wild = k % 6 == 2;
        if !wild {
            c.fluid = F { w: [Wave(0., 0., 0., 0.); 8], cv: c.fluid.cv, r: c.fluid.r, h0: 0.0, u: c.fluid.u };
        }
        c.solver = 0;
        c.chx.appr = c.chx.init;
        c.regen.appr = c.regen.init;
        c.hhx.appr = c.hhx.init;
        let (ta, tr) = match k % 3 {
            _ if wild => (r.log(1e-2, 0.5), 1e3),
            0 => (r.log(1e-5, 1e-1), 1e3),
            1 => (1e3, r.log(1e-5, 1e-1)),
            _ => (r.log(1e-4, 1e-1), r.log(1e-4, 1e-1)),
        };
        c.settings = settings(2 + r.n(20) as u32, tol(ta, tr), tol(1e9, 1e9), OdeTolerance { abs: 1e-8, rel: 1e-8 }, 1 + r.n(if k % 5 == 0 { 400 } else { 40 }) as usize, 3);
        if wild {
            // a cycle that closes by chance and opens again
            c.settings.loop_tol.inner = tol(ta, 1e3);
        }
        let outer = k % 6 == 1;
        if outer {
            // temperatures that take several outer iterations
            for h in [&mut c.chx, &mut c.regen, &mut c.hhx] {
                h.appr *= 1.0 + r.f(0.0, 0.5);
                h.dep = r.f(0.0, 0.15);
            }
            c.settings.loop_tol.outer = tol(r.log(1e-3, 1e-1), 1e3);
            c.settings.max_iters.outer = 12;
        }
        let mut fails = String::new();
        match c.run() {
            Some(Ok(e)) => {
                let v = &e.values;
                let n = v.P.len();
                if n < 2 {
                    return Out::Skip;
                }
                if v.P[0] != c.inputs.pres_zero {
                    fails = format!("cycle starts at pressure {:e} instead of {:e}", v.P[0], c.inputs.pres_zero);
                }
                if (v.time[n - 1] - 1.0 / c.ws.freq).abs() > 1e-6 / c.ws.freq {
                    return Out::Skip;
                }
                for (name, y) in [("T_c", &v.T_c), ("T_e", &v.T_e)] {
                    let ch = (y[n - 1] - y[0]).abs();
                    // the reported series is another integration: allow for the integrator's own error
                    let slack = 1e-5;
                    if ch > ta + slack || ch > tr * y[0].abs() + slack {
                        fails = format!("{} goes from {} to {} over the cycle, tolerances {} {}", name, y[0], y[n - 1], ta, tr);
                    }
                }
            }
            Some(Err(RunError::InnerLoop)) | None => {}
            Some(Err(RunError::OuterLoop)) if outer => {}
            Some(Err(e)) => fails = format!("inner failure reported as {:?}", e),
        }
        if fails.is_empty() && k % 4 == 0 {
            // no iteration allowed, or one that cannot be enough
            c.settings.max_iters.inner = 0;
            if k % 8 == 0 {
                c.settings.loop_tol.inner = tol(1e9, 1e9);
            }
            match c.run() {
                Some(Err(RunError::InnerLoop)) | None => {}
                Some(Ok(_)) => fails = "success with no inner iteration allowed".into(),
                Some(Err(e)) => fails = format!("{:?} with no inner iteration allowed", e),
            }
            if k % 16 == 0 {
                // no change is below a zero tolerance, however many iterations are allowed
                let mut c = c.clone();
                c.settings.max_iters.inner = 20 + r.n(if k % 32 == 0 { 300 } else { 60 }) as usize;
                c.settings.loop_tol.inner = if r.coin() { tol(0.0, 1e9) } else { tol(1e9, 0.0) };
                if r.coin() {
                    c.still();
                }
                match c.run() {
                    Some(Err(RunError::InnerLoop)) | None => {}
                    Some(Ok(_)) => fails = "success with a tolerance of zero".into(),
                    Some(Err(e)) => fails = format!("{:?} instead of an inner-loop error", e),
                }
            }
            c.settings.max_iters.inner = 1 + r.n(2) as usize;
            c.settings.loop_tol.inner = tol(1e-13, 1e-13);
            match c.run() {
                Some(Err(RunError::InnerLoop)) | None => {}
                Some(Ok(_)) => fails = "success with a tolerance that one or two iterations cannot meet".into(),
                Some(Err(e)) => fails = format!("{:?} instead of an inner-loop error", e),
            }
        }
        if fails.is_empty() {
            Out::Pass
        } else {
            Out::Fail(format!("{}; case {:?}", fails, c))
        }
    })
}
