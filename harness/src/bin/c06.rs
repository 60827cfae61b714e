use replay::{results::*, *};
use sett_rs::types::*;
use sett_rs::{chx::ColdHeatExchanger, hhx::HotHeatExchanger, regen::Regenerator};

// Success means the reported temperatures agree with the components
fn main() {
    drive("c06", 400, |r, k| {
        let mut c = unit_case(r);
        c.fluid = F { w: [Wave(0., 0., 0., 0.); 8], cv: c.fluid.cv, r: c.fluid.r, h0: 0.0, u: c.fluid.u };
        c.solver = 0;
        c.chx.dep = r.f(0.0, 0.15);
        c.regen.dep = r.f(0.0, 0.15);
        c.hhx.dep = r.f(0.0, 0.15);
        c.chx.init = r.f(0.0, 0.4);
        c.regen.init = r.f(0.0, 0.3);
        c.hhx.init = r.f(0.0, 0.4);
        match r.n(8) {
            // the sink is the hot side, or exchangers beyond their sink and source
            0 => std::mem::swap(&mut c.inputs.temp_sink, &mut c.inputs.temp_source),
            1 => {
                c.chx.appr *= -1.0;
                c.hhx.appr *= -1.0;
                c.chx.init *= -1.0;
                c.hhx.init *= -1.0;
            }
            _ => {}
        }
        // components that depend strongly on the state: the outer loop takes many iterations
        let slow = r.n(3) == 0;
        if slow {
            c.chx.dep = r.f(0.0, 1.2);
            c.regen.dep = r.f(0.0, 1.2);
            c.hhx.dep = r.f(0.0, 1.2);
        }
        let (ta, tr) = match k % 3 {
            0 => (r.log(1e-4, 1e-1), 1e3),
            1 => (1e3, r.log(1e-4, 1e-1)),
            _ => (r.log(1e-4, 1e-1), r.log(1e-4, 1e-1)),
        };
        c.settings = settings(3 + r.n(10) as u32, tol(1e9, 1e9), tol(ta, tr), OdeTolerance { abs: 1e-6, rel: 1e-6 }, 3, if slow { 8 + r.n(60) as usize } else { 1 + r.n(12) as usize });
        if r.n(12) == 0 {
            c.still();
        }
        let mut fail = String::new();
        match c.run() {
            Some(Ok(e)) => {
                let t = temps(&e);
                if t.sink != c.inputs.temp_sink || t.source != c.inputs.temp_source {
                    fail = format!("sink and source {} {} instead of {} {}", t.sink, t.source, c.inputs.temp_sink, c.inputs.temp_source);
                }
                let a = (
                    ColdHeatExchanger::approach(&c.chx, &chx_state(&e)),
                    Regenerator::approach(&c.regen, &regen_state(&e)),
                    HotHeatExchanger::approach(&c.hhx, &hhx_state(&e)),
                );
                let w = gas_temps(t.sink, t.source, a, e.state.regen_imbalance.0);
                for (name, x, y) in [("chx", t.chx, w.chx), ("hhx", t.hhx, w.hhx), ("regenerator cold", t.cold, w.cold), ("regenerator average", t.avg, w.avg), ("regenerator hot", t.hot, w.hot)] {
                    if !x.is_finite() || !y.is_finite() {
                        return Out::Skip;
                    }
                    let d = (x - y).abs();
                    if d > ta * (1.0 + 1e-9) + 1e-12 || d > tr * x.abs() * (1.0 + 1e-9) + 1e-12 {
                        fail = format!("{} temperature reported {} but the components give {}; tolerances {} {}", name, x, y, ta, tr);
                    }
                }
            }
            Some(Err(RunError::OuterLoop)) | Some(Err(RunError::InnerLoop)) | None => {}
        }
        if fail.is_empty() && k % 4 == 0 {
            c.settings.max_iters.outer = 0;
            if k % 8 == 0 {
                c.settings.loop_tol.outer = tol(1e9, 1e9);
            }
            match c.run() {
                Some(Err(RunError::OuterLoop)) | None => {}
                Some(Ok(_)) => fail = "success with no outer iteration allowed".into(),
                Some(Err(e)) => fail = format!("{:?} with no outer iteration allowed", e),
            }
            if k % 16 == 0 {
                // no change is below a zero tolerance, however many iterations are allowed
                c.settings.max_iters.outer = 10 + r.n(if k % 32 == 0 { 100 } else { 20 }) as usize;
                c.settings.loop_tol.outer = if r.coin() { tol(0.0, 1e9) } else { tol(1e9, 0.0) };
                match c.run() {
                    Some(Err(_)) | None => {}
                    Some(Ok(_)) => fail = "success with an outer tolerance of zero".into(),
                }
            }
            c.settings.max_iters.outer = 1;
            c.settings.loop_tol.outer = tol(1e-14, 1e-14);
            if k % 8 == 0 {
                // the first temperatures are wrong, the second ones are right
                c.chx.dep = 0.0;
                c.regen.dep = 0.0;
                c.hhx.dep = 0.0;
                c.hhx.init = c.hhx.appr + 0.1;
            } else {
                c.chx.dep = 0.1;
                c.hhx.dep = 0.1;
            }
            match c.run() {
                Some(Err(RunError::OuterLoop)) | Some(Err(RunError::InnerLoop)) | None => {}
                Some(Ok(_)) => fail = "success with a tolerance that one iteration cannot meet".into(),
            }
        }
        if fail.is_empty() {
            Out::Pass
        } else {
            Out::Fail(format!("{}; case {:?}", fail, c))
        }
    })
}
