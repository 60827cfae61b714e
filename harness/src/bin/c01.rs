use replay::*;

fn outcome(c: &Case, tol: f64) -> Out {
    match c.run() {
        Some(Ok(e)) => {
            let s = e.state.ws();
            check_instants(c, &e, &s, tol)
        }
        _ => Out::Skip,
    }
}

// Mass and energy balances of every volume at every solved point
fn main() {
    drive("c01", 4000, |r, k| {
        if k % 3 < 2 {
            let mut c = unit_case(r);
            c.solver = (k % 3) as u8;
            if r.n(20) == 0 {
                // a gas for which the balances have no solution, or not just one
                let none = Wave(-1.0, 0.0, 0.0, std::f64::consts::FRAC_PI_2);
                let which: &[usize] = [&[4, 5, 6, 7][..], &[5, 7], &[4, 6]][r.n(3) as usize];
                for i in which {
                    c.fluid.w[*i] = none;
                }
            }
            return outcome(&c, 1e-6);
        }
        // a singular value decomposition is accurate relative to the largest equation only
        let mut c = plain_case(r);
        c.solver = 2;
        let fail = match outcome(&c, 3e-3) {
            Out::Fail(s) => s,
            o => return o,
        };
        // known finding KF3: the decomposition is inaccurate for an isolated matrix, and accurate for its neighbours
        let mut near = 0;
        for _ in 0..8 {
            let mut c = c.clone();
            c.inputs.pres_zero *= r.f(0.95, 1.05);
            c.inputs.temp_sink *= r.f(0.97, 1.03);
            c.chx.vol *= r.f(0.95, 1.05);
            c.hhx.vol *= r.f(0.95, 1.05);
            c.ws.freq *= r.f(0.95, 1.05);
            if let Out::Fail(_) = outcome(&c, 3e-3) {
                near += 1;
            }
        }
        if near > 3 {
            return Out::Fail(fail);
        }
        Out::Known("KF3".into())
    })
}
