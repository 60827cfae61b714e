use replay::*;

// Gas temperatures from approaches and imbalance
fn main() {
    drive("c08", 4000, |r, k| {
        let mut c = unit_case(r);
        c.solver = 0;
        if k % 5 == 0 {
            c.chx.init = r.f(-0.2, 0.5);
            c.hhx.init = r.f(-0.2, 0.5);
            c.regen.init = r.f(0.0, if k % 2 == 0 { 3.0 } else { 0.4 });
        }
        if k % 10 == 3 {
            // exchangers at the same or at crossed gas temperatures
            let d = c.inputs.temp_source - c.inputs.temp_sink;
            c.chx.init = r.f(0.3, 1.3) * d;
            c.hhx.init = r.f(0.3, 0.9) * d;
            c.regen.init = r.f(0.0, 0.2) * d;
        }
        let e = match c.run() {
            Some(Ok(e)) => e,
            _ => return Out::Skip,
        };
        let t = temps(&e);
        let cmp = |name: &str, t: &Temps, w: &Temps| -> Option<String> {
            for (f, x, y) in [("sink", t.sink, w.sink), ("chx", t.chx, w.chx), ("cold", t.cold, w.cold), ("avg", t.avg, w.avg), ("hot", t.hot, w.hot), ("hhx", t.hhx, w.hhx), ("source", t.source, w.source)] {
                if y.is_finite() && !close(x, y, 1e-9, 1e-12 * w.source.min(1.0)) {
                    return Some(format!("{} {} temperature {} instead of {}", name, f, x, y));
                }
            }
            None
        };
        let w = gas_temps(c.inputs.temp_sink, c.inputs.temp_source, (c.chx.init, c.regen.init, c.hhx.init), 0.0);
        if let Some(s) = cmp("engine", &t, &w) {
            return Out::Fail(format!("{}; case {:?}", s, c));
        }
        if t.cold < t.hot && t.chx < t.cold && t.hot < t.hhx && !(t.chx < t.avg && t.avg < t.hhx) {
            return Out::Fail(format!("average {} outside; case {:?}", t.avg, c));
        }
        // the imbalance widens one side only
        let (k0, h0, a) = (r.f(250., 400.), if r.n(6) == 0 { r.f(100., 600.) } else { r.f(600., 1200.) }, if r.n(6) == 0 { r.f(-60.0, 600.) } else { r.f(0.0, 60.0) });
        let imb = match k % 3 {
            0 => 0.0,
            1 => r.f(0.0, 60.0),
            _ => -r.f(0.0, 60.0),
        };
        let sc = if r.n(6) == 0 { r.log(1e-9, 1e9) } else { 1.0 };
        let (k0, h0, a, imb) = (k0 * sc, h0 * sc, a * sc, imb * sc);
        let mut im = e.state.regen_imbalance;
        im.0 = imb;
        let g = im.regen_temp(k0, h0, a);
        let w = gas_temps(k0, h0, (0.0, a, 0.0), imb);
        let t = Temps { sink: k0, chx: k0, cold: g.cold, avg: g.avg, hot: g.hot, hhx: h0, source: h0 };
        if let Some(s) = cmp("regenerator", &t, &w) {
            return Out::Fail(format!("{}; exchangers {} {}, approach {}, imbalance {}", s, k0, h0, a, imb));
        }
        Out::Pass
    })
}
