use replay::*;

// Balances with each volume's own properties, state dependent components, finite resistances
fn main() {
    drive("c03", 4000, |r, k| {
        let mut c = unit_case(r);
        if r.n(6) == 0 {
            // driven the other way: the sink is the hot side
            let t = c.inputs.temp_sink;
            c.inputs.temp_sink = c.inputs.temp_source;
            c.inputs.temp_source = t;
        }
        if r.n(6) == 0 {
            // spaces that gain heat from elsewhere
            c.ws.par.comp.thermal *= -1.0;
            c.ws.par.exp.thermal *= -1.0;
        }
        c.solver = (k % 2) as u8;
        match c.run() {
            Some(Ok(e)) => {
                let s = e.state.ws();
                check_instants(&c, &e, &s, 1e-6)
            }
            _ => Out::Skip,
        }
    })
}
