use replay::*;

// Upwind enthalpies: the energy balances with the enthalpy of the upstream volume
fn main() {
    drive("c02", 4000, |r, k| {
        let mut c = unit_case(r);
        c.solver = (k % 2) as u8;
        match c.run() {
            Some(Ok(e)) => {
                let s = e.state.ws();
                check_instants(&c, &e, &s, 1e-6)
            }
            _ => Out::Skip,
        }
    })
}
