use replay::{results::*, *};

// Results (names) of an arbitrary finished run; the columns of the series hold the flows they are named after
fn main() {
    let base = pool();
    drive("c18", 3000, |r, k| {
        if k % 8 == 0 {
            let mut c = unit_case(r);
            c.solver = 0;
            if let Some(Ok(e)) = c.run() {
                let s = e.state.ws();
                if let Out::Fail(x) = check_instants(&c, &e, &s, 1e-6) {
                    return Out::Fail(format!("a column of the series does not hold the solved value of that name: {}", x));
                }
            }
        }
        check(&base, r, "names")
    })
}
