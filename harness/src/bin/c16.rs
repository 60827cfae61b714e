use replay::{results::*, *};

// Results (heat) of an arbitrary finished run
fn main() {
    let base = pool();
    drive("c16", 3000, |r, _| check(&base, r, "heat"))
}
