use replay::{results::*, *};

// Results (pressure) of an arbitrary finished run
fn main() {
    let base = pool();
    drive("c17", 3000, |r, _| check(&base, r, "pressure"))
}
