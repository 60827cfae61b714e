use replay::{results::*, *};

// Power, torque and efficiency of an arbitrary finished run
fn main() {
    let base = pool();
    drive("c15", 3000, |r, _| check(&base, r, "power"))
}
