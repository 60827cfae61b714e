use sett_rs as s;
trait J { fn j(self) -> Vec<String>; }
impl J for f64 { fn j(self) -> Vec<String> { vec![format!("\"{:e}\"", self)] } }
impl J for usize { fn j(self) -> Vec<String> { vec![self.to_string()] } }
impl J for bool { fn j(self) -> Vec<String> { vec![self.to_string()] } }
impl J for Vec<f64> { fn j(self) -> Vec<String> { let mut o = vec![self.len().to_string()]; for v in self { o.extend(v.j()); } o } }
impl<A: J, B: J> J for (A, B) { fn j(self) -> Vec<String> { let mut o = self.0.j(); o.extend(self.1.j()); o } }
impl<A: J> J for anyhow::Result<A> { fn j(self) -> Vec<String> { match self { Ok(v) => { let mut o = vec!["0".into()]; o.extend(v.j()); o } Err(_) => vec!["1".into()] } } }
macro_rules! all { ($($n:ident)*) => { fn call(x: &[f64], y: &[f64], a: f64, k: usize) { $( let r = std::panic::catch_unwind(|| s::$n(x, y, a, k).j()); match r { Ok(v) => println!("{} [{}]", stringify!($n), v.join(",")), Err(_) => println!("{} null", stringify!($n)) } )* } } }
include!("names.rs");
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let p: Vec<Vec<f64>> = l.split(';').map(|s| s.split(',').map(|v| v.parse().unwrap()).collect()).collect();
        println!("# {l}");
        call(&p[0], &p[1], p[2][0], p[2][1] as usize);
    }
}
