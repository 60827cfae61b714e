//! Built-in drives made through their configurations
use crate::*;
use sett_rs::ws::{Config, RhombicDrive, SinusoidalDrive, WorkingSpaces};

#[derive(Clone, Copy, Debug)]
pub struct Sin {
    pub f: f64,
    pub phase: f64,
    pub vs: (f64, f64),
    pub vc: (f64, f64),
}

#[derive(Clone, Copy, Debug)]
pub struct Rho {
    pub f: f64,
    pub vc: (f64, f64),
    pub r: f64,
    pub l: f64,
    pub e: f64,
    pub dp: f64,
    pub dd: f64,
}

/// units of frequency and volume: one, or a long way from it
fn scale(r: &mut Rng) -> (f64, f64) {
    if r.n(4) == 0 {
        (r.log(1e-4, 1e4), r.log(1e-12, 1e9))
    } else {
        (1.0, 1.0)
    }
}

impl Sin {
    pub fn new(r: &mut Rng) -> Self {
        let (f, k) = scale(r);
        let mut d = Sin { f: r.log(0.5, 200.0) * f, phase: r.f(-180.0, 360.0), vs: (r.log(1e-6, 1e-2) * k, r.log(1e-6, 1e-2) * k), vc: (r.log(1e-6, 1e-2) * k, r.log(1e-6, 1e-2) * k) };
        if r.n(12) == 0 {
            d.vc.0 = 0.0;
        }
        if r.n(12) == 0 {
            d.vc.1 = 0.0;
        }
        d
    }
    pub fn build(&self) -> SinusoidalDrive {
        let toml = format!(
            "[sinusoidal]\nfrequency={:e}\nphase_angle={:e}\nV_swept_c={:e}\nV_clearance_c={:e}\nR_c=inf\nW_parasitic_c=0\nV_swept_e={:e}\nV_clearance_e={:e}\nR_e=inf\nW_parasitic_e=0\nQ_parasitic_e=0\n",
            self.f, self.phase, self.vs.0, self.vc.0, self.vs.1, self.vc.1
        );
        match parse::<Config>(&toml, false).expect("sinusoidal") {
            Config::Sinusoidal(c) => c.into(),
            _ => panic!(),
        }
    }
}

impl Rho {
    /// connecting rod longer than crank radius plus eccentricity: the volumes are defined at all angles
    pub fn new(r: &mut Rng) -> Self {
        let (f, k) = scale(r);
        let k = k.cbrt();
        let cr = r.log(1e-3, 1e-1) * k;
        let e = cr * r.f(1.0, 2.5);
        let l = (e + cr) * r.f(1.02, 3.0);
        Rho { f: r.log(0.5, 200.0) * f, vc: (r.log(1e-6, 1e-3) * k * k * k, r.log(1e-6, 1e-3) * k * k * k), r: cr, l, e, dp: r.log(1e-2, 1e-1) * k, dd: r.log(1e-2, 1e-1) * k }
    }
    pub fn build(&self) -> RhombicDrive {
        let toml = format!(
            "[rhombic]\nfrequency={:e}\nV_clearance_c={:e}\nR_c=inf\nW_parasitic_c=0\nV_clearance_e={:e}\nR_e=inf\nW_parasitic_e=0\nQ_parasitic_e=0\nr_crank={:e}\nL_conn={:e}\neccentricity={:e}\nD_p={:e}\nD_d={:e}\n",
            self.f, self.vc.0, self.vc.1, self.r, self.l, self.e, self.dp, self.dd
        );
        match parse::<Config>(&toml, false).expect("rhombic") {
            Config::Rhombic(c) => c.into(),
            _ => panic!(),
        }
    }
}

pub fn parse<T: serde_like::De>(text: &str, json: bool) -> Option<T> {
    T::parse(text, json)
}

/// `config` re-exports no serde; this keeps the bound in one place
pub mod serde_like {
    pub trait De: Sized {
        fn parse(text: &str, json: bool) -> Option<Self>;
    }
    macro_rules! de {
        ($($t:ty),*) => { $( impl De for $t {
            fn parse(text: &str, json: bool) -> Option<Self> {
                let fmt = if json { config::FileFormat::Json } else { config::FileFormat::Toml };
                config::Config::builder().add_source(config::File::from_str(text, fmt)).build().ok()?.try_deserialize::<$t>().ok()
            }
        } )* };
    }
    de!(sett_rs::ws::Config, sett_rs::chx::Config, sett_rs::hhx::Config, sett_rs::regen::Config, sett_rs::Config, sett_rs::Legacy, sett_rs::types::SolverConfig, sett_rs::types::LegacySolverConfig, sett_rs::types::ConditionsConfig, sett_rs::types::LegacyConditionsConfig);
}

/// A state to ask a working-space component with
pub fn ws_state() -> ws::State {
    let mut r = Rng::new(3);
    loop {
        let mut c = unit_case(&mut r);
        c.solver = 0;
        if let Some(Ok(e)) = c.run() {
            return e.state.ws();
        }
    }
}

/// One of the two drives: frequency, its volume function and the size of its volumes
/// Drives that turn backwards, and rhombic ones whose rods nearly lie across
pub fn odd_drive(r: &mut Rng, k: u64, s: &ws::State) -> (f64, Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)>, String) {
    let sign = if r.coin() { -1.0 } else { 1.0 };
    if k % 2 == 0 {
        let mut d = Sin::new(r);
        d.f = -d.f;
        let b = d.build();
        (b.frequency(s), b.volumes(s), format!("{:?}", d))
    } else {
        let mut d = Rho::new(r);
        d.f *= sign;
        d.l = (d.e + d.r) * (1.0 + r.log(1e-4, 1e-2));
        let b = d.build();
        (b.frequency(s), b.volumes(s), format!("{:?}", d))
    }
}

pub fn any_drive(r: &mut Rng, k: u64, s: &ws::State) -> (f64, Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)>, String, (f64, f64), Option<Sin>) {
    if k % 2 == 0 {
        let d = Sin::new(r);
        let b = d.build();
        (b.frequency(s), b.volumes(s), format!("{:?}", d), d.vc, Some(d))
    } else {
        let d = Rho::new(r);
        let b = d.build();
        (b.frequency(s), b.volumes(s), format!("{:?}", d), d.vc, None)
    }
}
