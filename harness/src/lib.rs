//! Replay harness: runs the real code through its public interface on generated inputs and
//! compares it with an independent statement of the property.  It is used to turn a failed
//! obligation into a concrete failing input, and as a bounded stand-in where the verifier gives
//! no answer.
#![allow(non_snake_case, clippy::all)]

pub mod drives;
pub mod results;

use sett_rs::types::*;
use sett_rs::{chx, fluid::Fluid, hhx, regen, ws};
use sett_rs::{Components, Engine};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.u();
        }
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: u64) -> u64 {
        self.u() % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 {
        (self.f(lo.ln(), hi.ln())).exp()
    }
    pub fn coin(&mut self) -> bool {
        self.u() & 1 == 1
    }
}

/// A smooth factor around one that depends on temperature and pressure
#[derive(Clone, Copy, Debug)]
pub struct Wave(pub f64, pub f64, pub f64, pub f64);

impl Wave {
    pub fn new(r: &mut Rng, amp: f64) -> Self {
        Wave(amp * r.f(0.3, 1.0), r.f(0.3, 1.5), r.f(0.3, 1.5), r.f(0.0, 6.0))
    }
    pub fn at(&self, t: f64, p: f64) -> f64 {
        1.0 + self.0 * (self.1 * t + self.2 * p + self.3).sin()
    }
}

/// Units of density, volume, time and pressure in which a made-up engine's numbers are of order one.
/// Powers of two: a change of units is exact.
#[derive(Clone, Copy, Debug)]
pub struct U {
    pub d: f64,
    pub v: f64,
    pub t: f64,
    pub p: f64,
}

impl U {
    pub const ONE: U = U { d: 1.0, v: 1.0, t: 1.0, p: 1.0 };
    pub fn new(r: &mut Rng) -> Self {
        let mut e = |lo: i32, hi: i32| 2f64.powi(lo + r.n((hi - lo + 1) as u64) as i32);
        U { d: e(-4, 6), v: e(-36, 4), t: e(-12, 4), p: e(0, 23) }
    }
    /// power and heat flow
    pub fn q(&self) -> f64 {
        self.p * self.v / self.t
    }
    /// mass flow
    pub fn m(&self) -> f64 {
        self.d * self.v / self.t
    }
}

/// A made-up fluid in units where everything is of order one; its eight functions are unrelated
#[derive(Clone, Debug)]
pub struct F {
    pub w: [Wave; 8],
    pub cv: f64,
    pub r: f64,
    pub h0: f64,
    pub u: U,
}

impl F {
    pub fn new(r: &mut Rng, amp: f64) -> Self {
        let mut w = [Wave(0., 0., 0., 0.); 8];
        for x in &mut w {
            *x = Wave::new(r, amp);
        }
        let h0 = if r.coin() { 0.0 } else { r.f(-12.0, 12.0) };
        F { w, cv: r.f(1.5, 3.0), r: r.f(0.7, 1.3), h0, u: U::ONE }
    }
}

impl Fluid for F {
    fn dens(&self, t: f64, p: f64) -> f64 {
        let p = p / self.u.p;
        self.u.d * (p / (self.r * t) * self.w[0].at(t, p))
    }
    fn inte(&self, t: f64, p: f64) -> f64 {
        let p = p / self.u.p;
        self.u.p / self.u.d * (self.h0 + self.cv * t * self.w[1].at(t, p))
    }
    fn enth(&self, t: f64, p: f64) -> f64 {
        let p = p / self.u.p;
        self.u.p / self.u.d * (self.h0 + (self.cv + self.r) * t * self.w[2].at(t, p))
    }
    fn cp(&self, t: f64, p: f64) -> f64 {
        let p = p / self.u.p;
        self.u.p / self.u.d * ((self.cv + self.r) * self.w[3].at(t, p))
    }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 {
        let p = p / self.u.p;
        self.u.d / self.u.p * (1.0 / (self.r * t) * self.w[4].at(t, p))
    }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 {
        let p = p / self.u.p;
        self.u.d * (-p / (self.r * t * t) * self.w[5].at(t, p))
    }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 {
        let p = p / self.u.p;
        1.0 / self.u.d * (0.1 * self.w[6].at(t, p))
    }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 {
        let p = p / self.u.p;
        self.u.p / self.u.d * (self.cv * self.w[7].at(t, p))
    }
}

/// Working spaces whose parameters are given numbers (times a weak function of the pressures)
#[derive(Clone, Copy, Debug)]
pub struct Ws {
    pub freq: f64,
    pub phase: f64,
    pub vc: (f64, f64),
    pub ve: (f64, f64),
    pub r: (f64, f64),
    pub par: ws::Parasitics,
    /// dependence on the pressures of the state: frequency, volumes, resistance, parasitics
    pub dep: f64,
    /// unit of pressure
    pub up: f64,
}

pub fn pressure_factor(dep: f64, up: f64, s: &ws::State, k: f64) -> f64 {
    let p = &s.pres;
    1.0 + dep * ((p.avg * (1.0 + 0.1 * k) + 2.3 * p.max - 1.7 * p.min + 0.9 * p.t_zero) / up + k).sin()
}

fn par_factor(p: ParasiticPower, g: f64) -> ParasiticPower {
    ParasiticPower { thermal: p.thermal * g, mechanical: p.mechanical * g, electrical: p.electrical * g }
}

impl Ws {
    pub fn new(r: &mut Rng) -> Self {
        let mut pp = || ParasiticPower { thermal: r.f(0.1, 2.0), mechanical: r.f(0.1, 2.0), electrical: r.f(0.1, 2.0) };
        let par = ws::Parasitics { comp: pp(), exp: pp() };
        Ws {
            freq: r.f(2.0, 9.0),
            phase: r.f(0.5, 2.2),
            vc: (r.f(0.2, 0.8), r.f(0.3, 1.5)),
            ve: (r.f(0.2, 0.8), r.f(0.3, 1.5)),
            r: (if r.coin() { f64::INFINITY } else { r.f(0.1, 2.0) }, if r.coin() { f64::INFINITY } else { r.f(0.1, 2.0) }),
            par,
            dep: 0.0,
            up: 1.0,
        }
    }
    pub fn at(&self, s: &ws::State, t: f64) -> (f64, f64, f64, f64) {
        let w = 2.0 * std::f64::consts::PI * self.freq;
        let g = pressure_factor(self.dep, self.up, s, 1.0);
        // rates deliberately not the exact derivatives: the code must use what the component reports
        (
            g * (self.vc.0 + 0.5 * self.vc.1 * (1.0 + (w * t).cos())),
            g * (-0.5 * self.vc.1 * w * (w * t + 0.02).sin()),
            g * (self.ve.0 + 0.5 * self.ve.1 * (1.0 + (w * t + self.phase).cos())),
            g * (-0.5 * self.ve.1 * w * (w * t + self.phase - 0.03).sin()),
        )
    }
}

impl ws::WorkingSpaces for Ws {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.freq * pressure_factor(self.dep, self.up, s, 2.0)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)> {
        let me = *self;
        let s = ws::State { pres: s.pres };
        Box::new(move |t| {
            let (a, b, c, d) = me.at(&s, t);
            (ws::CompVolume { value: a, deriv: b }, ws::ExpVolume { value: c, deriv: d })
        })
    }
    fn thermal_resistance(&self, s: &ws::State) -> ws::ThermalResistance {
        let g = pressure_factor(self.dep, self.up, s, 3.0);
        ws::ThermalResistance { comp: self.r.0 * g, exp: self.r.1 * g }
    }
    fn parasitics(&self, s: &ws::State) -> ws::Parasitics {
        let g = pressure_factor(self.dep, self.up, s, 4.0);
        ws::Parasitics { comp: par_factor(self.par.comp, g), exp: par_factor(self.par.exp, g) }
    }
}

/// A heat exchanger with given numbers
#[derive(Clone, Copy, Debug)]
pub struct Hx {
    pub vol: f64,
    pub appr: f64,
    pub init: f64,
    pub rhyd: f64,
    pub par: ParasiticPower,
    /// dependence of everything on the state
    pub dep: f64,
    pub u: U,
}

impl Hx {
    pub fn new(r: &mut Rng) -> Self {
        Hx {
            vol: r.f(0.2, 1.5),
            appr: 0.0,
            init: 0.0,
            rhyd: r.f(0.1, 2.0),
            par: ParasiticPower { thermal: r.f(0.1, 2.0), mechanical: r.f(0.1, 2.0), electrical: r.f(0.1, 2.0) },
            dep: 0.0,
            u: U::ONE,
        }
    }
    fn g(&self, h: &HeatExchanger, x: f64, y: f64, k: f64) -> f64 {
        let u = &self.u;
        let z = 0.7 * h.temp + 1.3 * h.pres / u.p + 0.9 * h.dens / u.d + 1.1 * h.cp * u.d / u.p + 1.7 * h.m_dot / u.m() + 0.6 * h.Q_dot / u.q() + 0.8 * x + 0.5 * y + k;
        1.0 + self.dep * (z.sin() + 0.3 * (1.7 * z).cos())
    }
}

impl chx::ColdHeatExchanger for Hx {
    fn volume(&self) -> f64 {
        self.vol
    }
    fn approach(&self, s: &chx::State) -> f64 {
        self.appr * self.g(&s.hxr, s.sink_temp, 0.0, 0.0)
    }
    fn hydraulic_resistance(&self, s: &chx::State) -> f64 {
        self.rhyd * self.g(&s.hxr, s.sink_temp, 0.0, 1.0)
    }
    fn parasitics(&self, s: &chx::State) -> ParasiticPower {
        par_factor(self.par, self.g(&s.hxr, s.sink_temp, 0.0, 2.0))
    }
    fn initial_approach(&self) -> f64 {
        self.init
    }
}

impl hhx::HotHeatExchanger for Hx {
    fn volume(&self) -> f64 {
        self.vol
    }
    fn approach(&self, s: &hhx::State) -> f64 {
        self.appr * self.g(&s.hxr, s.source_temp, 0.0, 0.0)
    }
    fn hydraulic_resistance(&self, s: &hhx::State) -> f64 {
        self.rhyd * self.g(&s.hxr, s.source_temp, 0.0, 1.0)
    }
    fn parasitics(&self, s: &hhx::State) -> ParasiticPower {
        par_factor(self.par, self.g(&s.hxr, s.source_temp, 0.0, 2.0))
    }
    fn initial_approach(&self) -> f64 {
        self.init
    }
}

impl regen::Regenerator for Hx {
    fn volume(&self) -> f64 {
        self.vol
    }
    fn approach(&self, s: &regen::State) -> f64 {
        self.appr * self.g(&s.hxr, s.temp_chx, s.temp_hhx, 0.0)
    }
    fn hydraulic_resistance(&self, s: &regen::State) -> f64 {
        self.rhyd * self.g(&s.hxr, s.temp_chx, s.temp_hhx, 1.0)
    }
    fn parasitics(&self, s: &regen::State) -> ParasiticPower {
        par_factor(self.par, self.g(&s.hxr, s.temp_chx, s.temp_hhx, 2.0))
    }
    fn initial_approach(&self) -> f64 {
        self.init
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub fluid: F,
    pub ws: Ws,
    pub chx: Hx,
    pub regen: Hx,
    pub hhx: Hx,
    pub inputs: RunInputs,
    pub settings: RunSettings,
    pub solver: u8,
}

pub fn tol(abs: f64, rel: f64) -> ConvergenceTolerance {
    ConvergenceTolerance { abs, rel }
}

pub fn settings(resolution: u32, inner: ConvergenceTolerance, outer: ConvergenceTolerance, ode: OdeTolerance, ni: usize, no: usize) -> RunSettings {
    RunSettings { resolution, loop_tol: LoopTolerance { inner, outer }, ode_tol: ode, max_iters: MaxIters { inner: ni, outer: no } }
}

/// A made-up engine whose run stops after one iteration of each loop
pub fn unit_case(r: &mut Rng) -> Case {
    let mut c = plain_case(r);
    if r.n(3) == 0 {
        c.units(U::new(r));
    }
    c
}

/// Such an engine with all its numbers of order one
pub fn plain_case(r: &mut Rng) -> Case {
    let big = tol(1e9, 1e9);
    let fluid = F::new(r, 0.25);
    let ws = Ws::new(r);
    let (mut c, mut g, mut h) = (Hx::new(r), Hx::new(r), Hx::new(r));
    let sink = r.f(0.9, 1.2);
    let source = r.f(2.4, 3.2);
    c.init = r.f(0.05, 0.3);
    h.init = r.f(0.05, 0.4);
    g.init = r.f(0.02, 0.2);
    c.appr = c.init * r.f(0.9, 1.1);
    h.appr = h.init * r.f(0.9, 1.1);
    g.appr = g.init * r.f(0.9, 1.1);
    let n = 2 + r.n(7) as u32;
    let inputs = RunInputs { pres_zero: r.f(0.5, 3.0), temp_sink: sink, temp_source: source };
    let solver = r.n(3) as u8;
    let settings = settings(n, big, big, OdeTolerance { abs: 1e-3, rel: 1e-3 }, 3, 3);
    Case { fluid, ws, chx: c, regen: g, hhx: h, inputs, settings, solver }
}

impl Case {
    /// The same engine with its numbers given in other units (once per case)
    pub fn units(&mut self, u: U) {
        self.fluid.u = u;
        let w = &mut self.ws;
        w.up = u.p;
        w.freq /= u.t;
        w.vc = (w.vc.0 * u.v, w.vc.1 * u.v);
        w.ve = (w.ve.0 * u.v, w.ve.1 * u.v);
        w.r = (w.r.0 / u.q(), w.r.1 / u.q());
        w.par = ws::Parasitics { comp: par_factor(w.par.comp, u.q()), exp: par_factor(w.par.exp, u.q()) };
        for h in [&mut self.chx, &mut self.regen, &mut self.hhx] {
            h.u = u;
            h.vol *= u.v;
            h.rhyd *= u.p * u.t / u.v;
            h.par = par_factor(h.par, u.q());
        }
        self.inputs.pres_zero *= u.p;
    }
    /// Nothing moves and nothing flows
    pub fn still(&mut self) {
        let none = ParasiticPower::default();
        self.ws.vc.1 = 0.0;
        self.ws.ve.1 = 0.0;
        self.ws.r = (f64::INFINITY, f64::INFINITY);
        self.ws.par = ws::Parasitics { comp: none, exp: none };
        for h in [&mut self.chx, &mut self.regen, &mut self.hhx] {
            h.par = none;
        }
    }
    pub fn components(&self) -> Components {
        Components { ws: Box::new(self.ws), chx: Box::new(self.chx), regen: Box::new(self.regen), hhx: Box::new(self.hhx) }
    }
    /// None: the run panicked
    pub fn run(&self) -> Option<Result<Engine<F>, RunError>> {
        let me = self.clone();
        quiet(move || match me.solver {
            0 => Engine::run::<sett_rs::LuSolver>(me.components(), me.fluid.clone(), me.inputs, me.settings),
            1 => Engine::run::<sett_rs::QrSolver>(me.components(), me.fluid.clone(), me.inputs, me.settings),
            _ => Engine::run::<sett_rs::SvdDefaultSolver>(me.components(), me.fluid.clone(), me.inputs, me.settings),
        })
    }
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    a == b || (a - b).abs() <= abs + rel * a.abs().max(b.abs()) || (a.is_nan() && b.is_nan())
}

pub fn trapz(x: &[f64], y: &[f64]) -> f64 {
    (1..x.len()).map(|i| 0.5 * (y[i] + y[i - 1]) * (x[i] - x[i - 1])).sum()
}

/// trapz of |y|: a scale for rounding errors
pub fn trapz_abs(x: &[f64], y: &[f64]) -> f64 {
    (1..x.len()).map(|i| (0.5 * (y[i].abs() + y[i - 1].abs()) * (x[i] - x[i - 1])).abs()).sum()
}

pub enum Out {
    Pass,
    /// the input was unusable (the code under test refused it or the conditions do not apply)
    Skip,
    Fail(String),
    Known(String),
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// Runs cases until the time is up; arguments: seed, seconds, [case number]
pub fn drive(name: &str, max: u64, case: impl Fn(&mut Rng, u64) -> Out) {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
    let secs: f64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(20.0);
    let only: Option<u64> = a.get(3).and_then(|x| x.parse().ok());
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let (mut ok, mut skip) = (0u64, 0u64);
    let mut known: Vec<String> = vec![];
    let (from, to) = match only {
        Some(k) => (k, k + 1),
        None => (0, max),
    };
    for k in from..to {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k));
        match case(&mut r, k) {
            Out::Pass => ok += 1,
            Out::Skip => skip += 1,
            Out::Known(s) => {
                ok += 1;
                if !known.contains(&s) {
                    known.push(s);
                }
            }
            Out::Fail(s) => {
                println!("{{\"fail\": \"{}\", \"bin\": \"{}\", \"seed\": {}, \"case\": {}, \"passed\": {}, \"skipped\": {}}}", esc(&s), name, seed, k, ok, skip);
                return;
            }
        }
    }
    let ks: Vec<String> = known.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    println!("{{\"ok\": true, \"bin\": \"{}\", \"seed\": {}, \"passed\": {}, \"skipped\": {}, \"known\": [{}]}}", name, seed, ok, skip, ks.join(", "));
}

/// The temperatures a run reports
#[derive(Clone, Copy, Debug)]
pub struct Temps {
    pub sink: f64,
    pub chx: f64,
    pub cold: f64,
    pub avg: f64,
    pub hot: f64,
    pub hhx: f64,
    pub source: f64,
}

pub fn temps<T: Fluid>(e: &Engine<T>) -> Temps {
    let t = &e.state.temp;
    Temps { sink: t.sink, chx: t.chx, cold: t.regen.cold, avg: t.regen.avg, hot: t.regen.hot, hhx: t.hhx, source: t.source }
}

/// The gas temperatures that follow from approaches and imbalance
pub fn gas_temps(sink: f64, source: f64, a: (f64, f64, f64), imb: f64) -> Temps {
    let chx = sink + a.0;
    let hhx = source - a.2;
    let ca = if imb < 0.0 { a.1 - imb } else { a.1 };
    let ha = if imb > 0.0 { a.1 + imb } else { a.1 };
    let (lo, hi) = (chx + 0.5 * ca, hhx - 0.5 * ha);
    Temps { sink, chx, cold: chx + ca, avg: (hi - lo) / (hi.ln() - lo.ln()), hot: hhx - ha, hhx, source }
}

/// One instant of the cycle: flows and the derivatives that make the mass balances hold
pub struct Instant5 {
    pub name: [&'static str; 10],
    pub res: [f64; 10],
    pub scale: [f64; 10],
    pub d: [f64; 3],
}

/// Residuals of the ten balances at point i of a run, for inputs stated independently of the code
pub fn balances(fl: &F, t: &Temps, vols: (f64, f64, f64), v: (f64, f64, f64, f64), q: (f64, f64), p: f64, tc: f64, te: f64, m: [f64; 4], qd: [f64; 3]) -> Instant5 {
    // pressure rate from the three exchangers together, temperature rates from the mass balances
    let cap = vols.0 * fl.dd_dP_T(t.chx, p) + vols.1 * fl.dd_dP_T(t.avg, p) + vols.2 * fl.dd_dP_T(t.hhx, p);
    let dp = (m[0] - m[3]) / cap;
    let (vc, dvc, ve, dve) = v;
    let dtc = (-m[0] - fl.dens(tc, p) * dvc - vc * fl.dd_dP_T(tc, p) * dp) / (vc * fl.dd_dT_P(tc, p));
    let dte = (m[3] - fl.dens(te, p) * dve - ve * fl.dd_dP_T(te, p) * dp) / (ve * fl.dd_dT_P(te, p));
    let up = |f: f64, a: f64, b: f64| if f >= 0.0 { a } else { b };
    let h = [
        up(m[0], fl.enth(tc, p), fl.enth(t.chx, p)),
        up(m[1], fl.enth(t.chx, p), fl.enth(t.cold, p)),
        up(m[2], fl.enth(t.hot, p), fl.enth(t.hhx, p)),
        up(m[3], fl.enth(t.hhx, p), fl.enth(te, p)),
    ];
    let mut res = [0.0; 10];
    let mut scale = [0.0; 10];
    let mut put = |k: usize, xs: &[f64]| {
        res[k] = xs.iter().sum();
        scale[k] = xs.iter().map(|x| x.abs()).sum();
    };
    put(0, &[m[0], -m[1], -vols.0 * fl.dd_dP_T(t.chx, p) * dp]);
    put(1, &[m[1], -m[2], -vols.1 * fl.dd_dP_T(t.avg, p) * dp]);
    put(2, &[m[2], -m[3], -vols.2 * fl.dd_dP_T(t.hhx, p) * dp]);
    let e = |t: f64| (fl.dens(t, p), fl.inte(t, p));
    let store = |vol: f64, t: f64| {
        let (d, u) = e(t);
        vol * (d * fl.du_dP_T(t, p) + u * fl.dd_dP_T(t, p)) * dp
    };
    put(3, &[m[0] * h[0], -m[1] * h[1], -qd[0], -store(vols.0, t.chx)]);
    put(4, &[m[1] * h[1], -m[2] * h[2], -qd[1], -store(vols.1, t.avg)]);
    put(5, &[m[2] * h[2], -m[3] * h[3], qd[2], -store(vols.2, t.hhx)]);
    let space = |vol: f64, dv: f64, tt: f64, dt: f64| {
        let (d, u) = e(tt);
        [
            vol * (d * fl.du_dT_P(tt, p) + u * fl.dd_dT_P(tt, p)) * dt,
            vol * (d * fl.du_dP_T(tt, p) + u * fl.dd_dP_T(tt, p)) * dp,
            (p + d * u) * dv,
        ]
    };
    let a = space(vc, dvc, tc, dtc);
    put(6, &[a[0], a[1], a[2], m[0] * h[0], q.0]);
    let b = space(ve, dve, te, dte);
    put(7, &[b[0], b[1], b[2], -m[3] * h[3], q.1]);
    let mut d = [dp, dtc, dte];
    if cap == 0.0 && fl.dd_dP_T(tc, p) == 0.0 && fl.dd_dP_T(te, p) == 0.0 {
        // a gas whose density does not depend on pressure: the mass balances without the pressure rate
        // that cannot be had from them, and no energy balances
        res = [0.0; 10];
        scale = [0.0; 10];
        let mut put = |k: usize, xs: &[f64]| {
            res[k] = xs.iter().sum();
            scale[k] = xs.iter().map(|x| x.abs()).sum();
        };
        for k in 0..3 {
            put(k, &[m[k], -m[k + 1]]);
        }
        if fl.dd_dT_P(tc, p) == 0.0 {
            put(8, &[-m[0], -fl.dens(tc, p) * dvc]);
        }
        if fl.dd_dT_P(te, p) == 0.0 {
            put(9, &[m[3], -fl.dens(te, p) * dve]);
        }
        d = [0.0; 3];
    }
    Instant5 {
        name: [
            "cold exchanger mass", "regenerator mass", "hot exchanger mass", "cold exchanger energy", "regenerator energy",
            "hot exchanger energy", "compression space energy", "expansion space energy", "compression space mass",
            "expansion space mass",
        ],
        res,
        scale,
        d,
    }
}

/// The balances at every point of a finished run
pub fn check_instants(c: &Case, e: &Engine<F>, s: &ws::State, tolr: f64) -> Out {
    let t = temps(e);
    let v = &e.values;
    let (r, par) = {
        use ws::WorkingSpaces;
        (c.ws.thermal_resistance(s), c.ws.parasitics(s))
    };
    let n = v.time.len();
    for i in 0..n {
        let (p, tc, te) = (v.P[i], v.T_c[i], v.T_e[i]);
        let m = [v.m_dot_ck[i], v.m_dot_kr[i], v.m_dot_rl[i], v.m_dot_le[i]];
        let qd = [v.Q_dot_k[i], v.Q_dot_r[i], v.Q_dot_l[i]];
        let mut all = vec![p, tc, te];
        all.extend(m);
        all.extend(qd);
        if all.iter().any(|x| !x.is_finite()) || tc <= 0.05 || te <= 0.05 || p / c.fluid.u.p <= 0.01 || tc > 50.0 || te > 50.0 || p / c.fluid.u.p > 200.0 {
            return Out::Skip;
        }
        let cond = |t: f64, k: f64, r: f64| if r.is_infinite() { 0.0 } else { (t - k) / r };
        let q = (par.comp.thermal + cond(tc, t.chx, r.comp), par.exp.thermal + cond(te, t.hhx, r.exp));
        let b = balances(&c.fluid, &t, (c.chx.vol, c.regen.vol, c.hhx.vol), c.ws.at(s, v.time[i]), q, p, tc, te, m, qd);
        let u = &c.fluid.u;
        if [b.d[0] * u.t / u.p, b.d[1] * u.t, b.d[2] * u.t].iter().any(|x| !x.is_finite() || x.abs() > 1e7) {
            return Out::Skip;
        }
        let mass = b.scale[..3].iter().sum::<f64>() + b.scale[8] + b.scale[9];
        let energy: f64 = b.scale[3..8].iter().sum();
        for k in 0..10 {
            if b.res[k].abs() > tolr * (b.scale[k] + 0.01 * if k < 3 || k > 7 { mass } else { energy }) {
                return Out::Fail(format!(
                    "{} balance violated at point {} of {}: residual {:e} of terms {:e}; solver {}, time {}, P {}, T_c {}, T_e {}, flows {:?}, heat {:?}, temperatures {:?}; case {:?}",
                    b.name[k], i, n, b.res[k], b.scale[k], c.solver, v.time[i], p, tc, te, m, qd, t, c
                ));
            }
        }
    }
    Out::Pass
}
