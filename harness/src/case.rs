//! Engine cases: plain data that can be generated, shrunk, saved and turned into an engine.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sett_rs::fluid::{Fluid, IdealGas};
use sett_rs::types::{
    ConvergenceTolerance, LoopTolerance, MaxIters, OdeTolerance, ParasiticPower, RunError,
    RunInputs, RunSettings,
};
use sett_rs::ws::{
    self, sinusoidal_drive::Geometry, CompVolume, ExpVolume, Parasitics, SinusoidalDrive,
    ThermalResistance, WorkingSpaces,
};
use sett_rs::{chx, hhx, regen, Components, Engine, LuSolver, QrSolver, SvdDefaultSolver};
use std::f64::consts::PI;

// ---------------------------------------------------------------- fluids

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum FluidSpec {
    Helium,
    Hydrogen,
    /// v = RT/P + b - a/T with an ideal gas cp = c0 + c1 T
    Virial {
        r: f64,
        c0: f64,
        c1: f64,
        a: f64,
        b: f64,
        href: f64,
    },
}

pub struct Virial {
    pub r: f64,
    pub c0: f64,
    pub c1: f64,
    pub a: f64,
    pub b: f64,
    pub href: f64,
}

impl Virial {
    fn h_ig(&self, t: f64) -> f64 {
        self.href + self.c0 * t + 0.5 * self.c1 * t * t
    }
}

impl Fluid for Virial {
    fn dens(&self, t: f64, p: f64) -> f64 {
        1. / (self.r * t / p + self.b - self.a / t)
    }
    fn inte(&self, t: f64, p: f64) -> f64 {
        self.h_ig(t) - self.r * t - p * self.a / t
    }
    fn enth(&self, t: f64, p: f64) -> f64 {
        self.h_ig(t) + p * (self.b - 2. * self.a / t)
    }
    fn cp(&self, t: f64, p: f64) -> f64 {
        self.c0 + self.c1 * t + 2. * self.a * p / (t * t)
    }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 {
        let d = self.dens(t, p);
        d * d * self.r * t / (p * p)
    }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 {
        let d = self.dens(t, p);
        -d * d * (self.r / p + self.a / (t * t))
    }
    fn du_dP_T(&self, t: f64, _p: f64) -> f64 {
        -self.a / t
    }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 {
        self.c0 + self.c1 * t - self.r + self.a * p / (t * t)
    }
}

pub enum AnyFluid {
    Ideal(IdealGas),
    Virial(Virial),
}

impl AnyFluid {
    fn get(&self) -> &dyn Fluid {
        match self {
            AnyFluid::Ideal(f) => f,
            AnyFluid::Virial(f) => f,
        }
    }
}

impl Fluid for AnyFluid {
    fn dens(&self, t: f64, p: f64) -> f64 {
        self.get().dens(t, p)
    }
    fn inte(&self, t: f64, p: f64) -> f64 {
        self.get().inte(t, p)
    }
    fn enth(&self, t: f64, p: f64) -> f64 {
        self.get().enth(t, p)
    }
    fn cp(&self, t: f64, p: f64) -> f64 {
        self.get().cp(t, p)
    }
    fn dd_dP_T(&self, t: f64, p: f64) -> f64 {
        self.get().dd_dP_T(t, p)
    }
    fn dd_dT_P(&self, t: f64, p: f64) -> f64 {
        self.get().dd_dT_P(t, p)
    }
    fn du_dP_T(&self, t: f64, p: f64) -> f64 {
        self.get().du_dP_T(t, p)
    }
    fn du_dT_P(&self, t: f64, p: f64) -> f64 {
        self.get().du_dT_P(t, p)
    }
}

impl FluidSpec {
    pub fn make(&self) -> AnyFluid {
        match *self {
            FluidSpec::Helium => AnyFluid::Ideal(IdealGas::helium()),
            FluidSpec::Hydrogen => AnyFluid::Ideal(IdealGas::hydrogen()),
            FluidSpec::Virial {
                r,
                c0,
                c1,
                a,
                b,
                href,
            } => AnyFluid::Virial(Virial {
                r,
                c0,
                c1,
                a,
                b,
                href,
            }),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            FluidSpec::Helium => "helium",
            FluidSpec::Hydrogen => "hydrogen",
            FluidSpec::Virial { .. } => "virial",
        }
    }
    /// Internal energy is the integral of the derivatives the fluid reports
    pub fn is_consistent(&self) -> bool {
        !matches!(self, FluidSpec::Hydrogen)
    }
    pub fn gas_constant(&self) -> f64 {
        match self {
            FluidSpec::Helium => 2077.23,
            FluidSpec::Hydrogen => 4124.2,
            FluidSpec::Virial { r, .. } => *r,
        }
    }
    fn cp_scale(&self) -> f64 {
        match self {
            FluidSpec::Helium => 5193.,
            FluidSpec::Hydrogen => 14500.,
            FluidSpec::Virial { c0, .. } => *c0,
        }
    }
}

// ---------------------------------------------------------------- drives

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum DriveSpec {
    Sin {
        f: f64,
        phase: f64,
        vsc: f64,
        vcc: f64,
        vse: f64,
        vce: f64,
    },
    Rhombic {
        f: f64,
        vcc: f64,
        vce: f64,
        r: f64,
        l: f64,
        e: f64,
        dp: f64,
        dd: f64,
    },
    Fourier {
        f: f64,
        vc: f64,
        ve: f64,
        /// (amplitude, phase) of each harmonic
        c: Vec<(f64, f64)>,
        e: Vec<(f64, f64)>,
        /// Shift of the clock in periods
        shift: f64,
    },
}

pub fn fourier(v: f64, h: &[(f64, f64)], omega: f64, t: f64) -> (f64, f64) {
    let mut value = 1.;
    let mut deriv = 0.;
    for (k, (amp, ph)) in h.iter().enumerate() {
        let n = (k + 1) as f64;
        value += amp * (n * omega * t + ph).cos();
        deriv -= amp * n * omega * (n * omega * t + ph).sin();
    }
    (v * value, v * deriv)
}

impl DriveSpec {
    pub fn frequency(&self) -> f64 {
        match self {
            DriveSpec::Sin { f, .. } | DriveSpec::Rhombic { f, .. } | DriveSpec::Fourier { f, .. } => {
                *f
            }
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            DriveSpec::Sin { .. } => "sinusoidal",
            DriveSpec::Rhombic { .. } => "rhombic",
            DriveSpec::Fourier { .. } => "fourier",
        }
    }
    /// Independent kinematics: (V_c, dV_c/dt, V_e, dV_e/dt)
    pub fn volumes(&self, t: f64) -> (f64, f64, f64, f64) {
        match self {
            DriveSpec::Sin {
                f,
                phase,
                vsc,
                vcc,
                vse,
                vce,
            } => {
                let w = 2. * PI * f;
                let a = w * t;
                let b = a + phase.to_radians();
                (
                    vcc + vsc * (0.5 * a).cos().powi(2),
                    -0.5 * vsc * w * a.sin(),
                    vce + vse * (0.5 * b).cos().powi(2),
                    -0.5 * vse * w * b.sin(),
                )
            }
            DriveSpec::Rhombic {
                f,
                vcc,
                vce,
                r,
                l,
                e,
                dp,
                dd,
            } => {
                let w = 2. * PI * f;
                let (s, c) = (w * t).sin_cos();
                // Half distance between the yokes: rod of length l whose far end is offset by e + r cos
                let x = e + r * c;
                let half = (l * l - x * x).sqrt();
                let dhalf = x * r * s * w / half;
                let closest = (l * l - (e - r) * (e - r)).sqrt();
                let top = ((l - r) * (l - r) - e * e).sqrt();
                let ap = PI * dp * dp / 4.;
                let ad = PI * dd * dd / 4.;
                (
                    vcc + ap * 2. * (closest - half),
                    -ap * 2. * dhalf,
                    vce + ad * (half - r * s - top),
                    ad * (dhalf - r * c * w),
                )
            }
            DriveSpec::Fourier {
                f,
                vc,
                ve,
                c,
                e,
                shift,
            } => {
                let w = 2. * PI * f;
                let t = t + shift / f;
                let (a, da) = fourier(*vc, c, w, t);
                let (b, db) = fourier(*ve, e, w, t);
                (a, da, b, db)
            }
        }
    }
    /// Largest total volume and the swept total over a cycle (sampled)
    pub fn scan(&self) -> (f64, f64, f64, f64) {
        let f = self.frequency();
        let (mut cmin, mut cmax, mut emin, mut emax) = (f64::MAX, 0f64, f64::MAX, 0f64);
        for i in 0..256 {
            let (vc, _, ve, _) = self.volumes(f64::from(i) / 256. / f);
            cmin = cmin.min(vc);
            cmax = cmax.max(vc);
            emin = emin.min(ve);
            emax = emax.max(ve);
        }
        (cmin, cmax, emin, emax)
    }
}

/// A drive that isn't one of the crate's own
pub struct FourierDrive {
    pub spec: DriveSpec,
    pub res: ThermalResistance,
    pub parasitics: Parasitics,
}

impl WorkingSpaces for FourierDrive {
    fn frequency(&self, _state: &ws::State) -> f64 {
        self.spec.frequency()
    }
    fn volumes(&self, _state: &ws::State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        let spec = self.spec.clone();
        Box::new(move |t| {
            let (vc, dvc, ve, dve) = spec.volumes(t);
            (
                CompVolume {
                    value: vc,
                    deriv: dvc,
                },
                ExpVolume {
                    value: ve,
                    deriv: dve,
                },
            )
        })
    }
    fn thermal_resistance(&self, _state: &ws::State) -> ThermalResistance {
        self.res
    }
    fn parasitics(&self, _state: &ws::State) -> Parasitics {
        self.parasitics
    }
}

// ---------------------------------------------------------------- exchangers

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum HxKind {
    Fixed(f64),
    Cond(f64),
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub struct HxSpec {
    pub kind: HxKind,
    pub vol: f64,
    pub r_hyd: f64,
    pub w: f64,
    pub q: f64,
}

impl HxSpec {
    pub fn chx(&self) -> Box<dyn chx::ColdHeatExchanger> {
        let p = ParasiticPower {
            mechanical: self.w,
            ..ParasiticPower::default()
        };
        match self.kind {
            HxKind::Fixed(dt) => Box::new(chx::FixedApproach::new(self.vol, self.r_hyd, dt, p)),
            HxKind::Cond(ua) => Box::new(chx::FixedConductance::new(self.vol, self.r_hyd, ua, p)),
        }
    }
    pub fn hhx(&self) -> Box<dyn hhx::HotHeatExchanger> {
        let p = ParasiticPower {
            mechanical: self.w,
            thermal: self.q,
            ..ParasiticPower::default()
        };
        match self.kind {
            HxKind::Fixed(dt) => Box::new(hhx::FixedApproach::new(self.vol, self.r_hyd, dt, p)),
            HxKind::Cond(ua) => Box::new(hhx::FixedConductance::new(self.vol, self.r_hyd, ua, p)),
        }
    }
    pub fn regen(&self) -> Box<dyn regen::Regenerator> {
        let p = ParasiticPower {
            thermal: self.q,
            ..ParasiticPower::default()
        };
        match self.kind {
            HxKind::Fixed(dt) => Box::new(regen::FixedApproach::new(self.vol, self.r_hyd, dt, p)),
            HxKind::Cond(ua) => {
                Box::new(regen::FixedConductance::new(self.vol, self.r_hyd, ua, p))
            }
        }
    }
    pub fn is_fixed(&self) -> bool {
        matches!(self.kind, HxKind::Fixed(_))
    }
    pub fn fixed(&self) -> f64 {
        match self.kind {
            HxKind::Fixed(dt) => dt,
            HxKind::Cond(_) => f64::NAN,
        }
    }
}

// ---------------------------------------------------------------- engine

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub struct Settings {
    pub resolution: u32,
    pub inner: (f64, f64),
    pub outer: (f64, f64),
    pub ode: (f64, f64),
    pub max_inner: usize,
    pub max_outer: usize,
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum Solver {
    Lu,
    Qr,
    Svd,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct EngineCase {
    pub fluid: FluidSpec,
    pub drive: DriveSpec,
    /// Thermal resistances, `None` for adiabatic
    pub r_c: Option<f64>,
    pub r_e: Option<f64>,
    pub w_c: f64,
    pub w_e: f64,
    pub q_e: f64,
    pub chx: HxSpec,
    pub regen: HxSpec,
    pub hhx: HxSpec,
    pub p0: f64,
    pub t_sink: f64,
    pub t_source: f64,
    pub set: Settings,
    pub solver: Solver,
}

pub type Eng = Engine<AnyFluid>;

impl EngineCase {
    pub fn resistance(&self) -> ThermalResistance {
        ThermalResistance {
            comp: self.r_c.unwrap_or(f64::INFINITY),
            exp: self.r_e.unwrap_or(f64::INFINITY),
        }
    }
    pub fn ws_parasitics(&self) -> Parasitics {
        Parasitics {
            comp: ParasiticPower {
                mechanical: self.w_c,
                ..ParasiticPower::default()
            },
            exp: ParasiticPower {
                mechanical: self.w_e,
                thermal: self.q_e,
                ..ParasiticPower::default()
            },
        }
    }
    pub fn ws(&self) -> Box<dyn WorkingSpaces> {
        match &self.drive {
            DriveSpec::Sin {
                f,
                phase,
                vsc,
                vcc,
                vse,
                vce,
            } => Box::new(SinusoidalDrive {
                frequency: *f,
                phase_angle: *phase,
                comp_geometry: Geometry {
                    clearance_volume: *vcc,
                    swept_volume: *vsc,
                },
                exp_geometry: Geometry {
                    clearance_volume: *vce,
                    swept_volume: *vse,
                },
                thermal_resistance: self.resistance(),
                parasitics: self.ws_parasitics(),
            }),
            DriveSpec::Rhombic { .. } => self.rhombic(),
            DriveSpec::Fourier { .. } => Box::new(FourierDrive {
                spec: self.drive.clone(),
                res: self.resistance(),
                parasitics: self.ws_parasitics(),
            }),
        }
    }
    fn rhombic(&self) -> Box<dyn WorkingSpaces> {
        let DriveSpec::Rhombic {
            f,
            vcc,
            vce,
            r,
            l,
            e,
            dp,
            dd,
        } = self.drive
        else {
            unreachable!("not a rhombic drive")
        };
        rhombic_drive(&[
            ("frequency", f),
            ("V_clearance_c", vcc),
            ("R_c", self.r_c.unwrap_or(f64::INFINITY)),
            ("W_parasitic_c", self.w_c),
            ("V_clearance_e", vce),
            ("R_e", self.r_e.unwrap_or(f64::INFINITY)),
            ("W_parasitic_e", self.w_e),
            ("Q_parasitic_e", self.q_e),
            ("r_crank", r),
            ("L_conn", l),
            ("eccentricity", e),
            ("D_p", dp),
            ("D_d", dd),
        ])
    }
    pub fn components(&self) -> Components {
        Components {
            ws: self.ws(),
            chx: self.chx.chx(),
            regen: self.regen.regen(),
            hhx: self.hhx.hhx(),
        }
    }
    pub fn inputs(&self) -> RunInputs {
        RunInputs {
            pres_zero: self.p0,
            temp_sink: self.t_sink,
            temp_source: self.t_source,
        }
    }
    pub fn settings(&self) -> RunSettings {
        self.set.make()
    }
    pub fn run(&self) -> Result<Eng, RunError> {
        self.run_with(self.components())
    }
    pub fn run_with(&self, components: Components) -> Result<Eng, RunError> {
        run_solver(
            self.solver,
            components,
            self.fluid.make(),
            self.inputs(),
            self.settings(),
        )
    }
    /// The cycle stays where the gas model is regular
    ///
    /// The difference of enthalpy and energy of helium is RT - 250 R, so that gas below 100 K gains temperature
    /// by expelling other gas and the state equations have several solutions (finding of C16).
    pub fn regular(&self, e: &Eng) -> bool {
        let low = e.values.T_c.iter().chain(&e.values.T_e).fold(f64::MAX, |a, b| a.min(*b));
        match self.fluid {
            FluidSpec::Helium => low > 130.,
            FluidSpec::Hydrogen => low > 100.,
            FluidSpec::Virial { .. } => true,
        }
    }
    /// A typical heat capacity rate, for scaling resistances and conductances
    pub fn cap(&self) -> f64 {
        let (_, c, _, e) = self.drive.scan();
        let t = self.t_sink.max(self.t_source);
        self.p0 * c.max(e) / (self.fluid.gas_constant() * t)
            * self.fluid.cp_scale()
            * self.drive.frequency()
    }
    pub fn all_fixed(&self) -> bool {
        self.chx.is_fixed() && self.regen.is_fixed() && self.hhx.is_fixed()
    }
    pub fn labels(&self, obs: &mut crate::rt::Obs) {
        obs.label(format!("fluid {}", self.fluid.name()));
        obs.label(format!("drive {}", self.drive.name()));
        obs.label(format!("solver {:?}", self.solver));
        obs.label(match (self.r_c, self.r_e) {
            (None, None) => "walls adiabatic",
            (Some(_), None) => "walls comp only",
            (None, Some(_)) => "walls exp only",
            (Some(_), Some(_)) => "walls both",
        });
        obs.label(if self.all_fixed() {
            "hx fixed"
        } else {
            "hx some conductance"
        });
        if self.t_source < self.t_sink {
            obs.label("source colder than sink");
        }
    }
}

impl Settings {
    pub fn make(&self) -> RunSettings {
        RunSettings {
            resolution: self.resolution,
            loop_tol: LoopTolerance {
                inner: ConvergenceTolerance {
                    abs: self.inner.0,
                    rel: self.inner.1,
                },
                outer: ConvergenceTolerance {
                    abs: self.outer.0,
                    rel: self.outer.1,
                },
            },
            ode_tol: OdeTolerance {
                abs: self.ode.0,
                rel: self.ode.1,
            },
            max_iters: MaxIters {
                inner: self.max_inner,
                outer: self.max_outer,
            },
        }
    }
    /// Accurate enough to be compared with an independent solution
    pub fn tight(resolution: u32) -> Settings {
        Settings {
            resolution,
            inner: (1e-4, 1e-6),
            outer: (1e-4, 1e-6),
            ode: (1e-8, 1e-8),
            max_inner: 80,
            max_outer: 40,
        }
    }
    /// Accurate enough for runs to be compared with each other
    pub fn precise(resolution: u32) -> Settings {
        Settings {
            resolution,
            inner: (1e-4, 3e-7),
            outer: (1e-4, 3e-7),
            ode: (1e-9, 1e-10),
            max_inner: 120,
            max_outer: 60,
        }
    }
}

/// Everything a run reports about its cycle, exactly
pub fn fingerprint<T: Fluid>(e: &Engine<T>) -> String {
    format!(
        "{:?} {:?} {:?} {:?} {:?} {:?}",
        e.values, e.state.pres, e.state.temp, e.state.mass_flow, e.state.heat_flow, e.state.regen_imbalance
    )
}

pub fn error_name(e: &RunError) -> &'static str {
    match e {
        RunError::InnerLoop => "InnerLoop",
        RunError::OuterLoop => "OuterLoop",
    }
}

/// Results of a run, exactly
pub fn outcome<T: Fluid>(r: Result<Engine<T>, RunError>) -> String {
    match r {
        Ok(e) => {
            let cycle = fingerprint(&e);
            format!("{cycle} {:?}", sett_rs::api::RunResults::from(e))
        }
        Err(e) => error_name(&e).to_string(),
    }
}

pub fn run_solver<T: Fluid>(
    solver: Solver,
    components: Components,
    fluid: T,
    inputs: RunInputs,
    settings: RunSettings,
) -> Result<Engine<T>, RunError> {
    let result = match solver {
        Solver::Lu => Engine::run::<LuSolver>(components, fluid, inputs, settings),
        Solver::Qr => Engine::run::<QrSolver>(components, fluid, inputs, settings),
        Solver::Svd => Engine::run::<SvdDefaultSolver>(components, fluid, inputs, settings),
    };
    if let Ok(e) = &result {
        let v = &e.values;
        let series = [
            &v.P, &v.T_c, &v.T_e, &v.m_dot_ck, &v.m_dot_kr, &v.m_dot_rl, &v.m_dot_le, &v.Q_dot_k, &v.Q_dot_r,
            &v.Q_dot_l,
        ];
        if let Some(s) = series.iter().find(|s| s.len() != v.time.len()) {
            // No oracle can judge such a cycle
            std::panic::panic_any(crate::rt::Stop(format!(
                "a reported series has {} points at {} points in time",
                s.len(),
                v.time.len()
            )));
        }
    }
    result
}

// ---------------------------------------------------------------- rhombic configuration

/// The configurations of drives are private types that can only be deserialised
pub fn ws_config(model: &'static str, map: std::collections::BTreeMap<&str, f64>) -> ws::Config {
    use serde::de::value::{Error, MapAccessDeserializer, MapDeserializer};
    let de = MapDeserializer::<_, Error>::new(std::iter::once((model, map)));
    match ws::Config::deserialize(MapAccessDeserializer::new(de)) {
        Ok(config) => config,
        Err(e) => panic!("{model} configuration: {e}"),
    }
}

pub fn rhombic_drive(values: &[(&'static str, f64)]) -> Box<dyn WorkingSpaces> {
    match ws_config("rhombic", values.iter().copied().collect()) {
        ws::Config::Rhombic(config) => Box::new(ws::RhombicDrive::from(config)),
        _ => panic!("not a rhombic configuration"),
    }
}

// ---------------------------------------------------------------- generators

/// Logarithmic range
pub fn lg(lo: f64, hi: f64) -> impl Strategy<Value = f64> + Clone {
    (lo.log10()..hi.log10()).prop_map(|x: f64| 10f64.powf(x))
}

/// Zero or a log range
pub fn zlg(zero_weight: u32, lo: f64, hi: f64) -> BoxedStrategy<f64> {
    prop_oneof![zero_weight => Just(0.), (10 - zero_weight) => lg(lo, hi)].boxed()
}

/// What to generate
#[derive(Debug, Clone, Copy)]
pub struct Opts {
    pub hydrogen: bool,
    pub virial: bool,
    pub fourier: bool,
    pub rhombic: bool,
    pub cond: bool,
    pub fixed: bool,
    pub walls: bool,
    /// Hydraulic resistances and parasitics
    pub losses: bool,
    pub reversed: bool,
    pub solvers: bool,
    pub res: Res,
    pub acc: Acc,
    /// Weight out of 32 of fixed approaches larger than the temperature differences they belong to
    pub wild: u32,
    /// Weight out of 32 of exchangers without any volume, of equal ones, and of extreme ones
    pub odd: u32,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Res {
    /// Few or many points
    Any,
    Small,
    Medium,
    Exactly(u32),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Acc {
    /// Tight tolerances and generous iteration limits
    Tight,
    /// Any reasonable tolerances
    Any,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            hydrogen: true,
            virial: true,
            fourier: true,
            rhombic: true,
            cond: true,
            fixed: true,
            walls: true,
            losses: true,
            reversed: true,
            solvers: true,
            res: Res::Small,
            acc: Acc::Tight,
            wild: 3,
            odd: 3,
        }
    }
}

/// Volumes relative to the size of the engine, time relative to its period
fn drive_shape(o: Opts) -> BoxedStrategy<DriveSpec> {
    let phase = prop_oneof![
        5 => 60f64..120.,
        1 => Just(90.),
        2 => 0f64..360.,
        1 => -360f64..720.,
        1 => prop_oneof![Just(0.), Just(180.), Just(270.), Just(45.), Just(360.)],
    ];
    let sin = (
        phase,
        prop_oneof![6 => Just(1.), 13 => lg(0.3, 3.), 1 => lg(0.02, 10.)],
        prop_oneof![9 => lg(0.02, 1.5), 1 => lg(0.002, 20.)],
        prop_oneof![9 => lg(0.02, 1.5), 1 => lg(0.002, 20.)],
    )
        .prop_map(|(phase, vse, vcc, vce)| DriveSpec::Sin {
            f: 1.,
            phase,
            vsc: 1.,
            vcc,
            vse,
            vce: vce * vse,
        })
        .boxed();
    // crank radius 1; e = eccentricity, cranks must not meet (e >= r) and l - r > e is required
    let rh = (
        prop_oneof![9 => lg(1.02, 4.), 1 => Just(1.)],
        lg(1.05, 6.),
        prop_oneof![1 => Just(1.), 9 => 0.6f64..1.5],
        lg(0.02, 1.),
        lg(0.02, 1.),
    )
        .prop_map(|(e, gap, dratio, kc, ke)| {
            let r = 1.0;
            let l = (e + r) * gap;
            let dp = 1.0;
            let dd = dratio;
            let mut d = DriveSpec::Rhombic {
                f: 1.,
                vcc: 0.,
                vce: 0.,
                r,
                l,
                e,
                dp,
                dd,
            };
            let (c0, c1, e0, e1) = d.scan();
            let (sc, se) = (c1 - c0, e1 - e0);
            // normalise lengths so that the swept compression volume is 1
            let k = (1. / sc).cbrt();
            if let DriveSpec::Rhombic {
                vcc,
                vce,
                r,
                l,
                e,
                dp,
                dd,
                ..
            } = &mut d
            {
                *vcc = kc * 1.2;
                *vce = ke * 1.2 * se / sc;
                *r *= k;
                *l *= k;
                *e *= k;
                *dp *= k;
                *dd *= k;
            }
            d
        })
        .boxed();
    let harm = |amp: std::ops::Range<f64>| {
        (
            amp,
            0f64..(2. * PI),
            prop_oneof![2 => Just(0.), 1 => 0f64..0.15],
            0f64..(2. * PI),
            prop_oneof![3 => Just(0.), 1 => 0f64..0.08],
            0f64..(2. * PI),
        )
            .prop_map(|(a1, p1, a2, p2, a3, p3)| vec![(a1, p1), (a2, p2), (a3, p3)])
    };
    let fo = (lg(0.6, 1.), lg(0.3, 2.), harm(0.1..0.7), harm(0.1..0.7))
        .prop_map(|(vc, ve, c, e)| DriveSpec::Fourier {
            f: 1.,
            vc,
            ve,
            c,
            e,
            shift: 0.,
        })
        .boxed();
    let mut list = vec![(5, sin)];
    if o.rhombic {
        list.push((2, rh));
    }
    if o.fourier {
        list.push((2, fo));
    }
    proptest::strategy::Union::new_weighted(list).boxed()
}

/// The same engine at another pressure, size and speed
pub fn scale_engine(e: &EngineCase, pres: f64, size: f64, speed: f64) -> EngineCase {
    let flow = pres * size * speed;
    let hyd = pres / (size * speed);
    let hx = |s: &HxSpec| HxSpec {
        kind: match s.kind {
            HxKind::Fixed(dt) => HxKind::Fixed(dt),
            HxKind::Cond(ua) => HxKind::Cond(ua * flow),
        },
        vol: s.vol * size,
        r_hyd: s.r_hyd * hyd,
        w: s.w * flow,
        q: s.q * flow,
    };
    EngineCase {
        drive: scale_drive(&e.drive, size, speed),
        r_c: e.r_c.map(|r| r / flow),
        r_e: e.r_e.map(|r| r / flow),
        w_c: e.w_c * flow,
        w_e: e.w_e * flow,
        q_e: e.q_e * flow,
        chx: hx(&e.chx),
        regen: hx(&e.regen),
        hhx: hx(&e.hhx),
        p0: e.p0 * pres,
        ..e.clone()
    }
}

pub fn scale_drive(d: &DriveSpec, vol: f64, freq: f64) -> DriveSpec {
    let mut d = d.clone();
    match &mut d {
        DriveSpec::Sin {
            f,
            vsc,
            vcc,
            vse,
            vce,
            ..
        } => {
            *f *= freq;
            for v in [vsc, vcc, vse, vce] {
                *v *= vol;
            }
        }
        DriveSpec::Rhombic {
            f,
            vcc,
            vce,
            r,
            l,
            e,
            dp,
            dd,
        } => {
            *f *= freq;
            *vcc *= vol;
            *vce *= vol;
            let k = vol.cbrt();
            for x in [r, l, e, dp, dd] {
                *x *= k;
            }
        }
        DriveSpec::Fourier { f, vc, ve, .. } => {
            *f *= freq;
            *vc *= vol;
            *ve *= vol;
        }
    }
    d
}

#[derive(Debug, Clone)]
struct FluidShape(u32, f64, f64, f64, f64, f64, f64);

fn fluid_shape(o: Opts) -> BoxedStrategy<FluidShape> {
    let kind = prop_oneof![
        5 => Just(0u32),
        (if o.hydrogen { 3 } else { 1 }) => Just(if o.hydrogen { 1 } else { 0 }),
        (if o.virial { 3 } else { 1 }) => Just(if o.virial { 2 } else { 0 }),
    ];
    (
        kind,
        lg(50., 5000.),
        1.1f64..5.,
        -0.2f64..0.5,
        prop_oneof![1 => Just(0.), 2 => 0f64..0.08],
        prop_oneof![1 => Just(0.), 2 => 0f64..0.12],
        -3f64..3.,
    )
        .prop_map(|(k, r, g, c1, a, b, h)| FluidShape(k, r, g, c1, a, b, h))
        .boxed()
}

impl FluidShape {
    fn make(&self, t_lo: f64, t_hi: f64, p0: f64) -> FluidSpec {
        let FluidShape(kind, r, g, c1, a, b, h) = *self;
        match kind {
            0 => FluidSpec::Helium,
            1 => FluidSpec::Hydrogen,
            _ => {
                // cp(t_lo) = (1+g) r; a and b as fractions of RT/P at the coldest state
                // and 3 times the initial pressure
                let v = r * t_lo / (3. * p0);
                let c0 = (1. + g) * r;
                let slope = c1 * c0 / t_hi.max(2. * t_lo);
                FluidSpec::Virial {
                    r,
                    c0,
                    c1: slope,
                    a: a * v * t_lo,
                    b: b * v,
                    href: h * c0 * t_lo,
                }
            }
        }
    }
}

/// `Fixed(x)`: approach as a fraction of a temperature difference; `Cond(x)`: NTU
fn hx_kind(o: Opts, lo: f64, hi: f64, ntu: (f64, f64)) -> BoxedStrategy<HxKind> {
    let fixed = prop_oneof![
        2 => Just(0.),
        8 => lo.max(0.)..hi,
        1 => lo..hi,
    ]
    .prop_map(HxKind::Fixed)
    .boxed();
    let cond = lg(ntu.0, ntu.1).prop_map(HxKind::Cond).boxed();
    match (o.fixed, o.cond) {
        (true, true) => prop_oneof![2 => fixed, 3 => cond].boxed(),
        (true, false) => fixed,
        _ => cond,
    }
}

fn settings(o: Opts) -> BoxedStrategy<Settings> {
    let res = match o.res {
        Res::Any => prop_oneof![
            1 => 2u32..6,
            4 => 6u32..60,
            3 => 60u32..400,
            1 => 400u32..1500,
        ]
        .boxed(),
        Res::Small => prop_oneof![1 => 2u32..12, 6 => 12u32..60].boxed(),
        Res::Medium => (60u32..240).boxed(),
        Res::Exactly(n) => Just(n).boxed(),
    };
    match o.acc {
        Acc::Tight => res.prop_map(Settings::tight).boxed(),
        // Each loop can only settle to what the one inside of it resolves
        Acc::Any => (
            res,
            (lg(1e-7, 3e-2), lg(20., 5000.)),
            (lg(0.5, 100.), lg(20., 5000.)),
            (lg(1e-4, 0.3), lg(0.1, 100.)),
            prop_oneof![1 => 1usize..30, 4 => Just(120usize)],
            prop_oneof![1 => 1usize..10, 4 => Just(50usize)],
        )
            .prop_map(
                |(resolution, (ir, ia), (or, oa), (dr, da), max_inner, max_outer)| {
                    let outer = (ir * or).min(0.03);
                    let ode = (ir * dr).clamp(1e-10, 1e-4);
                    Settings {
                        resolution,
                        inner: (ir * ia, ir),
                        outer: (outer * oa, outer),
                        ode: ((ode * da).min(1e-3), ode),
                        max_inner,
                        max_outer,
                    }
                },
            )
            .boxed(),
    }
}

/// Generate an engine case
pub fn engine(o: Opts) -> BoxedStrategy<EngineCase> {
    let temps = {
        let ratio = if o.reversed {
            prop_oneof![
                16 => 1.2f64..4.,
                2 => 0.4f64..0.9,
                1 => 1.0001f64..1.05,
                1 => Just(1.),
            ]
            .boxed()
        } else {
            (1.2f64..4.).boxed()
        };
        (prop_oneof![2 => Just(300.), 8 => 120f64..600.], ratio)
    };
    let wall = || -> BoxedStrategy<Option<f64>> {
        if o.walls {
            prop_oneof![5 => Just(None), 4 => lg(0.02, 20.).prop_map(Some), 1 => lg(1e-4, 200.).prop_map(Some)].boxed()
        } else {
            Just(None).boxed()
        }
    };
    let loss = |hi: f64| -> BoxedStrategy<f64> {
        if o.losses {
            zlg(4, 1e-4, hi)
        } else {
            Just(0.).boxed()
        }
    };
    let usual = (lg(0.05, 2.), lg(0.05, 2.), lg(0.05, 2.));
    let odd_vol = || prop_oneof![2 => Just(0.), 2 => lg(0.05, 2.), 1 => lg(1e-5, 0.05), 1 => lg(2., 20.)];
    let odd = prop_oneof![
        // The oracles take the rate of pressure change from what flows into the exchangers
        3 => (odd_vol(), odd_vol(), odd_vol())
            .prop_map(|(a, b, c)| if a + b + c < 0.05 { (a, 0.5, c) } else { (a, b, c) }),
        1 => lg(0.05, 2.).prop_map(|v| (v, v, v)),
        1 => Just((1., 1., 1.)),
    ];
    let vols = prop_oneof![32 - o.odd => usual, o.odd => odd];
    let losses = (
        (loss(0.3), loss(0.3), loss(0.3)),
        (loss(0.3), loss(0.3), loss(0.3)),
        (loss(0.3), loss(0.3)),
    );
    let rhyd = (loss(0.1), loss(0.1), loss(0.1));
    let kinds = |o: Opts| {
        (
            hx_kind(o, -0.1, 0.2, (0.2, 8.)),
            hx_kind(o, -0.08, 0.15, (3., 300.)),
            hx_kind(o, -0.1, 0.2, (0.2, 8.)),
        )
            .boxed()
    };
    // Engines with fixed conductances take ten times longer
    let kinds = if o.fixed && o.cond {
        prop_oneof![3 => kinds(Opts { cond: false, ..o }), 2 => kinds(o)].boxed()
    } else {
        kinds(o)
    };
    let solver = if o.solvers {
        prop_oneof![3 => Just(Solver::Lu), 2 => Just(Solver::Qr)].boxed()
    } else {
        Just(Solver::Lu).boxed()
    };
    let size = (
        prop_oneof![3 => lg(3e-5, 1e-3), 2 => lg(1e-8, 1e-1)],
        prop_oneof![3 => lg(5e5, 2e7), 2 => lg(1e4, 6e7)],
        prop_oneof![3 => lg(10., 100.), 2 => lg(0.05, 800.)],
    );
    let wild = prop_oneof![
        32 - o.wild => Just(None),
        o.wild => [0f64..1., 0f64..1., -1f64..1.].prop_map(Some),
    ];
    (
        fluid_shape(o),
        drive_shape(o),
        (temps, wild),
        (wall(), wall()),
        vols,
        kinds,
        (losses, rhyd),
        size,
        settings(o),
        solver,
    )
        .prop_map(
            |(
                fluid,
                shape,
                ((t_sink, ratio), wild),
                walls,
                vols,
                kinds,
                ((wq, hq, ww), rhyd),
                (vol, p0, f),
                set,
                solver,
            )| {
                let mut t_sink = t_sink;
                let mut t_source = t_sink * ratio;
                if fluid.0 == 1 {
                    // The hydrogen model is a polynomial fit for 250 K to 1500 K
                    t_sink = 300. + (t_sink - 120.) / 480. * 300.;
                    t_source = (t_sink * ratio).clamp(300., 1100.);
                }
                if fluid.0 == 0 {
                    // h - u of the helium model is RT - 250 R (finding of C16), so that the equations are
                    // singular at 100 K
                    t_sink = 250. + (t_sink - 120.) / 480. * 350.;
                    t_source = (t_sink * ratio).max(200.);
                }
                let (t_lo, t_hi) = (t_sink.min(t_source), t_sink.max(t_source));
                let diff = t_source - t_sink;
                let fluid = fluid.make(t_lo, t_hi, p0);
                // Typical capacity rate and power of the engine
                let cap = p0 * vol / (fluid.gas_constant() * t_hi) * fluid.cp_scale() * f;
                let power = p0 * vol * f;
                let wall = |w: Option<f64>| w.map(|g| 1. / (g * cap));
                let kind = |k: HxKind, ntu: f64| match k {
                    HxKind::Fixed(x) => HxKind::Fixed(x * diff),
                    HxKind::Cond(x) => HxKind::Cond(x * ntu * cap),
                };
                // Any exchanger temperatures in the vicinity of those of sink and source
                let mut kinds = kinds;
                if let (Some(w), true) = (wild, diff != 0.) {
                    let (lo, hi) = match fluid {
                        FluidSpec::Helium => ((0.8 * t_lo).max(190.), (1.2 * t_hi).max(250.)),
                        FluidSpec::Hydrogen => ((0.9 * t_lo).max(270.), (1.1 * t_hi).min(1300.)),
                        FluidSpec::Virial { .. } => (0.8 * t_lo, 1.2 * t_hi),
                    };
                    let k = match kinds.0 {
                        HxKind::Fixed(_) => lo + w[0] * (hi - lo),
                        HxKind::Cond(_) => t_sink,
                    };
                    let l = match kinds.2 {
                        HxKind::Fixed(_) => lo + w[1] * (hi - lo),
                        HxKind::Cond(_) => t_source,
                    };
                    let a = if w[2] > 0. {
                        w[2] * (hi - k).min(l - lo).max(0.)
                    } else {
                        w[2] * (k - lo).min(hi - l).max(0.)
                    };
                    for (kind, x) in [(&mut kinds.0, k - t_sink), (&mut kinds.1, a), (&mut kinds.2, t_source - l)] {
                        if let HxKind::Fixed(y) = kind {
                            *y = x / diff;
                        }
                    }
                }
                let rh = |x: f64| x * p0 / (vol * f * 6.);
                let hx = |k: HxKind, v: f64, r: f64, w: f64, q: f64| HxSpec {
                    kind: k,
                    vol: v * vol,
                    r_hyd: rh(r),
                    w: w * power,
                    q: q * power,
                };
                EngineCase {
                    drive: scale_drive(&shape, vol, f),
                    r_c: wall(walls.0),
                    r_e: wall(walls.1),
                    w_c: wq.0 * power,
                    w_e: wq.1 * power,
                    q_e: wq.2 * power,
                    chx: hx(kind(kinds.0, 1.), vols.0, rhyd.0, hq.0, 0.),
                    regen: hx(kind(kinds.1, 1.), vols.1, rhyd.1, 0., hq.1),
                    hhx: hx(kind(kinds.2, 1.), vols.2, rhyd.2, ww.0, ww.1),
                    fluid,
                    p0,
                    t_sink,
                    t_source,
                    set,
                    solver,
                }
            },
        )
        .boxed()
}
