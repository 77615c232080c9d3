//! Components written for the checks: scripted, recording and counting ones

use std::cell::{Cell, RefCell};
use std::panic::panic_any;
use std::rc::Rc;

use sett_rs::types::{HeatExchanger, ParasiticPower};
use sett_rs::ws::{self, CompVolume, ExpVolume, Parasitics, ThermalResistance, WorkingSpaces};
use sett_rs::{chx, hhx, regen};

use crate::rt::Stop;

/// What an exchanger is shown
#[derive(Debug, Clone, Copy)]
pub struct Seen {
    pub hxr: HeatExchanger,
    /// Sink, source or cold exchanger
    pub a: f64,
    /// Hot exchanger
    pub b: f64,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum What {
    Approach,
    Hydraulic,
    Parasitics,
}

pub type Log = Rc<RefCell<Vec<(What, Seen)>>>;

/// An exchanger whose approach is a function of what it is shown
#[derive(Clone)]
pub struct Hx {
    pub vol: f64,
    pub r_hyd: f64,
    pub initial: f64,
    pub approach: Rc<dyn Fn(&Seen) -> f64>,
    pub par: ParasiticPower,
    pub log: Log,
    /// Calls allowed before the run is stopped
    pub budget: Rc<Cell<usize>>,
}

impl Hx {
    pub fn new(vol: f64, r_hyd: f64, initial: f64, approach: impl Fn(&Seen) -> f64 + 'static) -> Hx {
        Hx {
            vol,
            r_hyd,
            initial,
            approach: Rc::new(approach),
            par: ParasiticPower::default(),
            log: Log::default(),
            budget: Rc::new(Cell::new(1_000_000)),
        }
    }
    fn see(&self, what: What, seen: Seen) -> Seen {
        if self.budget.get() == 0 {
            panic_any(Stop("a component is evaluated endlessly".into()));
        }
        self.budget.set(self.budget.get() - 1);
        self.log.borrow_mut().push((what, seen));
        seen
    }
}

macro_rules! exchanger {
    ($trait:path, $state:path, $see:expr) => {
        impl $trait for Hx {
            fn volume(&self) -> f64 {
                self.vol
            }
            fn approach(&self, state: &$state) -> f64 {
                let seen: Seen = $see(state);
                (self.approach)(&self.see(What::Approach, seen))
            }
            fn hydraulic_resistance(&self, state: &$state) -> f64 {
                self.see(What::Hydraulic, $see(state));
                self.r_hyd
            }
            fn parasitics(&self, state: &$state) -> ParasiticPower {
                self.see(What::Parasitics, $see(state));
                self.par
            }
            fn initial_approach(&self) -> f64 {
                self.initial
            }
        }
    };
}

exchanger!(chx::ColdHeatExchanger, chx::State, |s: &chx::State| Seen {
    hxr: s.hxr,
    a: s.sink_temp,
    b: f64::NAN
});
exchanger!(regen::Regenerator, regen::State, |s: &regen::State| Seen {
    hxr: s.hxr,
    a: s.temp_chx,
    b: s.temp_hhx
});
exchanger!(hhx::HotHeatExchanger, hhx::State, |s: &hhx::State| Seen {
    hxr: s.hxr,
    a: s.source_temp,
    b: f64::NAN
});

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum WsWhat {
    Frequency,
    Volumes,
    Resistance,
    Parasitics,
}

/// Average, maximum, minimum and initial pressure
pub type Pres = [f64; 4];

/// Wraps a drive, counts the cycles that are started and records the pressures it is shown
pub struct Probe {
    pub inner: Box<dyn WorkingSpaces>,
    pub cycles: Rc<Cell<usize>>,
    pub max_cycles: usize,
    pub calls: Rc<Cell<u64>>,
    pub max_calls: u64,
    pub log: Rc<RefCell<Vec<(WsWhat, Pres)>>>,
}

impl Probe {
    pub fn new(inner: Box<dyn WorkingSpaces>) -> Probe {
        Probe {
            inner,
            cycles: Rc::default(),
            max_cycles: usize::MAX,
            calls: Rc::default(),
            max_calls: u64::MAX,
            log: Rc::default(),
        }
    }
    fn see(&self, what: WsWhat, s: &ws::State) {
        self.log
            .borrow_mut()
            .push((what, [s.pres.avg, s.pres.max, s.pres.min, s.pres.t_zero]));
    }
}

impl WorkingSpaces for Probe {
    fn frequency(&self, state: &ws::State) -> f64 {
        self.see(WsWhat::Frequency, state);
        self.inner.frequency(state)
    }
    fn volumes(&self, state: &ws::State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        self.see(WsWhat::Volumes, state);
        let f = self.inner.volumes(state);
        let period = 1. / self.inner.frequency(state);
        let last = Cell::new(f64::MAX);
        let since = Cell::new(3u32);
        let (cycles, calls) = (self.cycles.clone(), self.calls.clone());
        let (max_cycles, max_calls) = (self.max_cycles, self.max_calls);
        Box::new(move |t| {
            // A new cycle starts at zero after another one was calculated up to its end
            // (a step that is rejected doesn't calculate its start again, but guessing the first step does
            // after a single evaluation at any other time)
            if t == 0. && last.get() >= 0.999 * period && since.get() >= 3 {
                cycles.set(cycles.get() + 1);
                if cycles.get() > max_cycles {
                    panic_any(Stop(format!("more than {max_cycles} cycles are calculated")));
                }
            }
            since.set(if t == 0. { 0 } else { since.get() + 1 });
            last.set(if t == 0. { 0. } else { last.get().max(t) });
            calls.set(calls.get() + 1);
            if calls.get() > max_calls {
                panic_any(Stop(format!("the volumes are evaluated more than {max_calls} times")));
            }
            f(t)
        })
    }
    fn thermal_resistance(&self, state: &ws::State) -> ThermalResistance {
        self.see(WsWhat::Resistance, state);
        self.inner.thermal_resistance(state)
    }
    fn parasitics(&self, state: &ws::State) -> Parasitics {
        self.see(WsWhat::Parasitics, state);
        self.inner.parasitics(state)
    }
}

/// Call `f` with a drive state of the given pressures, which can only be got from an engine
pub fn with_ws_state<R>(pres: Pres, f: impl FnOnce(&ws::State) -> R) -> R {
    use sett_rs::fluid::IdealGas;
    use sett_rs::types::*;
    use sett_rs::{Components, Engine, LuSolver};
    use std::cell::OnceCell;
    thread_local! {
        static ENGINE: OnceCell<RefCell<Engine<IdealGas>>> = const { OnceCell::new() };
    }
    ENGINE.with(|cell| {
        let engine = cell.get_or_init(|| {
            let spec = crate::case::DriveSpec::Sin { f: 50., phase: 90., vsc: 1e-4, vcc: 1e-5, vse: 1e-4, vce: 1e-5 };
            let drive = crate::case::FourierDrive {
                spec,
                res: ThermalResistance::default(),
                parasitics: Parasitics::default(),
            };
            let tol = ConvergenceTolerance { abs: 1e9, rel: 1e9 };
            let e = Engine::run::<LuSolver>(
                Components {
                    ws: Box::new(drive),
                    chx: Box::new(Hx::new(1e-4, 0., 0., |_| 0.)),
                    regen: Box::new(Hx::new(1e-4, 0., 0., |_| 0.)),
                    hhx: Box::new(Hx::new(1e-4, 0., 0., |_| 0.)),
                },
                IdealGas::hydrogen(),
                RunInputs { pres_zero: 1e6, temp_sink: 300., temp_source: 600. },
                RunSettings {
                    resolution: 2,
                    loop_tol: LoopTolerance { inner: tol, outer: tol },
                    ode_tol: OdeTolerance { abs: 1e-4, rel: 1e-4 },
                    max_iters: MaxIters { inner: 2, outer: 2 },
                },
            );
            RefCell::new(e.unwrap_or_else(|_| panic!("the simplest engine runs")))
        });
        let mut e = engine.borrow_mut();
        e.state.pres.avg = pres[0];
        e.state.pres.max = pres[1];
        e.state.pres.min = pres[2];
        e.state.pres.t_zero = pres[3];
        f(&e.state.ws())
    })
}
