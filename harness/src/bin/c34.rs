//! C34: drives may depend on the engine's pressure
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sett_rs::ws::{self, CompVolume, ExpVolume, Parasitics, ThermalResistance, WorkingSpaces};
use sett_rs::Components;
use settlab::case::*;
use settlab::pairs::*;
use settlab::parts::*;
use settlab::phys::trapz;
use settlab::rt::*;
use settlab::{must, near};

/// Dependence of frequency, volumes and thermal resistances on the average, maximum, minimum and initial pressure
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    engine: EngineCase,
    freq: [f64; 4],
    vol: [f64; 4],
    res: [f64; 4],
}

impl Case {
    fn factor(&self, law: &[f64; 4], p: &Pres) -> f64 {
        let x: f64 = law.iter().zip(p).map(|(a, p)| a * (p / self.engine.p0 - 1.)).sum();
        (x / (1. + x.abs())).exp()
    }
    /// The same engine with the drive that it has at the given pressures
    fn at(&self, p: &Pres) -> EngineCase {
        let mut e = self.engine.clone();
        e.drive = scale_drive(&e.drive, self.factor(&self.vol, p), self.factor(&self.freq, p));
        let r = self.factor(&self.res, p);
        e.r_c = e.r_c.map(|x| x * r);
        e.r_e = e.r_e.map(|x| x * r);
        e
    }
}

fn constant(e: &EngineCase) -> FourierDrive {
    FourierDrive { spec: e.drive.clone(), res: e.resistance(), parasitics: e.ws_parasitics() }
}

struct Sensitive(Case);

impl Sensitive {
    fn at(&self, s: &ws::State) -> FourierDrive {
        constant(&self.0.at(&[s.pres.avg, s.pres.max, s.pres.min, s.pres.t_zero]))
    }
}

impl WorkingSpaces for Sensitive {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.at(s).frequency(s)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        self.at(s).volumes(s)
    }
    fn thermal_resistance(&self, s: &ws::State) -> ThermalResistance {
        self.at(s).thermal_resistance(s)
    }
    fn parasitics(&self, s: &ws::State) -> Parasitics {
        self.at(s).parasitics(s)
    }
}

fn drive(c: &Case, obs: &mut Obs) -> Verdict {
    let e = &c.engine;
    let probe = Probe::new(Box::new(Sensitive(c.clone())));
    let log = probe.log.clone();
    // The built-in exchangers, and a record of what the cold one is shown
    let inner = e.chx.clone();
    let chx = Hx::new(e.chx.vol, e.chx.r_hyd, if inner.is_fixed() { inner.fixed() } else { 10. }, move |s: &Seen| {
        settlab::phys::approach_hx(inner.kind, s.hxr.Q_dot, s.hxr.m_dot * s.hxr.cp)
    });
    let shown = chx.log.clone();
    let parts = Components { ws: Box::new(probe), chx: Box::new(chx), regen: e.regen.regen(), hhx: e.hhx.hhx() };
    let run = match e.run_with(parts) {
        Ok(run) => run,
        Err(err) => {
            obs.label(format!("failed {}", error_name(&err)));
            return Ok(());
        }
    };
    // Pressures that the drive was shown, one after the other
    let mut states: Vec<(Pres, Vec<WsWhat>)> = vec![];
    for (what, p) in log.borrow().iter() {
        match states.last_mut() {
            Some((last, whats)) if last == p => whats.push(*what),
            _ => states.push((*p, vec![*what])),
        }
    }
    let averages: Vec<f64> =
        shown.borrow().iter().filter(|l| l.0 == What::Approach).map(|l| l.1.hxr.pres).collect();
    must!(!states.is_empty() && !averages.is_empty(), "neither drive nor exchanger are evaluated");
    must!(states[0].0 == [e.p0; 4], "the drive is first shown the pressures {:?} instead of {:e}", states[0].0, e.p0);
    must!(
        states.len() <= averages.len(),
        "the drive is shown {} different pressures in {} cycles",
        states.len(),
        averages.len()
    );
    let mut cycle = 0;
    for (i, (p, whats)) in states.iter().enumerate() {
        for what in [WsWhat::Frequency, WsWhat::Volumes, WsWhat::Resistance] {
            must!(whats.contains(&what), "in iteration {i} the drive's {what:?} isn't evaluated at {p:?}");
        }
        if i > 0 {
            let Some(j) = (cycle..averages.len()).find(|j| (p[0] - averages[*j]).abs() <= 1e-12 * p[0]) else {
                return Err(format!(
                    "the average pressure {:e} shown to the drive in iteration {i} isn't that of a cycle before it: {averages:?}",
                    p[0]
                ));
            };
            cycle = j;
            near!(obs, "initial pressure", p[3], e.p0, 1e-12 * e.p0, "shown to the drive in iteration {i}");
            must!(p[1] >= p[0] && p[2] <= p[0], "pressures {p:?} shown to the drive in iteration {i} aren't in order");
        }
    }
    let last = states.last().unwrap().0;
    obs.label(match states.len() {
        1 => "1 state",
        2..=4 => "2-4 states",
        _ => "5 or more states",
    });
    // The same cycle as that of a drive which is like this at any pressure
    let star = c.at(&last);
    let (t, v) = (run.state.temp, &run.values);
    let n = v.time.len();
    near!(obs, "duration", v.time[n - 1] * star.drive.frequency(), 1., 1e-12, "periods of the drive");
    let mut plain = star.clone();
    plain.chx.kind = HxKind::Fixed(t.chx - t.sink);
    plain.regen.kind = HxKind::Fixed(t.regen.cold - t.chx);
    plain.hhx.kind = HxKind::Fixed(t.source - t.hhx);
    let other = plain.run_with(Components {
        ws: Box::new(constant(&plain)),
        chx: plain.chx.chx(),
        regen: plain.regen.regen(),
        hhx: plain.hhx.hhx(),
    });
    if !e.regular(&run) {
        obs.label("not regular");
        return Ok(());
    }
    let other = match other {
        Ok(o) => o,
        Err(err) => return Err(format!("the engine fails with {} when its drive is always like at {last:?}", error_name(&err))),
    };
    // What the results follow from: the drive at the final pressures
    let end = run.state.pres;
    let end = c.at(&[end.avg, end.max, end.min, end.t_zero]);
    let y: Vec<f64> = (0..n)
        .map(|i| {
            let (_, dc, _, de) = end.drive.volumes(v.time[i]);
            v.P[i] * (dc + de)
        })
        .collect();
    let ideal = end.drive.frequency() * trapz(&v.time, &y);
    let size = y.iter().fold(0f64, |m, x| m.max(x.abs()));
    obs.nontrivial();
    e.labels(obs);
    let (a, b) = (Flat::of(&star, run), Flat::of(&star, other));
    b.agrees(&a, None, 3e-5, 3e-5, false, obs)?;
    for (name, _, y) in &a.numbers {
        let of_state = ["P avg", "P max", "P min", "P zero", "T chx", "T regen cold", "T regen avg", "T regen hot", "T hhx", "m chx", "m regen", "m hhx", "Q chx", "Q regen", "Q hhx"];
        if of_state.contains(name) {
            let x = b.number(name);
            let scale = b.scale[match name.as_bytes()[0] {
                b'P' => 0,
                b'T' => 1,
                b'm' => 2,
                _ => 3,
            }];
            near!(obs, "average", *y, x, 3e-5 * scale, "{name}");
        }
    }
    let (got, want) = (a.number("W ideal"), b.number("W ideal"));
    let lim = 1e-4 * b.scale[4].max(size);
    if (got - want).abs() > lim {
        // Only because the pressures of the drive haven't settled
        must!(
            (got - ideal).abs() <= 1e-9 * size,
            "the ideal power is {got:e} instead of {want:e}, and isn't that of the drive at the final pressures, {ideal:e}"
        );
        obs.finding(
            "unsettled-drive",
            format!("the ideal power is {got:e} instead of {want:e}, as the drive isn't at the pressures of the cycle, {last:?}"),
        );
        obs.label("unsettled drive");
    } else {
        obs.label("settled drive");
    }
    Ok(())
}

fn gen(cond: bool) -> BoxedStrategy<Case> {
    let one = || prop_oneof![2 => Just(0.), 3 => -1.5f64..1.5];
    let law = || {
        prop_oneof![
            1 => Just([0.; 4]),
            2 => one().prop_map(|a| [a, 0., 0., 0.]),
            3 => prop::array::uniform4(one()),
        ]
    };
    (engine(Opts { fixed: !cond, wild: 0, ..Opts::default() }), law(), law(), law())
        .prop_map(|(mut engine, freq, vol, res)| {
            engine.set = Settings::precise(engine.set.resolution);
            Case { engine, freq, vol, res }
        })
        .boxed()
}

fn main() {
    Check::new(
        "C34",
        "Random engines with a drive whose frequency, volumes and thermal resistances depend on all the pressures it is shown, compared with drives that are always like the final one. Non-trivial: the run converges and the gas has physical properties throughout (helium above 130 K and hydrogen above 100 K only).",
    )
    .leg("iterated", 200, 8000, || gen(true), drive)
    .leg("any", 200, 8000, || gen(false), drive)
    .run()
}
