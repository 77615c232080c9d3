//! Comparison of two runs that are related to each other

use sett_rs::api::RunResults;
use sett_rs::ws::{self, CompVolume, ExpVolume, Parasitics, ThermalResistance, WorkingSpaces};

use crate::case::{Eng, EngineCase};
use crate::rt::{Obs, Verdict};

/// The same drive, started later
pub struct Shifted {
    pub inner: Box<dyn WorkingSpaces>,
    pub by: f64,
}

impl WorkingSpaces for Shifted {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.inner.frequency(s)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        let f = self.inner.volumes(s);
        let by = self.by;
        Box::new(move |t| f(t + by))
    }
    fn thermal_resistance(&self, s: &ws::State) -> ThermalResistance {
        self.inner.thermal_resistance(s)
    }
    fn parasitics(&self, s: &ws::State) -> Parasitics {
        self.inner.parasitics(s)
    }
}

/// The same drive with its two spaces exchanged
pub struct Mirrored {
    pub inner: Box<dyn WorkingSpaces>,
}

impl WorkingSpaces for Mirrored {
    fn frequency(&self, s: &ws::State) -> f64 {
        self.inner.frequency(s)
    }
    fn volumes(&self, s: &ws::State) -> Box<dyn Fn(f64) -> (CompVolume, ExpVolume)> {
        let f = self.inner.volumes(s);
        Box::new(move |t| {
            let (c, e) = f(t);
            (
                CompVolume { value: e.value, deriv: e.deriv },
                ExpVolume { value: c.value, deriv: c.deriv },
            )
        })
    }
    fn thermal_resistance(&self, s: &ws::State) -> ThermalResistance {
        let r = self.inner.thermal_resistance(s);
        ThermalResistance { comp: r.exp, exp: r.comp }
    }
    fn parasitics(&self, s: &ws::State) -> Parasitics {
        let p = self.inner.parasitics(s);
        Parasitics { comp: p.exp, exp: p.comp }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Class {
    Pressure,
    Temp,
    Flow,
    Heat,
    Power,
    Torque,
    /// Compared with the accuracy of the quotient
    Efficiency,
}

/// The results of a run as lists
#[derive(Clone)]
pub struct Flat {
    pub time: Vec<f64>,
    pub series: Vec<(&'static str, Class, Vec<f64>)>,
    pub numbers: Vec<(&'static str, Class, f64)>,
    /// Typical size of pressures, temperatures, flows, heat flows, powers, torques
    pub scale: [f64; 6],
    pub regular: bool,
}

impl Flat {
    pub fn of(case: &EngineCase, e: Eng) -> Flat {
        use Class::*;
        let regular = case.regular(&e);
        let ws = e.state.ws();
        let freq = e.components.ws.frequency(&ws);
        let vols = e.components.ws.volumes(&ws);
        let (mut speed, mut big) = (0f64, 0f64);
        for i in 0..64 {
            let (c, x) = vols(f64::from(i) / 64. / freq);
            speed = speed.max(c.deriv.abs()).max(x.deriv.abs());
            big = big.max(c.value).max(x.value);
        }
        let fluid = case.fluid.make();
        let (p, t) = (e.state.pres.avg, e.state.temp.sink.min(e.state.temp.source));
        use sett_rs::fluid::Fluid;
        let flow = fluid.dens(t, p) * speed;
        let cp = fluid.cp(t, p);
        let r = RunResults::from(e);
        let v = r.values;
        let max = |a: &[f64], b: &[f64]| a.iter().chain(b).fold(0f64, |m, x| m.max(x.abs()));
        let t_max = max(&v.T_c, &v.T_e);
        let heat = cp * t_max * flow;
        let power = max(&v.P, &[]) * speed;
        let scale = [max(&v.P, &[]), t_max, flow, heat, power, power / freq];
        let (tt, m, q) = (r.temperature, r.mass_flow, r.heat_flow);
        Flat {
            regular,
            time: v.time,
            series: vec![
                ("P", Pressure, v.P),
                ("P_c", Pressure, v.P_c),
                ("P_e", Pressure, v.P_e),
                ("T_c", Temp, v.T_c),
                ("T_e", Temp, v.T_e),
                ("m_dot_ck", Flow, v.m_dot_ck),
                ("m_dot_kr", Flow, v.m_dot_kr),
                ("m_dot_rl", Flow, v.m_dot_rl),
                ("m_dot_le", Flow, v.m_dot_le),
                ("Q_dot_k", Heat, v.Q_dot_k),
                ("Q_dot_r", Heat, v.Q_dot_r),
                ("Q_dot_l", Heat, v.Q_dot_l),
            ],
            numbers: vec![
                ("P avg", Pressure, r.pressure.avg),
                ("P max", Pressure, r.pressure.max),
                ("P min", Pressure, r.pressure.min),
                ("P zero", Pressure, r.pressure.t_zero),
                ("T sink", Temp, tt.sink),
                ("T chx", Temp, tt.chx),
                ("T regen cold", Temp, tt.regen_cold),
                ("T regen avg", Temp, tt.regen_avg),
                ("T regen hot", Temp, tt.regen_hot),
                ("T hhx", Temp, tt.hhx),
                ("T source", Temp, tt.source),
                ("m chx", Flow, m.chx),
                ("m regen", Flow, m.regen),
                ("m hhx", Flow, m.hhx),
                ("Q input", Heat, q.input),
                ("Q rejection", Heat, q.rejection),
                ("Q chx", Heat, q.chx),
                ("Q regen", Heat, q.regen),
                ("Q hhx", Heat, q.hhx),
                ("W ideal", Power, r.power.ideal_indicated),
                ("W indicated", Power, r.power.indicated),
                ("W shaft", Power, r.power.shaft),
                ("W net", Power, r.power.net),
                ("torque", Torque, r.shaft_torque),
                ("efficiency", Efficiency, r.efficiency.mechanical),
            ],
            scale,
        }
    }
    pub fn number(&self, name: &str) -> f64 {
        self.numbers.iter().find(|n| n.0 == name).unwrap_or_else(|| panic!("no {name}")).2
    }
    pub fn set(&mut self, name: &str, x: f64) {
        self.numbers.iter_mut().find(|n| n.0 == name).unwrap_or_else(|| panic!("no {name}")).2 = x;
    }
    pub fn series(&self, name: &str) -> &Vec<f64> {
        &self.series.iter().find(|n| n.0 == name).unwrap_or_else(|| panic!("no {name}")).2
    }
    pub fn swap(&mut self, a: &str, b: &str) {
        for (x, y) in [(a, b)] {
            if let Some(i) = self.series.iter().position(|n| n.0 == x) {
                let j = self.series.iter().position(|n| n.0 == y).expect("both are series");
                let tmp = std::mem::take(&mut self.series[i].2);
                self.series[i].2 = std::mem::replace(&mut self.series[j].2, tmp);
            } else {
                let (u, v) = (self.number(x), self.number(y));
                self.set(x, v);
                self.set(y, u);
            }
        }
    }
    pub fn negate(&mut self, name: &str) {
        if let Some(s) = self.series.iter_mut().find(|n| n.0 == name) {
            s.2.iter_mut().for_each(|x| *x = -*x);
        } else {
            let x = self.number(name);
            self.set(name, -x);
        }
    }
    fn size(&self, c: Class) -> f64 {
        self.scale[match c {
            Class::Pressure => 0,
            Class::Temp => 1,
            Class::Flow => 2,
            Class::Heat => 3,
            Class::Power => 4,
            Class::Torque => 5,
            Class::Efficiency => unreachable!("efficiencies have no scale"),
        }]
    }
    /// Multiply every value of a class
    pub fn multiply(&mut self, c: Class, by: f64) {
        for (_, class, s) in &mut self.series {
            if *class == c {
                s.iter_mut().for_each(|x| *x *= by);
            }
        }
        for (_, class, x) in &mut self.numbers {
            if *class == c {
                *x *= by;
            }
        }
        if c != Class::Efficiency {
            let i = [Class::Pressure, Class::Temp, Class::Flow, Class::Heat, Class::Power, Class::Torque]
                .iter()
                .position(|x| *x == c)
                .expect("class");
            self.scale[i] *= by;
        }
    }

    /// Fail unless `other` is what is expected here
    ///
    /// `tol` is for pressures and temperatures, and `flows` for everything else, relative to the scale of the
    /// engine; `pairs` are points of `self` and `other` at the same time.
    pub fn agrees(
        &self,
        other: &Flat,
        pairs: Option<&[(usize, usize)]>,
        tol: f64,
        flows: f64,
        averages: bool,
        obs: &mut Obs,
    ) -> Verdict {
        let limit = |c: Class| match c {
            Class::Pressure | Class::Temp => tol * self.size(c),
            _ => flows * self.size(c),
        };
        for ((name, class, a), (_, _, b)) in self.series.iter().zip(&other.series) {
            let all: Vec<(usize, usize)>;
            let pairs = match pairs {
                Some(p) => p,
                None => {
                    if a.len() != b.len() {
                        return Err(format!("{name} has {} points instead of {}", b.len(), a.len()));
                    }
                    all = (0..a.len()).map(|i| (i, i)).collect();
                    &all
                }
            };
            for &(i, j) in pairs {
                let (x, y) = (a[i], b[j]);
                let d = (x - y).abs();
                // Pressures of the spaces have drops that depend on the flows
                let lim = if *name == "P_c" || *name == "P_e" {
                    let drop = (x - self.series("P")[i]).abs();
                    limit(*class) + 10. * flows * drop + flows * self.drop_scale()
                } else {
                    limit(*class)
                };
                obs.max(name, d / lim);
                if !(d <= lim) {
                    return Err(format!(
                        "{name} is {y:e} at point {j} instead of {x:e} at point {i} of the other run (difference {d:e}, allowed {lim:e})"
                    ));
                }
            }
        }
        if !averages {
            return Ok(());
        }
        for ((name, class, x), (_, _, y)) in self.numbers.iter().zip(&other.numbers) {
            let d = (x - y).abs();
            let lim = if *class == Class::Efficiency {
                let (w, q) = (self.number("W net"), self.number("Q input"));
                let (dw, dq) = (flows * self.size(Class::Power), flows * self.size(Class::Heat));
                if q.abs() < 20. * dq {
                    continue;
                }
                2. * (dw + self.drop_power(flows)) / q.abs() + 2. * (w / q).abs() * dq / q.abs()
            } else if matches!(*name, "W indicated" | "W shaft" | "W net" | "Q rejection") {
                limit(*class) + self.drop_power(flows)
            } else if *name == "torque" {
                limit(*class) + self.drop_power(flows) * self.size(Class::Torque) / self.size(Class::Power)
            } else {
                limit(*class)
            };
            obs.max(name, d / lim);
            if !(d <= lim) {
                return Err(format!("{name} is {y:e} instead of {x:e} (difference {d:e}, allowed {lim:e})"));
            }
        }
        Ok(())
    }
    fn drop_scale(&self) -> f64 {
        let (p, pc) = (self.series("P"), self.series("P_c"));
        p.iter().zip(pc).fold(0f64, |m, (a, b)| m.max((a - b).abs()))
    }
    fn drop_power(&self, flows: f64) -> f64 {
        10. * flows * (self.drop_scale() / self.scale[0]) * self.scale[4]
    }
}
